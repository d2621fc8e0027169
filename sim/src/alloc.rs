//! Global allocator of the simulation: counts the bytes the code under test holds, fails on command, perturbs the
//! layout. Every block carries a header in front of it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

use crate::rt;

pub struct SimAlloc;

/// Bytes allocated by the code under test and not yet freed (by anybody).
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
/// Live bytes above which the run is stopped with a verdict.
pub static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
/// Extra padding (multiple of 16) in front of every block: shifts all addresses.
pub static PAD: AtomicUsize = AtomicUsize::new(0);

/// Allocations left until one fails, on this thread (negative: never).
#[thread_local]
pub static mut FAIL_IN: i64 = -1;
/// Once an allocation failed, how many more fail in a row.
#[thread_local]
pub static mut FAIL_RUN: i64 = 0;
/// Allocations that failed on this thread.
#[thread_local]
pub static mut FAILED_HERE: u64 = 0;
/// Allocations made by code under test on this thread.
#[thread_local]
pub static mut COUNT: i64 = 0;

#[inline]
unsafe fn gate() -> bool {
    COUNT += 1;
    if FAIL_IN >= 0 {
        if FAIL_IN == 0 {
            if FAIL_RUN > 0 {
                FAIL_RUN -= 1;
            } else {
                FAIL_IN = -1;
            }
            FAILED.fetch_add(1, Relaxed);
            FAILED_HERE += 1;
            return true;
        }
        FAIL_IN -= 1;
    }
    false
}

/// Blocks of the code under test come from a region of their own, so that their addresses depend on nothing but what
/// the code under test did before in this process.
mod arena {
    const BASE: usize = 0x3000_0000_0000;
    const SIZE: usize = 4 << 30;
    const CLASSES: usize = 256;
    static mut TOP: usize = 0;
    static mut FREE: [*mut u8; CLASSES] = [std::ptr::null_mut(); CLASSES];

    /// 16-byte steps up to 1 KiB, then four classes per power of two.
    fn class(n: usize) -> (usize, usize) {
        if n <= 1024 {
            let c = (n.max(1) + 15) / 16;
            return (c, c * 16);
        }
        let p = usize::BITS as usize - 1 - (n - 1).leading_zeros() as usize; // 2^p <= n-1 < 2^(p+1)
        let q = 1usize << (p - 2);
        let k = (n - (1 << p) + q - 1) / q; // 1..=4
        (64 + (p - 10) * 4 + k, (1 << p) + k * q)
    }
    pub fn usable(n: usize) -> usize {
        class(n).1
    }
    pub unsafe fn init() {
        if TOP == 0 {
            let p = libc::mmap(
                BASE as *mut libc::c_void,
                SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            if p as usize != BASE {
                libc::_exit(71);
            }
            TOP = BASE;
        }
    }
    pub unsafe fn take(n: usize) -> *mut u8 {
        let (c, sz) = class(n);
        let f = FREE[c];
        if !f.is_null() {
            FREE[c] = *(f as *mut *mut u8);
            return f;
        }
        if TOP == 0 {
            init();
        }
        if TOP + sz > BASE + SIZE {
            return std::ptr::null_mut();
        }
        let p = TOP as *mut u8;
        TOP += sz;
        p
    }
    pub unsafe fn give(p: *mut u8, n: usize) {
        let (c, _) = class(n);
        *(p as *mut *mut u8) = FREE[c];
        FREE[c] = p;
    }
}
pub fn init() {
    unsafe { arena::init() }
}
/// Takes blocks of the given sizes out of the region and gives every third back.
pub fn junk(sizes: &[usize]) {
    unsafe {
        let v: Vec<*mut u8> = sizes.iter().map(|n| arena::take(*n)).collect();
        for (i, p) in v.iter().enumerate() {
            if i % 3 == 0 && !p.is_null() {
                arena::give(*p, sizes[i]);
            }
        }
    }
}

fn grown(by: i64) {
    let v = LIVE.fetch_add(by, Relaxed) + by;
    if v > LIMIT.load(Relaxed) {
        LIMIT.store(i64::MAX, Relaxed);
        rt::fatal("memory", "live heap exceeds the limit of the run");
    }
}

/// Header in front of every block: distance to its beginning, total size taken from the region (0: not from it).
unsafe fn mark(u: *mut u8, pad: usize, total: usize) {
    *(u.sub(16) as *mut u64) = pad as u64;
    *(u.sub(8) as *mut u64) = total as u64;
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let counted = rt::active() && rt::HARN == 0;
        let al = l.align().max(16);
        if counted {
            if gate() {
                return std::ptr::null_mut();
            }
            let lead = 16 + PAD.load(Relaxed);
            let total = l.size() + lead + if al > 16 { al } else { 0 };
            let p = arena::take(total);
            if p.is_null() {
                return p;
            }
            grown(l.size() as i64);
            let u = (p as usize + lead + al - 1 & !(al - 1)) as *mut u8;
            mark(u, u as usize - p as usize, total);
            return u;
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + al, al));
        if p.is_null() {
            return p;
        }
        let u = p.add(al);
        mark(u, al, 0);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let pad = *(u.sub(16) as *mut u64) as usize;
        let total = *(u.sub(8) as *mut u64) as usize;
        if total > 0 {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            arena::give(u.sub(pad), total);
            return;
        }
        System.dealloc(u.sub(pad), Layout::from_size_align_unchecked(l.size() + pad, l.align().max(16)))
    }
    unsafe fn realloc(&self, u: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if rt::active() && rt::HARN == 0 && gate() {
            return std::ptr::null_mut();
        }
        let pad = *(u.sub(16) as *mut u64) as usize;
        let total = *(u.sub(8) as *mut u64) as usize;
        let al = l.align().max(16);
        if total > 0 {
            let more = total - l.size() + n;
            if arena::usable(more) == arena::usable(total) {
                mark(u, pad, more);
                grown(n as i64 - l.size() as i64);
                return u;
            }
            let p = arena::take(more);
            if p.is_null() {
                return p;
            }
            let lead = if al > 16 { total - l.size() - al } else { total - l.size() };
            let v = (p as usize + lead + al - 1 & !(al - 1)) as *mut u8;
            std::ptr::copy_nonoverlapping(u, v, n.min(l.size()));
            mark(v, v as usize - p as usize, more);
            arena::give(u.sub(pad), total);
            grown(n as i64 - l.size() as i64);
            return v;
        }
        let p = System.realloc(u.sub(pad), Layout::from_size_align_unchecked(l.size() + pad, al), n + pad);
        if p.is_null() {
            return p;
        }
        p.add(pad)
    }
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// Panic payload of an injected allocation failure.
pub struct Injected;

pub fn install_hook() {
    std::alloc::set_alloc_error_hook(|_| std::panic::panic_any(Injected));
}
