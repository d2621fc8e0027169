//! Replacements for the libc functions through which the code under test could meet nondeterminism: files,
//! directories, clocks, sleeping, randomness, futexes. Calls that are not the simulation's business go to libc.
#![allow(static_mut_refs)]
use std::ffi::CStr;

use libc::{c_char, c_int, c_long, c_void, mode_t, size_t, ssize_t};

use crate::rng::Rng;
use crate::rt::{self, HarnGuard};
use crate::vfs::{self, norm, v};

pub static mut RAND: Option<Rng> = None;
pub static mut RAND_CALLS: u64 = 0;
pub static mut CLOCK_CALLS: u64 = 0;

macro_rules! real {
    ($name:expr, fn($($t:ty),*) -> $r:ty) => {{
        static mut P: usize = 0;
        if P == 0 {
            P = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(P)
    }};
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// Is a path the simulation's business? All paths are while code under test runs; the simulated root always is.
enum Where {
    Sim(String),
    Outside(String),
    Real,
}
unsafe fn place(p: *const c_char) -> Where {
    if p.is_null() {
        return Where::Real;
    }
    let b = CStr::from_ptr(p);
    let act = rt::active();
    let starts = b.to_bytes().starts_with(b"/simfs");
    if !act && !starts && !b.to_str().is_ok_and(of_platform) {
        return Where::Real;
    }
    let _g = HarnGuard::new();
    let t = vfs::from_bytes(b.to_bytes());
    match norm(&t) {
        Some(n) => Where::Sim(n),
        None => Where::Outside(t),
    }
}
unsafe fn outside(op: &str, p: String) -> i64 {
    if of_platform(&p) {
        return -libc::ENOENT as i64;
    }
    let v = v();
    v.outside.push(format!("{op} {p}"));
    -libc::ENOENT as i64
}
/// Files the standard library looks at to count processors: nothing may depend on what this machine has.
fn of_platform(p: &str) -> bool {
    p == "/proc/self/cgroup" || p.starts_with("/sys/fs/cgroup") || p.starts_with("/sys/devices/system/cpu")
}
/// The processors of the simulated machine.
const CPUS: usize = 8;
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if set.is_null() || n < 8 {
        set_errno(libc::EINVAL);
        return -1;
    }
    std::ptr::write_bytes(set as *mut u8, 0, n);
    *(set as *mut u64) = (1 << CPUS) - 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF {
        return CPUS as c_long;
    }
    real!("sysconf", fn(c_int) -> c_long)(name)
}
/// The processors there really are, for the orchestrator.
pub fn real_cpus() -> usize {
    let mut set = [0u64; 16];
    let n = unsafe {
        let mut r: i64 = libc::SYS_sched_getaffinity;
        std::arch::asm!("syscall", inlateout("rax") r, in("rdi") 0i64, in("rsi") std::mem::size_of_val(&set) as i64,
            in("rdx") set.as_mut_ptr() as i64, out("rcx") _, out("r11") _);
        r
    };
    if n <= 0 {
        return 4;
    }
    set.iter().map(|w| w.count_ones() as usize).sum::<usize>().max(1)
}

/// path relative to a simulated directory descriptor
unsafe fn at(fd: c_int, p: *const c_char) -> Where {
    if fd >= vfs::FD_BASE {
        let _g = HarnGuard::new();
        let b = vfs::from_bytes(CStr::from_ptr(p).to_bytes());
        if b.starts_with('/') {
            return match norm(&b) {
                Some(n) => Where::Sim(n),
                None => Where::Outside(b),
            };
        }
        let base = v().fd_path(fd).unwrap_or_default();
        return if b.is_empty() { Where::Sim(base) } else { Where::Sim(format!("{base}/{b}")) };
    }
    place(p)
}

// ------------------------------------------------------------------ files

unsafe fn do_open(w: Where, flags: c_int, real: impl FnOnce() -> i64) -> c_int {
    match w {
        Where::Real => real() as c_int,
        Where::Sim(p) => {
            rt::point();
            let _g = HarnGuard::new();
            ret(v().open(&p, flags)) as c_int
        }
        Where::Outside(p) => {
            rt::point();
            let _g = HarnGuard::new();
            let wr = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
            if wr {
                ret(v().mutate("open for writing", &p)) as c_int
            } else {
                ret(outside("open", p)) as c_int
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: mode_t) -> c_int {
    do_open(place(p), f, || real!("open64", fn(*const c_char, c_int, mode_t) -> c_int)(p, f, m) as i64)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: mode_t) -> c_int {
    do_open(place(p), f, || real!("open", fn(*const c_char, c_int, mode_t) -> c_int)(p, f, m) as i64)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int {
    do_open(at(d, p), f, || real!("openat64", fn(c_int, *const c_char, c_int, mode_t) -> c_int)(d, p, f, m) as i64)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int {
    do_open(at(d, p), f, || real!("openat", fn(c_int, *const c_char, c_int, mode_t) -> c_int)(d, p, f, m) as i64)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if fd >= vfs::FD_BASE {
        rt::point();
        let _g = HarnGuard::new();
        return ret(v().read(fd, b as *mut u8, n, None)) as ssize_t;
    }
    real!("read", fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if fd >= vfs::FD_BASE {
        rt::point();
        let _g = HarnGuard::new();
        for i in 0..n {
            let x = &*iov.add(i as usize);
            if x.iov_len > 0 {
                return ret(v().read(fd, x.iov_base as *mut u8, x.iov_len, None)) as ssize_t;
            }
        }
        return 0;
    }
    real!("readv", fn(c_int, *const libc::iovec, c_int) -> ssize_t)(fd, iov, n)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if fd >= vfs::FD_BASE {
        rt::point();
        let _g = HarnGuard::new();
        return ret(v().read(fd, b as *mut u8, n, Some(off as usize))) as ssize_t;
    }
    real!("pread64", fn(c_int, *mut c_void, size_t, i64) -> ssize_t)(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if fd >= vfs::FD_BASE {
        let _g = HarnGuard::new();
        return ret(v().mutate("write", "to a descriptor")) as ssize_t;
    }
    real!("write", fn(c_int, *const c_void, size_t) -> ssize_t)(fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    if fd >= vfs::FD_BASE {
        let _g = HarnGuard::new();
        return ret(v().lseek(fd, o, w));
    }
    real!("lseek64", fn(c_int, i64, c_int) -> i64)(fd, o, w)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= vfs::FD_BASE {
        rt::point();
        let _g = HarnGuard::new();
        return ret(v().close(fd)) as c_int;
    }
    real!("close", fn(c_int) -> c_int)(fd)
}
unsafe fn do_fcntl(fd: c_int, op: c_int, real: impl FnOnce() -> i64) -> c_int {
    if fd >= vfs::FD_BASE {
        let _g = HarnGuard::new();
        return ret(match op {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => v().dup(fd),
            _ if v().fd_path(fd).is_none() => -libc::EBADF as i64,
            libc::F_GETFD => libc::FD_CLOEXEC as i64,
            _ => 0,
        }) as c_int;
    }
    real() as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, op: c_int, x: c_long) -> c_int {
    do_fcntl(fd, op, || real!("fcntl", fn(c_int, c_int, c_long) -> c_int)(fd, op, x) as i64)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, op: c_int, x: c_long) -> c_int {
    do_fcntl(fd, op, || real!("fcntl64", fn(c_int, c_int, c_long) -> c_int)(fd, op, x) as i64)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, o: i64, n: i64, a: c_int) -> c_int {
    if fd >= vfs::FD_BASE {
        return 0;
    }
    real!("posix_fadvise64", fn(c_int, i64, i64, c_int) -> c_int)(fd, o, n, a)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if fd >= vfs::FD_BASE {
        let _g = HarnGuard::new();
        v().mutations.push("flock".into());
        return 0;
    }
    real!("flock", fn(c_int, c_int) -> c_int)(fd, op)
}

unsafe fn fill_stat(st: *mut libc::stat64, r: (u32, u64, u64, i64)) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = r.0;
    (*st).st_size = r.1 as i64;
    (*st).st_ino = r.2;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_mtime = r.3;
    (*st).st_ctime = r.3;
    (*st).st_atime = r.3;
}
unsafe fn do_stat(w: Where, follow: bool, st: *mut libc::stat64, real: impl FnOnce() -> c_int) -> c_int {
    match w {
        Where::Real => real(),
        Where::Sim(p) => {
            rt::point();
            let _g = HarnGuard::new();
            match v().stat(&p, follow) {
                Ok(r) => {
                    fill_stat(st, r);
                    0
                }
                Err(e) => ret(-e as i64) as c_int,
            }
        }
        Where::Outside(p) => {
            let _g = HarnGuard::new();
            ret(outside("stat", p)) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(place(p), true, st, || real!("stat64", fn(*const c_char, *mut libc::stat64) -> c_int)(p, st))
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(place(p), false, st, || real!("lstat64", fn(*const c_char, *mut libc::stat64) -> c_int)(p, st))
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if fd >= vfs::FD_BASE {
        let _g = HarnGuard::new();
        let p = v().fd_path(fd).unwrap_or_default();
        return do_stat(Where::Sim(p), true, st, || -1);
    }
    real!("fstat64", fn(c_int, *mut libc::stat64) -> c_int)(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, f: c_int) -> c_int {
    do_stat(at(d, p), f & libc::AT_SYMLINK_NOFOLLOW == 0, st, || {
        real!("fstatat64", fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int)(d, p, st, f)
    })
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    let w = if p.is_null() { Where::Real } else { at(d, p) };
    let mut tmp: libc::stat64 = std::mem::zeroed();
    match w {
        Where::Real => {
            real!("statx", fn(c_int, *const c_char, c_int, u32, *mut libc::statx) -> c_int)(d, p, f, mask, st)
        }
        w => {
            let r = do_stat(w, f & libc::AT_SYMLINK_NOFOLLOW == 0, &mut tmp, || -1);
            if r == 0 {
                std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*st).stx_mask = 0x7ff;
                (*st).stx_mode = tmp.st_mode as u16;
                (*st).stx_size = tmp.st_size as u64;
                (*st).stx_ino = tmp.st_ino;
                (*st).stx_nlink = 1;
                (*st).stx_blksize = 4096;
                (*st).stx_mtime.tv_sec = tmp.st_mtime;
                (*st).stx_ctime.tv_sec = tmp.st_mtime;
                (*st).stx_atime.tv_sec = tmp.st_mtime;
            }
            r
        }
    }
}
unsafe fn do_access(w: Where, real: impl FnOnce() -> c_int) -> c_int {
    let mut tmp: libc::stat64 = std::mem::zeroed();
    match w {
        Where::Real => real(),
        w => do_stat(w, true, &mut tmp, || -1),
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    do_access(place(p), || real!("access", fn(*const c_char, c_int) -> c_int)(p, m))
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    do_access(at(d, p), || real!("faccessat", fn(c_int, *const c_char, c_int, c_int) -> c_int)(d, p, m, f))
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    match place(p) {
        Where::Real => real!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(p, out),
        Where::Sim(n) => {
            let mut tmp: libc::stat64 = std::mem::zeroed();
            if do_stat(Where::Sim(n.clone()), true, &mut tmp, || -1) != 0 {
                return std::ptr::null_mut();
            }
            let _g = HarnGuard::new();
            let mut full = vfs::to_bytes(&format!("{}/{}", vfs::ROOT, n));
            full.push(0);
            let o = if out.is_null() { libc::malloc(full.len()) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(full.as_ptr() as *const c_char, o, full.len());
            o
        }
        Where::Outside(p) => {
            let _g = HarnGuard::new();
            ret(outside("realpath", p));
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    match place(p) {
        Where::Real => real!("readlink", fn(*const c_char, *mut c_char, size_t) -> ssize_t)(p, b, n),
        _ => {
            set_errno(libc::EINVAL);
            -1
        }
    }
}

// ------------------------------------------------------------------ directories

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    match place(p) {
        Where::Real => real!("opendir", fn(*const c_char) -> *mut c_void)(p),
        Where::Sim(n) => {
            rt::point();
            let _g = HarnGuard::new();
            match v().opendir(&n, None) {
                Ok(h) => h as *mut c_void,
                Err(e) => {
                    set_errno(e);
                    std::ptr::null_mut()
                }
            }
        }
        Where::Outside(p) => {
            let _g = HarnGuard::new();
            ret(outside("opendir", p));
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if fd >= vfs::FD_BASE {
        let _g = HarnGuard::new();
        let p = v().fd_path(fd).unwrap_or_default();
        return match v().opendir(&p, Some(fd)) {
            Ok(h) => h as *mut c_void,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    real!("fdopendir", fn(c_int) -> *mut c_void)(fd)
}
unsafe fn is_sim_dir(d: *mut c_void) -> bool {
    vfs::V.is_some() && v().is_dirp(d as usize)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if is_sim_dir(d) {
        rt::point();
        let _g = HarnGuard::new();
        return match v().readdir(d as usize) {
            Ok(e) => e,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    real!("readdir64", fn(*mut c_void) -> *mut libc::dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if is_sim_dir(d) {
        return v().dirfd(d as usize);
    }
    real!("dirfd", fn(*mut c_void) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if is_sim_dir(d) {
        rt::point();
        let _g = HarnGuard::new();
        return ret(v().closedir(d as usize)) as c_int;
    }
    real!("closedir", fn(*mut c_void) -> c_int)(d)
}

// ------------------------------------------------------------------ calls that modify storage

macro_rules! mutating {
    ($($n:ident ( $($a:ident : $t:ty),* ) path $p:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) -> c_int {
            match place($p) {
                Where::Real => real!(stringify!($n), fn($($t),*) -> c_int)($($a),*),
                Where::Sim(x) | Where::Outside(x) => { let _g = HarnGuard::new(); ret(v().mutate(stringify!($n), &x)) as c_int }
            }
        } )* };
}
mutating! {
    mkdir(p: *const c_char, m: mode_t) path p;
    rmdir(p: *const c_char) path p;
    unlink(p: *const c_char) path p;
    rename(p: *const c_char, q: *const c_char) path p;
    link(p: *const c_char, q: *const c_char) path q;
    symlink(p: *const c_char, q: *const c_char) path q;
    chmod(p: *const c_char, m: mode_t) path p;
    truncate64(p: *const c_char, n: i64) path p;
}
macro_rules! mutating_at {
    ($($n:ident ( $($a:ident : $t:ty),* ) at $d:ident $p:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) -> c_int {
            match at($d, $p) {
                Where::Real => real!(stringify!($n), fn($($t),*) -> c_int)($($a),*),
                Where::Sim(x) | Where::Outside(x) => { let _g = HarnGuard::new(); ret(v().mutate(stringify!($n), &x)) as c_int }
            }
        } )* };
}
mutating_at! {
    unlinkat(d: c_int, p: *const c_char, f: c_int) at d p;
    linkat(d: c_int, p: *const c_char, e: c_int, q: *const c_char, f: c_int) at d p;
    mkdirat(d: c_int, p: *const c_char, m: mode_t) at d p;
    renameat(d: c_int, p: *const c_char, e: c_int, q: *const c_char) at d p;
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if fd >= vfs::FD_BASE {
        let _g = HarnGuard::new();
        return ret(v().mutate("ftruncate", "descriptor")) as c_int;
    }
    real!("ftruncate64", fn(c_int, i64) -> c_int)(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if rt::active() {
        let _g = HarnGuard::new();
        v().mutations.push("chdir".into());
        return 0;
    }
    real!("chdir", fn(*const c_char) -> c_int)(p)
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if rt::active() && !b.is_null() {
        if n < 7 {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c"/simfs".as_ptr(), b, 7);
        return b;
    }
    real!("getcwd", fn(*mut c_char, size_t) -> *mut c_char)(b, n)
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, x: *mut c_void) -> c_int {
    let real = real!("pthread_create", fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int);
    if rt::active() && rt::HARN == 0 {
        return rt::spawn_child(f, x, |f, x| real(t, a, f, x));
    }
    real(t, a, f, x)
}

// ------------------------------------------------------------------ time and randomness

unsafe fn simulated() -> bool {
    rt::TID >= 0 || rt::active()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    if simulated() {
        CLOCK_CALLS += 1;
        rt::CLOCK_ADD += 1_000;
        let n = rt::now_ns();
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    real!("clock_gettime", fn(c_int, *mut libc::timespec) -> c_int)(c, t)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if rt::TID >= 0 {
        let d = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        rt::futex_wait(0, Some(rt::now_ns() + d));
        return 0;
    }
    if rt::active() {
        rt::CLOCK_ADD += ((*t).tv_sec as i64) * 1_000_000_000 + (*t).tv_nsec as i64;
        return 0;
    }
    real!("nanosleep", fn(*const libc::timespec, *mut libc::timespec) -> c_int)(t, rem)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if rt::TID >= 0 || rt::active() {
        let d = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        let until = if f & libc::TIMER_ABSTIME != 0 { d } else { rt::now_ns() + d };
        if rt::TID >= 0 {
            rt::futex_wait(0, Some(until));
        } else {
            rt::CLOCK_ADD += until as i64 - rt::now_ns() as i64;
        }
        return 0;
    }
    real!("clock_nanosleep", fn(c_int, c_int, *const libc::timespec, *mut libc::timespec) -> c_int)(c, f, t, rem)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: u32) -> ssize_t {
    if simulated() {
        RAND_CALLS += 1;
        let r = RAND.get_or_insert_with(|| Rng::new(1));
        for i in 0..n {
            *(b as *mut u8).add(i) = r.next() as u8;
        }
        return n as ssize_t;
    }
    // nothing in this process may depend on chance
    let _ = f;
    static mut FIXED: u64 = 1;
    for i in 0..n {
        FIXED = crate::rng::mix(FIXED);
        *(b as *mut u8).add(i) = FIXED as u8;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if rt::TID >= 0 {
        rt::yield_now();
        return 0;
    }
    real!("sched_yield", fn() -> c_int)()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if simulated() {
        return 4242;
    }
    real!("getpid", fn() -> libc::pid_t)()
}

// ------------------------------------------------------------------ raw system calls (std's futex, among others)

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if n == libc::SYS_futex && rt::TID >= 0 {
        let op = (b as i32) & 0x7f;
        match op {
            0 | 9 => {
                // WAIT, WAIT_BITSET
                let cur = *(a as *const u32);
                if cur != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                let deadline = if d == 0 {
                    None
                } else {
                    let t = &*(d as *const libc::timespec);
                    let v = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
                    Some(if op == 9 { v } else { rt::now_ns() + v })
                };
                if rt::futex_wait(a as usize, deadline) {
                    return 0;
                }
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            1 | 10 => return rt::futex_wake(a as usize, c as u32) as c_long,
            _ => {}
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    if rt::active() && n == libc::SYS_gettid {
        return 4242 + rt::TID as c_long;
    }
    let mut r: i64 = n;
    std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        in("r9") f, out("rcx") _, out("r11") _);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
