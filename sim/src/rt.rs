//! Core of the simulator: instrumentation callbacks, the token scheduler, virtual time.
//!
//! Exactly one simulated thread runs at a time (it holds the token). Every basic block, load and store of the
//! instrumented code under test is a step; a step may be a preemption point. Who runs next is decided by a PRNG
//! (explore) or by an explicit list of switches (replay).
#![allow(static_mut_refs)]
use std::sync::atomic::{AtomicU32, Ordering};

use serde::{Deserialize, Serialize};

use crate::rng::Rng;

/// Countdown to the next scheduler decision of this thread; huge while no code under test runs on it.
#[thread_local]
pub static mut CD: i64 = i64::MAX;
/// Simulated thread id, -1 outside the simulation.
#[thread_local]
pub static mut TID: i32 = -1;
/// >0 while simulator code runs on this thread (allocations not counted, not failed).
#[thread_local]
pub static mut HARN: u32 = 0;
#[thread_local]
static mut STACK: (usize, usize) = (0, 0);

const ACTIVE_BOUND: i64 = 1 << 42;
pub const MAXT: usize = 72;
const EDGES: usize = 1 << 17;
const TBL: usize = 1 << 15;

pub struct HarnGuard;
impl HarnGuard {
    pub fn new() -> Self {
        unsafe { HARN += 1 };
        HarnGuard
    }
}
impl Drop for HarnGuard {
    fn drop(&mut self) {
        unsafe { HARN -= 1 };
    }
}

#[inline]
pub fn active() -> bool {
    unsafe { CD < ACTIVE_BOUND }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    New,
    Ready,
    Blocked,
    Sleeping,
    Stalled,
    Done,
    Exited,
}

pub struct Thr {
    pub st: St,
    park: AtomicU32,
    /// steps finished before the current slice
    base: u64,
    slice: i64,
    /// countdown saved while inactive
    saved: i64,
    waddr: usize,
    deadline: Option<u64>,
    timed_out: bool,
    forced: u32,
    pub stall_at: Option<u64>,
    /// kept off until this step (of all threads together) while others can run
    hold: u64,
    /// replay: preemptive switches left, in step order
    rp: Vec<(u64, u8)>,
    rp_pos: usize,
    pub ops_done: u32,
}

/// One recorded switch. `step` is the number of steps the thread had made; forced switches (block, end) carry their
/// ordinal instead.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Switch {
    pub tid: u8,
    pub step: u64,
    pub next: u8,
    pub forced: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SchedPlan {
    /// PRNG-driven exploration.
    Explore {
        seed: u64,
        /// mean slice length (steps); 0: run threads to completion one after the other
        mean: u64,
        /// a window of fine-grained switching: every ~`fine` steps, for `fine_len` steps, starting at total step `fine_at`
        fine: u64,
        fine_at: u64,
        fine_len: u64,
        /// chance (of 64) to preempt before touching memory another thread has written or reads what this one writes
        conflict: u32,
        /// chance (of 64) to preempt in code executed for the first time
        newedge: u32,
        /// how many executions of a block count as first ones
        #[serde(default)]
        rare: u8,
        /// chance (of 64) that a thread which is preempted stays off for long (while others can run)
        #[serde(default)]
        starve: u32,
    },
    /// Explicit switches (replay, minimisation).
    Explicit { switches: Vec<Switch> },
}

pub struct Sched {
    pub on: bool,
    pub thr: Vec<Thr>,
    pub cur: usize,
    main_park: AtomicU32,
    plan: SchedPlan,
    rng: Rng,
    explore: bool,
    pub log: Vec<Switch>,
    pub total: u64,
    pub cap: u64,
    pub forced_map: Vec<Switch>,
    pub preempts: u64,
    pub conflicts: u64,
    pub newedges: u64,
    pub blocks: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub yields: u64,
    conflict: u32,
    newedge: u32,
    starve: u32,
    pub site_hash: u64,
    /// Some threads may legitimately never finish (they are stalled by plan).
    pub stalled: u32,
}

#[derive(Clone, Copy)]
struct Cell {
    addr: usize,
    owner: u8,
    wrote: bool,
    shared: bool,
}

pub static mut S: Option<Box<Sched>> = None;
static mut EDGE: [u8; EDGES] = [0; EDGES];
/// Executions of a block in this phase, up to RARE.
static mut HITS: [u8; EDGES] = [0; EDGES];
static mut RARE: u8 = 0;
/// Blocks reached by any run of any worker (shared mapping), if the orchestrator made one.
pub static mut SHARED_EDGE: *mut u8 = std::ptr::null_mut();
pub static mut EDGE_COUNT: u32 = 0;
pub static mut GUARDS: u32 = 0;
static mut CELLS: *mut Cell = std::ptr::null_mut();
static mut CELL_USED: usize = 0;
/// Virtual clock: nanoseconds added to the step-driven time (jumps, sleeps, I/O latency).
pub static mut CLOCK_ADD: i64 = 0;
pub static mut CLOCK_BASE: u64 = 1_700_000_000_000_000_000;
pub static mut OUT_STEPS: u64 = 0;
/// Called with a verdict from which the process cannot continue. Must not return.
pub static mut ON_FATAL: Option<fn(&str, &str) -> !> = None;
/// step cap of code run outside the scheduler
pub static mut SOLO_CAP: i64 = 4_000_000_000;
pub static mut SOLO_STEPS: u64 = 0;

pub fn fatal(kind: &str, detail: &str) -> ! {
    unsafe {
        HARN += 1;
        CD = i64::MAX;
        if let Some(f) = ON_FATAL {
            f(kind, detail)
        }
        libc::_exit(70)
    }
}

pub fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}

pub fn in_sim_thread() -> bool {
    sched_on()
}

fn sched_on() -> bool {
    unsafe { S.is_some() && TID >= 0 }
}

// ---------------------------------------------------------------- instrumentation callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, end: *mut u32) {
    let mut p = start;
    if p == end || *p != 0 {
        return;
    }
    while p < end {
        GUARDS += 1;
        *p = GUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    CD -= 1;
    if CD < ACTIVE_BOUND {
        let i = *g as usize & (EDGES - 1);
        if EDGE[i] == 0 {
            EDGE[i] = 1;
            EDGE_COUNT += 1;
            if !SHARED_EDGE.is_null() {
                *SHARED_EDGE.add(i) = 1;
            }
        }
        if HITS[i] < RARE && TID >= 0 {
            HITS[i] += 1;
            new_edge();
        }
        if CD <= 0 {
            slow(i);
        }
    }
}

macro_rules! mem_cb {
    ($($n:ident $w:expr),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $n(a: *const u8) {
            CD -= 1;
            if CD < ACTIVE_BOUND {
                if CONFLICT_ON && TID >= 0 { touch(a as usize, $w); }
                if CD <= 0 { slow(0); }
            }
        } )* };
}
static mut CONFLICT_ON: bool = false;
mem_cb!(
    __sanitizer_cov_load1 false, __sanitizer_cov_load2 false, __sanitizer_cov_load4 false,
    __sanitizer_cov_load8 false, __sanitizer_cov_load16 false,
    __sanitizer_cov_store1 true, __sanitizer_cov_store2 true, __sanitizer_cov_store4 true,
    __sanitizer_cov_store8 true, __sanitizer_cov_store16 true
);

#[cold]
unsafe fn new_edge() {
    if S.is_none() {
        return;
    }
    let s = s();
    s.newedges += 1;
    if s.explore && s.newedge > 0 && s.rng.chance(s.newedge, 64) {
        force_now();
    }
}

#[inline(never)]
unsafe fn touch(a: usize, w: bool) {
    if a >= STACK.0 && a < STACK.1 {
        return;
    }
    let key = a & !7;
    let mut i = (key >> 3).wrapping_mul(0x9E3779B1) & (TBL - 1);
    loop {
        let c = &mut *CELLS.add(i);
        if c.addr == 0 {
            // what nobody has written yet is of no interest
            if !w || CELL_USED > TBL * 3 / 4 {
                return;
            }
            CELL_USED += 1;
            *c = Cell { addr: key, owner: TID as u8, wrote: w, shared: false };
            return;
        }
        if c.addr == key {
            if c.owner != TID as u8 && (w || c.wrote) {
                c.shared = true;
            }
            c.wrote |= w;
            c.owner = TID as u8;
            if c.shared {
                let s = s();
                s.conflicts += 1;
                if s.explore && s.rng.chance(s.conflict, 64) {
                    force_now();
                }
            }
            return;
        }
        i = (i + 1) & (TBL - 1);
    }
}

// ---------------------------------------------------------------- running code under test

struct LibGuard {
    prev: i64,
    solo: bool,
}
impl Drop for LibGuard {
    fn drop(&mut self) {
        unsafe {
            if self.solo {
                SOLO_STEPS += (SOLO_CAP - CD).max(0) as u64;
            } else if let Some(s) = S.as_mut() {
                s.thr[TID as usize].saved = CD;
            }
            CD = self.prev;
        }
    }
}

/// Runs `f`, code under test, with the instrumentation active on this thread.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let prev = CD;
        let g = if sched_on() {
            CD = s().thr[TID as usize].saved;
            LibGuard { prev, solo: false }
        } else {
            CD = SOLO_CAP;
            LibGuard { prev, solo: true }
        };
        let r = f();
        drop(g);
        r
    }
}

/// Forgets which blocks this process has executed.
pub fn reset_edges() {
    unsafe {
        let n = (GUARDS as usize + 1).min(EDGES);
        std::ptr::write_bytes(std::ptr::addr_of_mut!(EDGE) as *mut u8, 0, n);
        EDGE_COUNT = 0;
    }
}
pub fn make_shared_edges() {
    unsafe {
        SHARED_EDGE = libc::mmap(
            std::ptr::null_mut(),
            EDGES,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u8;
    }
}
pub fn shared_edge_count() -> u64 {
    unsafe {
        if SHARED_EDGE.is_null() {
            return 0;
        }
        (0..EDGES).filter(|&i| *SHARED_EDGE.add(i) != 0).count() as u64
    }
}

/// A scheduling point outside instrumented code (system calls, operation boundaries).
pub fn point() {
    unsafe {
        if !sched_on() {
            return;
        }
        let act = active();
        if !act {
            CD = s().thr[TID as usize].saved;
        }
        CD -= 1;
        if CD <= 0 {
            slow(1);
        }
        if !act {
            s().thr[TID as usize].saved = CD;
            CD = i64::MAX;
        }
    }
}

pub fn cur_steps() -> u64 {
    unsafe {
        if !sched_on() {
            return 0;
        }
        let t = &s().thr[TID as usize];
        let cd = if active() { CD } else { t.saved };
        t.base + (t.slice - cd).max(0) as u64
    }
}

pub fn now_ns() -> u64 {
    unsafe {
        let steps = if S.is_some() { s().total } else { SOLO_STEPS };
        (CLOCK_BASE as i64 + (steps as i64) * 100 + CLOCK_ADD) as u64
    }
}

// ---------------------------------------------------------------- scheduler

fn futex(addr: &AtomicU32, op: i32, val: u32) {
    unsafe {
        let mut _r: i64 = libc::SYS_futex;
        std::arch::asm!("syscall", inlateout("rax") _r, in("rdi") addr as *const _ as usize, in("rsi") op as i64,
            in("rdx") val as i64, in("r10") 0i64, in("r8") 0i64, in("r9") 0i64, out("rcx") _, out("r11") _);
    }
}
fn unpark(p: &AtomicU32) {
    p.store(1, Ordering::Release);
    futex(p, 1 | 128, 1);
}
fn wait_park(p: &AtomicU32) {
    loop {
        if p.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        futex(p, 128, 0);
    }
}

impl Sched {
    fn end_slice(&mut self, tid: usize) {
        let t = &mut self.thr[tid];
        let cd = unsafe { if active() { CD } else { t.saved } };
        let used = (t.slice - cd).max(0) as u64;
        t.base += used;
        self.total += used;
        t.slice = 0;
        t.saved = 0;
    }

    fn ready_others(&self, tid: usize) -> ([u8; MAXT], usize) {
        let mut r = [0u8; MAXT];
        let mut n = 0;
        for (i, t) in self.thr.iter().enumerate() {
            if i != tid && t.st == St::Ready && t.hold <= self.total {
                r[n] = i as u8;
                n += 1;
            }
        }
        (r, n)
    }

    /// Lets the threads go that are kept off. Returns whether there were any that could run.
    fn release(&mut self) -> bool {
        let mut any = false;
        for t in &mut self.thr {
            any |= t.hold > self.total && t.st == St::Ready;
            t.hold = 0;
        }
        any
    }

    /// Length of the next slice of `tid`.
    fn slice_for(&mut self, tid: usize) -> i64 {
        let total = self.total;
        let mut n: i64 = match &self.plan {
            SchedPlan::Explore { mean, fine, fine_at, fine_len, .. } => {
                let fine_now = *fine > 0 && total >= *fine_at && total < fine_at + fine_len;
                let m = if fine_now { *fine } else { *mean };
                if m == 0 {
                    300_000
                } else {
                    let mut d = 1 + self.rng.below((2 * m) as usize) as i64;
                    if *fine > 0 && total < *fine_at {
                        d = d.min((*fine_at - total) as i64 + 1);
                    }
                    d
                }
            }
            SchedPlan::Explicit { .. } => {
                let t = &mut self.thr[tid];
                while t.rp_pos < t.rp.len() && t.rp[t.rp_pos].0 <= t.base {
                    t.rp_pos += 1;
                }
                if t.rp_pos < t.rp.len() {
                    (t.rp[t.rp_pos].0 - t.base) as i64
                } else {
                    300_000
                }
            }
        };
        if let Some(at) = self.thr[tid].stall_at {
            let base = self.thr[tid].base;
            if at > base {
                n = n.min((at - base) as i64);
            } else {
                n = 1;
            }
        }
        n.max(1)
    }

    fn set_slice(&mut self, tid: usize) {
        let n = self.slice_for(tid);
        let t = &mut self.thr[tid];
        t.slice = n;
        t.saved = n;
        unsafe {
            if TID == tid as i32 && active() {
                CD = n;
            }
        }
    }

    /// Who runs when `tid` cannot (blocked, done) — forced choice.
    fn pick_forced(&mut self, tid: usize) -> Option<usize> {
        loop {
            let (r, n) = self.ready_others(tid);
            if n == 0 && self.release() {
                continue;
            }
            if n == 0 {
                // advance the clock to the earliest sleeper
                let mut best: Option<(u64, usize)> = None;
                for (i, t) in self.thr.iter().enumerate() {
                    if matches!(t.st, St::Blocked | St::Sleeping) {
                        if let Some(d) = t.deadline {
                            if best.map_or(true, |b| d < b.0) {
                                best = Some((d, i));
                            }
                        }
                    }
                }
                let (d, i) = best?;
                let now = now_ns();
                if d > now {
                    unsafe { CLOCK_ADD += (d - now) as i64 };
                }
                let t = &mut self.thr[i];
                t.timed_out = true;
                t.deadline = None;
                t.st = St::Ready;
                if i == tid {
                    return Some(i);
                }
                continue;
            }
            let ord = self.thr[tid].forced;
            self.thr[tid].forced += 1;
            let next = if self.explore {
                let p = self.rng.below(n);
                r[p]
            } else {
                let mut f = r[0];
                for w in &self.forced_map {
                    if w.tid as usize == tid && w.step == ord as u64 && r[..n].contains(&w.next) {
                        f = w.next;
                    }
                }
                f
            };
            self.push_log(Switch { tid: tid as u8, step: ord as u64, next, forced: true });
            return Some(next as usize);
        }
    }

    fn push_log(&mut self, w: Switch) {
        let _g = HarnGuard::new();
        self.site_hash = crate::rng::mix(self.site_hash ^ (w.tid as u64) << 56 ^ (w.next as u64) << 48 ^ w.step);
        if self.log.len() < 200_000 {
            self.log.push(w);
        }
    }

    fn transfer(&mut self, me: usize, next: usize) {
        self.cur = next;
        unpark(&self.thr[next].park);
        wait_park(&self.thr[me].park);
    }

    fn give_main(&mut self) {
        self.cur = usize::MAX;
        unpark(&self.main_park);
    }
}

/// The countdown of the running thread reached zero.
#[cold]
#[inline(never)]
unsafe fn slow(_site: usize) {
    if TID < 0 || S.is_none() {
        if SOLO_CAP > 0 && CD <= 0 {
            fatal("livelock", "step cap of a single call exceeded");
        }
        return;
    }
    HARN += 1;
    let s = s();
    let me = TID as usize;
    s.end_slice_at(me);
    if s.total > s.cap {
        fatal("livelock", &format!("no completion within {} steps", s.cap));
    }
    if s.thr[me].stall_at == Some(s.thr[me].base) {
        s.thr[me].stall_at = None;
        stall_here();
        // never returns to running
    }
    let (r, n) = s.ready_others(me);
    let mut next = me;
    if n > 0 {
        if s.explore {
            if s.log.len() < 100_000 {
                next = r[s.rng.below(n)] as usize;
            }
        } else {
            let t = &mut s.thr[me];
            if t.rp_pos < t.rp.len() && t.rp[t.rp_pos].0 == t.base {
                let w = t.rp[t.rp_pos].1;
                t.rp_pos += 1;
                if r[..n].contains(&w) {
                    next = w as usize;
                }
            }
        }
    }
    if next != me {
        if s.explore && s.starve > 0 && s.rng.chance(s.starve, 64) {
            s.thr[me].hold = s.total + s.rng.logu(20_000_000);
        }
        s.preempts += 1;
        let step = s.thr[me].base;
        s.push_log(Switch { tid: me as u8, step, next: next as u8, forced: false });
        s.transfer(me, next);
    }
    s.set_slice(me);
    // `active` may be false here (called from point()): saved was set, CD restored by the caller
    if CD < ACTIVE_BOUND {
        CD = s.thr[me].saved;
    }
    HARN -= 1;
}

impl Sched {
    /// As end_slice, when the countdown may have been forced to zero before the slice was used up: the steps really
    /// made are recovered from the bookkeeping done at the forcing site.
    fn end_slice_at(&mut self, tid: usize) {
        let t = &mut self.thr[tid];
        let used = (t.slice - unsafe { CUT }).max(0) as u64;
        unsafe { CUT = 0 };
        t.base += used;
        self.total += used;
        t.slice = 0;
    }
}

/// Steps of the slice that were not made when a preemption was forced early.
#[thread_local]
static mut CUT: i64 = 0;

unsafe fn stall_here() {
    let s = s();
    let me = TID as usize;
    s.thr[me].st = St::Stalled;
    s.stalled += 1;
    leave(me);
    // parked for ever: the process ends without this thread
    loop {
        wait_park(&s.thr[me].park);
    }
}

/// Gives the token away for good or until woken.
unsafe fn leave(me: usize) {
    let s = s();
    match s.pick_forced(me) {
        Some(n) if n == me => {}
        Some(n) => {
            s.cur = n;
            unpark(&s.thr[n].park);
        }
        None => s.give_main(),
    }
}

/// Stalls the calling thread for ever (hanging storage operation).
pub fn hang() -> ! {
    unsafe {
        HARN += 1;
        let s = s();
        let me = TID as usize;
        s.end_slice(me);
        stall_here();
        unreachable!()
    }
}

/// Blocks the calling simulated thread on a futex word. Returns false on timeout.
pub unsafe fn futex_wait(addr: usize, deadline: Option<u64>) -> bool {
    HARN += 1;
    let act = active();
    let s = s();
    let me = TID as usize;
    s.futex_waits += 1;
    s.end_slice(me);
    if deadline.is_some() {
        s.total += YIELD_COST;
        if s.total > s.cap {
            fatal("livelock", &format!("no completion within {} steps", s.cap));
        }
    }
    s.thr[me].waddr = addr;
    s.thr[me].deadline = deadline;
    s.thr[me].timed_out = false;
    s.thr[me].st = if addr == 0 { St::Sleeping } else { St::Blocked };
    s.blocks += 1;
    match s.pick_forced(me) {
        Some(n) if n == me => {}
        Some(n) => s.transfer(me, n),
        None => {
            // nobody can run: deadlock of the remaining threads
            s.give_main();
            wait_park(&s.thr[me].park);
        }
    }
    s.thr[me].st = St::Ready;
    s.set_slice(me);
    if act {
        CD = s.thr[me].saved;
    }
    HARN -= 1;
    !s.thr[me].timed_out
}

pub unsafe fn futex_wake(addr: usize, n: u32) -> u32 {
    let s = s();
    s.futex_wakes += 1;
    let mut k = 0;
    for i in 0..s.thr.len() {
        if k < n && s.thr[i].st == St::Blocked && s.thr[i].waddr == addr {
            s.thr[i].st = St::Ready;
            s.thr[i].deadline = None;
            s.thr[i].timed_out = false;
            k += 1;
        }
    }
    k
}

const YIELD_COST: u64 = 500;
/// sched_yield: let somebody else run.
pub unsafe fn yield_now() {
    s().yields += 1;
    // waiting by yielding must not take for ever to be told from progress
    s().total += YIELD_COST;
    if active() {
        force_now();
        slow(2);
    }
}

/// Makes the next check of the countdown a scheduling decision, without miscounting steps.
#[inline]
unsafe fn force_now() {
    if CD > 0 {
        CUT = CD;
        CD = 0;
    }
}

pub struct Spawn {
    pub f: Box<dyn FnOnce() + Send>,
    pub stall_at: Option<u64>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Finished,
    /// ids of threads blocked for ever
    Deadlock(Vec<usize>),
}

/// Runs the given bodies as simulated threads until all are done or stalled, or nobody can run.
pub fn run_threads(bodies: Vec<Spawn>, plan: SchedPlan, cap: u64) -> End {
    unsafe {
        HARN += 1;
        let (explore, seed, conflict, newedge, rare, starve) = match &plan {
            SchedPlan::Explore { seed, conflict, newedge, rare, starve, .. } => {
                (true, *seed, *conflict, *newedge, *rare, *starve)
            }
            SchedPlan::Explicit { .. } => (false, 0, 0, 0, 0, 0),
        };
        RARE = if newedge > 0 { rare.max(1) } else { 0 };
        HITS = [0; EDGES];
        if CELLS.is_null() {
            CELLS = libc::mmap(
                std::ptr::null_mut(),
                TBL * std::mem::size_of::<Cell>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut Cell;
        }
        let switches: Vec<Switch> = match &plan {
            SchedPlan::Explicit { switches } => switches.clone(),
            _ => vec![],
        };
        let n = bodies.len();
        assert!(n <= MAXT);
        let mut thr = Vec::new();
        for (i, b) in bodies.iter().enumerate() {
            let mut rp: Vec<(u64, u8)> =
                switches.iter().filter(|w| !w.forced && w.tid as usize == i).map(|w| (w.step, w.next)).collect();
            rp.sort();
            thr.push(Thr {
                st: St::New,
                park: AtomicU32::new(0),
                base: 0,
                slice: 0,
                saved: 0,
                waddr: 0,
                deadline: None,
                timed_out: false,
                forced: 0,
                stall_at: b.stall_at,
                hold: 0,
                rp,
                rp_pos: 0,
                ops_done: 0,
            });
        }
        if let Some(old) = S.take() {
            // threads stalled for ever still look at it
            std::mem::forget(old);
        }
        S = Some(Box::new(Sched {
            on: true,
            thr,
            cur: usize::MAX,
            main_park: AtomicU32::new(0),
            plan,
            rng: Rng::new(seed),
            explore,
            log: Vec::with_capacity(4096),
            total: 0,
            cap,
            forced_map: switches.iter().filter(|w| w.forced).cloned().collect(),
            preempts: 0,
            conflicts: 0,
            newedges: 0,
            blocks: 0,
            futex_waits: 0,
            futex_wakes: 0,
            yields: 0,
            conflict,
            newedge,
            starve,
            site_hash: 0,
            stalled: 0,
        }));
        CONFLICT_ON = conflict > 0;
        let mut handles = Vec::new();
        for (i, b) in bodies.into_iter().enumerate() {
            let body = b.f;
            let h = std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    HARN += 1;
                    TID = i as i32;
                    STACK = stack_bounds();
                    let s = s();
                    s.thr[i].st = St::Ready;
                    unpark(&s.main_park);
                    wait_park(&s.thr[i].park);
                    s.set_slice(i);
                    HARN -= 1;
                    body();
                    finish_thread(i);
                })
                .expect("thread");
            // one at a time, so that thread start-up is deterministic too
            wait_park(&s().main_park);
            handles.push(Some(h));
        }
        let s = s();
        // first choice
        let first = if s.explore {
            let (r, n) = s.ready_others(usize::MAX);
            r[s.rng.below(n)]
        } else {
            s.forced_map.iter().find(|w| w.tid == 255).map(|w| w.next).unwrap_or(0)
        };
        s.push_log(Switch { tid: 255, step: 0, next: first, forced: true });
        s.cur = first as usize;
        unpark(&s.thr[first as usize].park);
        let end;
        loop {
            wait_park(&s.main_park);
            // either everything is over, or a thread wants to be joined
            if let Some(i) = (0..n).find(|&i| s.thr[i].st == St::Done && handles[i].is_some()) {
                let h = handles[i].take().unwrap();
                let _ = h.join();
                s.thr[i].st = St::Exited;
                match s.pick_forced(i) {
                    Some(nx) => {
                        s.cur = nx;
                        unpark(&s.thr[nx].park);
                        continue;
                    }
                    None => {}
                }
            }
            let blocked: Vec<usize> =
                (0..n).filter(|&i| matches!(s.thr[i].st, St::Blocked | St::Sleeping | St::Ready)).collect();
            end = if blocked.is_empty() { End::Finished } else { End::Deadlock(blocked) };
            break;
        }
        CONFLICT_ON = false;
        OUT_STEPS += s.total;
        HARN -= 1;
        end
    }
}

/// The body is done; main joins the thread (its thread-local destructors run while nobody else does).
unsafe fn finish_thread(i: usize) {
    HARN += 1;
    let s = s();
    s.end_slice(i);
    s.thr[i].st = St::Done;
    TID = -1;
    s.give_main();
    HARN -= 1;
}

unsafe fn stack_bounds() -> (usize, usize) {
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    if libc::pthread_getattr_np(libc::pthread_self(), &mut attr) != 0 {
        return (0, 0);
    }
    let mut a: *mut libc::c_void = std::ptr::null_mut();
    let mut sz: usize = 0;
    libc::pthread_attr_getstack(&attr, &mut a, &mut sz);
    libc::pthread_attr_destroy(&mut attr);
    (a as usize, a as usize + sz)
}

// ---------------------------------------------------------------- threads of the code under test

/// What the simulator keeps per operating-system thread.
#[derive(Clone, Copy)]
struct Local {
    cd: i64,
    tid: i32,
    cut: i64,
    alloc: (i64, i64, u64, i64),
}
unsafe fn get_local() -> Local {
    use crate::alloc::*;
    Local { cd: CD, tid: TID, cut: CUT, alloc: (FAIL_IN, FAIL_RUN, FAILED_HERE, COUNT) }
}
unsafe fn set_local(l: Local) {
    use crate::alloc::*;
    (CD, TID, CUT) = (l.cd, l.tid, l.cut);
    (FAIL_IN, FAIL_RUN, FAILED_HERE, COUNT) = l.alloc;
}
struct Child {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    local: Local,
    done: AtomicU32,
}
static mut CHILD_KEY: Option<libc::pthread_key_t> = None;
pub static mut CHILDREN: u64 = 0;

extern "C" fn child_start(c: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let c = c as *mut Child;
        STACK = stack_bounds();
        libc::pthread_setspecific(CHILD_KEY.unwrap(), c as *const libc::c_void);
        set_local((*c).local);
        let r = ((*c).f)((*c).arg);
        // the destructors of its thread-local values are still to come
        r
    }
}
unsafe extern "C" fn child_end(c: *mut libc::c_void) {
    let c = c as *mut Child;
    (*c).local = get_local();
    TID = -1;
    CD = i64::MAX;
    unpark(&(*c).done);
}
/// A thread that the code under test starts runs in place of its parent, from its start to its end: one of the
/// interleavings there are, and the same one each time.
pub unsafe fn spawn_child(
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    create: impl FnOnce(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32,
) -> i32 {
    HARN += 1;
    CHILDREN += 1;
    if CHILD_KEY.is_none() {
        let mut k = 0;
        libc::pthread_key_create(&mut k, Some(child_end));
        CHILD_KEY = Some(k);
    }
    let c = Box::into_raw(Box::new(Child { f, arg, local: get_local(), done: AtomicU32::new(0) }));
    let r = create(child_start, c as *mut libc::c_void);
    if r == 0 {
        wait_park(&(*c).done);
        set_local((*c).local);
    }
    drop(Box::from_raw(c));
    HARN -= 1;
    r
}
