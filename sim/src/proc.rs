//! Processes: isolated children and the shared memory they answer through.
#![allow(static_mut_refs)]
use crate::rt::HarnGuard;

pub struct Shm {
    p: *mut u8,
    cap: usize,
}
impl Shm {
    pub fn new(cap: usize) -> Shm {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                cap,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            ) as *mut u8;
            assert!(p as isize != -1, "shared memory");
            Shm { p, cap }
        }
    }
    pub fn clear(&self) {
        unsafe { *(self.p as *mut u64) = 0 };
    }
    /// Length first written as complete: a torn answer is no answer.
    pub fn put(&self, b: &[u8]) {
        unsafe {
            let n = b.len().min(self.cap - 16);
            if n < b.len() {
                return;
            }
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(16), n);
            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
            *(self.p as *mut u64) = n as u64 + 1;
        }
    }
    pub fn get(&self) -> Option<Vec<u8>> {
        unsafe {
            let n = *(self.p as *mut u64) as usize;
            if n == 0 {
                return None;
            }
            Some(std::slice::from_raw_parts(self.p.add(16), n - 1).to_vec())
        }
    }
    pub fn word(&self) -> *mut i64 {
        self.p as *mut i64
    }
}
unsafe impl Sync for Shm {}
unsafe impl Send for Shm {}
impl Drop for Shm {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.p as *mut libc::c_void, self.cap);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Died {
    /// by this signal
    Signal(i32),
    /// exited without an answer
    Silent(i32),
}

/// CPU seconds a child may use (a multiple when a run is repeated to be sure).
pub static mut CPU_LIMIT: u64 = 120;

/// Runs f in a forked child which answers with bytes; the child never returns from here.
pub fn isolated(shm: &Shm, cpu: u64, f: impl FnOnce(&Shm)) -> Result<Vec<u8>, Died> {
    let _g = HarnGuard::new();
    shm.clear();
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            // out of processes for a moment
            libc::usleep(50_000);
            return Err(Died::Silent(-1));
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            let r = libc::rlimit { rlim_cur: 40 << 30, rlim_max: 40 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            libc::alarm((cpu * 4) as u32);
            crate::rt::HARN = 0;
            // in a thread of its own: what the parent's thread did before (state of its thread-locals, such as the
            // counter in hash keys) must not matter
            struct Any<F>(F);
            unsafe impl<F> Send for Any<F> {}
            let f = Any(f);
            let ok = std::thread::scope(|s| {
                let body = move || {
                    let f = f;
                    (f.0)(shm)
                };
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, body).map(|h| h.join().is_ok())
            });
            libc::_exit(if let Ok(true) = ok { 0 } else { 101 });
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if libc::WIFSIGNALED(st) {
            return Err(Died::Signal(libc::WTERMSIG(st)));
        }
        match shm.get() {
            Some(b) => Ok(b),
            None => Err(Died::Silent(libc::WEXITSTATUS(st))),
        }
    }
}

pub fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_ZERO(&mut set);
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}
