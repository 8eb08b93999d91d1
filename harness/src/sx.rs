//! The interface to the symbolic executor.  In the native build (feature
//! `native`) the same calls read a recorded assignment, so that a
//! counterexample can be replayed against the real code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sx_byte() -> u8;
        fn sx_u64() -> u64;
        fn sx_choose(n: u32) -> u32;
        fn sx_assume(c: bool);
        fn sx_check(c: bool, m: *const u8, n: usize);
        fn sx_reach(m: *const u8, n: usize);
        fn sx_observe(v: u64);
        fn sx_param(i: u32) -> u64;
        fn sx_input(p: *const u8, n: usize);
        fn sx_cost(k: u32) -> u64;
        fn sx_other(f: *const u8, a: *mut u8, n: u64) -> u64;
    }
    /// How often `t` must be repeated so that costs can be told apart.
    pub fn scale() -> usize {
        1
    }
    /// The time `f` takes, in instructions, and the heap memory, in bytes.
    pub fn cost<T>(f: impl Fn() -> T) -> (u64, u64) {
        unsafe {
            let (m, t) = (sx_cost(1), sx_cost(0));
            let r = f();
            let c = (sx_cost(0) - t, sx_cost(2) - m);
            drop(r);
            c
        }
    }
    /// `b` runs in another thread while `a` runs: before any one instruction of `a` that
    /// uses memory both can see.  `more` further threads run `b` too, each of them while
    /// the one before is stopped at such an instruction, the same by number.  Returns how
    /// many of these instructions there were.
    pub fn beside<A: FnMut(), B: Fn() + Sync>(mut a: A, b: B, more: u64) -> u64 {
        extern "C" fn go<B: Fn()>(b: *mut u8) {
            unsafe { (*(b as *const B))() }
        }
        let n = unsafe {
            sx_other(go::<B> as *const u8, &b as *const B as *mut u8, more);
            a();
            sx_other(std::ptr::null(), 1 as *mut u8, 0)
        };
        b();
        unsafe { sx_other(std::ptr::null(), std::ptr::null_mut(), 0) };
        n
    }
    pub fn byte() -> u8 {
        unsafe { sx_byte() }
    }
    pub fn u64() -> u64 {
        unsafe { sx_u64() }
    }
    pub fn choose(n: u32) -> u32 {
        unsafe { sx_choose(n) }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c) }
    }
    pub fn check(c: bool, m: &'static str) {
        unsafe { sx_check(c, m.as_ptr(), m.len()) }
    }
    pub fn reach(m: &'static str) {
        unsafe { sx_reach(m.as_ptr(), m.len()) }
    }
    pub fn observe(v: u64) {
        unsafe { sx_observe(v) }
    }
    pub fn param(i: u32) -> u64 {
        unsafe { sx_param(i) }
    }
    pub fn input(b: &[u8]) {
        unsafe { sx_input(b.as_ptr(), b.len()) }
    }
}

/// Counts the heap memory in use.
#[cfg(feature = "native")]
mod heap {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    pub static LIVE: AtomicUsize = AtomicUsize::new(0);
    pub static PEAK: AtomicUsize = AtomicUsize::new(0);
    struct Count;
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            PEAK.fetch_max(LIVE.fetch_add(l.size(), SeqCst) + l.size(), SeqCst);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size(), SeqCst);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            PEAK.fetch_max(LIVE.fetch_add(n, SeqCst) + n, SeqCst);
            LIVE.fetch_sub(l.size(), SeqCst);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static COUNT: Count = Count;
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct State {
        pub inputs: Vec<u64>,
        pub at: usize,
        pub params: Vec<u64>,
        pub observed: Vec<u64>,
        pub texts: Vec<Vec<u8>>,
        pub show: bool,
        pub mute: bool,
    }
    thread_local! { pub static S: RefCell<State> = RefCell::new(State::default()); }
    fn next() -> u64 {
        S.with(|s| {
            let mut s = s.borrow_mut();
            let v = match s.inputs.get(s.at) {
                Some(&v) => v,
                None => {
                    println!("DIVERGED: no input {}", s.at);
                    std::process::exit(20);
                }
            };
            s.at += 1;
            v
        })
    }
    pub fn scale() -> usize {
        if S.with(|s| s.borrow().show) {
            16
        } else {
            1
        }
    }
    /// In nanoseconds; not measured unless an assignment is replayed.
    pub fn cost<T>(f: impl Fn() -> T) -> (u64, u64) {
        use super::heap::{LIVE, PEAK};
        use std::sync::atomic::Ordering::SeqCst;
        extern "C" {
            fn clock_gettime(c: i32, t: *mut [u64; 2]) -> i32;
        }
        let now = || {
            let mut t = [0; 2];
            unsafe { clock_gettime(3, &mut t) };
            t[0] * 1_000_000_000 + t[1]
        };
        if !S.with(|s| s.borrow().show) {
            f();
            return (0, 0);
        }
        let mut least = (u64::MAX, 0);
        for _ in 0..7 {
            let (m, t) = (LIVE.load(SeqCst), now());
            PEAK.store(m, SeqCst);
            let r = f();
            least = (least.0.min(now() - t), PEAK.load(SeqCst).saturating_sub(m) as u64);
            drop(r);
        }
        least
    }
    /// With threads: many times when an assignment is replayed, else once.
    pub fn beside<A: FnMut(), B: Fn() + Sync>(mut a: A, b: B, more: u64) -> u64 {
        use std::sync::atomic::{AtomicBool, Ordering};
        use std::time::{Duration, Instant};
        if let Ok(k) = std::env::var("SX_STOP") {
            step::beside(a, b, more, k.parse().unwrap());
        }
        let many = S.with(|s| s.borrow().show);
        let done = AtomicBool::new(false);
        // checks may fail in either thread: the process ends then
        S.with(|s| s.borrow_mut().show = false);
        S.with(|s| s.borrow_mut().mute = true);
        std::thread::scope(|s| {
            for _ in 0..=more {
                s.spawn(|| loop {
                    b();
                    if done.load(Ordering::Relaxed) {
                        break;
                    }
                });
            }
            let t = Instant::now();
            loop {
                a();
                if !many || t.elapsed() > Duration::from_secs(1) {
                    break;
                }
            }
            done.store(true, Ordering::Relaxed);
        });
        if many {
            step::search();
        }
        S.with(|s| s.borrow_mut().mute = false);
        0
    }

    /// One thread, executed one machine instruction at a time, is stopped at one of them
    /// while the other threads run; each time in a process of its own.
    #[cfg(target_arch = "x86_64")]
    mod step {
        use std::process::{Command, Stdio};
        use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
        use std::time::{Duration, Instant};

        static AT: AtomicU64 = AtomicU64::new(0);
        static STOP: AtomicU64 = AtomicU64::new(u64::MAX);
        static GO: AtomicBool = AtomicBool::new(false);
        static LEFT: AtomicU64 = AtomicU64::new(0);

        extern "C" {
            fn sigaction(n: i32, new: *const Act, old: *mut Act) -> i32;
        }
        #[repr(C)]
        struct Act {
            handler: extern "C" fn(i32, *mut u8, *mut u8),
            mask: [u64; 16],
            flags: i32,
            restorer: usize,
        }

        extern "C" fn trap(_: i32, _: *mut u8, context: *mut u8) {
            if AT.fetch_add(1, SeqCst) + 1 == STOP.load(SeqCst) {
                GO.store(true, SeqCst);
                let t = Instant::now();
                // they may need a lock this thread holds
                while LEFT.load(SeqCst) > 0 && t.elapsed() < Duration::from_millis(20) {
                    std::hint::spin_loop();
                }
                // the flags of the interrupted code: no more steps
                unsafe { *(context.add(176) as *mut u64) &= !0x100 };
            }
        }

        pub fn beside<A: FnMut(), B: Fn() + Sync>(mut a: A, b: B, more: u64, k: u64) -> ! {
            super::S.with(|s| s.borrow_mut().show = false);
            super::S.with(|s| s.borrow_mut().mute = true);
            STOP.store(k, SeqCst);
            LEFT.store(more + 1, SeqCst);
            std::thread::scope(|s| {
                for _ in 0..=more {
                    s.spawn(|| {
                        while !GO.load(SeqCst) {
                            std::hint::spin_loop();
                        }
                        b();
                        LEFT.fetch_sub(1, SeqCst);
                    });
                }
                let act = Act { handler: trap, mask: [0; 16], flags: 4, restorer: 0 };
                unsafe {
                    sigaction(5, &act, std::ptr::null_mut());
                    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
                }
                a();
                unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
                GO.store(true, SeqCst);
            });
            a();
            println!("STEPS {}", AT.load(SeqCst));
            std::process::exit(0);
        }

        fn run(k: u64) -> (Option<i32>, String) {
            let mut c = Command::new("timeout");
            c.arg("5").arg(std::env::current_exe().unwrap()).args(std::env::args().skip(1));
            match c.env("SX_STOP", k.to_string()).stdin(Stdio::null()).output() {
                Ok(o) => (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned()),
                _ => (Some(0), String::new()),
            }
        }

        pub fn search() {
            let steps: u64 = match run(u64::MAX).1.split("STEPS ").nth(1).and_then(|x| x.trim().parse().ok()) {
                Some(n) => n,
                None => return println!("SCHEDULES none"),
            };
            let seen = AtomicU64::new(0);
            let t = Instant::now();
            std::thread::scope(|s| {
                for _ in 0..4 {
                    s.spawn(|| {
                        while t.elapsed() < Duration::from_secs(12) {
                            // spread evenly
                            let n = seen.fetch_add(1, SeqCst) + 1;
                            let k = (n.wrapping_mul(0x9E3779B97F4A7C15) as u128 * steps as u128 >> 64) as u64 + 1;
                            let (code, out) = run(k);
                            if !matches!(code, Some(0) | Some(20) | Some(124)) {
                                println!("{}\nat instruction {} of {}", out, k, steps);
                                std::process::exit(code.unwrap_or(41));
                            }
                        }
                    });
                }
            });
            println!("SCHEDULES {}", seen.load(SeqCst));
        }
    }
    #[cfg(not(target_arch = "x86_64"))]
    mod step {
        pub fn beside<A: FnMut(), B: Fn() + Sync>(_: A, _: B, _: u64, _: u64) -> ! {
            std::process::exit(0);
        }
        pub fn search() {}
    }
    pub fn byte() -> u8 {
        next() as u8
    }
    pub fn u64() -> u64 {
        next()
    }
    pub fn choose(_n: u32) -> u32 {
        next() as u32
    }
    pub fn assume(c: bool) {
        if !c {
            println!("DIVERGED: an assumption does not hold");
            std::process::exit(20);
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            println!("CHECK FAILED: {}", m);
            std::process::exit(10);
        }
    }
    pub fn reach(_m: &'static str) {}
    pub fn observe(v: u64) {
        S.with(|s| {
            let mut s = s.borrow_mut();
            if !s.mute {
                s.observed.push(v)
            }
        });
    }
    pub fn param(i: u32) -> u64 {
        S.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
    pub fn input(b: &[u8]) {
        S.with(|s| {
            if s.borrow().show {
                println!("INPUT {:?}", String::from_utf8_lossy(b));
            }
        });
    }
}

pub use imp::*;

/// A symbolic byte in a range.
pub fn byte_in(lo: u8, hi: u8) -> u8 {
    let b = byte();
    assume((b >= lo) & (b <= hi));
    b
}

pub fn digit() -> u8 {
    byte_in(b'0', b'9')
}

/// A space, tab or backslash.
pub fn blank() -> u8 {
    let b = byte();
    assume((b == b' ') | (b == b'\t') | (b == b'\\'));
    b
}

/// A byte that may stand in a name (ASCII).
pub fn name_byte() -> u8 {
    let b = byte();
    assume((b != b' ') & (b != b'\t') & (b != b'\\') & (b != b'\n') & (b != b'\r') & (b != b'#') & (b < 0x80));
    b
}

pub fn flip() -> bool {
    choose(2) == 1
}
