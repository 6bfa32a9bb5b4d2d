//! Process-level instrumentation: a monitoring global allocator, a CPU clock,
//! resource limits, and a state file that survives a crash of the process.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicU64, AtomicUsize, Ordering};

pub struct MonAlloc;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}

/// Single allocations above this size end a worker (reported as a violation).
pub static HARD_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
/// So does more than this much live memory on one thread.
pub static LIVE_LIMIT: AtomicIsize = AtomicIsize::new(isize::MAX);

fn note(size: usize) {
    if size > HARD_LIMIT.load(Ordering::Relaxed) {
        fatal(EXIT_ALLOC, &[size as u64]);
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + size as isize;
        l.set(v);
        if v > LIVE_LIMIT.load(Ordering::Relaxed) {
            fatal(EXIT_ALLOC, &[v as u64]);
        }
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
        TOTAL.with(|t| t.set(t.get().wrapping_add(size)));
        LARGEST.with(|t| t.set(t.get().max(size)));
        CALLS.with(|t| t.set(t.get() + 1));
    });
}

fn unnote(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - size as isize));
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        note(layout.size());
        unsafe { System.alloc(layout) }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        note(layout.size());
        unsafe { System.alloc_zeroed(layout) }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        unnote(layout.size());
        unsafe { System.dealloc(ptr, layout) }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        unnote(layout.size());
        note(new_size);
        unsafe { System.realloc(ptr, layout, new_size) }
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct AllocStats {
    /// Highest number of live bytes above the starting point.
    pub peak: usize,
    pub total: usize,
    pub largest: usize,
    pub calls: usize,
}

/// Observe what this thread allocates while `f` runs.
pub fn watch_alloc<T>(f: impl FnOnce() -> T) -> (T, AllocStats) {
    let base = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(base));
    let total0 = TOTAL.with(Cell::get);
    LARGEST.with(|l| l.set(0));
    let calls0 = CALLS.with(Cell::get);
    let out = f();
    let st = AllocStats {
        peak: (PEAK.with(Cell::get) - base).max(0) as usize,
        total: TOTAL.with(Cell::get).wrapping_sub(total0),
        largest: LARGEST.with(Cell::get),
        calls: CALLS.with(Cell::get) - calls0,
    };
    (out, st)
}

// ---------------------------------------------------------------- C library

#[repr(C)]
#[derive(Default)]
struct Timeval {
    sec: i64,
    usec: i64,
}
#[repr(C)]
#[derive(Default)]
struct Rusage {
    utime: Timeval,
    stime: Timeval,
    rest: [i64; 14],
}
#[repr(C)]
pub struct Rlimit {
    cur: u64,
    max: u64,
}
unsafe extern "C" {
    fn getrusage(who: i32, ru: *mut Rusage) -> i32;
    fn setrlimit(what: i32, lim: *const Rlimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
}

/// CPU seconds used by this process.
pub fn cpu_seconds() -> f64 {
    let mut ru = Rusage::default();
    unsafe {
        getrusage(0, &mut ru);
    }
    (ru.utime.sec + ru.stime.sec) as f64 + (ru.utime.usec + ru.stime.usec) as f64 / 1e6
}

pub const RLIMIT_CPU: i32 = 0;
pub const RLIMIT_FSIZE: i32 = 1;
pub const RLIMIT_CORE: i32 = 4;
pub const RLIMIT_AS: i32 = 9;
pub const SIGXFSZ: i32 = 25;

/// Async-signal-safe, usable between fork and exec.
pub fn set_limit(what: i32, value: u64) {
    let l = Rlimit {
        cur: value,
        max: value,
    };
    unsafe {
        setrlimit(what, &l);
    }
}

pub fn ignore_signal(sig: i32) {
    unsafe {
        signal(sig, 1);
    }
}

// ---------------------------------------------------------------- state file

pub const EXIT_HANG: i32 = 87;
pub const EXIT_ALLOC: i32 = 88;

static STATE: OnceLock<File> = OnceLock::new();
pub static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static FATAL: AtomicBool = AtomicBool::new(false);

pub fn open_state(path: &str) {
    let f = File::options()
        .create(true)
        .write(true)
        .truncate(true)
        .open(path)
        .expect("state file");
    let _ = STATE.set(f);
}

pub fn begin_case(idx: u64) {
    CURRENT.store(idx, Ordering::SeqCst);
    if let Some(f) = STATE.get() {
        let _ = f.write_all_at(&idx.to_le_bytes(), 0);
    }
}

/// End the process at once, leaving a note in the state file.
pub fn fatal(code: i32, note: &[u64]) -> ! {
    if !FATAL.swap(true, Ordering::SeqCst)
        && let Some(f) = STATE.get()
    {
        let mut off = 8;
        for n in note {
            let _ = f.write_all_at(&n.to_le_bytes(), off);
            off += 8;
        }
    }
    unsafe { _exit(code) }
}

/// End the process when one case uses more than `limit` CPU seconds.
pub fn start_watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut seen = u64::MAX;
        let mut at = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let cur = CURRENT.load(Ordering::SeqCst);
            let cpu = cpu_seconds();
            if cur != seen {
                seen = cur;
                at = cpu;
            } else if cur != u64::MAX && cpu - at > limit {
                fatal(EXIT_HANG, &[(cpu - at) as u64]);
            }
        }
    });
}

// ------------------------------------------------------- other surroundings

thread_local! {
    static ELSEWHERE: Cell<u64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

/// While `f` runs, this thread finds a value in every environment variable and
/// a clock that makes leaps. Also returns how often it asked for either.
pub fn elsewhere<T>(seed: u64, f: impl FnOnce() -> T) -> (T, u64) {
    ELSEWHERE.with(|e| e.set(seed | 1));
    ASKED.with(|e| e.set(0));
    let out = f();
    ELSEWHERE.with(|e| e.set(0));
    (out, ASKED.with(Cell::get))
}

#[cfg(not(miri))]
mod stand_ins {
    use super::{ASKED, ELSEWHERE};
    use std::ffi::{CStr, c_char, c_int, c_long};

    unsafe extern "C" {
        static environ: *const *const c_char;
        fn syscall(n: c_long, ...) -> c_long;
    }

    fn asked() -> u64 {
        ELSEWHERE
            .try_with(|e| {
                let seed = e.get();
                if seed != 0 {
                    let _ = ASKED.try_with(|a| a.set(a.get() + 1));
                }
                seed
            })
            .unwrap_or(0)
    }

    #[unsafe(no_mangle)]
    unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        const SOME: [&CStr; 12] = [c"1", c"0", c"true", c"false", c"", c"safe", c"off", c"4", c"|", c"tab", c"strict", c"/nonexistent"];
        let name = unsafe { CStr::from_ptr(name) }.to_bytes();
        let seed = asked();
        if seed != 0 && !name.starts_with(b"RUST_") {
            let mut h = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            for b in name {
                h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
            }
            return SOME[((h >> 29) % SOME.len() as u64) as usize].as_ptr();
        }
        unsafe {
            let mut e = environ;
            while !e.is_null() && !(*e).is_null() {
                let entry = CStr::from_ptr(*e).to_bytes();
                if entry.len() > name.len() && entry[name.len()] == b'=' && entry.starts_with(name) {
                    return (*e).add(name.len() + 1);
                }
                e = e.add(1);
            }
        }
        std::ptr::null()
    }

    #[unsafe(no_mangle)]
    unsafe extern "C" fn clock_gettime(clock: c_int, to: *mut [i64; 2]) -> c_int {
        let r = unsafe { syscall(228, c_long::from(clock), to) } as c_int;
        let seed = asked();
        if r == 0 && seed != 0 && (clock == 0 || clock == 1) {
            let n = ASKED.with(std::cell::Cell::get) as i64;
            unsafe {
                (*to)[0] += n * ((seed >> 8) % 100_000) as i64;
            }
        }
        r
    }
}
