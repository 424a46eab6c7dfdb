//! The clock the library sees. `clock_gettime` is defined here, so the standard library (and through it chrono) reads
//! the time this file decides: the real one, unless a property controls it.

use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
static FAKE: AtomicBool = AtomicBool::new(false);
static REAL_S: AtomicI64 = AtomicI64::new(0);
static REAL_N: AtomicI64 = AtomicI64::new(0);
static MONO_S: AtomicI64 = AtomicI64::new(0);
static MONO_N: AtomicI64 = AtomicI64::new(0);
/// what the monotonic clock advances at each reading, ns
static TICK: AtomicI64 = AtomicI64::new(0);
/// the latest reading of the monotonic clock
static LAST_S: AtomicI64 = AtomicI64::new(0);
static LAST_N: AtomicI64 = AtomicI64::new(0);

extern "C" {
    fn syscall(n: i64, a: i64, b: *mut Timespec) -> i64;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    // CLOCK_PROCESS_CPUTIME_ID, CLOCK_THREAD_CPUTIME_ID measure something else
    if FAKE.load(Relaxed) && !matches!(id, 2 | 3) {
        // CLOCK_REALTIME, CLOCK_REALTIME_COARSE, CLOCK_TAI: wall clocks; everything else counts from some start
        let wall = matches!(id, 0 | 5 | 11);
        let (s, n) = if wall { (&REAL_S, &REAL_N) } else { (&MONO_S, &MONO_N) };
        (*t).sec = s.load(Relaxed);
        (*t).nsec = n.load(Relaxed);
        if matches!(id, 5 | 6) {
            // the coarse clocks advance with the scheduler's ticks
            (*t).nsec -= (*t).nsec % 4_000_000;
        }
        let tick = TICK.load(Relaxed);
        if tick > 0 && !wall {
            LAST_S.store((*t).sec, Relaxed);
            LAST_N.store((*t).nsec, Relaxed);
            set_mono(mono() + tick as i128);
        }
        return 0;
    }
    syscall(228, id as i64, t) as i32
}

/// seconds of the machine's monotonic clock, whatever the library is shown
pub fn real_seconds() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        syscall(228, 1, &mut t);
    }
    t.sec as u64
}
/// nanoseconds of the machine's monotonic clock
pub fn real_ns() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        syscall(228, 1, &mut t);
    }
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}
/// processor time of this thread, ns
pub fn cpu_ns() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        syscall(228, 3, &mut t);
    }
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}
fn split(ns: i128) -> (i64, i64) {
    (ns.div_euclid(1_000_000_000) as i64, ns.rem_euclid(1_000_000_000) as i64)
}
pub fn set_wall(ns: i128) {
    let (s, n) = split(ns);
    REAL_S.store(s, Relaxed);
    REAL_N.store(n, Relaxed);
}
pub fn set_mono(ns: i128) {
    let (s, n) = split(ns);
    MONO_S.store(s, Relaxed);
    MONO_N.store(n, Relaxed);
}
pub fn mono() -> i128 {
    MONO_S.load(Relaxed) as i128 * 1_000_000_000 + MONO_N.load(Relaxed) as i128
}
/// from now on the monotonic clock advances by `ns` at each reading
pub fn set_tick(ns: i128) {
    TICK.store(ns as i64, Relaxed);
    LAST_S.store(MONO_S.load(Relaxed), Relaxed);
    LAST_N.store(MONO_N.load(Relaxed), Relaxed);
}
/// the latest reading since `set_tick` (the time of `set_tick` if there was none)
pub fn last_read() -> i128 {
    LAST_S.load(Relaxed) as i128 * 1_000_000_000 + LAST_N.load(Relaxed) as i128
}
/// controls the clocks while it lives
pub struct Controlled(());
impl Controlled {
    pub fn new() -> Controlled {
        FAKE.store(true, Relaxed);
        Controlled(())
    }
}
impl Drop for Controlled {
    fn drop(&mut self) {
        TICK.store(0, Relaxed);
        FAKE.store(false, Relaxed);
    }
}
