//! C40: a call leaves nothing behind: no memory, files, threads, output, and no changed state of the process.
//!
//! Memory: `HEAP` counts the live heap of every thread; `call` adds up what the library's calls leave. A case repeats
//! its calls in rounds, each batch as long as all before it together; memory that grows in every batch is never given
//! back (a cache that fills once is not reported).

use super::reent::{generate, items_of, Item};
use super::BOTH;
use crate::clock;
use crate::engine::*;
use crate::sys;
use std::io::Write;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn memfd_create(name: *const i8, flags: u32) -> i32;
    fn pread(fd: i32, b: *mut u8, n: usize, off: i64) -> isize;
    fn umask(m: u32) -> u32;
    fn getcwd(b: *mut i8, n: usize) -> *mut i8;
    fn chdir(p: *const i8) -> i32;
    fn sigaction(n: i32, new: *const u64, old: *mut u64) -> i32;
    fn pthread_sigmask(how: i32, new: *const u64, old: *mut u64) -> i32;
    fn setlocale(cat: i32, l: *const i8) -> *const i8;
    fn fflush(f: *mut u8) -> i32;
    fn getrlimit(what: i32, out: *mut u64) -> i32;
    fn getpriority(which: i32, who: u32) -> i32;
    static environ: *const *const i8;
}

/// what a program sees of its process
#[derive(PartialEq, Clone)]
struct State(Vec<(&'static str, u64)>);
const MXCSR_CONTROL: u32 = 0xFFC0;
fn mxcsr() -> u32 {
    let mut x = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack)) };
    x
}
fn set_mxcsr(x: u32) {
    unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &x, options(nostack)) };
}
fn x87() -> u16 {
    let mut x = 0u16;
    unsafe { std::arch::asm!("fnstcw [{}]", in(reg) &mut x, options(nostack)) };
    x
}
fn set_x87(x: u16) {
    unsafe { std::arch::asm!("fldcw [{}]", in(reg) &x, options(nostack)) };
}
unsafe fn c_hash(p: *const i8) -> u64 {
    if p.is_null() {
        return 0;
    }
    std::ffi::CStr::from_ptr(p).to_bytes().iter().fold(7, |h: u64, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))
}
fn entries(dir: &str) -> u64 {
    std::fs::read_dir(dir).map(|d| d.count() as u64).unwrap_or(0)
}
impl State {
    fn get(full: bool) -> State {
        let mut v = vec![];
        unsafe {
            v.push(("the floating point control register", (mxcsr() & MXCSR_CONTROL) as u64));
            v.push(("the x87 control word", x87() as u64));
            let mut mask = [0u64; 16];
            pthread_sigmask(0, std::ptr::null(), mask.as_mut_ptr());
            v.push(("the signal mask", mask[0]));
            let mut buf = [0i8; 4096];
            v.push(("the working directory", c_hash(getcwd(buf.as_mut_ptr(), 4096))));
            let m = umask(0o22);
            umask(m);
            v.push(("the file creation mask", m as u64));
            v.push(("the locale", c_hash(setlocale(6, std::ptr::null()))));
            let mut h = 3u64;
            let mut e = environ;
            while !e.is_null() && !(*e).is_null() {
                h = h.rotate_left(5) ^ c_hash(*e);
                e = e.add(1);
            }
            v.push(("the environment", h));
            if full {
                let mut h = 5u64;
                for n in (1..32).filter(|n| *n != 9 && *n != 19) {
                    let mut old = [0u64; 32];
                    sigaction(n, std::ptr::null(), old.as_mut_ptr());
                    h = h.rotate_left(7) ^ old[0];
                }
                v.push(("the signal handlers", h));
                let mut h = 5u64;
                for n in 0..10 {
                    let mut l = [0u64; 2];
                    getrlimit(n, l.as_mut_ptr());
                    h = (h ^ l[0]).rotate_left(9).wrapping_mul(31) ^ l[1];
                }
                v.push(("the resource limits", h));
                v.push(("the priority", getpriority(0, 0) as u64));
                v.push(("the number of open files", entries("/proc/self/fd")));
                v.push(("the number of threads", entries("/proc/self/task")));
            }
        }
        State(v)
    }
    fn differs(&self, other: &State) -> Option<&'static str> {
        self.0.iter().zip(&other.0).find(|(a, b)| a != b).map(|(a, _)| a.0)
    }
}

/// standard output and error, redirected while it lives
struct Quiet {
    file: i32,
    saved: [i32; 2],
}
impl Quiet {
    fn files() -> (i32, [i32; 2]) {
        static FILES: std::sync::OnceLock<(i32, [i32; 2])> = std::sync::OnceLock::new();
        *FILES.get_or_init(|| unsafe {
            let f = memfd_create(c"out".as_ptr() as *const i8, 1);
            assert!(f >= 0, "memfd_create");
            (f, [dup(1), dup(2)])
        })
    }
    fn new() -> Quiet {
        let (file, saved) = Quiet::files();
        unsafe {
            let _ = std::io::stdout().flush();
            ftruncate(file, 0);
            lseek(file, 0, 0);
            dup2(file, 1);
            dup2(file, 2);
            Quiet { file, saved }
        }
    }
    /// what was written
    fn text(&self) -> String {
        unsafe {
            let _ = std::io::stdout().flush();
            fflush(std::ptr::null_mut());
            let n = lseek(self.file, 0, 2).max(0) as usize;
            let mut b = vec![0u8; n.min(200)];
            pread(self.file, b.as_mut_ptr(), b.len(), 0);
            String::from_utf8_lossy(&b).into_owned()
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe {
            let _ = std::io::stdout().flush();
            fflush(std::ptr::null_mut());
            dup2(self.saved[0], 1);
            dup2(self.saved[1], 2);
        }
    }
}


fn round(items: &[Item], from: usize, to: usize) {
    for i in from..to {
        if i % items.len() == 0 {
            // a cycle later: what is looked up once in a while is looked up again
            clock::set_wall(1_700_000_000_123_456_789 + i as i128 * 2_000_000_000);
        }
        items[i % items.len()].run();
    }
}

fn c40(src: &mut Src) -> Res {
    crate::cov::reserve();
    let _c = clock::Controlled::new();
    clock::set_wall(1_700_000_000_123_456_789);
    clock::set_mono(5_000_000_000_000);
    let mode = src.weighted(&[50, 10, 1, 4]);
    // ever new arguments for one function
    let fresh = mode == 1;
    // the same calls over and over, now and then for long
    let long = mode == 2;
    // every round in a new task
    let tasks = mode == 3;
    let items = if fresh { items_of(src, 256)? } else { generate(src, 12)? };
    if long {
        src.heavy = true;
    }
    let n = items.len();
    src.nt(n > 1);
    src.label_if(long, "the same calls some 20000 times");
    src.label_if(tasks, "each round in a new thread");
    src.label(if fresh { "one function, new arguments" } else { "the same calls repeated" });
    src.note(|| {
        let v: Vec<String> = items.iter().take(8).map(|i| i.show()).collect();
        format!("{}{}", v.join("; "), if n > 8 { format!("; and {} more", n - 8) } else { String::new() })
    });
    super::env::enter_zone(src);
    let (m0, x0) = (mxcsr(), x87());
    let mut cwd = [0i8; 4096];
    unsafe { getcwd(cwd.as_mut_ptr(), 4096) };
    Quiet::files();
    let before = State::get(true);
    let names = || {
        let mut v: Vec<&str> = items.iter().map(|i| i.name()).collect();
        v.sort();
        v.dedup();
        v.join(",")
    };
    let all = || items.iter().take(12).map(|i| i.show()).collect::<Vec<_>>().join("; ");

    let quiet = Quiet::new();
    // every call on its own first
    let mut said: Option<(usize, String)> = None;
    let mut state: Option<(usize, &'static str)> = None;
    let plain = State::get(false);
    let mut accepted = 0;
    for i in 0..n.min(24) {
        let r = items[i].run();
        accepted += (r.0 != 1) as u32;
        // a rejection may say why
        if r.0 != 1 && said.is_none() {
            let t = quiet.text();
            if !t.is_empty() {
                said = Some((i, t));
            }
        } else if said.is_none() {
            unsafe {
                let _ = std::io::stdout().flush();
                ftruncate(quiet.file, 0);
                lseek(quiet.file, 0, 0);
            }
        }
        if state.is_none() {
            if let Some(what) = plain.differs(&State::get(false)) {
                state = Some((i, what));
                set_mxcsr(m0);
                set_x87(x0);
            }
        }
    }
    // batches, each as long as everything before it
    let (unit, batches) = if fresh { (n / 16, 4) } else if long { (2 * n.max(1200), 3) } else { (2 * n, 3) };
    let mut grown = vec![];
    if fresh {
        round(&items, 0, unit);
    } else {
        round(&items, 0, unit);
    }
    let mut at = unit;
    for _ in 0..batches {
        let h = sys::lib_heap();
        round(&items, at, 2 * at);
        at *= 2;
        grown.push(sys::lib_heap() - h);
    }
    let mut in_tasks = vec![];
    if tasks {
        let cycle = |k: usize| {
            for _ in 0..k {
                std::thread::scope(|s| {
                    // joined: the end of the scope does not wait for the destructors of the thread
                    let _ = s.spawn(|| items.iter().for_each(|i| drop(i.run()))).join();
                });
            }
        };
        cycle(4);
        for k in [4, 8, 16] {
            let h = sys::heap_of_all();
            cycle(k);
            in_tasks.push(sys::heap_of_all() - h);
        }
    }
    drop(quiet);
    set_mxcsr(m0);
    set_x87(x0);
    let mut after = State::get(true);
    // a thread that was joined may still be listed for a moment
    for _ in 0..200 {
        if before.differs(&after) != Some("the number of threads") {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
        after = State::get(true);
    }
    unsafe { chdir(cwd.as_ptr()) };
    src.label_if(accepted == 0, "every call rejected");
    if let Some((i, t)) = said {
        return fail(format!("{}:output", items[i].name()), format!("{} writes {t:?} to standard output or error", items[i].show()));
    }
    if let Some((i, what)) = state {
        return fail(format!("{}:state", items[i].name()), format!("{} changes {what}", items[i].show()));
    }
    if let Some(what) = before.differs(&after) {
        return fail(format!("{}:state", names()), format!("{what} changed: {}", all()));
    }
    if grown.iter().all(|g| *g > 0) {
        return fail(
            format!("{}:memory", names()),
            format!("memory grows with every call, by {grown:?} bytes in batches of {}, {}, ... calls: {}", unit, 2 * unit, all()),
        );
    }
    if tasks && in_tasks.iter().all(|g| *g > 0) {
        return fail(
            format!("{}:task memory", names()),
            format!("memory grows with every task that makes these calls, by {in_tasks:?} bytes for 4, 8 and 16 tasks: {}", all()),
        );
    }
    Ok(())
}

fn sweep40(i: u64) -> Option<Vec<u64>> {
    // every function and block on its own
    let n = super::stlib::rows().len() as u64 + 28;
    match i / n {
        0..=5 => Some(vec![1, i % n, u64::MAX]),
        6..=8 => Some(vec![0, 0, i % n, u64::MAX]),
        9 => Some(vec![2, 0, i % n, u64::MAX]),
        10 | 11 => Some(vec![3, 0, i % n, u64::MAX]),
        _ => None,
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C40", run: c40, quick: 160_000, thorough: 20_000_000, sweep: Some(sweep40), configs: BOTH,
        assumptions: &["memory is counted at the Rust allocator, through which the library obtains it"],
        rule: "lists of up to 12 calls of 1 to 4 of the 333 functions and 28 function blocks repeated 16 times (now and then some 20000 times, or by 32 threads one after another), or one function with 256 different argument lists; in one of several time zones, 2 s pass between the repetitions; live heap, open files, threads, standard output and error, floating point control, signal mask and handlers, environment, locale, limits, working directory compared; non-trivial: at least two calls",
    }]
}
