//! Memory with guard pages, the symbol table of the library, and what little of libc is needed.
#![allow(static_mut_refs)]

use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::c_void;

extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn alarm(seconds: u32) -> u32;
    fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
}

pub fn watchdog(seconds: u32) {
    unsafe {
        alarm(seconds);
    }
}

thread_local! {
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

include!(env!("HARNESS_SYMBOLS"));

pub fn symbol(name: &str) -> Option<usize> {
    static mut MAP: Option<HashMap<&'static str, usize>> = None;
    unsafe {
        if MAP.is_none() {
            MAP = Some(symbols().into_iter().collect());
        }
        MAP.as_ref().unwrap().get(name).copied()
    }
}

const PAGE: usize = 4096;

/// `size` usable bytes between two inaccessible pages.
pub struct Region {
    pub base: *mut u8,
    pub size: usize,
}
impl Region {
    pub fn new(size: usize) -> Region {
        let size = size.div_ceil(PAGE) * PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 2 * PAGE, 0, 0x22, -1, 0) as *mut u8;
            assert!(p as isize != -1, "mmap");
            assert!(mprotect(p.add(PAGE) as *mut c_void, size, 3) == 0);
            Region { base: p.add(PAGE), size }
        }
    }
    pub fn fill(&mut self, b: u8) {
        unsafe { std::ptr::write_bytes(self.base, b, self.size) }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.size) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.size) }
    }
}

/// One code unit of a string encoding.
pub trait Unit: Copy + PartialEq + Ord + std::fmt::Debug + 'static {
    const SUFFIX: &'static str;
    const SIZE: usize;
    fn encode(c: &[char]) -> Vec<Self>;
    fn zero() -> Self;
}
impl Unit for u8 {
    const SUFFIX: &'static str = "STRING";
    const SIZE: usize = 1;
    fn encode(c: &[char]) -> Vec<u8> {
        // own encoder, independent of std's
        let mut v = vec![];
        for c in c {
            let c = *c as u32;
            if c < 0x80 {
                v.push(c as u8)
            } else if c < 0x800 {
                v.push(0xC0 | (c >> 6) as u8);
                v.push(0x80 | (c & 63) as u8)
            } else if c < 0x10000 {
                v.push(0xE0 | (c >> 12) as u8);
                v.push(0x80 | ((c >> 6) & 63) as u8);
                v.push(0x80 | (c & 63) as u8)
            } else {
                v.push(0xF0 | (c >> 18) as u8);
                v.push(0x80 | ((c >> 12) & 63) as u8);
                v.push(0x80 | ((c >> 6) & 63) as u8);
                v.push(0x80 | (c & 63) as u8)
            }
        }
        v
    }
    fn zero() -> u8 {
        0
    }
}
impl Unit for u16 {
    const SUFFIX: &'static str = "WSTRING";
    const SIZE: usize = 2;
    fn encode(c: &[char]) -> Vec<u16> {
        let mut v = vec![];
        for c in c {
            let c = *c as u32;
            if c < 0x10000 {
                v.push(c as u16)
            } else {
                let c = c - 0x10000;
                v.push(0xD800 | (c >> 10) as u16);
                v.push(0xDC00 | (c & 0x3FF) as u16)
            }
        }
        v
    }
    fn zero() -> u16 {
        0
    }
}

/// Reusable guarded memory for string arguments and results.
pub struct Arena {
    srcs: Vec<Region>,
    src_used: Vec<Vec<u8>>,
    n: usize,
    dest: Region,
    dest_off: usize,
    /// part of the destination memory that this case may use and that is compared afterwards
    window: usize,
    image: Vec<u8>,
    /// no destination has been prepared yet in this case
    fresh: bool,
}
const DEST_SIZE: usize = 4 << 20;
const WINDOW: usize = 32 * 1024;
const SRC_SIZE: usize = 1024 * 1024;

impl Arena {
    pub fn get() -> &'static mut Arena {
        static mut A: Option<Arena> = None;
        unsafe {
            if A.is_none() {
                A = Some(Arena {
                    srcs: vec![],
                    src_used: vec![],
                    n: 0,
                    dest: Region::new(DEST_SIZE),
                    dest_off: 0,
                    window: WINDOW,
                    image: vec![],
                    fresh: true,
                });
            }
            A.as_mut().unwrap()
        }
    }
    /// forget what the previous case left behind
    pub fn new_case() {
        Arena::get().fresh = true;
    }
    pub fn reset(&mut self) -> &mut Self {
        self.n = 0;
        self.window = WINDOW;
        self
    }
    /// makes room for results of up to `bytes` bytes
    pub fn room(&mut self, bytes: usize) {
        if bytes > WINDOW / 2 {
            self.window = (bytes + WINDOW).div_ceil(PAGE) * PAGE;
            assert!(self.window <= DEST_SIZE);
        }
    }
    fn dest_bytes(&self) -> &[u8] {
        &self.dest.bytes()[..self.window]
    }
    /// raw bytes placed so that they end at an inaccessible page
    pub fn raw(&mut self, b: &[u8]) -> *const u8 {
        assert!(b.len() <= SRC_SIZE);
        if self.n == self.srcs.len() {
            self.srcs.push(Region::new(SRC_SIZE));
            self.src_used.push(vec![]);
        }
        let r = &mut self.srcs[self.n];
        let off = r.size - b.len();
        r.bytes_mut()[off..].copy_from_slice(b);
        // something non-zero directly before the string
        if off >= 8 {
            r.bytes_mut()[off - 8..off].copy_from_slice(b"\xA5\x41\xA5\x41\xA5\x41\xA5\x41");
        }
        self.src_used[self.n] = b.to_vec();
        self.n += 1;
        unsafe { r.base.add(off) }
    }
    /// a terminated string whose terminator is the last accessible unit
    pub fn put<U: Unit>(&mut self, units: &[U]) -> *const U {
        let mut b = Vec::with_capacity((units.len() + 1) * U::SIZE);
        let raw = unsafe { std::slice::from_raw_parts(units.as_ptr() as *const u8, units.len() * U::SIZE) };
        b.extend_from_slice(raw);
        b.resize(b.len() + U::SIZE, 0);
        self.raw(&b) as *const U
    }
    pub fn sources_intact(&self) -> Result<(), String> {
        for i in 0..self.n {
            let r = &self.srcs[i];
            let off = r.size - self.src_used[i].len();
            if r.bytes()[off..] != self.src_used[i][..] {
                return Err(format!("source argument {i} was modified"));
            }
            if off >= 8 && &r.bytes()[off - 8..off] != b"\xA5\x41\xA5\x41\xA5\x41\xA5\x41" {
                return Err(format!("memory before source argument {i} was modified"));
            }
        }
        Ok(())
    }
    /// prepare the destination: `dirty` None keeps what earlier calls of this case left there (digits, letters and
    /// half characters if there were none)
    pub fn dest<U: Unit>(&mut self, off: usize, dirty: Option<u8>) -> *mut U {
        let n = self.window;
        if let Some(b) = dirty {
            self.dest.bytes_mut()[..n].fill(b);
        } else if self.fresh {
            for c in self.dest.bytes_mut()[..n].chunks_mut(8) {
                c.copy_from_slice(&b"1Z9e-\xC37."[..c.len()]);
            }
        }
        self.fresh = false;
        self.dest_off = off * U::SIZE;
        self.image.clear();
        self.image.extend_from_slice(&self.dest.bytes()[..self.window]);
        unsafe { self.dest.base.add(self.dest_off) as *mut U }
    }
    /// the destination holds exactly `expect` and a terminator; everything else is as before, except that
    /// `slack` units from the start of the destination may hold anything behind the terminator
    pub fn check_dest<U: Unit>(&self, expect: &[U], slack: usize) -> Result<(), String> {
        let o = self.dest_off;
        let got = &self.dest_bytes()[o..o + (expect.len() + 1) * U::SIZE];
        let mut want: Vec<u8> =
            unsafe { std::slice::from_raw_parts(expect.as_ptr() as *const u8, expect.len() * U::SIZE) }.to_vec();
        want.resize(want.len() + U::SIZE, 0);
        if got != &want[..] {
            return Err(format!("result is {}, expected {}", show(&self.result::<U>()), show(expect)));
        }
        let b = self.dest_bytes();
        let end = (o + want.len()).max(o + slack * U::SIZE).min(b.len());
        if b[..o] != self.image[..o] {
            return Err("memory before the destination was modified".into());
        }
        if b[end..] != self.image[end..] {
            let at = (end..b.len()).find(|i| b[*i] != self.image[*i]).unwrap();
            return Err(format!("memory {} bytes after the end of the result was modified", at - end));
        }
        Ok(())
    }
    /// after a rejected call: nothing before the destination may have changed
    pub fn check_rejected(&self) -> Result<(), String> {
        let o = self.dest_off;
        if self.dest_bytes()[..o] != self.image[..o] {
            return Err("memory before the destination was modified".into());
        }
        Ok(())
    }
    pub fn result<U: Unit>(&self) -> Vec<U> {
        let n = (self.window - self.dest_off) / U::SIZE;
        let p = unsafe { self.dest.base.add(self.dest_off) } as *const U;
        let all = unsafe { std::slice::from_raw_parts(p, n) };
        all.iter().copied().take_while(|u| *u != U::zero()).take(200).collect()
    }
}

pub fn show<U: Unit>(u: &[U]) -> String {
    let mut s = String::new();
    if U::SIZE == 1 {
        let b: Vec<u8> = u.iter().map(|x| unsafe { *(x as *const U as *const u8) }).collect();
        s = format!("{:?}", String::from_utf8_lossy(&b));
        if std::str::from_utf8(&b).is_err() {
            s = format!("{:02x?}", b);
        }
    } else {
        let w: Vec<u16> = u.iter().map(|x| unsafe { *(x as *const U as *const u16) }).collect();
        match String::from_utf16(&w) {
            Ok(t) => s.push_str(&format!("w{t:?}")),
            Err(_) => s.push_str(&format!("{:04x?}", w)),
        }
    }
    s
}

// ------------------------------------------------------------------------------------------------ heap

/// counts the live heap of each thread
struct Counting;
thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static LIB: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static HIGH: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
/// the same of all threads together
static ALL: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
#[inline]
fn held(n: i64) {
    ALL.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    let l = LIVE.with(|c| {
        c.set(c.get() + n);
        c.get()
    });
    HIGH.with(|c| {
        if l > c.get() {
            c.set(l)
        }
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        held(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        held(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        ALL.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        LIVE.with(|c| c.set(c.get() - l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        held(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static HEAP: Counting = Counting;
/// bytes this thread has allocated and not freed
pub fn heap() -> i64 {
    LIVE.with(|c| c.get())
}
/// bytes the whole process has allocated and not freed
pub fn heap_of_all() -> i64 {
    ALL.load(std::sync::atomic::Ordering::SeqCst)
}
/// of these, what calls of the library left
pub fn lib_heap() -> i64 {
    LIB.with(|c| c.get())
}
pub fn add_lib_heap(n: i64) {
    LIB.with(|c| c.set(c.get() + n));
}
/// around a call of the library
pub fn peak_from(base: i64) {
    HIGH.with(|c| c.set(base))
}
pub fn peak_to(base: i64) {
    let n = HIGH.with(|c| c.get()) - base;
    PEAK.with(|c| c.set(c.get().max(n)))
}
pub fn reset_peak() {
    PEAK.with(|c| c.set(0))
}
/// the most memory a call of the library held on the way, since `reset_peak`
pub fn lib_peak() -> i64 {
    PEAK.with(|c| c.get())
}
