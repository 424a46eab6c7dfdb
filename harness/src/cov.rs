//! Coverage feedback from the library (compiled with SanitizerCoverage by bin/rustc-wrap) and the current-case log.
#![allow(static_mut_refs)]

use crate::engine::{sext, Dict};

pub const RING: usize = 64;

static mut REGIONS: Vec<(*mut u8, usize)> = Vec::new();
static mut VIRGIN: Vec<Vec<u8>> = Vec::new();
static mut RECENT: [u64; RING] = [0; RING];
static mut RECENT_POS: usize = 0;
static mut CACHE: [u64; 8192] = [0; 8192];
static mut PENDING: Vec<(u64, u32)> = Vec::new();
static mut LOG: *mut u64 = std::ptr::null_mut();
static mut LOG_CAP: usize = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let n = stop as usize - start as usize;
    if n > 0 && !REGIONS.iter().any(|r| r.0 == start) {
        REGIONS.push((start, n));
        VIRGIN.push(vec![0; n]);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}

#[inline]
unsafe fn konst(v: u64, bits: u32) {
    if is_off() {
        return;
    }
    let h = ((v ^ (bits as u64) << 60).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 51) as usize;
    if CACHE[h] == v {
        return;
    }
    CACHE[h] = v;
    if PENDING.len() < 100_000 {
        PENDING.push((v, bits));
    }
}
/// room for everything that can be recorded, so that recording never allocates
pub fn reserve() {
    unsafe {
        if PENDING.capacity() < 100_001 {
            PENDING.reserve(100_001);
        }
    }
}
/// stops recording, for good: several threads are about to call the library
pub fn off() {
    OFF.store(true, std::sync::atomic::Ordering::SeqCst);
}
static OFF: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[inline]
fn is_off() -> bool {
    OFF.load(std::sync::atomic::Ordering::Relaxed)
}
#[inline]
unsafe fn operand(v: u64) {
    if is_off() {
        return;
    }
    RECENT_POS = (RECENT_POS + 1) % RING;
    RECENT[RECENT_POS] = v;
}

macro_rules! cmp {
    ($c:ident, $k:ident, $t:ty, $bits:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $c(a: $t, b: $t) {
            operand(a as u64);
            operand(b as u64);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $k(a: $t, _b: $t) {
            konst(a as u64, $bits);
        }
    };
}
cmp!(__sanitizer_cov_trace_cmp1, __sanitizer_cov_trace_const_cmp1, u8, 8);
cmp!(__sanitizer_cov_trace_cmp2, __sanitizer_cov_trace_const_cmp2, u16, 16);
cmp!(__sanitizer_cov_trace_cmp4, __sanitizer_cov_trace_const_cmp4, u32, 32);
cmp!(__sanitizer_cov_trace_cmp8, __sanitizer_cov_trace_const_cmp8, u64, 64);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    let n = *cases as usize;
    let bits = (*cases.add(1)).clamp(1, 64) as u32;
    for i in 0..n.min(64) {
        konst(*cases.add(2 + i), bits);
    }
}

pub fn recent(i: usize) -> u64 {
    unsafe { RECENT[i % RING] }
}

pub fn harvest(d: &mut Dict) {
    unsafe {
        for (v, bits) in PENDING.drain(..) {
            d.add_int(v);
            if bits < 64 {
                d.add_int(sext(v, bits) as u64);
            }
        }
    }
}

pub fn counters() -> usize {
    unsafe { REGIONS.iter().map(|r| r.1).sum() }
}
pub fn covered() -> usize {
    unsafe { VIRGIN.iter().map(|v| v.iter().filter(|b| **b != 0).count()).sum() }
}

pub fn begin_case() {
    unsafe {
        for (p, n) in REGIONS.iter() {
            std::ptr::write_bytes(*p, 0, *n);
        }
        if !LOG.is_null() {
            *LOG = 0;
        }
    }
}

/// true if the case reached a counter bucket not seen before
pub fn end_case() -> bool {
    let mut new = false;
    unsafe {
        for (k, (p, n)) in REGIONS.iter().enumerate() {
            let vir = &mut VIRGIN[k];
            let mut i = 0;
            while i < *n {
                if i + 8 <= *n && (*p.add(i) as usize) == 0 && std::ptr::read_unaligned(p.add(i) as *const u64) == 0 {
                    i += 8;
                    continue;
                }
                let c = *p.add(i);
                if c != 0 {
                    let b = match c {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128u8,
                    };
                    if vir[i] & b == 0 {
                        vir[i] |= b;
                        new = true;
                    }
                }
                i += 1;
            }
        }
    }
    new
}

/// `p` points to `cap` shared words: word 0 is the number of choices of the running case, the choices follow.
pub fn set_log(p: *mut u64, cap: usize) {
    unsafe {
        LOG = p;
        LOG_CAP = cap;
    }
}
#[inline]
pub fn log_choice(v: u64) {
    unsafe {
        if !LOG.is_null() {
            let n = *LOG as usize;
            if n + 1 < LOG_CAP {
                *LOG.add(n + 1) = v;
                *LOG = n as u64 + 1;
            }
        }
    }
}
