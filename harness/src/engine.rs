//! The property-based testing engine: recorded choice sequences, biased generation, coverage-guided mutation, shrinking.
//!
//! A property is `fn(&mut Src) -> Result<(), Fail>`. Everything random comes from `Src`, which records each choice, so a
//! case *is* its choice sequence: replay, mutation, shrinking and distinct-case counting all work on it.

use crate::cov;
use crate::sys;
use std::collections::{BTreeMap, HashSet};

pub struct Fail {
    /// stable signature of the failure (what fails, not with which values); known findings are keyed on it
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64 over a Weyl sequence with odd per-stream increment
        self.0 = self.0.wrapping_add(self.1 | 1);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// Values worth trying: literals of the library source, constants seen in its comparisons, recent comparison operands.
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    pub strs: Vec<Vec<char>>,
    seen: HashSet<u64>,
}
impl Dict {
    pub fn add_int(&mut self, v: u64) {
        if self.ints.len() < 4096 && self.seen.insert(v) {
            self.ints.push(v);
        }
    }
}

enum Mode {
    Random,
    /// replay these choices; afterwards zeros (false) or random ones (true)
    Replay { choices: Vec<u64>, random_tail: bool },
}

pub struct Src<'a> {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
    rng: Rng,
    dict: &'a Dict,
    pub describe: bool,
    pub desc: Vec<String>,
    pub labels: &'a mut BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// an expensive case: few of them are kept for mutation
    pub heavy: bool,
}

pub const MAX_CHOICES: usize = 60_000;

impl<'a> Src<'a> {
    /// One recorded choice in 0..=max; `gen` proposes a value in random mode.
    fn draw(&mut self, max: u64, gen: impl FnOnce(&mut Rng, &Dict) -> u64) -> u64 {
        let mut v = match &self.mode {
            Mode::Random => gen(&mut self.rng, self.dict),
            Mode::Replay { choices, random_tail } => {
                if self.pos < choices.len() {
                    choices[self.pos]
                } else if *random_tail {
                    gen(&mut self.rng, self.dict)
                } else {
                    0
                }
            }
        };
        if v > max {
            v = if max == u64::MAX { v } else { v % (max + 1) };
        }
        self.pos += 1;
        self.rec.push(v);
        cov::log_choice(v);
        v
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nt(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            self.desc.push(f());
        }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        self.draw(n - 1, |r, _| r.below(n))
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is the simple value
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(1, |r, _| (r.below(den) < num) as u64) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index by weight; index 0 is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        self.draw(w.len() as u64 - 1, |r, _| {
            let mut x = r.below(total);
            for (i, k) in w.iter().enumerate() {
                if x < *k {
                    return i as u64;
                }
                x -= k;
            }
            0
        }) as usize
    }
    /// length in 0..=max, mostly short
    pub fn len(&mut self, max: usize) -> usize {
        self.draw(max as u64, |r, d| match r.below(10) {
            0..=5 => r.below(7.min(max as u64 + 1)),
            6..=7 => r.below(20.min(max as u64 + 1)),
            8 => r.below(max as u64 + 1),
            _ => {
                // around interesting sizes
                let c = [15u64, 16, 31, 32, 63, 64, 79, 80, 81, 127, 128, 255, 256, 1023, 1024, max as u64];
                let mut v = c[r.below(c.len() as u64) as usize];
                if r.below(3) == 0 && !d.ints.is_empty() {
                    let k = d.ints[r.below(d.ints.len() as u64) as usize];
                    if k <= max as u64 {
                        v = k;
                    }
                }
                ((v + r.below(3)).saturating_sub(1)).min(max as u64)
            }
        }) as usize
    }
    /// a size in 0..=max, uniform or around a power of two
    pub fn draw_size(&mut self, max: usize) -> usize {
        self.draw(max as u64, |r, _| match r.below(2) {
            0 => r.below(max as u64 + 1),
            _ => ((1u64 << r.below(64 - (max as u64).leading_zeros() as u64)) + r.below(3)).saturating_sub(1).min(max as u64),
        }) as usize
    }
    /// a value of an integer type of `bits` bits, as raw two's complement bits (zero-extended)
    pub fn uint(&mut self, bits: u32) -> u64 {
        let max = mask(bits);
        self.draw(max, |r, d| biased(r, d, bits) & max)
    }
    pub fn sint(&mut self, bits: u32) -> i64 {
        let max = mask(bits);
        // zigzag, so that small magnitudes of either sign shrink to small choices
        let z = self.draw(max, |r, d| {
            let raw = biased(r, d, bits) & max;
            zigzag(sext(raw, bits)) & max
        });
        unzigzag(z)
    }
    pub fn range(&mut self, lo: i128, hi: i128) -> i128 {
        debug_assert!(lo <= hi && hi - lo <= u64::MAX as i128);
        let span = (hi - lo) as u64;
        let off = self.draw(span, |r, d| match r.below(8) {
            0 => r.below(span.saturating_add(1).min(8).max(1)),
            1 => span - r.below(span.saturating_add(1).min(8).max(1)),
            2 | 3 => {
                // a biased value if it lies inside, shifted so that dictionary constants are usable
                let v = sext(biased(r, d, 64), 64) as i128;
                if v >= lo && v <= hi {
                    (v - lo) as u64
                } else {
                    below_incl(r, span)
                }
            }
            _ => below_incl(r, span),
        });
        lo + off as i128
    }
    pub fn i64_any(&mut self) -> i64 {
        self.sint(64)
    }
    pub fn f64_any(&mut self) -> f64 {
        let k = self.weighted(&[22, 14, 12, 20, 12, 8, 12]);
        match k {
            0 => self.sint(16) as f64,
            1 => {
                let d = 10f64.powi(self.below(7) as i32);
                self.sint(40) as f64 / d
            }
            2 => {
                let neg = self.bool();
                let s = [
                    0.0,
                    0.5,
                    1.0,
                    f64::INFINITY,
                    f64::NAN,
                    f64::MIN_POSITIVE,
                    f64::MAX,
                    f64::from_bits(1),
                    std::f64::consts::PI,
                    std::f64::consts::FRAC_PI_2,
                    std::f64::consts::E,
                    4503599627370496.0,
                    4503599627370495.5,
                    9007199254740992.0,
                    9223372036854775808.0,
                    18446744073709551616.0,
                    0.49999999999999994,
                    1e14,
                    1e6,
                    f64::from_bits(0x7FF0_0000_0000_0001),
                ];
                let v = *self.pick(&s);
                if neg {
                    -v
                } else {
                    v
                }
            }
            3 => {
                // random exponent near 0, random mantissa of random density
                let e = self.range(0, 160) as i64 - 80;
                let m = self.uint(52);
                let s = self.below(2);
                f64::from_bits((s << 63) | (((1023 + e) as u64) << 52) | m)
            }
            4 => f64::from_bits(self.uint(64)),
            5 => {
                // half-way cases
                let i = self.sint(50);
                i as f64 + 0.5
            }
            _ => {
                let n = self.dict.floats.len().max(1) as u64;
                let i = self.below(n) as usize;
                let v = self.dict.floats.get(i).copied().unwrap_or(0.0);
                let t = self.below(4);
                let s = if self.bool() { -1.0 } else { 1.0 };
                s * match t {
                    0 => v,
                    1 => f64::from_bits(v.to_bits().wrapping_add(1)),
                    2 => f64::from_bits(v.to_bits().wrapping_sub(1)),
                    _ => v * 10f64.powi(self.below(7) as i32 - 3),
                }
            }
        }
    }
    pub fn f32_any(&mut self) -> f32 {
        let k = self.weighted(&[22, 14, 12, 20, 14, 8, 12]);
        match k {
            0 => self.sint(12) as f32,
            1 => {
                let d = 10f64.powi(self.below(5) as i32);
                (self.sint(24) as f64 / d) as f32
            }
            2 => {
                let neg = self.bool();
                let s = [
                    0.0,
                    0.5,
                    1.0,
                    f32::INFINITY,
                    f32::NAN,
                    f32::MIN_POSITIVE,
                    f32::MAX,
                    f32::from_bits(1),
                    std::f32::consts::PI,
                    std::f32::consts::FRAC_PI_2,
                    std::f32::consts::E,
                    8388608.0,
                    8388607.5,
                    16777216.0,
                    9223372036854775808.0,
                    18446744073709551616.0,
                    0.49999997,
                    1e6,
                    f32::from_bits(0x7F80_0001),
                ];
                let v = *self.pick(&s);
                if neg {
                    -v
                } else {
                    v
                }
            }
            3 => {
                let e = self.range(0, 100) as i64 - 50;
                let m = self.uint(23);
                let s = self.below(2);
                f32::from_bits(((s << 31) | (((127 + e) as u64) << 23) | m) as u32)
            }
            4 => f32::from_bits(self.uint(32) as u32),
            5 => self.sint(22) as f32 + 0.5,
            _ => {
                let n = self.dict.floats.len().max(1) as u64;
                let i = self.below(n) as usize;
                let v = self.dict.floats.get(i).copied().unwrap_or(0.0) as f32;
                let t = self.below(3);
                let s = if self.bool() { -1.0 } else { 1.0 };
                s * match t {
                    0 => v,
                    1 => f32::from_bits(v.to_bits().wrapping_add(1)),
                    _ => f32::from_bits(v.to_bits().wrapping_sub(1)),
                }
            }
        }
    }
    /// one character, never NUL
    pub fn char(&mut self, style: usize) -> char {
        let k = match style {
            0 => 0,                                      // tiny alphabet
            1 => self.weighted(&[1, 9]),                 // ASCII
            _ => self.weighted(&[16, 12, 8, 8, 8, 8, 3]), // anything
        };
        let c = match k {
            0 => b'a' as u32 + self.below(3) as u32,
            1 => {
                let v = self.draw(126, |r, _| 95u64.min(31 + r.below(96)) + r.below(2)) as u32;
                1 + v
            }
            2 => 0x80 + self.below(0x800 - 0x80) as u32,
            3 => {
                let v = 0x800 + self.below(0x10000 - 0x800 - 0x800) as u32;
                if v >= 0xD800 {
                    v + 0x800
                } else {
                    v
                }
            }
            4 => 0x10000 + self.below(0x100000) as u32,
            6 => {
                // a code point that the library mentions or compares with
                let v = self.draw(0x10FFFF, |r, d| {
                    if d.ints.is_empty() {
                        return 0;
                    }
                    let k = d.ints[r.below(d.ints.len() as u64) as usize];
                    (match r.below(8) {
                        0 => k.wrapping_add(1),
                        1 => k.wrapping_sub(1),
                        _ => k,
                    }) & 0x1F_FFFF
                }) as u32;
                v.max(1)
            }
            _ => {
                const S: [u32; 24] = [
                    0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF, 0x301,
                    0xDF, 0x130, 0x20, 0x30, 0x23, 0x0A, 1, 0x1F600, 0xFFFE, 0x100, 0x10FFFE,
                ];
                *self.pick(&S)
            }
        };
        char::from_u32(c).unwrap_or('a')
    }
    /// a string without NUL of at most `max` characters
    pub fn chars(&mut self, max: usize) -> Vec<char> {
        let style = self.weighted(&[3, 2, 5, 1]);
        if style == 3 {
            // a string literal of the library, possibly embedded
            let n = self.dict.strs.len().max(1) as u64;
            let i = self.below(n) as usize;
            let mut v = self.dict.strs.get(i).cloned().unwrap_or_default();
            let pre = self.below(3) as usize;
            for _ in 0..pre {
                let c = self.char(2);
                v.insert(0, c);
            }
            let post = self.below(3) as usize;
            for _ in 0..post {
                let c = self.char(2);
                v.push(c);
            }
            v.truncate(max);
            return v;
        }
        let n = self.len(max);
        (0..n).map(|_| self.char(style)).collect()
    }
    /// changes a text a little, so that shortcuts (a part of it, its length, a checksum) take it for the same
    pub fn vary(&mut self, t: &mut Vec<char>) {
        let n = t.len();
        if n == 0 {
            let c = self.char(2);
            t.push(c);
            return;
        }
        let mut place = |src: &mut Self| match src.below(4) {
            0 => n - 1 - src.below(n.min(3) as u64) as usize,
            1 => src.below(n.min(3) as u64) as usize,
            2 => src.draw_size(n - 1),
            _ => src.below(n as u64) as usize,
        };
        let put = |t: &mut Vec<char>, i: usize, c: i64| {
            if let Some(c) = u32::try_from(c).ok().and_then(char::from_u32).filter(|c| *c != '\0') {
                t[i] = c;
            }
        };
        let i = place(self);
        match self.below(8) {
            0 | 1 => {
                let d = if self.bool() { 1 } else { -1 };
                let c = t[i] as i64 + d;
                put(t, i, c);
            }
            2 => {
                // a bit
                let top = if (t[i] as u32) < 0x80 { 7 } else { 16 };
                let c = t[i] as i64 ^ 1 << self.below(top);
                put(t, i, c);
            }
            3 => {
                let j = place(self);
                t.swap(i, j);
            }
            4 => {
                // the same sum, or the same polynomial
                let j = if self.bool() && i + 1 < n { i + 1 } else { place(self) };
                let m = *self.pick(&[1, 31, 33, 37, 131, 256, 257]);
                let s = if self.bool() { 1 } else { -1 };
                let (a, b) = (t[i] as i64 + s, t[j] as i64 - s * m);
                let ok = |c: i64| u32::try_from(c).ok().and_then(char::from_u32).is_some_and(|c| c != '\0');
                if i != j && ok(a) && ok(b) && (a < 128) == ((t[i] as u32) < 128) && (b < 128) == ((t[j] as u32) < 128) {
                    put(t, i, a);
                    put(t, j, b);
                }
            }
            5 => {
                t.remove(i);
            }
            6 => {
                let c = if self.bool() { t[i] } else { self.char(2) };
                t.insert(i, c);
            }
            _ => t[i] = self.char(2),
        }
    }
    /// a count around the limits of 8 and 16 bits, or any one up to 70000
    pub fn big_count(&mut self) -> usize {
        self.heavy = true;
        self.draw(70_000, |r, d| {
            let c = [255u64, 256, 32767, 32768, 65535, 65536];
            match r.below(4) {
                0 => r.below(70_001),
                1 if !d.ints.is_empty() => {
                    let k = d.ints[r.below(d.ints.len() as u64) as usize];
                    if k < 70_000 { k + r.below(2) } else { r.below(3000) }
                }
                _ => c[r.below(6) as usize] + r.below(4),
            }
        }) as usize
    }
    /// `chars`, now and then a long text of a few repeated patterns, of at most `big` characters
    pub fn text(&mut self, max: usize, big: usize) -> Vec<char> {
        if !self.chance(1, 12) {
            return self.chars(max);
        }
        let cap = match self.weighted(&[60, 50, 40, 3]) {
            0 => 120,
            1 => 600,
            2 => 2100,
            _ => usize::MAX,
        }
        .min(big);
        let mut v: Vec<char> = vec![];
        let segs = 1 + self.below(4);
        for _ in 0..segs {
            let style = self.weighted(&[2, 4, 3]);
            let k = 1 + self.below(4);
            let pat: Vec<char> = (0..k).map(|_| self.char(style)).collect();
            let n = self.draw(cap as u64, |r, d| match r.below(3) {
                0 => r.below(12),
                1 => r.below(cap as u64 + 1),
                _ => {
                    let c = [16u64, 24, 32, 48, 64, 80, 100, 128, 255, 256, 511, 512, 1000, 1024, 2047, 2048, 4096, 32767, 32768, 65535, 65536];
                    let mut v = c[r.below(c.len() as u64) as usize];
                    if r.below(3) == 0 && !d.ints.is_empty() {
                        let k = d.ints[r.below(d.ints.len() as u64) as usize];
                        if k <= cap as u64 {
                            v = k;
                        }
                    }
                    (v + r.below(3)).min(cap as u64)
                }
            }) as usize;
            v.extend(pat.iter().cycle().take(n));
            if v.len() >= cap {
                v.truncate(cap);
                break;
            }
        }
        v
    }
}

pub fn mask(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}
pub fn sext(v: u64, bits: u32) -> i64 {
    let s = 64 - bits;
    ((v << s) as i64) >> s
}
fn zigzag(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
fn unzigzag(z: u64) -> i64 {
    ((z >> 1) as i64) ^ -((z & 1) as i64)
}
fn below_incl(r: &mut Rng, span: u64) -> u64 {
    if span == u64::MAX {
        r.next()
    } else {
        r.below(span + 1)
    }
}

fn biased(r: &mut Rng, d: &Dict, bits: u32) -> u64 {
    let small = |r: &mut Rng| -> u64 {
        let v = r.below(20);
        if r.below(3) == 0 {
            (v as i64).wrapping_neg() as u64
        } else {
            v
        }
    };
    match r.below(20) {
        0..=4 => small(r),
        5..=6 => {
            let p = (1u64 << r.below(bits as u64)).wrapping_add(r.below(3)).wrapping_sub(1);
            if r.below(2) == 0 {
                p
            } else {
                (p as i64).wrapping_neg() as u64
            }
        }
        7..=8 => {
            // limits of the type and of the narrower types
            let b = [bits, bits, 64, 32, 16, 8][r.below(6) as usize].min(bits);
            let base = [0u64, mask(b), mask(b) >> 1, (mask(b) >> 1) + 1, ((mask(b) >> 1) as i64).wrapping_neg() as u64]
                [r.below(5) as usize];
            base.wrapping_add(r.below(5)).wrapping_sub(2)
        }
        9..=11 => {
            let k = if r.below(4) == 0 { cov::recent(r.below(cov::RING as u64) as usize) } else {
                if d.ints.is_empty() { 0 } else { d.ints[r.below(d.ints.len() as u64) as usize] }
            };
            let k = match r.below(8) {
                0 => k.wrapping_add(1),
                1 => k.wrapping_sub(1),
                2 => (k as i64).wrapping_neg() as u64,
                _ => k,
            };
            k
        }
        12..=13 => {
            let mut p = 1u64;
            for _ in 0..r.below(20) {
                p = p.wrapping_mul(10);
            }
            let k = p.wrapping_mul(1 + r.below(20));
            let k = match r.below(4) {
                0 => k.wrapping_add(1),
                1 => k.wrapping_sub(1),
                _ => k,
            };
            if r.below(2) == 0 {
                k
            } else {
                (k as i64).wrapping_neg() as u64
            }
        }
        14..=17 => {
            let n = 1 + r.below(bits as u64) as u32;
            let v = r.next() & mask(n);
            if r.below(2) == 0 {
                v
            } else {
                (v as i64).wrapping_neg() as u64
            }
        }
        _ => r.next(),
    }
}

// ------------------------------------------------------------------------------------------------ running

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Src) -> Res,
    /// relative cost: cases in the quick tier per configuration (all shards together)
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// deterministic choice sequences explored in addition (exhaustive sub-spaces); None ends the sweep
    pub sweep: Option<fn(u64) -> Option<Vec<u64>>>,
    pub configs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

static SHRINKING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// a failing case is being made smaller: what is measured should stay clear of its bound
pub fn shrinking() -> bool {
    SHRINKING.load(std::sync::atomic::Ordering::Relaxed)
}

pub struct Violation {
    pub sig: String,
    pub msg: String,
    pub choices: Vec<u64>,
    pub desc: Vec<String>,
    /// the cases before it, the latest last, and the case as it was found
    pub history: Vec<Vec<u64>>,
}

pub struct Runner {
    recent: std::collections::VecDeque<Vec<u64>>,
    pub dict: Dict,
    pub labels: BTreeMap<&'static str, u64>,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub corpus: Vec<Vec<u64>>,
    heavy: bool,
    heavy_kept: u32,
    pub known: Vec<String>,
    pub known_hits: BTreeMap<String, (u64, String)>,
    pub shrinks: u64,
    /// no new cases after this instant (seconds of the real monotonic clock)
    pub deadline: u64,
    execs: u64,
    pub watch: u32,
}

fn hash(v: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ v.len() as u64;
    for x in v {
        h ^= *x;
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

impl Runner {
    pub fn new(dict: Dict, known: Vec<String>) -> Runner {
        Runner {
            recent: Default::default(),
            dict,
            labels: BTreeMap::new(),
            evaluations: 0,
            nontrivial: HashSet::new(),
            samples: vec![],
            corpus: vec![],
            heavy: false,
            heavy_kept: 0,
            known,
            known_hits: BTreeMap::new(),
            shrinks: 0,
            deadline: u64::MAX,
            execs: 0,
            watch: 60,
        }
    }

    fn exec(&mut self, p: &Prop, mode: Mode, rng: Rng, describe: bool) -> (Res, Vec<u64>, Vec<String>, bool) {
        if self.execs % 64 == 0 || shrinking() {
            // watchdog: a call that never returns ends the process with SIGALRM
            sys::watchdog(self.watch);
        }
        self.execs += 1;
        cov::begin_case();
        crate::sys::Arena::new_case();
        let mut src = Src {
            mode,
            pos: 0,
            rec: vec![],
            rng,
            dict: &self.dict,
            describe,
            desc: vec![],
            labels: &mut self.labels,
            nontrivial: false,
            heavy: false,
        };
        let r = (p.run)(&mut src);
        self.heavy = src.heavy;
        let (rec, desc, nt) = (src.rec, src.desc, src.nontrivial);
        (r, rec, desc, nt)
    }

    /// replay a choice sequence (zeros after its end)
    pub fn replay(&mut self, p: &Prop, choices: &[u64], describe: bool) -> (Res, Vec<u64>, Vec<String>) {
        let saved = if describe { self.labels.clone() } else { BTreeMap::new() };
        let (r, rec, desc, _) =
            self.exec(p, Mode::Replay { choices: choices.to_vec(), random_tail: false }, Rng::new(0), describe);
        if describe {
            self.labels = saved;
        }
        (r, rec, desc)
    }

    fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }

    fn account(&mut self, p: &Prop, r: &Res, rec: Vec<u64>, nt: bool) -> Option<Vec<u64>> {
        self.evaluations += 1;
        if rec.len() <= 4000 {
            if self.recent.len() == 300 {
                self.recent.pop_front();
            }
            self.recent.push_back(rec.clone());
        }
        if nt {
            let heavy = self.heavy;
            let fresh = self.nontrivial.len() < 4_000_000 && self.nontrivial.insert(hash(&rec));
            let n = self.nontrivial.len();
            if fresh && (n == 1 || n == 7 || n == 50 || n == 400 || n == 3000 || n == 20_000) && r.is_ok() {
                let (_, _, d) = self.replay(p, &rec, true);
                self.samples.push(d.join("; "));
                self.heavy = heavy;
            }
        }
        let new_cov = cov::end_case();
        match r {
            Ok(()) => {
                if new_cov && rec.len() <= 4000 {
                    if self.heavy {
                        if self.heavy_kept == 3 {
                            return None;
                        }
                        self.heavy_kept += 1;
                    }
                    if self.corpus.len() < 3000 {
                        self.corpus.push(rec);
                    }
                }
                None
            }
            Err(f) => {
                if self.known.iter().any(|k| *k == f.sig) {
                    let e = self.known_hits.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                    e.0 += 1;
                    None
                } else {
                    Some(rec)
                }
            }
        }
    }

    fn mutate(&self, rng: &mut Rng) -> Vec<u64> {
        let mut v = self.corpus[rng.below(self.corpus.len() as u64) as usize].clone();
        let n = 1 + rng.below(4);
        for _ in 0..n {
            if v.is_empty() {
                break;
            }
            let i = rng.below(v.len() as u64) as usize;
            match rng.below(12) {
                0..=3 => v[i] = biased(rng, &self.dict, 64),
                4 => v[i] = v[i].wrapping_add(1),
                5 => v[i] = v[i].wrapping_sub(1),
                6 => v[i] = zigzag(biased(rng, &self.dict, 64) as i64),
                7 => {
                    v.truncate(i);
                }
                8 => {
                    let j = rng.below(v.len() as u64) as usize;
                    v[i] = v[j];
                }
                9 => {
                    // repeat a block
                    let l = (1 + rng.below(6) as usize).min(v.len() - i);
                    let blk: Vec<u64> = v[i..i + l].to_vec();
                    for (k, x) in blk.into_iter().enumerate() {
                        v.insert(i + k, x);
                    }
                }
                10 => {
                    // splice with another entry
                    let o = &self.corpus[rng.below(self.corpus.len() as u64) as usize];
                    if !o.is_empty() {
                        let j = rng.below(o.len() as u64) as usize;
                        v.truncate(i);
                        v.extend_from_slice(&o[j..]);
                    }
                }
                _ => v[i] ^= 1 << rng.below(64),
            }
        }
        v
    }

    pub fn run(&mut self, p: &Prop, seed: u64, shard: u64, shards: u64, cases: u64) -> Option<Violation> {
        let mut rng = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ (shard << 32) ^ fnv(p.id));
        if let Some(sweep) = p.sweep {
            let mut i = shard;
            while let Some(c) = sweep(i) {
                // a sequence that ends in the largest number continues at random
                let open = c.last() == Some(&u64::MAX);
                let choices = if open { c[..c.len() - 1].to_vec() } else { c };
                let tail = Rng::new(seed ^ i << 20 ^ fnv(p.id));
                let (r, rec, _, nt) = self.exec(p, Mode::Replay { choices, random_tail: open }, tail, false);
                if let Some(rec) = self.account(p, &r, rec, nt) {
                    return Some(self.shrink(p, rec, r.err().unwrap()));
                }
                *self.labels.entry("sweep case").or_insert(0) += 1;
                i += shards;
            }
        }
        for i in 0..cases {
            if i % 64 == 0 {
                cov::harvest(&mut self.dict);
                if crate::clock::real_seconds() >= self.deadline {
                    self.label("stopped at the time limit");
                    break;
                }
            }
            let case_rng = Rng::new(rng.next());
            let mode = if !self.corpus.is_empty() && i > cases / 20 && rng.below(5) < 2 {
                let m = self.mutate(&mut rng);
                Mode::Replay { choices: m, random_tail: true }
            } else {
                Mode::Random
            };
            let (r, rec, _, nt) = self.exec(p, mode, case_rng, false);
            if let Some(rec) = self.account(p, &r, rec, nt) {
                return Some(self.shrink(p, rec, r.err().unwrap()));
            }
        }
        None
    }

    fn still_fails(&mut self, p: &Prop, c: &[u64], sig: &str) -> Option<Vec<u64>> {
        self.shrinks += 1;
        let (r, rec, _) = self.replay(p, c, false);
        match r {
            Err(f) if f.sig == sig => Some(rec),
            _ => None,
        }
    }

    pub fn shrink(&mut self, p: &Prop, choices: Vec<u64>, f: Fail) -> Violation {
        let sig = f.sig.clone();
        let history: Vec<Vec<u64>> = self.recent.iter().cloned().collect();
        SHRINKING.store(true, std::sync::atomic::Ordering::Relaxed);
        let mut best = match self.still_fails(p, &choices, &sig) {
            Some(rec) => trim(rec),
            None => {
                // not reproducible from its choices (a wall-clock property): report as found
                return Violation { sig, msg: f.msg, choices, desc: vec!["(not reproduced on replay)".into()], history };
            }
        };
        let mut budget = 6000u64;
        let stop = crate::clock::real_seconds() + 90;
        loop {
            let mut improved = false;
            // delete blocks
            let mut size = best.len().max(1);
            while size >= 1 {
                let mut i = 0;
                while i + size <= best.len() && budget > 0 {
                    if crate::clock::real_seconds() > stop {
                        budget = 1;
                    }
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    budget -= 1;
                    match self.still_fails(p, &c, &sig) {
                        Some(rec) if smaller(&trim(rec.clone()), &best) => {
                            best = trim(rec);
                            improved = true;
                        }
                        _ => i += size,
                    }
                }
                size /= 2;
            }
            // minimise single choices
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let v = best[i];
                let mut cands = vec![0u64, v / 2, v.saturating_sub(1), v.saturating_sub(2)];
                let mut sh = v;
                while sh > 1 {
                    sh >>= 4;
                    cands.push(v - sh.min(v));
                    cands.push(sh);
                }
                cands.sort_unstable();
                cands.dedup();
                for c0 in cands {
                    if c0 >= best.get(i).copied().unwrap_or(0) || budget == 0 {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = c0;
                    budget -= 1;
                    if crate::clock::real_seconds() > stop {
                        budget = 0;
                    }
                    if let Some(rec) = self.still_fails(p, &c, &sig) {
                        let t = trim(rec);
                        if smaller(&t, &best) {
                            best = t;
                            improved = true;
                            break;
                        }
                    }
                }
                i += 1;
            }
            if !improved || budget == 0 {
                break;
            }
        }
        let (r, _, desc) = self.replay(p, &best, true);
        let msg = r.err().map(|f| f.msg).unwrap_or(f.msg);
        Violation { sig, msg, choices: best, desc, history }
    }
}

fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn smaller(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}
pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Calls into the library: a panic is the library rejecting the call.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    sys::IN_LIB.with(|c| c.set(true));
    let held = sys::heap();
    sys::peak_from(held);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    sys::peak_to(held);
    sys::IN_LIB.with(|c| c.set(false));
    let r = r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    });
    // what the call left allocated (its own result and the message above aside)
    sys::add_lib_heap(sys::heap() - held - r.as_ref().err().map_or(0, |s| s.capacity() as i64));
    r
}

/// Typed lookup of an exported symbol of the library; a missing one fails the property.
#[macro_export]
macro_rules! sym {
    ($name:expr, fn($($a:ty),*) $(-> $r:ty)?) => {{
        let name: &str = $name;
        match $crate::sys::symbol(name) {
            Some(a) => unsafe { std::mem::transmute::<usize, unsafe extern "C-unwind" fn($($a),*) $(-> $r)?>(a) },
            None => return $crate::engine::fail(format!("missing:{name}"), format!("the library exports no symbol {name}")),
        }
    }};
}
