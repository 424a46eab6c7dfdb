//! C24 selection, C25 shifts, C29 arithmetic.

use super::BOTH;
use crate::bf::{self, Bf};
use crate::engine::*;
use crate::sym;
use crate::sys::{symbol, Arena};

// ------------------------------------------------------------------------------------------------- C24

/// name, bits, kind: 'u', 's', 'f'
pub const ELEM: [(&str, u32, char); 21] = [
    ("BOOL", 8, 'b'),
    ("BYTE", 8, 'u'),
    ("CHAR", 8, 'u'),
    ("WORD", 16, 'u'),
    ("WCHAR", 16, 'u'),
    ("DWORD", 32, 'u'),
    ("LWORD", 64, 'u'),
    ("SINT", 8, 's'),
    ("USINT", 8, 'u'),
    ("INT", 16, 's'),
    ("UINT", 16, 'u'),
    ("DINT", 32, 's'),
    ("UDINT", 32, 'u'),
    ("LINT", 64, 's'),
    ("ULINT", 64, 'u'),
    ("DATE", 64, 's'),
    ("DATE_AND_TIME", 64, 's'),
    ("TIME", 64, 's'),
    ("TIME_OF_DAY", 64, 's'),
    ("REAL", 32, 'f'),
    ("LREAL", 64, 'f'),
];

/// an operand as raw bits, and its place in the order of the type
fn key(bits: u32, kind: char, raw: u64) -> i128 {
    match (kind, bits) {
        ('s', _) => sext(raw, bits) as i128,
        ('f', w) => {
            // order of IEEE numbers through their bit patterns, both zeros equal
            let raw = raw & mask(w);
            let mag = (raw & mask(w - 1)) as i128;
            if raw >> (w - 1) != 0 {
                -mag
            } else {
                mag
            }
        }
        _ => raw as i128,
    }
}
fn operand(src: &mut Src, bits: u32, kind: char) -> u64 {
    match (kind, bits) {
        ('b', _) => src.below(2),
        ('s', _) => src.sint(bits) as u64 & mask(bits),
        ('f', 32) => {
            let v = src.f32_any();
            if v.is_nan() { 0 } else { v.to_bits() as u64 }
        }
        ('f', _) => {
            let v = src.f64_any();
            if v.is_nan() { 0 } else { v.to_bits() }
        }
        _ => src.uint(bits),
    }
}
/// numeric value for messages
fn show_raw(bits: u32, kind: char, raw: u64) -> String {
    match (kind, bits) {
        ('f', 32) => format!("{:?}", f32::from_bits(raw as u32)),
        ('f', _) => format!("{:?}", f64::from_bits(raw)),
        ('s', _) => sext(raw, bits).to_string(),
        _ => raw.to_string(),
    }
}

fn c24(src: &mut Src) -> Res {
    let (ty, bits, kind) = *src.pick(&ELEM);
    let op = src.below(3);
    // neighbours of an earlier operand make close decisions
    let near = |src: &mut Src, v: u64| -> u64 {
        let d = src.below(3);
        let v = match d {
            0 => v,
            1 => v.wrapping_add(1),
            _ => v.wrapping_sub(1),
        } & mask(bits);
        let bad = match (kind, bits) {
            ('b', _) => v > 1,
            ('f', 32) => f32::from_bits(v as u32).is_nan(),
            ('f', _) => f64::from_bits(v).is_nan(),
            _ => false,
        };
        if bad { 0 } else { v }
    };
    macro_rules! scalar_call {
        ($name:expr, $a:expr, |$f:ident, $t:ident, $p:ident| $e:expr) => {{
            // call with the proper parameter type, results as raw bits
            let $p = $a;
            match (kind, bits) {
                ('f', 32) => { type $t = f32; go!($name, f32, |x: u64| f32::from_bits(x as u32), |r: f32| r.to_bits() as u64, $p) }
                ('f', _) => { type $t = f64; go!($name, f64, |x: u64| f64::from_bits(x), |r: f64| r.to_bits(), $p) }
                ('s', 8) => go!($name, i8, |x: u64| x as i8, |r: i8| r as u8 as u64, $p),
                ('s', 16) => go!($name, i16, |x: u64| x as i16, |r: i16| r as u16 as u64, $p),
                ('s', 32) => go!($name, i32, |x: u64| x as i32, |r: i32| r as u32 as u64, $p),
                ('s', _) => go!($name, i64, |x: u64| x as i64, |r: i64| r as u64, $p),
                (_, 8) => go!($name, u8, |x: u64| x as u8, |r: u8| r as u64, $p),
                (_, 16) => go!($name, u16, |x: u64| x as u16, |r: u16| r as u64, $p),
                (_, 32) => go!($name, u32, |x: u64| x as u32, |r: u32| r as u64, $p),
                _ => go!($name, u64, |x: u64| x, |r: u64| r, $p),
            }
        }};
    }
    if op == 2 {
        let name = format!("LIMIT__{ty}");
        let mut v = [operand(src, bits, kind), 0, 0];
        for i in 1..3 {
            v[i] = if src.chance(1, 2) { near(src, v[i - 1]) } else { operand(src, bits, kind) };
        }
        // bounds in order
        let (mut lo, x, mut hi) = (v[0], v[1], v[2]);
        if key(bits, kind, lo) > key(bits, kind, hi) {
            std::mem::swap(&mut lo, &mut hi);
        }
        let (kl, kx, kh) = (key(bits, kind, lo), key(bits, kind, x), key(bits, kind, hi));
        let want = kx.clamp(kl, kh);
        macro_rules! go {
            ($name:expr, $t:ty, $into:expr, $from:expr, $p:ident) => {{
                let f = sym!($name, fn($t, $t, $t) -> $t);
                let (a, b, c): ($t, $t, $t) = ($into($p[0]), $into($p[1]), $into($p[2]));
                call(|| unsafe { f(a, b, c) }).map($from)
            }};
        }
        let args = [lo, x, hi];
        let got: Result<u64, String> = scalar_call!(&name, args, |f, T, p| ());
        let s = |r| show_raw(bits, kind, r);
        let ctx = format!("{name}({}, {}, {})", s(lo), s(x), s(hi));
        src.label_if(kx < kl, "below the range");
        src.label_if(kx > kh, "above the range");
        src.nt(kl != kh && kx != kl);
        src.note(|| ctx.clone());
        return match got {
            Ok(g) if key(bits, kind, g) == want => Ok(()),
            Ok(g) => fail(format!("LIMIT__{ty}:value"), format!("{ctx} = {}", s(g))),
            Err(e) => fail(format!("LIMIT__{ty}:rejected"), format!("{ctx} was rejected: {e}")),
        };
    }
    let name = format!("{}__{ty}", if op == 0 { "MAX" } else { "MIN" });
    // rarely a very long list: a few values over and over, and the extreme one anywhere
    let long = src.chance(1, 400);
    let n = if long { src.big_count() } else { src.len(60) };
    let mut vals: Vec<u64> = vec![];
    if long {
        let k = 1 + src.below(4) as usize;
        let pat: Vec<u64> = (0..k).map(|_| operand(src, bits, kind)).collect();
        vals.extend(pat.iter().cycle().take(n));
        for _ in 0..src.below(3) {
            let v = operand(src, bits, kind);
            if n > 0 {
                let i = src.below(n as u64) as usize;
                vals[if src.bool() { i } else { n - 1 - i.min(20) }] = v;
            }
        }
        src.label("list of thousands");
    }
    while vals.len() < n {
        let v = if !vals.is_empty() && src.chance(1, 3) {
            let k = src.below(vals.len() as u64) as usize;
            near(src, vals[k])
        } else {
            operand(src, bits, kind)
        };
        vals.push(v);
    }
    let mut b = vec![];
    for v in &vals {
        b.extend_from_slice(&v.to_le_bytes()[..bits as usize / 8]);
    }
    let ar = Arena::get().reset();
    let p = ar.raw(&b);
    let addr = match symbol(&name) {
        Some(a) => a,
        None => return fail(format!("missing:{name}"), format!("the library exports no symbol {name}")),
    };
    macro_rules! list {
        ($t:ty, $from:expr) => {{
            let f: unsafe extern "C-unwind" fn(u32, *const $t) -> $t = unsafe { std::mem::transmute(addr) };
            call(|| unsafe { f(n as u32, p as *const $t) }).map($from)
        }};
    }
    let got: Result<u64, String> = match (kind, bits) {
        ('f', 32) => list!(f32, |r: f32| r.to_bits() as u64),
        ('f', _) => list!(f64, |r: f64| r.to_bits()),
        ('s', 8) => list!(i8, |r: i8| r as u8 as u64),
        ('s', 16) => list!(i16, |r: i16| r as u16 as u64),
        ('s', 32) => list!(i32, |r: i32| r as u32 as u64),
        ('s', _) => list!(i64, |r: i64| r as u64),
        (_, 8) => list!(u8, |r: u8| r as u64),
        (_, 16) => list!(u16, |r: u16| r as u64),
        (_, 32) => list!(u32, |r: u32| r as u64),
        _ => list!(u64, |r: u64| r),
    };
    let keys = vals.iter().map(|v| key(bits, kind, *v));
    let want = if op == 0 { keys.max() } else { keys.min() };
    let s = |r: &u64| show_raw(bits, kind, *r);
    let ctx = || {
        if n <= 60 {
            return format!("{name}({})", vals.iter().map(s).collect::<Vec<_>>().join(", "));
        }
        let at = vals.iter().position(|v| Some(key(bits, kind, *v)) == want).unwrap_or(0);
        format!("{name} of {n} operands starting with {}, the extreme one {} at {at}", s(&vals[0]), s(&vals[at]))
    };
    src.nt(n >= 2 && vals.iter().any(|v| *v != vals[0]) || n == 0);
    src.label_if(n == 0, "empty list");
    src.label_if(n > 16, "long list");
    src.note(ctx);
    if let Err(e) = Arena::get().sources_intact() {
        return fail(format!("{name}:modified"), format!("{}: {e}", ctx()));
    }
    match (got, want) {
        (Ok(g), Some(w)) if key(bits, kind, g) == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => fail(format!("{name}:empty"), format!("{name} of no operands returned {}", s(&g))),
        (Ok(g), _) => fail(format!("{name}:value"), format!("{} = {}", ctx(), s(&g))),
        (Err(e), _) => fail(format!("{name}:rejected"), format!("{} was rejected: {e}", ctx())),
    }
}

// ------------------------------------------------------------------------------------------------- C25

/// bit by bit
fn shift_model(op: usize, bits: u32, x: u64, n: u32) -> u64 {
    let mut r = 0u64;
    for i in 0..bits as u64 {
        let n = n as u64;
        let from = match op {
            0 => i.checked_sub(n),
            1 => (i + n < bits as u64).then_some(i + n),
            2 => Some((i + bits as u64 - n % bits as u64) % bits as u64),
            _ => Some((i + n) % bits as u64),
        };
        if let Some(f) = from {
            r |= (x >> f & 1) << i;
        }
    }
    r
}
fn c25(src: &mut Src) -> Res {
    let w = src.below(4) as usize;
    let (ty, bits) = [("BYTE", 8u32), ("WORD", 16), ("DWORD", 32), ("LWORD", 64)][w];
    let op = src.below(4) as usize;
    let name = format!("{}__{ty}", ["SHL", "SHR", "ROL", "ROR"][op]);
    let n = match src.weighted(&[3, 2, 2]) {
        0 => src.below(bits as u64 + 2) as u32,
        1 => {
            // around multiples of the width
            let k = src.uint(27) as u32;
            let d = src.range(-2, 2) as i64;
            ((k as i64 * bits as i64) + d).clamp(0, u32::MAX as i64) as u32
        }
        _ => src.uint(32) as u32,
    };
    let x = src.uint(bits);
    macro_rules! run {
        ($t:ty, $name:expr, $x:expr) => {{
            let f = sym!($name, fn($t, u32) -> $t);
            call(|| unsafe { f($x as $t, n) }).map(|r| r as u64)
        }};
    }
    let go = |name: &str, x: u64| -> Result<Result<u64, String>, Fail> {
        Ok(match bits {
            8 => run!(u8, name, x),
            16 => run!(u16, name, x),
            32 => run!(u32, name, x),
            _ => run!(u64, name, x),
        })
    };
    let want = shift_model(op, bits, x, n);
    src.nt(x != 0 && n != 0);
    src.label_if(n >= bits, "count at least the width");
    src.label_if(n > 255, "count above 255");
    src.note(|| format!("{name}({x:#x}, {n})"));
    let got = match go(&name, x)? {
        Ok(g) => g,
        Err(e) => return fail(format!("{name}:rejected"), format!("{name}({x:#x}, {n}) was rejected: {e}")),
    };
    if got != want {
        return fail(format!("{name}:value"), format!("{name}({x:#x}, {n}) = {got:#x}, expected {want:#x}"));
    }
    if op >= 2 {
        let inv = format!("{}__{ty}", ["ROR", "ROL"][op - 2]);
        match go(&inv, got)? {
            Ok(b) if b == x => {}
            r => return fail(format!("{name}:inverse"), format!("{inv}({name}({x:#x}, {n}), {n}) = {r:x?}")),
        }
    }
    Ok(())
}
/// every BYTE with every count up to 20 (and three large ones), all four operations
fn sweep25(k: u64) -> Option<Vec<u64>> {
    let (op, k) = (k % 4, k / 4);
    let (x, n) = (k % 256, k / 256);
    if n > 9 {
        return None;
    }
    Some(vec![0, op, 0, n, x])
}

// ------------------------------------------------------------------------------------------------- C29

/// |got - want| within `ulps` units in the last place of a format with `p` bits of precision and exponents emin..=emax
fn close(got: f64, want: &Bf, wide: bool, ulps: i64) -> bool {
    let (p, emin, max) = if wide { (53, -1074i64, f64::MAX) } else { (24, -149, f32::MAX as f64) };
    let ulp_e = if want.zero() { emin } else { (want.mag() - p).max(emin) };
    let tol = Bf::int(ulps).scale(ulp_e);
    if got.is_nan() {
        return false;
    }
    if got.is_infinite() {
        // the value is beyond the largest number, or within tolerance of it
        return (got > 0.0) != want.is_neg() && Bf::f64(max).lt(&want.abs().add(&tol));
    }
    Bf::f64(got).sub(want).abs().le(&tol)
}

enum Want {
    /// numeric value
    Val(Bf),
    /// larger than any number, with this sign
    Huge(bool),
    /// smaller than any number
    Tiny,
    /// exactly this IEEE value (NaN means any NaN; zero of any sign)
    Ieee(f64),
}
fn judge(name: &str, ctx: &str, got: f64, want: Want, wide: bool, ulps: i64) -> Res {
    let (ok, text) = match &want {
        Want::Val(b) => (close(got, b, wide, ulps), format!("{:e}", b.approx())),
        Want::Huge(neg) => {
            let m = if wide { f64::MAX } else { f32::MAX as f64 };
            (got.abs() >= m && (got < 0.0) == *neg, format!("{}infinity", if *neg { "-" } else { "" }))
        }
        Want::Tiny => (got.abs() <= if wide { f64::from_bits(4) } else { f32::from_bits(4) as f64 }, "0".into()),
        Want::Ieee(v) => (got == *v || got.is_nan() && v.is_nan(), format!("{v}")),
    };
    if ok {
        Ok(())
    } else {
        fail(format!("{name}:value"), format!("{ctx} = {got:e}, expected {text}"))
    }
}

fn odd_int(b: f64) -> (bool, bool) {
    // (is integer, is odd)
    if !b.is_finite() || b.trunc() != b {
        return (false, false);
    }
    (true, b.abs() < 9007199254740992.0 && (b.abs() as u64) & 1 == 1)
}
fn want_pow(a: f64, b: f64) -> Want {
    let (int, odd) = odd_int(b);
    if b == 0.0 || a == 1.0 {
        return Want::Ieee(1.0);
    }
    if a.is_nan() || b.is_nan() {
        return Want::Ieee(f64::NAN);
    }
    if b.is_infinite() {
        return Want::Ieee(if a.abs() == 1.0 {
            1.0
        } else if (a.abs() > 1.0) == (b > 0.0) {
            f64::INFINITY
        } else {
            0.0
        });
    }
    let neg = odd && a.is_sign_negative();
    let sg = |v: f64| if neg { -v } else { v };
    if a == 0.0 || a.is_infinite() {
        return Want::Ieee(sg(if (a == 0.0) == (b < 0.0) { f64::INFINITY } else { 0.0 }));
    }
    if a < 0.0 && !int {
        return Want::Ieee(f64::NAN);
    }
    let l = bf::ln(&Bf::f64(a.abs())).mul(&Bf::f64(b));
    if l.zero() {
        return Want::Ieee(sg(1.0));
    }
    if l.mag() > 11 {
        return if l.is_neg() { Want::Tiny } else { Want::Huge(neg) };
    }
    let v = bf::exp(&l);
    Want::Val(if neg { v.neg() } else { v })
}
/// judges a power computed some other way
pub(super) fn judge_pow(name: &str, ctx: &str, got: f64, a: f64, b: f64, wide: bool) -> Res {
    judge(name, ctx, got, want_pow(a, b), wide, 4)
}
const UN: [&str; 11] = ["SQRT", "LN", "LOG", "EXP", "SIN", "COS", "TAN", "ASIN", "ACOS", "ATAN", "ROUND"];

fn want_unary(op: usize, x: f64) -> Want {
    use Want::*;
    let inf = f64::INFINITY;
    if x.is_nan() {
        return Ieee(f64::NAN);
    }
    let b = || Bf::f64(x);
    match UN[op] {
        "SQRT" => {
            if x < 0.0 {
                Ieee(f64::NAN)
            } else if x == inf {
                Ieee(inf)
            } else {
                Val(b().sqrt())
            }
        }
        "LN" | "LOG" => {
            if x < 0.0 {
                Ieee(f64::NAN)
            } else if x == 0.0 {
                Ieee(-inf)
            } else if x == inf {
                Ieee(inf)
            } else if UN[op] == "LN" {
                Val(bf::ln(&b()))
            } else {
                Val(bf::ln(&b()).div(&bf::ln10()))
            }
        }
        "EXP" => {
            if x == inf {
                Ieee(inf)
            } else if x == -inf {
                Ieee(0.0)
            } else if x > 800.0 {
                Huge(false)
            } else if x < -800.0 {
                Tiny
            } else {
                Val(bf::exp(&b()))
            }
        }
        "SIN" | "COS" | "TAN" => {
            if x.is_infinite() {
                return Ieee(f64::NAN);
            }
            let (s, c) = bf::sin_cos(&b());
            match UN[op] {
                "SIN" => Val(s),
                "COS" => Val(c),
                _ => Val(s.div(&c)),
            }
        }
        "ASIN" | "ACOS" => {
            if x.abs() > 1.0 {
                Ieee(f64::NAN)
            } else if UN[op] == "ASIN" {
                Val(bf::asin(&b()))
            } else {
                Val(bf::acos(&b()))
            }
        }
        "ATAN" => {
            if x.is_infinite() {
                let h = bf::pi().scale(-1);
                Val(if x < 0.0 { h.neg() } else { h })
            } else {
                Val(bf::atan(&b()))
            }
        }
        _ => {
            // ROUND: halves away from zero, exact
            if x.is_infinite() {
                return Ieee(x);
            }
            let a = x.abs();
            if a >= 4503599627370496.0 {
                return Ieee(x);
            }
            let i = a as u64 as f64;
            let r = if a - i >= 0.5 { i + 1.0 } else { i };
            Ieee(if x < 0.0 { -r } else { r })
        }
    }
}

/// arguments for which functions have results or branches of their own
const SPECIAL: [f64; 30] = [
    0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 1.0 / 3.0, -1.0 / 3.0, 0.25, 1.5, -1.5,
    2.5, 10.0, -10.0, 0.1, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f32::MAX as f64, 9007199254740991.0, -9007199254740993.0, 16777217.0, 5e-324,
];
pub(super) fn special(src: &mut Src, wide: bool) -> f64 {
    let v = *src.pick(&SPECIAL);
    let v = if wide { v } else { v as f32 as f64 };
    // or a neighbour
    let d = [0, 0, 0, 1, u64::MAX][src.below(5) as usize];
    if v.is_nan() || v.is_infinite() {
        v
    } else if wide {
        let n = f64::from_bits(v.to_bits().wrapping_add(d));
        if n.is_nan() { v } else { n }
    } else {
        let n = f32::from_bits((v as f32).to_bits().wrapping_add(d as u32)) as f64;
        if n.is_nan() { v } else { n }
    }
}
fn any_arg(src: &mut Src, wide: bool, op: &str) -> f64 {
    if src.chance(1, 6) {
        return special(src, wide);
    }
    if src.chance(1, 3) {
        // arguments where the functions have something to do
        let m = if wide { src.uint(52) as f64 / (1u64 << 52) as f64 } else { src.uint(23) as f64 / (1u64 << 23) as f64 };
        let s = if src.bool() { -1.0 } else { 1.0 };
        let v = match op {
            "ASIN" | "ACOS" => s * match src.below(3) {
                0 => m,
                1 => 1.0 - m * 2f64.powi(-(src.below(30) as i32)),
                _ => m * 2f64.powi(-(src.below(30) as i32)),
            },
            "EXP" => s * m * if wide { 745.0 } else { 104.0 },
            "LN" | "LOG" => match src.below(2) {
                0 => 1.0 + s * m * 2f64.powi(-(src.below(40) as i32)),
                _ => m * 2f64.powi(src.range(-100, 100) as i32),
            },
            "SIN" | "COS" | "TAN" => {
                let k = src.sint(20) as f64;
                match src.below(3) {
                    0 => k * std::f64::consts::FRAC_PI_2,
                    1 => s * m * 8.0,
                    _ => k + m,
                }
            }
            "ROUND" => {
                let k = src.sint(24) as f64 + 0.5;
                if wide {
                    let d = src.below(3);
                    f64::from_bits(k.to_bits().wrapping_add(d).wrapping_sub(1))
                } else {
                    k
                }
            }
            _ => s * m * 2f64.powi(src.range(-60, 60) as i32),
        };
        return if wide { v } else { v as f32 as f64 };
    }
    let v = if wide { src.f64_any() } else { src.f32_any() as f64 };
    // signalling NaNs have results of their own (pow(sNaN, 0) is NaN)
    if v.is_nan() {
        f64::NAN
    } else {
        v
    }
}

fn c29(src: &mut Src) -> Res {
    let wide = src.bool();
    let ty = if wide { "LREAL" } else { "REAL" };
    let op = src.weighted(&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 4, 1]);
    if op < UN.len() {
        let name = format!("{}__{ty}", UN[op]);
        let x = any_arg(src, wide, UN[op]);
        let got = if wide {
            let f = sym!(&name, fn(f64) -> f64);
            call(|| unsafe { f(x) })
        } else {
            let f = sym!(&name, fn(f32) -> f32);
            call(|| unsafe { f(x as f32) as f64 })
        };
        let ctx = format!("{name}({x:e})");
        src.note(|| ctx.clone());
        src.nt(x.is_finite() && x != 0.0);
        src.label_if(!x.is_finite(), "infinity or NaN");
        let want = want_unary(op, x);
        if let (Want::Val(_), "SQRT") = (&want, UN[op]) {
            // correctly rounded: at most half a unit away
            if let (Want::Val(w), Ok(g)) = (&want, &got) {
                let p = if wide { 53 } else { 24 };
                let u = w.mag() - p - 40;
                let tol = Bf::int((1 << 39) + 1).scale(u);
                if !w.zero() && (!g.is_finite() || !Bf::f64(*g).sub(w).abs().le(&tol)) {
                    return fail(format!("{name}:value"), format!("{ctx} = {g:e} is not the correctly rounded root"));
                }
            }
        }
        return match got {
            Ok(g) => judge(&name, &ctx, g, want, wide, 4),
            Err(e) => fail(format!("{name}:rejected"), format!("{ctx} was rejected: {e}")),
        };
    }
    if op == 11 {
        // ATAN2
        let name = format!("ATAN2__{ty}");
        let both = src.chance(1, 4);
        let (y, x) = if both { (special(src, wide), special(src, wide)) } else { (any_arg(src, wide, ""), any_arg(src, wide, "")) };
        let got = if wide {
            let f = sym!(&name, fn(f64, f64) -> f64);
            call(|| unsafe { f(y, x) })
        } else {
            let f = sym!(&name, fn(f32, f32) -> f32);
            call(|| unsafe { f(y as f32, x as f32) as f64 })
        };
        let ctx = format!("{name}({y:e}, {x:e})");
        src.note(|| ctx.clone());
        src.nt(x != 0.0 && y != 0.0);
        let yn = y.is_sign_negative();
        let sg = |b: Bf| if yn { b.neg() } else { b };
        let want = if x.is_nan() || y.is_nan() {
            Want::Ieee(f64::NAN)
        } else if y.is_infinite() {
            // pi/2, pi/4 or 3 pi/4
            let q = bf::pi().scale(-2);
            Want::Val(sg(if x.is_finite() {
                q.scale(1)
            } else if x > 0.0 {
                q
            } else {
                q.mul(&Bf::int(3))
            }))
        } else if x.is_infinite() || y == 0.0 {
            if x.is_sign_positive() {
                Want::Ieee(0.0)
            } else {
                Want::Val(sg(bf::pi()))
            }
        } else {
            Want::Val(bf::atan2(&Bf::f64(y), &Bf::f64(x), yn))
        };
        return match got {
            Ok(g) => judge(&name, &ctx, g, want, wide, 4),
            Err(e) => fail(format!("{name}:rejected"), format!("{ctx} was rejected: {e}")),
        };
    }
    if op == 12 {
        let k = src.below(3) as usize;
        let bty = ["DINT", "REAL", "LREAL"][k];
        let name = format!("EXPT__{ty}__{bty}");
        let both = src.chance(1, 4);
        let a = match src.weighted(&[2, if both { 0 } else { 2 }]) {
            0 if both => special(src, wide),
            0 => any_arg(src, wide, ""),
            _ => {
                // near one, so that large exponents matter
                let m = src.uint(20) as f64 / (1 << 20) as f64;
                let s = if src.chance(1, 4) { -1.0 } else { 1.0 };
                let v = s * (1.0 + m * 2f64.powi(-(src.below(30) as i32)));
                if wide { v } else { v as f32 as f64 }
            }
        };
        let fit = !both && a.is_finite() && a != 0.0 && a.abs() != 1.0 && src.chance(1, 3);
        let b: f64 = if fit {
            // exponents whose result is representable
            let lim = if wide { 700.0 } else { 85.0 } / a.abs().ln().abs();
            let f = src.range(-1 << 20, 1 << 20) as f64 / (1 << 20) as f64;
            let v = (lim * f).clamp(-1e30, 1e30);
            if src.bool() { v.round() } else { v }
        } else {
            match src.weighted(&[if both { 0 } else { 3 }, 2]) {
                0 => src.sint(32) as f64,
                _ if both => special(src, true),
                _ => any_arg(src, true, "EXPT"),
            }
        };
        let (got, b) = match bty {
            "DINT" => {
                let n = if b.is_nan() { 0 } else { b.clamp(i32::MIN as f64, i32::MAX as f64) as i32 };
                let g = if wide {
                    let f = sym!(&name, fn(f64, i32) -> f64);
                    call(|| unsafe { f(a, n) })
                } else {
                    let f = sym!(&name, fn(f32, i32) -> f32);
                    call(|| unsafe { f(a as f32, n) as f64 })
                };
                (g, n as f64)
            }
            "REAL" => {
                let n = b as f32;
                let g = if wide {
                    let f = sym!(&name, fn(f64, f32) -> f64);
                    call(|| unsafe { f(a, n) })
                } else {
                    let f = sym!(&name, fn(f32, f32) -> f32);
                    call(|| unsafe { f(a as f32, n) as f64 })
                };
                (g, n as f64)
            }
            _ => {
                let g = if wide {
                    let f = sym!(&name, fn(f64, f64) -> f64);
                    call(|| unsafe { f(a, b) })
                } else {
                    let f = sym!(&name, fn(f32, f64) -> f32);
                    call(|| unsafe { f(a as f32, b) as f64 })
                };
                (g, b)
            }
        };
        let ctx = format!("{name}({a:e}, {b:e})");
        src.note(|| ctx.clone());
        let want = want_pow(a, b);
        src.nt(matches!(&want, Want::Val(_)));
        src.label_if(matches!(&want, Want::Val(_)) && b.abs() > 1e4, "finite power with a large exponent");
        return match got {
            Ok(g) => judge(&name, &ctx, g, want, wide, 4),
            Err(e) => fail(format!("{name}:rejected"), format!("{ctx} was rejected: {e}")),
        };
    }
    // constants
    let c = src.below(4) as usize;
    let name = format!("{}_{ty}", ["PI", "FRAC_PI_2", "FRAC_PI_4", "E"][c]);
    let Some(addr) = symbol(&name) else {
        return fail(format!("missing:{name}"), format!("the library exports no {name}"));
    };
    let want = match c {
        0..=2 => bf::pi().scale(-(c as i64)),
        _ => bf::e(),
    };
    let (got, p) = if wide {
        (unsafe { *(addr as *const f64) }, 53)
    } else {
        (unsafe { *(addr as *const f32) as f64 }, 24)
    };
    src.note(|| name.clone());
    src.label("constant");
    src.nt(true);
    let tol = Bf::int(1).scale(want.mag() - p - 1);
    if !got.is_finite() || !Bf::f64(got).sub(&want).abs().le(&tol) {
        return fail(format!("{name}:value"), format!("{name} = {got:e}, expected {:e}", want.approx()));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24", run: c24, quick: 2_000_000, thorough: 40_000_000, sweep: None, configs: BOTH,
            assumptions: &["no NaN operands, LIMIT bounds in order; the sign of a zero result is not judged"],
            rule: "MAX/MIN of 0..60 (one case in 400: up to 70000) operands of one of 21 types (arbitrary, limits, neighbours of earlier operands), the list ending at an inaccessible page; LIMIT of three operands with mn<=mx; non-trivial: unequal operands, or an empty list",
        },
        Prop {
            id: "C25", run: c25, quick: 2_000_000, thorough: 40_000_000, sweep: Some(sweep25), configs: BOTH, assumptions: &[],
            rule: "SHL/SHR/ROL/ROR of every width with counts inside, around multiples of and far beyond the width; BYTE values with counts 0..9 enumerated; non-trivial: value and count are not 0",
        },
        Prop {
            id: "C29", run: c29, quick: 1_600_000, thorough: 8_000_000, sweep: None, configs: BOTH,
            assumptions: &["\"a few units in the last place\" is 4; the sign of a zero result is not judged; an overflowing result may be infinite or the largest number"],
            rule: "arguments of every kind and arguments concentrated where each function is delicate (near 1, near multiples of pi/2, half-way values, exponents with representable results); oracle: 176-bit reference arithmetic; non-trivial: finite non-zero arguments, finite powers",
        },
    ]
}
