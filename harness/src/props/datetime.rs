//! C11-C16: date and time arithmetic, assembling and splitting.

use super::BOTH;
use crate::cal::{self, DAY};
use crate::engine::*;
use crate::sym;
use num::bigint::BigInt;
use num::{One, Signed, ToPrimitive, Zero};

fn judge(name: &str, got: Result<i64, String>, want: Option<i64>, ctx: &str) -> Res {
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), Some(w)) => fail(format!("{name}:value"), format!("{name}({ctx}) = {g}, expected {w}")),
        (Ok(g), None) => fail(format!("{name}:accepted"), format!("{name}({ctx}) = {g}, expected rejection")),
        (Err(e), Some(w)) => fail(format!("{name}:rejected"), format!("{name}({ctx}) was rejected ({e}), expected {w}")),
    }
}

// ------------------------------------------------------------------------------------------------- C11

fn c11(src: &mut Src) -> Res {
    let op = src.below(9) as usize;
    let (name, sub) = [
        ("ADD_TIME", false),
        ("ADD_TOD_TIME", false),
        ("ADD_DT_TIME", false),
        ("SUB_TIME", true),
        ("SUB_DATE_DATE", true),
        ("SUB_TOD_TIME", true),
        ("SUB_TOD_TOD", true),
        ("SUB_DT_TIME", true),
        ("SUB_DT_DT", true),
    ][op];
    let f = sym!(name, fn(i64, i64) -> i64);
    let a = if src.bool() { src.sint(64) } else { cal::any_ts(src) };
    let b = match src.weighted(&[4, 3, 3]) {
        0 => src.sint(64),
        1 => cal::any_ts(src),
        _ => {
            // a result next to a limit
            let lim = if src.bool() { i64::MAX } else { i64::MIN } as i128;
            let t = if sub { a as i128 - lim } else { lim - a as i128 } + src.range(-2, 2);
            t.clamp(i64::MIN as i128, i64::MAX as i128) as i64
        }
    };
    let r = if sub { a as i128 - b as i128 } else { a as i128 + b as i128 };
    let want = i64::try_from(r).ok();
    src.nt(a != 0 && b != 0);
    src.label_if(want.is_none(), "overflow");
    src.label_if((i64::MAX as i128 - r.abs()).abs() < 8, "at the limit");
    src.note(|| format!("{name}({a}, {b})"));
    judge(name, call(|| unsafe { f(a, b) }), want, &format!("{a}, {b}"))
}

// ------------------------------------------------------------------------------------------------- C12

fn c12(src: &mut Src) -> Res {
    let fam = src.below(6) as usize;
    let ty = src.below(8) as usize;
    let (pre, div) =
        [("MUL__TIME", false), ("MUL_TIME", false), ("MUL_LTIME", false), ("DIV__TIME", true), ("DIV_TIME", true), ("DIV_LTIME", true)][fam];
    let tn = ["SINT", "INT", "DINT", "LINT", "USINT", "UINT", "UDINT", "ULINT"][ty];
    let name = format!("{pre}__{tn}");
    let bits = 8u32 << (ty % 4);
    let signed = ty < 4;
    let b: i128 = if signed { src.sint(bits) as i128 } else { src.uint(bits) as i128 };
    let a = match src.weighted(&[4, 3, 2]) {
        0 => src.sint(64),
        1 if b != 0 => {
            // product or quotient next to a limit or to an exact one
            let lim = if src.bool() { i64::MAX } else { i64::MIN } as i128;
            (lim / b + src.range(-1, 1)).clamp(i64::MIN as i128, i64::MAX as i128) as i64
        }
        1 => src.sint(64),
        _ => {
            let k = src.sint(32) as i128;
            (k * b + src.range(-1, 1)).clamp(i64::MIN as i128, i64::MAX as i128) as i64
        }
    };
    let r = if div {
        if b == 0 {
            None
        } else {
            // truncated towards zero
            let q = (a as i128).abs() / b.abs();
            Some(if (a < 0) != (b < 0) { -q } else { q })
        }
    } else {
        Some(a as i128 * b)
    };
    let want = r.and_then(|r| i64::try_from(r).ok());
    macro_rules! go {
        ($t:ty) => {{
            let f = sym!(&name, fn(i64, $t) -> i64);
            call(|| unsafe { f(a, b as $t) })
        }};
    }
    let got = match ty {
        0 => go!(i8),
        1 => go!(i16),
        2 => go!(i32),
        3 => go!(i64),
        4 => go!(u8),
        5 => go!(u16),
        6 => go!(u32),
        _ => go!(u64),
    };
    src.nt(a != 0 && (b > 1 || b < 0) || b == 0);
    src.label_if(want.is_none() && b != 0, "overflow");
    src.label_if(div && b == 0, "division by zero");
    src.label_if(div && b != 0 && a as i128 % b != 0, "inexact quotient");
    src.label_if(b > i64::MAX as i128, "factor beyond 63 bits");
    src.note(|| format!("{name}({a}, {b})"));
    judge(&name, got, want, &format!("{a}, {b}"))
}

// ------------------------------------------------------------------------------------------------- C13

fn c13(src: &mut Src) -> Res {
    let fam = src.below(6) as usize;
    let (pre, div) =
        [("MUL__TIME", false), ("MUL_TIME", false), ("MUL_LTIME", false), ("DIV__TIME", true), ("DIV_TIME", true), ("DIV_LTIME", true)][fam];
    let wide = src.bool();
    let name = format!("{pre}__{}", if wide { "LREAL" } else { "REAL" });
    let mut a = match src.weighted(&[3, 3, 2]) {
        0 => src.sint(64),
        1 => src.sint(48),
        _ => src.sint(22).saturating_mul(1_000_000_000),
    };
    let x: f64 = if wide { src.f64_any() } else { src.f32_any() as f64 };
    if src.chance(1, 5) && x.is_finite() && x != 0.0 {
        // bring the result near the 64-bit limit
        let lim = 9.223372036854775807e18;
        let t = if div { lim * x } else { lim / x };
        if t.abs() < 9.2e18 {
            let k = 1.0 + src.range(-8, 8) as f64 * 1e-9;
            a = (t * k) as i64;
        }
    }
    let got = if wide {
        let f = sym!(&name, fn(i64, f64) -> i64);
        call(|| unsafe { f(a, x) })
    } else {
        let f = sym!(&name, fn(i64, f32) -> i64);
        call(|| unsafe { f(a, x as f32) })
    };
    let ctx = format!("{a}, {x:e}");
    src.note(|| format!("{name}({ctx})"));
    let rejected = |why: &str| -> Res {
        match &got {
            Err(_) => Ok(()),
            Ok(v) => fail(format!("{name}:accepted"), format!("{name}({ctx}) = {v}, expected rejection: {why}")),
        }
    };
    if x.is_nan() {
        return rejected("NaN operand");
    }
    if x.is_infinite() {
        if !div {
            return rejected("infinite factor");
        }
        return judge(&name, got, Some(0), &ctx);
    }
    if div && x == 0.0 {
        return rejected("division by zero");
    }
    // exact result as a fraction
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7FF) as i64;
    let m = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let (xn, xd) =
        if e >= 0 { (BigInt::from(m) << e as usize, BigInt::one()) } else { (BigInt::from(m), BigInt::one() << (-e) as usize) };
    let an = BigInt::from(a).abs();
    let (n, d) = if div { (an * xd, xn) } else { (an * xn, xd) };
    let neg = (a < 0) != (x < 0.0);
    // tolerance: 4 ulp-relative units of the operand type, plus one nanosecond; everything scaled by d << p
    let p = if wide { 52usize } else { 23 };
    let exact = &n << p; // / (d << p)
    let tol = &n * 4u32 + (&d << p);
    let den = &d << p;
    let lim = BigInt::from(i64::MAX);
    let surely_over = &exact - &tol > &lim * &den;
    let surely_fits = &exact + &tol < &lim * &den;
    src.nt(!n.is_zero() && a != 1 && m != 1 << 52);
    src.label_if(surely_over, "overflow");
    src.label_if(!surely_over && !surely_fits, "limit band (either verdict accepted)");
    src.label_if(surely_fits && !n.is_zero(), "representable");
    match &got {
        Err(e) if surely_fits => {
            let v = (&n / &d).to_f64().unwrap_or(f64::NAN);
            fail(format!("{name}:rejected"), format!("{name}({ctx}) was rejected ({e}), expected about {}{v:e}", if neg { "-" } else { "" }))
        }
        Err(_) => Ok(()),
        Ok(_) if surely_over => rejected("result exceeds 64 bits"),
        Ok(v) => {
            let sv = if neg { -BigInt::from(*v) } else { BigInt::from(*v) };
            let diff = (sv * &den - &exact).abs();
            if diff > tol {
                let w = (&n / &d).to_f64().unwrap_or(f64::NAN);
                return fail(format!("{name}:value"), format!("{name}({ctx}) = {v}, expected about {}{w}", if neg { "-" } else { "" }));
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------------- C14

/// integer operand types
const DTY: &[(&str, u32, bool)] = &[
    ("INT", 16, true),
    ("UINT", 16, false),
    ("DINT", 32, true),
    ("UDINT", 32, false),
    ("LINT", 64, true),
    ("ULINT", 64, false),
    ("SINT", 8, true),
    ("USINT", 8, false),
];

fn fit(v: i128, bits: u32, signed: bool) -> i128 {
    // what a variable of that type holds
    let raw = v as u64 & mask(bits);
    if signed {
        sext(raw, bits) as i128
    } else {
        raw as i128
    }
}

/// a field value: valid, just outside, valid plus a multiple of a power of two, or anything
fn field(src: &mut Src, lo: i64, hi: i64, bits: u32, signed: bool) -> i128 {
    let v = match src.weighted(&[20, 3, 2, 2]) {
        0 => src.range(lo as i128, hi as i128),
        1 => *src.pick(&[lo as i128 - 1, hi as i128 + 1, -1, hi as i128 + 2, 0, -(hi as i128)]),
        2 => src.range(lo as i128, hi as i128) + (1i128 << *src.pick(&[8u32, 16, 32, 31, 33, 40, 63])),
        _ => src.sint(64) as i128,
    };
    fit(v, bits, signed)
}

macro_rules! by_type {
    ($ty:expr, $m:ident) => {
        match $ty {
            0 => $m!(i16),
            1 => $m!(u16),
            2 => $m!(i32),
            3 => $m!(u32),
            4 => $m!(i64),
            5 => $m!(u64),
            6 => $m!(i8),
            _ => $m!(u8),
        }
    };
}

fn c14(src: &mut Src) -> Res {
    match src.weighted(&[4, 4, 2]) {
        0 => {
            let ty = src.below(6) as usize;
            let (tn, bits, signed) = DTY[ty];
            let y = if src.chance(1, 8) { field(src, 1600, 2400, bits, signed) } else { field(src, 1678, 2261, bits, signed) };
            let m = field(src, 1, 12, bits, signed);
            let d = match src.weighted(&[6, 4]) {
                0 => field(src, 1, 28, bits, signed),
                _ => fit(src.range(28, 32), bits, signed),
            };
            let name = format!("CONCAT_DATE__{tn}");
            macro_rules! go {
                ($t:ty) => {{
                    let f = sym!(&name, fn($t, $t, $t) -> i64);
                    call(|| unsafe { f(y as $t, m as $t, d as $t) })
                }};
            }
            let got = by_type!(ty, go);
            let want = if (1600..2400).contains(&y) && (1..13).contains(&m) && (1..32).contains(&d) {
                cal::day_number(y as i64, m as i64, d as i64).and_then(|n| i64::try_from(n as i128 * DAY as i128).ok())
            } else {
                None
            };
            src.nt(true);
            src.label(if want.is_some() { "valid date" } else { "invalid date" });
            src.label_if(want.is_some() && m == 2 && d == 29, "leap day");
            src.note(|| format!("{name}({y}, {m}, {d})"));
            judge(&name, got, want, &format!("{y}, {m}, {d}"))
        }
        1 => {
            let ty = src.below(8) as usize;
            let (tn, bits, signed) = DTY[ty];
            let h = field(src, 0, 23, bits, signed);
            let m = field(src, 0, 59, bits, signed);
            let s = if src.chance(1, 3) { fit(59, bits, signed) } else { field(src, 0, 59, bits, signed) };
            let ms = match src.weighted(&[6, 2]) {
                0 => field(src, 0, 999, bits, signed),
                _ => fit(src.range(998, 2001), bits, signed),
            };
            let name = format!("CONCAT_TOD__{tn}");
            macro_rules! go {
                ($t:ty) => {{
                    let f = sym!(&name, fn($t, $t, $t, $t) -> i64);
                    call(|| unsafe { f(h as $t, m as $t, s as $t, ms as $t) })
                }};
            }
            let got = by_type!(ty, go);
            let ok = (0..24).contains(&h) && (0..60).contains(&m) && (0..60).contains(&s) && (0..1000).contains(&ms);
            let want = ok.then(|| (((h * 60 + m) * 60 + s) * 1000 + ms) as i64 * 1_000_000);
            src.nt(true);
            src.label(if ok { "valid time" } else { "invalid time" });
            src.note(|| format!("{name}({h}, {m}, {s}, {ms})"));
            judge(&name, got, want, &format!("{h}, {m}, {s}, {ms}"))
        }
        _ => {
            // the calendar day of the one, the time of day of the other: a DATE variable may carry more than a midnight
            // (it is a plain LINT in memory) and ADD_TOD_TIME produces times of day beyond 24 h
            let (in1, in2) = (cal::any_ts(src), cal::any_ts(src));
            let (d, n1) = cal::split(in1);
            let (d2, tod) = cal::split(in2);
            let pure = src.weighted(&[4, 3, 3]);
            let in1 = match (pure, d.checked_mul(DAY)) {
                (0 | 1, Some(mid)) => mid,
                (_, _) => in1,
            };
            let in2 = if pure == 0 { tod } else { in2 };
            let name = "CONCAT_DATE_TOD";
            let f = sym!(name, fn(i64, i64) -> i64);
            src.nt(in1 != 0 && tod != 0);
            src.label("DATE and TOD");
            src.label_if(pure == 2 && n1 != 0, "date operand is not a midnight");
            src.label_if(in2 != tod, "time operand outside [0, 24 h)");
            src.label_if(in1 < 0 && d2 < 0, "both before 1970");
            src.note(|| format!("{name}({in1}, {in2})"));
            let want = i64::try_from(d as i128 * DAY as i128 + tod as i128).ok();
            src.label_if(want.is_none(), "result not representable");
            judge(name, call(|| unsafe { f(in1, in2) }), want, &format!("{in1}, {in2}"))
        }
    }
}

// ------------------------------------------------------------------------------------------------- C15

fn c15(src: &mut Src) -> Res {
    let t = cal::any_ts(src);
    let (day, n) = cal::split(t);
    let (y, mo, d) = cal::date(day);
    let ms_total = n / 1_000_000;
    let (h, mi, s, ms) = (ms_total / 3_600_000, ms_total / 60_000 % 60, ms_total / 1000 % 60, ms_total % 1000);
    src.nt(t != 0);
    src.label_if(t < 0 && n % 1_000_000_000 != 0, "before 1970, with a fraction");
    let what = src.below(4);
    if what == 3 {
        let f = sym!("DAY_OF_WEEK", fn(i64) -> i8);
        let r = call(|| unsafe { f(t) });
        src.note(|| format!("DAY_OF_WEEK({t})"));
        if r != Ok(cal::weekday(day) as i8) {
            return fail("DAY_OF_WEEK:value", format!("DAY_OF_WEEK({t}) = {r:?}, expected {} ({y}-{mo}-{d})", cal::weekday(day)));
        }
        return Ok(());
    }
    let ty = src.below(6) as usize;
    let (tn, bits, signed) = DTY[ty];
    let (pre, want): (&str, Vec<i64>) = match what {
        0 => ("SPLIT_DATE", vec![y, mo, d]),
        1 => ("SPLIT_TOD", vec![h, mi, s, ms]),
        _ => ("SPLIT_DT", vec![y, mo, d, h, mi, s, ms]),
    };
    let name = format!("{pre}__{tn}");
    // outputs in one block of memory, 16 bytes apart, with garbage around each, in a shuffled order
    let size = bits as usize / 8;
    let rot = src.below(want.len() as u64) as usize;
    let fill = 0xA0 | src.below(16) as u8;
    #[repr(align(16))]
    struct Mem([u8; 16 * 9]);
    let mut mem = Mem([fill; 16 * 9]);
    let base = mem.0.as_mut_ptr() as usize;
    let at = |i: usize| base + 16 + 16 * ((i + rot) % want.len());
    let a = |i: usize| at(i);
    let got = match want.len() {
        3 => {
            let f = sym!(&name, fn(i64, usize, usize, usize) -> i16);
            call(|| unsafe { f(t, a(0), a(1), a(2)) })
        }
        4 => {
            let f = sym!(&name, fn(i64, usize, usize, usize, usize) -> i16);
            call(|| unsafe { f(t, a(0), a(1), a(2), a(3)) })
        }
        _ => {
            let f = sym!(&name, fn(i64, usize, usize, usize, usize, usize, usize, usize) -> i16);
            call(|| unsafe { f(t, a(0), a(1), a(2), a(3), a(4), a(5), a(6)) })
        }
    };
    let mem = std::hint::black_box(mem);
    src.note(|| format!("{name}({t})"));
    match got {
        Ok(0) => {}
        Ok(rc) => return fail(format!("{name}:status"), format!("{name}({t}) reported {rc}")),
        Err(e) => return fail(format!("{name}:rejected"), format!("{name}({t}) was rejected: {e}")),
    }
    let mut expect = [fill; 16 * 9];
    for (i, w) in want.iter().enumerate() {
        let o = 16 + 16 * ((i + rot) % want.len());
        expect[o..o + size].copy_from_slice(&w.to_le_bytes()[..size]);
    }
    if mem.0 != expect {
        let vals: Vec<i128> = (0..want.len())
            .map(|i| {
                let o = 16 + 16 * ((i + rot) % want.len());
                let mut b = [0u8; 8];
                b[..size].copy_from_slice(&mem.0[o..o + size]);
                fit(u64::from_le_bytes(b) as i128, bits, signed)
            })
            .collect();
        let ok = vals.iter().zip(&want).all(|(a, b)| *a == *b as i128);
        let extra = if ok { " but wrote elsewhere too" } else { "" };
        return fail(format!("{name}:outputs"), format!("{name}({t}) stored {vals:?}{extra}, expected {want:?}"));
    }
    // splitting inverts building
    if what == 0 {
        let f = sym!("CONCAT_DATE__LINT", fn(i64, i64, i64) -> i64);
        if let Some(mid) = day.checked_mul(DAY) {
            judge("CONCAT_DATE__LINT", call(|| unsafe { f(y, mo, d) }), Some(mid), &format!("{y}, {mo}, {d}"))?;
        }
    } else if what == 1 {
        let f = sym!("CONCAT_TOD__LINT", fn(i64, i64, i64, i64) -> i64);
        judge("CONCAT_TOD__LINT", call(|| unsafe { f(h, mi, s, ms) }), Some(ms_total * 1_000_000), &format!("{h}, {mi}, {s}, {ms}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- C16

fn c16(src: &mut Src) -> Res {
    let t = cal::any_ts(src);
    let (day, n) = cal::split(t);
    let fd = sym!("DATE_AND_TIME_TO_DATE", fn(i64) -> i64);
    let ft = sym!("DATE_AND_TIME_TO_TIME_OF_DAY", fn(i64) -> i64);
    let fc = sym!("CONCAT_DATE_TOD", fn(i64, i64) -> i64);
    src.nt(n != 0);
    src.label_if(t < 0 && n != 0, "before 1970, not midnight");
    src.note(|| format!("decompose {t}"));
    judge("DATE_AND_TIME_TO_TIME_OF_DAY", call(|| unsafe { ft(t) }), Some(n), &t.to_string())?;
    let Some(mid) = day.checked_mul(DAY) else {
        src.label("midnight not representable (DATE part skipped)");
        return Ok(());
    };
    judge("DATE_AND_TIME_TO_DATE", call(|| unsafe { fd(t) }), Some(mid), &t.to_string())?;
    judge("CONCAT_DATE_TOD", call(|| unsafe { fc(mid, n) }), Some(t), &format!("{mid}, {n}"))
}

/// every calendar day of the representable range, split or composed
fn c15_sweep(i: u64) -> Option<Vec<u64>> {
    // 213502 days
    if i >= 213_502 {
        return None;
    }
    let off = i; // choice for range(-106751, 106750)
    let ns = i.wrapping_mul(0x9E37_79B9_7F4A_7C15) % DAY as u64;
    Some(vec![1, off, 1, ns, i % 4, (i / 4) % 6, i % 3, 0])
}
fn c16_sweep(i: u64) -> Option<Vec<u64>> {
    if i >= 213_502 {
        return None;
    }
    let ns = i.wrapping_mul(0x9E37_79B9_7F4A_7C15) % DAY as u64;
    Some(vec![1, i, 1, ns])
}

pub fn props() -> Vec<Prop> {
    const NONE: &[&str] = &[];
    vec![
        Prop {
            id: "C11", run: c11, quick: 2_400_000, thorough: 100_000_000, sweep: None, configs: BOTH, assumptions: NONE,
            rule: "pairs of 64-bit operands: random, calendar values, and pairs whose result lies within 2 ns of a 64-bit limit; oracle in 128-bit arithmetic; non-trivial: both operands non-zero",
        },
        Prop {
            id: "C12", run: c12, quick: 2_400_000, thorough: 100_000_000, sweep: None, configs: BOTH, assumptions: NONE,
            rule: "all 48 name/type variants; factors of the full operand type; durations at the limit divided by the factor and next to multiples of it; oracle in 128-bit arithmetic; non-trivial: non-zero duration with a factor other than 0 and 1, or division by zero",
        },
        Prop {
            id: "C13", run: c13, quick: 1_200_000, thorough: 50_000_000, sweep: None, configs: BOTH,
            assumptions: &["tolerance: 4 units of the operand type's relative precision plus 1 ns; results within that tolerance of the 64-bit limit may be accepted or rejected"],
            rule: "all 12 variants, durations and floating point values of all magnitudes incl. NaN, infinities, zeros, denormals, and results near the limit; oracle exact in big integers; non-trivial: non-zero result with a factor that is not a power of two",
        },
        Prop {
            id: "C14", run: c14, quick: 2_400_000, thorough: 100_000_000, sweep: None, configs: BOTH,
            assumptions: NONE,
            rule: "all operand types; each field valid, just outside, valid plus a power of two (truncation), or random; oracle from the leap-year rule; non-trivial: every call",
        },
        Prop {
            id: "C15", run: c15, quick: 2_000_000, thorough: 80_000_000, sweep: Some(c15_sweep), configs: BOTH, assumptions: NONE,
            rule: "64-bit timestamps (random, boundary days, midnights, coarse fractions), all output types, outputs in permuted guarded memory; every day of the range enumerated once with some time of day; non-trivial: not zero",
        },
        Prop {
            id: "C16", run: c16, quick: 2_000_000, thorough: 80_000_000, sweep: Some(c16_sweep), configs: BOTH, assumptions: NONE,
            rule: "64-bit timestamps as for C15, every day of the range enumerated; non-trivial: not a midnight",
        },
    ]
}
