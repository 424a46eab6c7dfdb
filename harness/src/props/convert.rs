//! C08-C10, C26-C28: text conversions and bit-level conversions.

use super::BOTH;
use crate::cal;
use crate::engine::*;
use crate::sym;
use crate::sys::{show, Arena, Unit};
use num::bigint::BigInt;
use num::{One, ToPrimitive, Zero};

/// text produced by a *_TO_STRING_EXT call on a dirty destination
fn text_of(src: &mut Src, name: &str, f: impl Fn(*mut u8) -> i32, ctx: &str) -> Result<String, Fail> {
    let a = Arena::get().reset();
    let d = super::strings::dest_setup::<u8>(src, a);
    match call(|| f(d)) {
        Ok(0) => {}
        Ok(rc) => return fail(format!("{name}:status"), format!("{name}({ctx}) reported {rc}")),
        Err(e) => return fail(format!("{name}:rejected"), format!("{name}({ctx}) was rejected: {e}")),
    }
    let r = a.result::<u8>();
    if r.len() > 80 {
        return fail(format!("{name}:length"), format!("{name}({ctx}) does not fit an 80-character STRING: {}", show(&r)));
    }
    match String::from_utf8(r) {
        Ok(s) => Ok(s),
        Err(e) => fail(format!("{name}:utf8"), format!("{name}({ctx}) gives {:02x?}", e.as_bytes())),
    }
}

// ------------------------------------------------------------------------------------------------- C08

enum Parse {
    Value(BigInt),
    Reject,
    /// accepting is optional, but then only with this value
    Maybe(BigInt),
}

fn parse_int(t: &[char]) -> Parse {
    let s: String = t.iter().collect();
    let (radix, body, prefixed) = if let Some(b) = s.strip_prefix("16#").or(s.strip_prefix("0x")).or(s.strip_prefix("0X")) {
        (16u32, b, true)
    } else if let Some(b) = s.strip_prefix("8#") {
        (8, b, true)
    } else if let Some(b) = s.strip_prefix("2#").or(s.strip_prefix("0b")).or(s.strip_prefix("0B")) {
        (2, b, true)
    } else {
        (10, &s[..], false)
    };
    let (neg, digits, signed) = match body.chars().next() {
        Some('-') => (true, &body[1..], true),
        Some('+') => (false, &body[1..], true),
        _ => (false, body, false),
    };
    if digits.is_empty() {
        return Parse::Reject;
    }
    let mut v = BigInt::zero();
    for c in digits.chars() {
        let d = match c {
            '0'..='9' => c as u32 - '0' as u32,
            'a'..='f' => c as u32 - 'a' as u32 + 10,
            'A'..='F' => c as u32 - 'A' as u32 + 10,
            _ => 99,
        };
        if d >= radix {
            return Parse::Reject;
        }
        v = v * radix + d;
    }
    if neg {
        v = -v;
    }
    if prefixed && signed {
        Parse::Maybe(v)
    } else {
        Parse::Value(v)
    }
}

fn to_radix(mut v: BigInt, radix: u32, upper: bool) -> String {
    if v.is_zero() {
        return "0".into();
    }
    let mut s = vec![];
    let r = BigInt::from(radix);
    while !v.is_zero() {
        let d = (&v % &r).to_u32().unwrap();
        s.push(if d < 10 {
            (b'0' + d as u8) as char
        } else if upper {
            (b'A' + d as u8 - 10) as char
        } else {
            (b'a' + d as u8 - 10) as char
        });
        v /= &r;
    }
    s.iter().rev().collect()
}

fn c08(src: &mut Src) -> Res {
    if src.chance(1, 4) {
        let k = src.below(3);
        let (name, want, got) = match k {
            0 => {
                let v = src.uint(8) as u8;
                let f = sym!("BYTE_TO_STRING_EXT", fn(u8, *mut u8) -> i32);
                ("BYTE_TO_STRING_EXT", v.to_string(), text_of(src, "BYTE_TO_STRING_EXT", |d| unsafe { f(v, d) }, &v.to_string())?)
            }
            1 => {
                let v = src.uint(64);
                let f = sym!("LWORD_TO_STRING_EXT", fn(u64, *mut u8) -> i32);
                ("LWORD_TO_STRING_EXT", v.to_string(), text_of(src, "LWORD_TO_STRING_EXT", |d| unsafe { f(v, d) }, &v.to_string())?)
            }
            _ => {
                let v = src.sint(64);
                let f = sym!("LINT_TO_STRING_EXT", fn(i64, *mut u8) -> i32);
                let t = text_of(src, "LINT_TO_STRING_EXT", |d| unsafe { f(v, d) }, &v.to_string())?;
                let a = Arena::get().reset();
                let p = a.put(t.as_bytes());
                let g = sym!("STRING_TO_LINT", fn(*const u8) -> i64);
                let back = call(|| unsafe { g(p) });
                if back != Ok(v) {
                    return fail("STRING_TO_LINT:roundtrip", format!("STRING_TO_LINT({t:?}) = {back:?}, but it is the text of {v}"));
                }
                ("LINT_TO_STRING_EXT", v.to_string(), t)
            }
        };
        src.nt(want.len() > 1);
        src.note(|| format!("{name}({want})"));
        if got != want {
            return fail(format!("{name}:text"), format!("{name}({want}) gives {got:?}"));
        }
        return Ok(());
    }
    // text to integer
    let text: Vec<char> = match src.weighted(&[6, 6, 3, 2]) {
        3 => {
            const A: &[char] = &['0', '1', '7', '8', '9', 'a', 'F', 'x', 'X', 'b', 'B', '#', '+', '-', '_', ' ', '.', '6', '2', 'e', '\t'];
            let n = src.len(12);
            (0..n).map(|_| *src.pick(A)).collect()
        }
        k => {
            // a number, possibly just outside the range
            let neg = src.bool();
            let mag = match src.weighted(&[3, 3, 2]) {
                0 => BigInt::from(src.uint(64)),
                1 => {
                    let b = *src.pick(&[31u32, 63, 32, 64, 8, 16]);
                    (BigInt::one() << b) + BigInt::from(src.range(-3, 3) as i64)
                }
                _ => BigInt::from(src.uint(64)) * BigInt::from(src.uint(24)) + BigInt::from(src.uint(8)),
            };
            let radix = if k == 0 { 0 } else { src.below(8) };
            let (p, r) = [("", 10), ("16#", 16), ("0x", 16), ("0X", 16), ("8#", 8), ("2#", 2), ("0b", 2), ("0B", 2)][radix as usize];
            let upper = src.bool();
            let mut s = String::new();
            let signpos = if p.is_empty() { 0 } else { src.weighted(&[8, 1, 1]) };
            let plus = src.chance(1, 6);
            let sign = if neg { "-" } else if plus { "+" } else { "" };
            if p.is_empty() || signpos == 2 {
                s.push_str(sign);
            }
            s.push_str(p);
            if signpos == 1 {
                s.push_str(sign);
            }
            if src.chance(1, 6) {
                for _ in 0..src.below(30) {
                    s.push('0');
                }
            }
            s.push_str(&to_radix(mag, r, upper));
            let mut v: Vec<char> = s.chars().collect();
            if k == 2 {
                // damage it
                let i = src.below(v.len() as u64 + 1) as usize;
                match src.below(4) {
                    0 => {
                        let c = src.char(2);
                        v.insert(i, c)
                    }
                    1 => {
                        let c = *src.pick(&[' ', '_', '.', '-', '+', '#', 'x', 'e', 'g', '\n', '\u{a0}', '\u{0664}']);
                        v.insert(i, c)
                    }
                    2 => {
                        if i < v.len() {
                            v.remove(i);
                        }
                    }
                    _ => v.truncate(i),
                }
            }
            v
        }
    };
    let text: Vec<char> = text.into_iter().filter(|c| *c != '\0').collect();
    let wide = src.bool();
    let a = Arena::get().reset();
    let p = a.put(&u8::encode(&text));
    let name = if wide { "STRING_TO_LINT" } else { "STRING_TO_DINT" };
    let got: Result<i64, String> = if wide {
        let f = sym!("STRING_TO_LINT", fn(*const u8) -> i64);
        call(|| unsafe { f(p) })
    } else {
        let f = sym!("STRING_TO_DINT", fn(*const u8) -> i32);
        call(|| unsafe { f(p) }).map(|v| v as i64)
    };
    let fits = |v: &BigInt| -> bool {
        let lim = if wide { BigInt::one() << 63 } else { BigInt::one() << 31 };
        *v < lim && *v >= -lim
    };
    let parsed = parse_int(&text);
    let s: String = text.iter().collect();
    src.note(|| format!("{name}({s:?})"));
    let (ok, want) = match &parsed {
        Parse::Value(v) if fits(v) => (got.as_ref().ok().is_some_and(|g| BigInt::from(*g) == *v), v.to_string()),
        Parse::Maybe(v) if fits(v) => (got.as_ref().map_or(true, |g| BigInt::from(*g) == *v), format!("{v} or rejection")),
        _ => (got.is_err(), "rejection".to_string()),
    };
    src.nt(!matches!(parsed, Parse::Maybe(_)));
    src.label_if(matches!(parsed, Parse::Reject), "not a number");
    src.label_if(matches!(&parsed, Parse::Value(v) if !fits(v)), "out of range");
    src.label_if(matches!(&parsed, Parse::Value(v) if fits(v)), "number in range");
    if !ok {
        return fail(format!("{name}:value"), format!("{name}({s:?}) = {got:?}, expected {want}"));
    }
    if let Err(e) = a.sources_intact() {
        return fail(format!("{name}:source"), format!("{name}: {e}"));
    }
    Ok(())
}
/// all BYTE values
fn c08_sweep(i: u64) -> Option<Vec<u64>> {
    (i < 256).then(|| vec![1, 0, i])
}

// ------------------------------------------------------------------------------------------------- C09

pub fn pow10(n: u32) -> BigInt {
    num::pow(BigInt::from(10), n as usize)
}
/// |x| as numerator / denominator, both exact
fn ratio(x: f64) -> (BigInt, BigInt) {
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7FF) as i64;
    let m = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    if e >= 0 {
        (BigInt::from(m) << e as usize, BigInt::one())
    } else {
        (BigInt::from(m), BigInt::one() << (-e) as usize)
    }
}
/// n/d rounded to integers: (nearest, other nearest if it is an exact tie)
fn round_int(n: &BigInt, d: &BigInt) -> (BigInt, BigInt) {
    let q = n / d;
    let r2 = (n % d) * 2;
    if r2 == *d {
        (q.clone(), q + 1)
    } else if r2 > *d {
        (&q + 1, q + 1)
    } else {
        (q.clone(), q)
    }
}
/// the acceptable texts
fn float_texts(x: f64, limit: f64) -> Vec<String> {
    if x.is_nan() {
        return vec!["NaN".into()];
    }
    if x.is_infinite() {
        return vec![if x > 0.0 { "inf".into() } else { "-inf".into() }];
    }
    let (n, d) = ratio(x);
    let sign = if x.is_sign_negative() { "-" } else { "" };
    let mut out = vec![];
    if x.abs() < limit {
        let (a, b) = round_int(&(n * pow10(6)), &d);
        for v in [a, b] {
            let t = v.to_string();
            let t = if t.len() < 7 { format!("{}{t}", "0".repeat(7 - t.len())) } else { t };
            let (i, f) = t.split_at(t.len() - 6);
            out.push(format!("{sign}{i}.{f}"));
            if v.is_zero() {
                out.push("0.000000".into());
            }
        }
    } else {
        // 10^e <= |x| < 10^(e+1); e >= 0 here
        let mut e = 0u32;
        while &n >= &(pow10(e + 1) * &d) {
            e += 1;
        }
        // 7 significant digits
        let (a, b) = if e >= 6 { round_int(&n, &(&d * pow10(e - 6))) } else { round_int(&(&n * pow10(6 - e)), &d) };
        for v in [a, b] {
            let (v, e) = if v == pow10(7) { (pow10(6), e + 1) } else { (v, e) };
            let t = v.to_string();
            let (i, f) = t.split_at(1);
            out.push(format!("{sign}{i}.{f}e{e}"));
        }
    }
    out
}

/// correctly rounded (ties to even) value of num/den in a binary format with `p` significant bits; bit pattern without sign
fn nearest(num: &BigInt, den: &BigInt, p: i64, emin: i64, emax: i64) -> (BigInt, i64, bool) {
    // returns (mantissa, exponent) with value = mantissa * 2^exponent, and overflow flag
    if num.is_zero() {
        return (BigInt::zero(), 0, false);
    }
    // e such that 2^(e) <= num/den < 2^(e+1)
    let mut e = num.bits() as i64 - den.bits() as i64;
    let ge = |e: i64| if e >= 0 { *num >= (den << e as usize) } else { (num << (-e) as usize) >= *den };
    if !ge(e) {
        e -= 1;
    }
    let q = (e - p + 1).max(emin - p + 1);
    // mantissa = round(num/den / 2^q)
    let (n, d) = if q >= 0 { (num.clone(), den << q as usize) } else { (num << (-q) as usize, den.clone()) };
    let (a, b) = round_int(&n, &d);
    let m = if a != b && (&a % 2u32) == BigInt::one() { b } else { a };
    let over = (m.bits() as i64 + q - 1) > emax;
    (m, q, over)
}
fn f64_of(m: BigInt, q: i64, over: bool) -> f64 {
    if over {
        return f64::INFINITY;
    }
    if m.is_zero() {
        return 0.0;
    }
    // m < 2^54, exact
    let m = m.to_u64().unwrap();
    let mut bits = m;
    let mut e = q;
    // normalise
    while bits >= 1 << 53 {
        assert!(bits & 1 == 0);
        bits >>= 1;
        e += 1;
    }
    while bits < 1 << 52 && e > -1074 {
        bits <<= 1;
        e -= 1;
    }
    if bits < 1 << 52 {
        f64::from_bits(bits)
    } else {
        f64::from_bits((((e + 1075) as u64) << 52) | (bits & ((1 << 52) - 1)))
    }
}

enum FParse {
    Reject,
    Free,
    /// sign, digits, exponent of ten, canonical (acceptance required)
    Num(bool, BigInt, i64, bool),
}
fn parse_float(t: &str) -> FParse {
    let (neg, b) = match t.chars().next() {
        Some('-') => (true, &t[1..]),
        Some('+') => (false, &t[1..]),
        _ => (false, t),
    };
    let low = b.to_ascii_lowercase();
    if low == "inf" || low == "infinity" || low == "nan" {
        return FParse::Free;
    }
    let (mant, exp) = match b.find(['e', 'E']) {
        Some(i) => (&b[..i], Some(&b[i + 1..])),
        None => (b, None),
    };
    let (ip, fp, dot) = match mant.find('.') {
        Some(i) => (&mant[..i], &mant[i + 1..], true),
        None => (mant, "", false),
    };
    let alld = |s: &str| s.chars().all(|c| c.is_ascii_digit());
    if !alld(ip) || !alld(fp) || (ip.is_empty() && fp.is_empty()) {
        return FParse::Reject;
    }
    let mut e = 0i64;
    if let Some(x) = exp {
        let (en, d) = match x.chars().next() {
            Some('-') => (true, &x[1..]),
            Some('+') => (false, &x[1..]),
            _ => (false, x),
        };
        if d.is_empty() || !alld(d) {
            return FParse::Reject;
        }
        let d = d.trim_start_matches('0');
        e = if d.len() > 12 { 1_000_000_000_000 } else { format!("0{d}").parse::<i64>().unwrap() };
        if en {
            e = -e;
        }
    }
    let canonical = !ip.is_empty() && (!dot || !fp.is_empty());
    let digits: BigInt = format!("{ip}{fp}").parse().unwrap();
    FParse::Num(neg, digits, e - fp.len() as i64, canonical)
}
fn value64(d: &BigInt, e: i64) -> f64 {
    match big_ratio(d, e, 330, 400) {
        Ok((n, den)) => {
            let (m, q, o) = nearest(&n, &den, 53, -1022, 1023);
            f64_of(m, q, o)
        }
        Err(v) => v,
    }
}
fn value32(d: &BigInt, e: i64) -> f32 {
    match big_ratio(d, e, 330, 400) {
        Ok((n, den)) => {
            let (m, q, o) = nearest(&n, &den, 24, -126, 127);
            // exact in f64, hence exact in the cast
            f64_of(m, q, o) as f32
        }
        Err(v) => v as f32,
    }
}
/// d*10^e as a fraction, unless it is obviously infinite or zero
fn big_ratio(d: &BigInt, e: i64, hi: i64, lo: i64) -> Result<(BigInt, BigInt), f64> {
    if d.is_zero() {
        return Err(0.0);
    }
    let len = d.to_string().len() as i64;
    if len + e > hi {
        return Err(f64::INFINITY);
    }
    if len + e < -lo {
        return Err(0.0);
    }
    Ok(if e >= 0 { (d * pow10(e as u32), BigInt::one()) } else { (d.clone(), pow10((-e) as u32)) })
}

fn float_text_gen(src: &mut Src, wide: bool) -> String {
    let neg = src.bool();
    let plus = src.chance(1, 8);
    let mut s = String::from(if neg { "-" } else if plus { "+" } else { "" });
    match src.weighted(&[5, 5, 4, 3, 2, 2]) {
        0 => {
            let v = src.uint(64);
            let f = src.len(20);
            s += &v.to_string();
            if f > 0 {
                s.push('.');
                for _ in 0..f {
                    s.push((b'0' + src.below(10) as u8) as char);
                }
            }
        }
        1 => {
            let v = src.uint(64);
            let f = src.below(25) as usize;
            let t = v.to_string();
            s += &t[..1];
            if t.len() > 1 {
                s.push('.');
                s += &t[1..];
            }
            s.push(if src.bool() { 'E' } else { 'e' });
            let e = match src.weighted(&[3, 3, 1]) {
                0 => f as i64 - 12,
                1 => src.range(-345, 325) as i64,
                _ => src.sint(20),
            };
            if e >= 0 && src.chance(1, 3) {
                s.push('+');
            }
            s += &e.to_string();
        }
        k @ (2 | 3) => {
            // exactly half way between two neighbours (or next to it), in full
            let (x, y) = if wide {
                let b = src.f64_any().abs();
                let b = if b.is_finite() { b } else { 1.0 };
                let n = f64::from_bits(b.to_bits() + 1);
                (b, if n.is_finite() { n } else { b })
            } else {
                let b = src.f32_any().abs();
                let b = if b.is_finite() { b } else { 1.0 };
                let n = f32::from_bits(b.to_bits() + 1);
                (b as f64, if n.is_finite() { n as f64 } else { b as f64 })
            };
            let ((n1, d1), (n2, d2)) = (ratio(x), ratio(y));
            // (x+y)/2, denominators are powers of two
            let mut n = if k == 2 { &n1 * &d2 + &n2 * &d1 } else { &n1 * &d2 * 2u32 };
            let d = &d1 * &d2 * 2u32;
            let sh = d.bits() as usize - 1;
            // n / 2^sh = n*5^sh / 10^sh
            n *= num::pow(BigInt::from(5), sh);
            let mut t = n.to_string();
            if t.len() <= sh {
                t = format!("{}{t}", "0".repeat(sh + 1 - t.len()));
            }
            let (i, f) = t.split_at(t.len() - sh);
            let f = f.trim_end_matches('0');
            s += i;
            if !f.is_empty() || src.bool() {
                s.push('.');
                s += if f.is_empty() { "0" } else { f };
                match src.below(4) {
                    0 => s.push('1'),
                    1 => s += "00000000000000000000000001",
                    _ => {}
                }
            }
        }
        4 => {
            let n = src.len(10);
            for _ in 0..n {
                s.push(*src.pick(&['0', '1', '9', '.', 'e', 'E', '-', '+', ' ', '_', 'x', '5', 'i', 'n', 'f', ',']));
            }
        }
        _ => {
            let x = if wide { src.f64_any() } else { src.f32_any() as f64 };
            s = if src.bool() { format!("{x:?}") } else { format!("{x:e}") };
            let i = src.below(s.len() as u64 + 1) as usize;
            if src.chance(1, 3) {
                s.insert(i, *src.pick(&[' ', '_', '-', '.', 'e', '0', '#', '\n', 'f', '\u{a0}', '\u{661}']));
            }
        }
    }
    s
}

/// a number next to where the last of the digits shown changes: between two texts of 6 decimals, or of 7 significant
/// digits in scientific notation, up to a few representable values off
fn near_text_step(src: &mut Src) -> f64 {
    let digits = src.below(16) as u32;
    let k = match src.below(4) {
        // few digits, all the same length, runs of nines
        0 => src.below(1000),
        1 => 10u64.pow(digits) - 1 - src.below(2).min(10u64.pow(digits) - 1),
        _ => src.below(10u64.pow(digits + 1)),
    };
    // k + 1/2 steps, or a step itself
    let half = if src.chance(3, 4) { 5 } else { 0 };
    let e = if src.bool() { -7 } else { src.below(330) as i32 - 330 + src.below(2) as i32 * src.below(630) as i32 };
    let x: f64 = format!("{k}{half}e{e}").parse().unwrap();
    let off = src.below(7) as i64 - 3;
    let x = if x.is_finite() { f64::from_bits((x.to_bits() as i64 + off).max(0) as u64) } else { x };
    if src.bool() {
        -x
    } else {
        x
    }
}

fn c09(src: &mut Src) -> Res {
    if src.bool() {
        let wide = src.bool();
        let x = if src.chance(1, 3) {
            near_text_step(src)
        } else if wide || src.chance(1, 4) {
            src.f64_any()
        } else {
            src.f32_any() as f64
        };
        let (name, limit) = if wide { ("LREAL_TO_STRING_EXT", 1e14) } else { ("REAL_TO_STRING_EXT", 1e6) };
        let f = sym!(name, fn(f64, *mut u8) -> i32);
        let got = text_of(src, name, |d| unsafe { f(x, d) }, &format!("{x:?}"))?;
        let want = float_texts(x, limit);
        src.nt(x.is_finite() && x.fract() != 0.0 || x.abs() >= limit);
        src.label_if(x.is_finite() && x.abs() >= limit, "scientific notation");
        src.label_if(x < 0.0, "negative");
        src.label_if(want.len() > 2 && want[0] != want[1] && x.is_finite(), "tie");
        src.note(|| format!("{name}({x:?}) = {got:?}"));
        if !want.contains(&got) {
            return fail(format!("{name}:text"), format!("{name}({x:?}) gives {got:?}, expected {:?}", want[0]));
        }
        return Ok(());
    }
    let wide = src.bool();
    let text = float_text_gen(src, wide);
    let name = if wide { "STRING_TO_LREAL" } else { "STRING_TO_REAL" };
    let a = Arena::get().reset();
    let p = a.put(text.as_bytes());
    // bits, so that NaN compares
    let got: Result<u64, String> = if wide {
        let f = sym!("STRING_TO_LREAL", fn(*const u8) -> f64);
        call(|| unsafe { f(p) }).map(|v| v.to_bits())
    } else {
        let f = sym!("STRING_TO_REAL", fn(*const u8) -> f32);
        call(|| unsafe { f(p) }).map(|v| v.to_bits() as u64)
    };
    let showv = |b: u64| if wide { format!("{:?}", f64::from_bits(b)) } else { format!("{:?}", f32::from_bits(b as u32)) };
    src.note(|| format!("{name}({text:?})"));
    let short = if text.len() > 90 { format!("{}...({} chars)", &text[..80], text.len()) } else { text.clone() };
    match parse_float(&text) {
        FParse::Free => Ok(()),
        FParse::Reject => {
            src.nt(true);
            src.label("not a number");
            match got {
                Err(_) => Ok(()),
                Ok(v) => fail(format!("{name}:accepted"), format!("{name}({short:?}) = {}, but the text is not a number", showv(v))),
            }
        }
        FParse::Num(neg, d, e, canonical) => {
            let want = if wide { value64(&d, e).to_bits() | (neg as u64) << 63 } else { value32(&d, e).to_bits() as u64 | (neg as u64) << 31 };
            let inf = want << 1 == if wide { f64::INFINITY.to_bits() << 1 } else { (f32::INFINITY.to_bits() as u64) << 1 };
            src.nt(!d.is_zero());
            src.label(if inf { "overflow" } else { "number" });
            match got {
                Ok(v) if v == want => Ok(()),
                // the sign of zero is not specified
                Ok(v) if d.is_zero() && (v == 0 || v == if wide { 1 << 63 } else { 1 << 31 }) => Ok(()),
                Err(_) if !canonical || inf => Ok(()),
                Ok(v) => fail(format!("{name}:value"), format!("{name}({short:?}) = {}, nearest value is {}", showv(v), showv(want))),
                Err(e) => fail(format!("{name}:rejected"), format!("{name}({short:?}) was rejected ({e}), value is {}", showv(want))),
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------- C10

fn time_text(v: i64) -> String {
    let neg = v < 0;
    let mut m = v.unsigned_abs();
    let mut t = String::from(if neg { "-" } else { "" });
    for (unit, n) in [
        ("d", 86_400_000_000_000u64),
        ("h", 3_600_000_000_000),
        ("m", 60_000_000_000),
        ("s", 1_000_000_000),
        ("ms", 1_000_000),
        ("us", 1000),
        ("ns", 1),
    ] {
        if m / n > 0 {
            t += &format!("{}{unit}", m / n);
        }
        m %= n;
    }
    t
}

fn c10(src: &mut Src) -> Res {
    let k = src.below(4);
    let (name, v, want) = match k {
        0 => {
            let v = if src.bool() {
                // a sum of components, some of them zero
                let mut s = 0i64;
                for (unit, lim) in [
                    (86_400_000_000_000i64, 1000u64),
                    (3_600_000_000_000, 24),
                    (60_000_000_000, 60),
                    (1_000_000_000, 60),
                    (1_000_000, 1000),
                    (1000, 1000),
                    (1, 1000),
                ] {
                    if src.bool() {
                        s += unit * src.below(lim) as i64;
                    }
                }
                if src.chance(1, 3) {
                    -s
                } else {
                    s
                }
            } else {
                src.sint(64)
            };
            ("TIME_TO_STRING_EXT", v, time_text(v))
        }
        1 => {
            let v = cal::any_ts(src);
            ("DATE_TO_STRING_EXT", v, cal::date_text(cal::split(v).0))
        }
        2 => {
            let v = cal::any_ts(src);
            let (d, n) = cal::split(v);
            ("DT_TO_STRING_EXT", v, format!("{}-{}", cal::date_text(d), cal::time_text(n)))
        }
        _ => {
            let v = cal::any_ts(src);
            ("TOD_TO_STRING_EXT", v, cal::time_text(cal::split(v).1))
        }
    };
    let f = sym!(name, fn(i64, *mut u8) -> i32);
    let got = text_of(src, name, |d| unsafe { f(v, d) }, &v.to_string())?;
    src.nt(v != 0);
    src.label_if(v < 0, "negative");
    src.note(|| format!("{name}({v}) = {got:?}"));
    if got != want {
        return fail(format!("{name}:text"), format!("{name}({v}) gives {got:?}, expected {want:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- C26-C28

fn c26(src: &mut Src) -> Res {
    const TY: &[(&str, u32)] = &[
        ("INT", 16),
        ("DINT", 32),
        ("LINT", 64),
        ("UINT", 16),
        ("UDINT", 32),
        ("ULINT", 64),
        ("WORD", 16),
        ("DWORD", 32),
        ("LWORD", 64),
        ("WCHAR", 16),
        ("DATE", 64),
        ("TIME_OF_DAY", 64),
        ("DATE_AND_TIME", 64),
        ("REAL", 1032),
        ("LREAL", 1064),
    ];
    let (ty, bits) = *src.pick(TY);
    let d = src.below(4) as usize;
    let dir = ["TO_BIG_ENDIAN", "TO_LITTLE_ENDIAN", "FROM_BIG_ENDIAN", "FROM_LITTLE_ENDIAN"][d];
    let name = format!("{dir}__{ty}");
    if bits > 1000 {
        // unchanged, to the bit (a signalling NaN may turn quiet)
        let (x, y, nan, eq) = if bits == 1032 {
            let b = bits32(src);
            let f = sym!(&name, fn(f32) -> f32);
            let y = call(|| unsafe { f(f32::from_bits(b)).to_bits() });
            let loud = f32::from_bits(b).is_nan() && b & 0x40_0000 == 0;
            let eq = y.as_ref().is_ok_and(|y| *y == b || (loud && *y == b | 0x40_0000));
            (b as u64, y.map(|v| v as u64), f32::from_bits(b).is_nan(), eq)
        } else {
            let b = bits64(src);
            let f = sym!(&name, fn(f64) -> f64);
            let y = call(|| unsafe { f(f64::from_bits(b)).to_bits() });
            let loud = f64::from_bits(b).is_nan() && b & (1 << 51) == 0;
            let eq = y.as_ref().is_ok_and(|y| *y == b || (loud && *y == b | 1 << 51));
            (b, y, f64::from_bits(b).is_nan(), eq)
        };
        src.nt(x != 0);
        src.label_if(nan, "NaN");
        src.note(|| format!("{name}({x:#x})"));
        if !eq {
            return fail(format!("{name}:value"), format!("{name} of the bits {x:#x} gave {y:x?}"));
        }
        return Ok(());
    }
    let x = src.uint(bits);
    let run = |name: &str, x: u64| -> Result<Result<u64, String>, Fail> {
        Ok(match bits {
            16 => {
                let f = sym!(name, fn(u16) -> u16);
                call(|| unsafe { f(x as u16) }).map(|v| v as u64)
            }
            32 => {
                let f = sym!(name, fn(u32) -> u32);
                call(|| unsafe { f(x as u32) }).map(|v| v as u64)
            }
            _ => {
                let f = sym!(name, fn(u64) -> u64);
                call(|| unsafe { f(x) })
            }
        })
    };
    let y = run(&name, x)?;
    let want = if d == 0 || d == 3 {
        let mut w = 0u64;
        for i in 0..bits / 8 {
            w |= ((x >> (8 * i)) & 0xFF) << (bits - 8 - 8 * i);
        }
        w
    } else {
        x
    };
    src.nt(want != x || ((d == 1 || d == 2) && x > 255));
    src.note(|| format!("{name}({x:#x})"));
    if y != Ok(want) {
        return fail(format!("{name}:value"), format!("{name}({x:#x}) = {y:x?}, expected {want:#x}"));
    }
    let back = run(&name, want)?;
    if back != Ok(x) {
        return fail(format!("{name}:involution"), format!("{name}({want:#x}) = {back:x?}, expected {x:#x}"));
    }
    Ok(())
}

fn bits64(src: &mut Src) -> u64 {
    if src.bool() {
        src.f64_any().to_bits()
    } else {
        let e = *src.pick(&[0u64, 0x7FF, 1, 0x7FE, 0x3FF]);
        let s = src.below(2);
        (s << 63) | (e << 52) | src.uint(52)
    }
}
fn bits32(src: &mut Src) -> u32 {
    if src.bool() {
        src.f32_any().to_bits()
    } else {
        let e = *src.pick(&[0u32, 0xFF, 1, 0xFE, 0x7F]);
        let s = src.below(2) as u32;
        (s << 31) | (e << 23) | src.uint(23) as u32
    }
}

fn c27(src: &mut Src) -> Res {
    let wide = src.bool();
    if wide {
        let b = bits64(src);
        let f = sym!("LWORD_TO_LREAL", fn(u64) -> f64);
        let g = sym!("LREAL_TO_LWORD", fn(f64) -> u64);
        src.nt(b != 0);
        src.note(|| format!("LWORD_TO_LREAL({b:#018x})"));
        let x = call(|| unsafe { f(b) }.to_bits());
        if x != Ok(b) {
            return fail("LWORD_TO_LREAL:bits", format!("LWORD_TO_LREAL({b:#018x}) has bits {x:x?}"));
        }
        let y = call(|| unsafe { g(f64::from_bits(b)) });
        if y != Ok(b) {
            return fail("LREAL_TO_LWORD:bits", format!("LREAL_TO_LWORD of the value with bits {b:#018x} = {y:x?}"));
        }
    } else {
        let b = bits32(src);
        let f = sym!("DWORD_TO_REAL", fn(u32) -> f32);
        let g = sym!("REAL_TO_DWORD", fn(f32) -> u32);
        src.nt(b != 0);
        src.note(|| format!("DWORD_TO_REAL({b:#010x})"));
        let x = call(|| unsafe { f(b) }.to_bits());
        if x != Ok(b) {
            return fail("DWORD_TO_REAL:bits", format!("DWORD_TO_REAL({b:#010x}) has bits {x:x?}"));
        }
        let y = call(|| unsafe { g(f32::from_bits(b)) });
        if y != Ok(b) {
            return fail("REAL_TO_DWORD:bits", format!("REAL_TO_DWORD of the value with bits {b:#010x} = {y:x?}"));
        }
    }
    Ok(())
}

fn c28(src: &mut Src) -> Res {
    let k = src.below(6);
    match k {
        0 => {
            let b = bits32(src);
            let f = sym!("IS_VALID__REAL", fn(f32) -> u8);
            let r = call(|| unsafe { f(f32::from_bits(b)) });
            let want = ((b >> 23) & 0xFF != 0xFF) as u8;
            src.nt(true);
            src.note(|| format!("IS_VALID__REAL(bits {b:#x})"));
            if r != Ok(want) {
                return fail("IS_VALID__REAL:value", format!("IS_VALID__REAL(bits {b:#x}) = {r:?}, expected {want}"));
            }
        }
        1 => {
            let b = bits64(src);
            let f = sym!("IS_VALID__LREAL", fn(f64) -> u8);
            let r = call(|| unsafe { f(f64::from_bits(b)) });
            let want = ((b >> 52) & 0x7FF != 0x7FF) as u8;
            src.nt(true);
            src.note(|| format!("IS_VALID__LREAL(bits {b:#x})"));
            if r != Ok(want) {
                return fail("IS_VALID__LREAL:value", format!("IS_VALID__LREAL(bits {b:#x}) = {r:?}, expected {want}"));
            }
        }
        k => {
            let bits = 8u32 << (k - 2);
            let n = bits / 4;
            let mut v = 0u64;
            if bits <= 16 {
                v = src.uint(bits);
            } else {
                // decimal digits, with at most a few nibbles above 9
                for i in 0..n {
                    v |= src.below(10) << (4 * i);
                }
                for _ in 0..src.below(3) {
                    let i = src.below(n as u64);
                    let d = src.below(16);
                    v = (v & !(0xF << (4 * i))) | (d << (4 * i));
                }
            }
            let name = format!("IS_VALID_BCD__{}", ["BYTE", "WORD", "DWORD", "LWORD"][k as usize - 2]);
            let r = match bits {
                8 => {
                    let f = sym!(&name, fn(u8) -> u8);
                    call(|| unsafe { f(v as u8) })
                }
                16 => {
                    let f = sym!(&name, fn(u16) -> u8);
                    call(|| unsafe { f(v as u16) })
                }
                32 => {
                    let f = sym!(&name, fn(u32) -> u8);
                    call(|| unsafe { f(v as u32) })
                }
                _ => {
                    let f = sym!(&name, fn(u64) -> u8);
                    call(|| unsafe { f(v) })
                }
            };
            let want = (0..n).all(|i| (v >> (4 * i)) & 0xF <= 9) as u8;
            src.nt(v > 9);
            src.label_if(want == 0, "not BCD");
            src.note(|| format!("{name}({v:#x})"));
            if r != Ok(want) {
                return fail(format!("{name}:value"), format!("{name}({v:#x}) = {r:?}, expected {want}"));
            }
        }
    }
    Ok(())
}
fn c28_sweep(i: u64) -> Option<Vec<u64>> {
    if i < 256 {
        Some(vec![2, i])
    } else if i < 256 + 65536 {
        Some(vec![3, i - 256])
    } else {
        None
    }
}
/// all 16-bit values of the 16-bit types, all four directions
fn c26_sweep(i: u64) -> Option<Vec<u64>> {
    let ty = [0u64, 3, 6, 9];
    (i < 65536 * 16).then(|| vec![ty[(i >> 16) as usize & 3], (i >> 18) & 3, i & 0xFFFF])
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08", run: c08, quick: 1_600_000, thorough: 50_000_000, sweep: Some(c08_sweep), configs: BOTH,
            assumptions: &["a sign between radix prefix and digits is not specified: rejecting and the signed value are both accepted"],
            rule: "integers of all three source types rendered and read back; texts built from numbers around the 32/64-bit limits in every radix and prefix, damaged numbers and random digit/sign/prefix soup; non-trivial: a value of more than one digit, or any text whose verdict is specified; all BYTE values enumerated",
        },
        Prop {
            id: "C09", run: c09, quick: 1_600_000, thorough: 6_000_000, sweep: None, configs: BOTH,
            assumptions: &[
                "on an exact decimal tie either neighbour is accepted; the sign of a zero is not specified",
                "texts for infinity and NaN, and numbers without digits on one side of the point, may be accepted or rejected",
                "a number beyond the largest value may become infinity or be rejected",
            ],
            rule: "all kinds of floating point values (integers, decimal fractions, half-way values, random bit patterns, limits) to text; decimal/scientific texts incl. exact midpoints between neighbours, damaged texts; oracle in exact big-integer arithmetic; non-trivial: fractional or large values, non-zero numbers, non-numbers",
        },
        Prop {
            id: "C10", run: c10, quick: 1_200_000, thorough: 40_000_000, sweep: None, configs: BOTH, assumptions: &[],
            rule: "64-bit timestamps: random, midnights, month and leap-day boundaries of 1678..2262, coarse fractions; durations as sums of components of either sign; non-trivial: not zero",
        },
        Prop {
            id: "C26", run: c26, quick: 1_000_000, thorough: 40_000_000, sweep: Some(c26_sweep), configs: BOTH,
            assumptions: &["little-endian host"],
            rule: "every type and direction, biased and random values, applied once and twice; all 16-bit values enumerated; non-trivial: the bytes change, or a multi-byte value is kept",
        },
        Prop {
            id: "C27", run: c27, quick: 2_000_000, thorough: 100_000_000, sweep: None, configs: BOTH, assumptions: &[],
            rule: "bit patterns: random, special exponents (denormal, infinity/NaN, 1) with random mantissas, values of interest; non-trivial: not all-zero",
        },
        Prop {
            id: "C28", run: c28, quick: 2_000_000, thorough: 100_000_000, sweep: Some(c28_sweep), configs: BOTH, assumptions: &[],
            rule: "float bit patterns with special exponents; digit patterns with 0-2 nibbles overwritten; all BYTE and WORD values enumerated; non-trivial: any float, BCD values above 9",
        },
    ]
}
