//! C01-C07: string functions against a model on `Vec<char>`, with guarded and dirty memory.

use super::BOTH;
use crate::engine::*;
use crate::sym;
use crate::sys::{show, Arena, Unit};

const MAXC: usize = 260;
/// longest text, beyond 16-bit lengths
const BIG: usize = 70_000;

pub fn s(c: &[char]) -> String {
    let t: String = c.iter().collect();
    if t.len() > 300 {
        format!("{:?}.. ({} chars)", t.chars().take(60).collect::<String>(), c.len())
    } else {
        format!("{t:?}")
    }
}

/// destination placement and previous contents
pub fn dest_setup<U: Unit>(src: &mut Src, a: &mut Arena) -> *mut U {
    let off = src.below(5) as usize * 8 + src.below(2) as usize;
    let k = src.weighted(&[3, 2, 3, 2]);
    let fill = match k {
        0 => Some(0u8),
        1 => Some(0xFF),
        2 => Some(b'Z'),
        _ => None, // leftovers of earlier steps
    };
    src.label_if(k != 0, "dirty destination");
    a.dest::<U>(8 + off, fill)
}

fn is_multi<U: Unit>(c: &[char]) -> bool {
    if U::SIZE == 1 {
        c.iter().any(|c| *c as u32 >= 0x80)
    } else {
        c.iter().any(|c| *c as u32 >= 0x10000)
    }
}

/// judge a call: `want` is the expected text, or None if the call must be rejected
fn judge<U: Unit>(name: &str, a: &Arena, got: Result<i32, String>, want: Option<Vec<char>>, ctx: &dyn Fn() -> String) -> Res {
    if let Err(e) = a.sources_intact() {
        return fail(format!("{name}:source"), format!("{name}: {e}; {}", ctx()));
    }
    match (got, want) {
        (Ok(rc), Some(w)) => {
            if rc != 0 {
                return fail(format!("{name}:status"), format!("{name} reported {rc}; {}", ctx()));
            }
            if let Err(e) = a.check_dest::<U>(&U::encode(&w), 0) {
                return fail(format!("{name}:result"), format!("{name}: {e}; {}", ctx()));
            }
            Ok(())
        }
        (Err(e), Some(w)) => {
            fail(format!("{name}:rejected"), format!("{name} rejected a valid call ({e}); expected {}; {}", s(&w), ctx()))
        }
        (Ok(_), None) => fail(
            format!("{name}:accepted"),
            format!("{name} accepted an invalid call and wrote {}; {}", show(&a.result::<U>()), ctx()),
        ),
        (Err(_), None) => {
            if let Err(e) = a.check_rejected() {
                return fail(format!("{name}:before"), format!("{name}: {e}; {}", ctx()));
            }
            Ok(())
        }
    }
}

/// an integer argument around the interesting values 0..=n
fn arg(src: &mut Src, n: usize) -> i32 {
    match src.weighted(&[7, 2, 1, 2]) {
        0 => src.range(0, n as i128) as i32,
        1 => (n as i64 + src.range(0, 3) as i64) as i32,
        2 => -(src.range(0, 3) as i32),
        _ => src.sint(32) as i32,
    }
}

fn c01<U: Unit>(src: &mut Src) -> Res {
    let text = src.text(MAXC, BIG);
    let n = text.len();
    let op = src.below(3);
    let a = Arena::get().reset();
    let l = arg(src, n);
    let p = if op == 2 { arg(src, n + 1) } else { 0 };
    a.room(4 * n);
    let ps = a.put(&U::encode(&text));
    let d = dest_setup::<U>(src, a);
    let (name, got) = match op {
        0 => {
            let name = format!("LEFT_EXT__{}", U::SUFFIX);
            let f = sym!(&name, fn(*const U, i32, *mut U) -> i32);
            (name, call(|| unsafe { f(ps, l, d) }))
        }
        1 => {
            let name = format!("RIGHT_EXT__{}", U::SUFFIX);
            let f = sym!(&name, fn(*const U, i32, *mut U) -> i32);
            (name, call(|| unsafe { f(ps, l, d) }))
        }
        _ => {
            let name = format!("MID_EXT__{}", U::SUFFIX);
            let f = sym!(&name, fn(*const U, i32, i32, *mut U) -> i32);
            (name, call(|| unsafe { f(ps, l, p, d) }))
        }
    };
    let (li, pi, ni) = (l as i64, p as i64, n as i64);
    let want = match op {
        0 if li >= 0 && li <= ni => Some(text[..l as usize].to_vec()),
        1 if li >= 0 && li <= ni => Some(text[n - l as usize..].to_vec()),
        2 if li >= 0 && pi >= 1 && pi <= ni && pi - 1 + li <= ni => {
            Some(text[p as usize - 1..p as usize - 1 + l as usize].to_vec())
        }
        _ => None,
    };
    src.nt(want.as_ref().is_some_and(|w| !w.is_empty() && w.len() < n) || want.is_none());
    src.label_if(want.is_none(), "rejected");
    src.label_if(want.is_some() && is_multi::<U>(&text), "accepted, multi-unit characters");
    let ctx = || format!("s={}, l={l}, p={p}", s(&text));
    src.note(|| format!("{name}({})", ctx()));
    judge::<U>(&name, a, got, want, &ctx)
}

fn c02<U: Unit>(src: &mut Src) -> Res {
    let text = src.text(MAXC, BIG);
    let n = text.len();
    let op = src.below(3);
    let ins = if op == 1 { vec![] } else { src.text(100, 20_000) };
    let a = Arena::get().reset();
    let p = arg(src, n + 1);
    let l = if op == 0 { 0 } else { arg(src, n.saturating_sub((p.max(1) as usize).min(n + 1) - 1)) };
    let alias = op != 1 && src.chance(1, 12);
    let ins = if alias { text.clone() } else { ins };
    a.room(4 * (n + ins.len()));
    let ps = a.put(&U::encode(&text));
    let pi = if alias { ps } else { a.put(&U::encode(&ins)) };
    let d = dest_setup::<U>(src, a);
    let (name, got) = match op {
        0 => {
            let name = format!("INSERT_EXT__{}", U::SUFFIX);
            let f = sym!(&name, fn(*const U, *const U, i32, *mut U) -> i32);
            (name, call(|| unsafe { f(ps, pi, p, d) }))
        }
        1 => {
            let name = format!("DELETE_EXT__{}", U::SUFFIX);
            let f = sym!(&name, fn(*const U, i32, i32, *mut U) -> i32);
            (name, call(|| unsafe { f(ps, l, p, d) }))
        }
        _ => {
            let name = format!("REPLACE_EXT__{}", U::SUFFIX);
            let f = sym!(&name, fn(*const U, *const U, i32, i32, *mut U) -> i32);
            (name, call(|| unsafe { f(ps, pi, l, p, d) }))
        }
    };
    let (l6, p6, n6) = (l as i64, p as i64, n as i64);
    let want = if op == 0 {
        if p6 >= 0 && p6 <= n6 {
            let p = p as usize;
            Some([&text[..p], &ins[..], &text[p..]].concat())
        } else {
            None
        }
    } else if p6 >= 1 && p6 <= n6 && l6 >= 0 && p6 - 1 + l6 <= n6 {
        let (p, l) = (p as usize - 1, l as usize);
        Some([&text[..p], &ins[..], &text[p + l..]].concat())
    } else {
        None
    };
    src.nt(want.is_none() || (n > 0 && want.as_ref().is_some_and(|w| *w != text)));
    src.label_if(want.is_none(), "rejected");
    src.label_if(want.is_none() && l < 0, "rejected: negative length");
    src.label_if(want.is_some() && is_multi::<U>(&text), "accepted, multi-unit characters");
    let ctx = || format!("s={}, t={}, l={l}, p={p}", s(&text), s(&ins));
    src.note(|| format!("{name}({})", ctx()));
    judge::<U>(&name, a, got, want, &ctx)
}

fn c03<U: Unit>(src: &mut Src) -> Res {
    let kind = src.weighted(&[2000, 1200, 400, 20, 1]);
    let argc = match kind {
        0 => src.below(5) as usize,
        1 => src.below(10) as usize,
        2 => src.below(40) as usize,
        3 => src.below(300) as usize,
        _ => src.big_count(),
    };
    let distinct = if kind == 4 { argc.min(1 + src.below(6) as usize) } else { argc };
    let (maxlen, big) = match argc {
        0..=10 => (MAXC, 40_000),
        11..=40 => (40, 3000),
        41..=300 => (4, 100),
        _ => (4, 4),
    };
    let ext = src.bool();
    let a = Arena::get().reset();
    let mut parts: Vec<Vec<char>> = vec![];
    let mut ptrs: Vec<*const U> = vec![];
    for i in 0..argc {
        if i >= distinct {
            // a very long list: the same few pointers over and over
            parts.push(parts[i - distinct].clone());
            ptrs.push(ptrs[i - distinct]);
        } else if i > 0 && src.chance(1, 6) {
            let j = src.below(i as u64) as usize;
            parts.push(parts[j].clone());
            ptrs.push(ptrs[j]);
        } else {
            let t = src.text(maxlen, big);
            ptrs.push(a.put(&U::encode(&t)));
            parts.push(t);
        }
    }
    let raw = unsafe { std::slice::from_raw_parts(ptrs.as_ptr() as *const u8, ptrs.len() * 8) }.to_vec();
    let argv = a.raw(&raw) as *const *const U;
    a.room(4 * parts.iter().map(|p| p.len()).sum::<usize>());
    let d = dest_setup::<U>(src, a);
    let (name, got) = if ext {
        let name = format!("CONCAT_EXT__{}", U::SUFFIX);
        let f = sym!(&name, fn(*mut U, i32, *const *const U) -> i32);
        (name, call(|| unsafe { f(d, argc as i32, argv) }))
    } else {
        let name = format!("CONCAT__{}", U::SUFFIX);
        let f = sym!(&name, fn(*mut U, i32, *const *const U));
        (name, call(|| unsafe { f(d, argc as i32, argv) }).map(|_| 0))
    };
    let want: Vec<char> = parts.concat();
    src.nt(argc != 1 && (argc == 0 || !want.is_empty()));
    src.label_if(argc == 0, "no arguments");
    src.label_if(parts.iter().any(|p| p.is_empty()) && argc > 1, "empty argument among others");
    src.label_if(argc > 8, "more than 8 arguments");
    src.label_if(kind == 4, "argument count around a limit of 8 or 16 bits");
    let ctx = || {
        let args = parts[..distinct].iter().map(|p| s(p)).collect::<Vec<_>>().join(", ");
        if kind == 4 { format!("{argc} args={args}, ... repeated") } else { format!("args={args}") }
    };
    src.note(|| format!("{name}({})", ctx()));
    judge::<U>(&name, a, got, Some(want), &ctx)
}

fn c04<U: Unit>(src: &mut Src) -> Res {
    let a = Arena::get().reset();
    if src.chance(1, 4) {
        let text = src.text(MAXC, BIG);
        let name = format!("LEN__{}", U::SUFFIX);
        let f = sym!(&name, fn(*const U) -> i32);
        let p = a.put(&U::encode(&text));
        let got = call(|| unsafe { f(p) });
        src.nt(!text.is_empty());
        src.label_if(is_multi::<U>(&text), "LEN of multi-unit characters");
        src.note(|| format!("{name}({})", s(&text)));
        if got != Ok(text.len() as i32) {
            return fail(format!("{name}:value"), format!("{name}({}) = {got:?}, expected {}", s(&text), text.len()));
        }
        if let Err(e) = a.sources_intact() {
            return fail(format!("{name}:source"), format!("{name}: {e}"));
        }
        return Ok(());
    }
    let text = src.text(MAXC, BIG);
    let n = text.len();
    let mut needle = match src.weighted(&[6, 2, 3, 1]) {
        0 if n > 0 => {
            let i = src.below(n as u64) as usize;
            let long = src.chance(1, 8);
            let l = 1 + src.below((n - i) as u64).min(if long { 300 } else { 8 }) as usize;
            text[i..i + l].to_vec()
        }
        1 => src.chars(6),
        2 if n > 0 => {
            // up to the very end
            let l = 1 + src.below(n.min(5) as u64) as usize;
            text[n - l..].to_vec()
        }
        _ => {
            let mut t = text.clone();
            let k = src.below(3);
            if k == 1 {
                let c = src.char(0);
                t.push(c);
            } else if k == 2 {
                t = vec![];
            }
            t
        }
    };
    if !needle.is_empty() && src.chance(1, 4) {
        // near miss
        let c = src.char(2);
        let i = src.below(needle.len() as u64) as usize;
        needle[i] = c;
    }
    // repeat prefixes of the needle in front of the text so that partial matches precede the real one
    let mut hay = text.clone();
    if needle.len() > 1 && src.chance(1, 3) {
        let k = 1 + src.below(needle.len() as u64 - 1) as usize;
        let mut h = needle[..k].to_vec();
        h.extend_from_slice(&hay);
        hay = h;
    }
    if !needle.is_empty() && src.chance(1, 4) {
        // something that resembles the needle in front of it all
        let mut h = needle.clone();
        src.vary(&mut h);
        if hay.len() + h.len() < BIG {
            h.append(&mut hay);
            hay = h;
        }
    }
    let name = format!("FIND__{}", U::SUFFIX);
    let f = sym!(&name, fn(*const U, *const U) -> i32);
    let (ph, pn) = (a.put(&U::encode(&hay)), a.put(&U::encode(&needle)));
    let got = call(|| unsafe { f(ph, pn) });
    let mut want = 0;
    if !needle.is_empty() {
        for i in 0..hay.len() {
            if hay[i..].starts_with(&needle) {
                want = i as i32 + 1;
                break;
            }
        }
    }
    src.nt(want > 1 || (want == 0 && !needle.is_empty() && needle.len() <= hay.len()));
    src.label_if(want > 1, "match after the start");
    src.label_if(want > 1 && is_multi::<U>(&hay[..want as usize - 1]), "match after multi-unit characters");
    src.label_if(want == 0, "no match");
    src.note(|| format!("{name}({}, {})", s(&hay), s(&needle)));
    if got != Ok(want) {
        return fail(format!("{name}:value"), format!("{name}({}, {}) = {got:?}, expected {want}", s(&hay), s(&needle)));
    }
    if let Err(e) = a.sources_intact() {
        return fail(format!("{name}:source"), format!("{name}: {e}"));
    }
    Ok(())
}

/// chains of thousands of arguments: numbers rising, falling or standing still, with at most one exception anywhere
fn c05_long<U: Unit>(src: &mut Src, op: usize) -> Res {
    let a = Arena::get();
    let n = src.big_count().max(2);
    let dir = match op {
        0 => 2,
        2 => 1,
        4 => 0,
        1 => 1 + src.below(2),
        _ => src.below(2),
    };
    let mut nums: Vec<u32> = (0..n as u32).map(|i| [i, 7, n as u32 - i][dir as usize]).collect();
    if src.chance(2, 3) {
        let i = src.below(n as u64) as usize;
        let i = if src.bool() { i } else { n - 1 - i.min(20) };
        nums[i] = (nums[i] as i128 + src.range(-2, 2)).max(0) as u32;
    }
    // three digits of base 64 each
    let mut b: Vec<U> = vec![];
    for v in &nums {
        let d: Vec<char> = [12, 6, 0].iter().map(|k| (0x30 + (v >> k & 63) as u8) as char).collect();
        b.extend(U::encode(&d));
        b.extend(U::encode(&['\0']));
    }
    let raw = unsafe { std::slice::from_raw_parts(b.as_ptr() as *const u8, b.len() * U::SIZE) };
    let base = a.raw(raw) as *const U;
    let ptrs: Vec<*const U> = (0..n).map(|i| unsafe { base.add(4 * i) }).collect();
    let raw = unsafe { std::slice::from_raw_parts(ptrs.as_ptr() as *const u8, ptrs.len() * 8) }.to_vec();
    let argv = a.raw(&raw) as *const *const U;
    let name = format!("{}__{}", ["GT", "GE", "EQ", "LE", "LT"][op], U::SUFFIX);
    let f = sym!(&name, fn(i32, *const *const U) -> u8);
    let got = call(|| unsafe { f(n as i32, argv) });
    let bad = nums.windows(2).position(|w| !match op {
        0 => w[0] > w[1],
        1 => w[0] >= w[1],
        2 => w[0] == w[1],
        3 => w[0] <= w[1],
        _ => w[0] < w[1],
    });
    src.nt(true);
    src.label("chain of thousands");
    src.note(|| format!("{name} of {n} arguments, first failing pair {bad:?}"));
    if got != Ok(bad.is_none() as u8) {
        return fail(format!("{name}:value"), format!("{name} of {n} arguments = {got:?}, but its first failing pair is {bad:?}"));
    }
    if let Err(e) = a.sources_intact() {
        return fail(format!("{name}:source"), format!("{name}: {e}"));
    }
    Ok(())
}

fn c05<U: Unit>(src: &mut Src) -> Res {
    let a = Arena::get().reset();
    let op = src.below(6) as usize;
    let argc = if op == 5 {
        2
    } else {
        match src.weighted(&[3600, 1800, 600, 600, 30, 1]) {
            0 => 2,
            1 => 2 + src.below(5) as i32,
            2 => 2 + src.below(30) as i32,
            3 => 1 - src.below(4) as i32,
            4 => 2 + src.below(300) as i32,
            _ => return c05_long::<U>(src, op),
        }
    };
    let n = argc.max(1) as usize;
    let big = if n > 8 { 100 } else if n == 2 && src.chance(1, 20) { BIG } else { 5000 };
    let mut parts: Vec<Vec<char>> = vec![src.text(60, big)];
    while parts.len() < n {
        let mut t = parts.last().unwrap().clone();
        match src.weighted(&[4, 2, 6, 1, 1]) {
            0 => {}
            1 => {
                let c = src.char(2);
                t.push(c);
            }
            2 => src.vary(&mut t),
            3 => {
                t.pop();
            }
            _ => t = src.text(60, big),
        }
        parts.push(t);
    }
    let units: Vec<Vec<U>> = parts.iter().map(|p| U::encode(p)).collect();
    let ptrs: Vec<*const U> = units.iter().map(|u| a.put(u)).collect();
    let raw = unsafe { std::slice::from_raw_parts(ptrs.as_ptr() as *const u8, ptrs.len() * 8) }.to_vec();
    let argv = a.raw(&raw) as *const *const U;
    let name = format!("{}__{}", ["GT", "GE", "EQ", "LE", "LT", "NE"][op], U::SUFFIX);
    let got = if op == 5 {
        let f = sym!(&name, fn(*const U, *const U) -> u8);
        call(|| unsafe { f(ptrs[0], ptrs[1]) })
    } else {
        let f = sym!(&name, fn(i32, *const *const U) -> u8);
        call(|| unsafe { f(argc, argv) })
    };
    // lexicographic by code unit, a proper prefix is smaller
    let lex = |x: &[U], y: &[U]| -> i32 {
        for i in 0..x.len().min(y.len()) {
            if x[i] != y[i] {
                return if x[i] < y[i] { -1 } else { 1 };
            }
        }
        (x.len() as i32 - y.len() as i32).signum()
    };
    let ok = |c: i32| match op {
        0 => c > 0,
        1 => c >= 0,
        2 => c == 0,
        3 => c <= 0,
        4 => c < 0,
        _ => c != 0,
    };
    let want = if argc < 2 { None } else { Some(units.windows(2).all(|w| ok(lex(&w[0], &w[1]))) as u8) };
    let cmps: Vec<i32> = units.windows(2).map(|w| lex(&w[0], &w[1])).collect();
    src.nt(want.is_none() || parts.iter().any(|p| !p.is_empty()));
    src.label_if(argc > 2 && want == Some(1), "chain of 3 or more, TRUE");
    src.label_if(argc > 2 && want == Some(0) && cmps.first().is_some_and(|c| ok(*c)), "chain failing after its first pair");
    src.label_if(want.is_none(), "too few arguments");
    let ctx = || format!("argc={argc}, args={}", parts.iter().map(|p| s(p)).collect::<Vec<_>>().join(", "));
    src.note(|| format!("{name}({})", ctx()));
    match (&got, want) {
        (Err(_), None) => {}
        (Ok(g), Some(w)) if *g == w => {}
        _ => {
            return fail(
                format!("{name}:value"),
                format!("{name} = {got:?}, expected {}; {}", want.map_or("rejection".into(), |w| w.to_string()), ctx()),
            )
        }
    }
    if let Err(e) = a.sources_intact() {
        return fail(format!("{name}:source"), format!("{name}: {e}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- C06

/// bytes that are not valid UTF-8 (decided by this construction, checked against std)
fn invalid_utf8(src: &mut Src) -> Vec<u8> {
    let pre = u8::encode(&src.chars(20));
    let post = u8::encode(&src.chars(20));
    const BAD: [&[u8]; 15] = [
        &[0x80],
        &[0xBF],
        &[0xC3],
        &[0xC0, 0x80],
        &[0xC1, 0xBF],
        &[0xE2, 0x82],
        &[0xE2],
        &[0xED, 0xA0, 0x80],
        &[0xE0, 0x80, 0x80],
        &[0xF0, 0x9F, 0x98],
        &[0xF0, 0x80, 0x80, 0x80],
        &[0xF4, 0x90, 0x80, 0x80],
        &[0xF5, 0x80, 0x80, 0x80],
        &[0xFF],
        &[0xFE],
    ];
    let bad = *src.pick(&BAD);
    let mut v = pre;
    v.extend_from_slice(bad);
    // an ASCII character behind it keeps the bad sequence from being completed
    let at_end = src.bool();
    if !at_end {
        v.push(b'a');
        v.extend(post);
    }
    v
}

fn c06(src: &mut Src) -> Res {
    // a short history over the same destination memory: later calls see what earlier ones left there
    let steps = 1 + src.below(4);
    for k in 0..steps {
        match src.weighted(&[5, 5, 2, 4, 3, 2, 2]) {
            0 => c06_edit::<u8>(src)?,
            1 => c06_edit::<u16>(src)?,
            2 => c06_bad_utf8(src)?,
            3 => c06_number(src)?,
            4 => c06_time(src)?,
            6 => c06_bad_utf16(src)?,
            _ => {
                if src.bool() {
                    super::strings::c07_ws(src)?
                } else {
                    super::strings::c07_sw(src)?
                }
            }
        }
        src.label_if(k > 0, "step over a used destination");
    }
    Ok(())
}

fn c06_edit<U: Unit>(src: &mut Src) -> Res {
    match src.below(3) {
        0 => c01::<U>(src),
        1 => c02::<U>(src),
        _ => c03::<U>(src),
    }
}

fn c06_bad_utf8(src: &mut Src) -> Res {
    let bad = invalid_utf8(src);
    if std::str::from_utf8(&bad).is_ok() {
        return Ok(());
    }
    let good = u8::encode(&src.chars(20));
    let a = Arena::get().reset();
    let b = a.put(&bad);
    let g = a.put(&good);
    let d = dest_setup::<u8>(src, a);
    let l = src.below(4) as i32;
    let p = src.below(3) as i32;
    let op = src.below(13);
    let first = src.bool();
    let (x, y) = if first { (b, g) } else { (g, b) };
    let raw = unsafe { std::slice::from_raw_parts([x, y].as_ptr() as *const u8, 16) }.to_vec();
    let argv = a.raw(&raw) as *const *const u8;
    let (name, got) = match op {
        0 => {
            let f = sym!("LEN__STRING", fn(*const u8) -> i32);
            ("LEN__STRING", call(|| unsafe { f(b) }))
        }
        1 => {
            let f = sym!("LEFT_EXT__STRING", fn(*const u8, i32, *mut u8) -> i32);
            ("LEFT_EXT__STRING", call(|| unsafe { f(b, l, d) }))
        }
        2 => {
            let f = sym!("RIGHT_EXT__STRING", fn(*const u8, i32, *mut u8) -> i32);
            ("RIGHT_EXT__STRING", call(|| unsafe { f(b, l, d) }))
        }
        3 => {
            let f = sym!("MID_EXT__STRING", fn(*const u8, i32, i32, *mut u8) -> i32);
            ("MID_EXT__STRING", call(|| unsafe { f(b, l, p + 1, d) }))
        }
        4 => {
            let f = sym!("INSERT_EXT__STRING", fn(*const u8, *const u8, i32, *mut u8) -> i32);
            ("INSERT_EXT__STRING", call(|| unsafe { f(x, y, 0, d) }))
        }
        5 => {
            let f = sym!("DELETE_EXT__STRING", fn(*const u8, i32, i32, *mut u8) -> i32);
            ("DELETE_EXT__STRING", call(|| unsafe { f(b, l, p + 1, d) }))
        }
        6 => {
            let f = sym!("REPLACE_EXT__STRING", fn(*const u8, *const u8, i32, i32, *mut u8) -> i32);
            ("REPLACE_EXT__STRING", call(|| unsafe { f(x, y, 0, 1, d) }))
        }
        7 => {
            let f = sym!("CONCAT__STRING", fn(*mut u8, i32, *const *const u8));
            ("CONCAT__STRING", call(|| unsafe { f(d, 2, argv) }).map(|_| 0))
        }
        8 => {
            let f = sym!("CONCAT_EXT__STRING", fn(*mut u8, i32, *const *const u8) -> i32);
            ("CONCAT_EXT__STRING", call(|| unsafe { f(d, 2, argv) }))
        }
        9 => {
            let dw = a.dest::<u16>(16, Some(0xEE));
            let f = sym!("STRING_TO_WSTRING_EXT", fn(*const u8, *mut u16) -> i32);
            ("STRING_TO_WSTRING_EXT", call(|| unsafe { f(b, dw) }))
        }
        10 => {
            let f = sym!("STRING_TO_LINT", fn(*const u8) -> i64);
            ("STRING_TO_LINT", call(|| unsafe { f(b) }).map(|_| 0))
        }
        11 => {
            let f = sym!("STRING_TO_LREAL", fn(*const u8) -> f64);
            ("STRING_TO_LREAL", call(|| unsafe { f(b) }).map(|_| 0))
        }
        _ => {
            let f = sym!("STRING_TO_DINT", fn(*const u8) -> i32);
            ("STRING_TO_DINT", call(|| unsafe { f(b) }).map(|_| 0))
        }
    };
    src.nt(true);
    src.label("invalid UTF-8");
    src.note(|| format!("{name} with invalid UTF-8 {bad:02x?}"));
    if got.is_ok() {
        return fail(format!("{name}:utf8"), format!("{name} accepted invalid UTF-8 {bad:02x?} (other {good:02x?}, l={l}, p={p})"));
    }
    if let Err(e) = a.sources_intact().and_then(|_| a.check_rejected()) {
        return fail(format!("{name}:memory"), format!("{name}: {e}"));
    }
    Ok(())
}

/// UTF-16 units with unpaired surrogates among them, and their characters as code points (an unpaired one is itself)
fn odd_utf16(src: &mut Src, max: usize) -> (Vec<u16>, Vec<u32>) {
    let mut u = u16::encode(&src.chars(max));
    for _ in 0..1 + src.below(3) {
        let i = src.below(u.len() as u64 + 1) as usize;
        let v = match src.below(4) {
            0 => 0xD800,
            1 => 0xDFFF,
            2 => 0xDC00 - src.below(2) as u16,
            _ => 0xD800 + src.below(0x800) as u16,
        };
        u.insert(i, v);
    }
    let mut c = vec![];
    let mut i = 0;
    while i < u.len() {
        let (a, b) = (u[i] as u32, u.get(i + 1).map_or(0, |b| *b as u32));
        if (0xD800..0xDC00).contains(&a) && (0xDC00..0xE000).contains(&b) {
            c.push(0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00));
            i += 2;
        } else {
            c.push(a);
            i += 1;
        }
    }
    (u, c)
}

/// a WSTRING with unpaired surrogates: they count as one character each, and a result never contains one
fn c06_bad_utf16(src: &mut Src) -> Res {
    let (u1, c1) = odd_utf16(src, 12);
    let (u2, c2) = if src.bool() {
        let c = src.chars(8);
        (u16::encode(&c), c.iter().map(|c| *c as u32).collect())
    } else {
        odd_utf16(src, 6)
    };
    let swap = src.chance(1, 4);
    let ((u1, c1), (u2, c2)) = if swap { ((u2, c2), (u1, c1)) } else { ((u1, c1), (u2, c2)) };
    let n = c1.len();
    let op = src.below(8);
    let p = src.below(n as u64 + 1) as usize; // in front of character p
    let l = src.below((n - p) as u64 + 1) as usize;
    let a = Arena::get().reset();
    let (x, y) = (a.put(&u1), a.put(&u2));
    let raw = unsafe { std::slice::from_raw_parts([x, y].as_ptr() as *const u8, 16) }.to_vec();
    let argv = a.raw(&raw) as *const *const u16;
    let d = dest_setup::<u16>(src, a);
    src.nt(true);
    src.label("unpaired surrogates");
    let units = |u: &[u16]| u.iter().map(|x| format!("{x:04X}")).collect::<Vec<_>>().join(" ");
    let ctx = || format!("s={}, t={}, l={l}, p={p}", units(&u1), units(&u2));
    if op == 7 {
        let f = sym!("LEN__WSTRING", fn(*const u16) -> i32);
        src.note(|| format!("LEN__WSTRING({})", units(&u1)));
        let got = call(|| unsafe { f(x) });
        if got != Ok(n as i32) {
            return fail("LEN__WSTRING:surrogate", format!("LEN__WSTRING({}) = {got:?}, expected {n}", units(&u1)));
        }
        return Ok(());
    }
    let (p1, li) = (p as i32 + 1, l as i32);
    let (name, got, want) = match op {
        0 => {
            let f = sym!("LEFT_EXT__WSTRING", fn(*const u16, i32, *mut u16) -> i32);
            ("LEFT_EXT__WSTRING", call(|| unsafe { f(x, li, d) }), Some(c1[..l].to_vec()))
        }
        1 => {
            let f = sym!("RIGHT_EXT__WSTRING", fn(*const u16, i32, *mut u16) -> i32);
            ("RIGHT_EXT__WSTRING", call(|| unsafe { f(x, li, d) }), Some(c1[n - l..].to_vec()))
        }
        2 => {
            let f = sym!("MID_EXT__WSTRING", fn(*const u16, i32, i32, *mut u16) -> i32);
            ("MID_EXT__WSTRING", call(|| unsafe { f(x, li, p1, d) }), (p < n).then(|| c1[p..p + l].to_vec()))
        }
        3 => {
            let f = sym!("INSERT_EXT__WSTRING", fn(*const u16, *const u16, i32, *mut u16) -> i32);
            ("INSERT_EXT__WSTRING", call(|| unsafe { f(x, y, p as i32, d) }), Some([&c1[..p], &c2[..], &c1[p..]].concat()))
        }
        4 => {
            let f = sym!("DELETE_EXT__WSTRING", fn(*const u16, i32, i32, *mut u16) -> i32);
            let w = (p < n).then(|| [&c1[..p], &c1[p + l..]].concat());
            ("DELETE_EXT__WSTRING", call(|| unsafe { f(x, li, p1, d) }), w)
        }
        5 => {
            let f = sym!("REPLACE_EXT__WSTRING", fn(*const u16, *const u16, i32, i32, *mut u16) -> i32);
            let w = (p < n).then(|| [&c1[..p], &c2[..], &c1[p + l..]].concat());
            ("REPLACE_EXT__WSTRING", call(|| unsafe { f(x, y, li, p1, d) }), w)
        }
        _ => {
            let f = sym!("CONCAT_EXT__WSTRING", fn(*mut u16, i32, *const *const u16) -> i32);
            ("CONCAT_EXT__WSTRING", call(|| unsafe { f(d, 2, argv) }), Some([&c1[..], &c2[..]].concat()))
        }
    };
    src.note(|| format!("{name}({})", ctx()));
    let want = want.and_then(|w| w.iter().map(|c| char::from_u32(*c)).collect::<Option<Vec<char>>>());
    src.label_if(want.is_some(), "unpaired surrogates outside the result");
    judge::<u16>(name, a, got, want, &ctx)
}

/// number and time conversions: result terminated, confined to the 81-byte destination, not mixed with its old contents
fn confined(src: &mut Src, name: &str, a: &Arena, got: Result<i32, String>, ctx: String) -> Res {
    src.nt(true);
    src.note(|| format!("{name}({ctx})"));
    match got {
        Ok(0) => {}
        Ok(rc) => return fail(format!("{name}:status"), format!("{name}({ctx}) reported {rc}")),
        Err(e) => return fail(format!("{name}:rejected"), format!("{name}({ctx}) was rejected: {e}")),
    }
    let r = a.result::<u8>();
    if r.len() > 80 {
        return fail(format!("{name}:termination"), format!("{name}({ctx}) left no terminator within 81 bytes: {}", show(&r)));
    }
    if let Err(e) = a.check_dest::<u8>(&r, 81) {
        return fail(format!("{name}:memory"), format!("{name}({ctx}): {e}"));
    }
    if r.iter().any(|b| !(b.is_ascii_alphanumeric() || b"+-.:#".contains(b))) || r.contains(&b'Z') {
        return fail(format!("{name}:stale"), format!("{name}({ctx}) left foreign bytes in its result: {}", show(&r)));
    }
    Ok(())
}

/// the same call on a clean and on the used destination must give the same text
fn same_on_clean(src: &mut Src, name: &str, f: impl Fn(*mut u8) -> i32, ctx: String) -> Res {
    let a = Arena::get().reset();
    let d = dest_setup::<u8>(src, a);
    let got = call(|| f(d));
    confined(src, name, a, got, ctx.clone())?;
    let r1 = a.result::<u8>();
    let d = a.dest::<u8>(8, Some(0));
    let _ = call(|| f(d));
    let r2 = a.result::<u8>();
    if r1 != r2 {
        return fail(
            format!("{name}:stale"),
            format!("{name}({ctx}) gives {} on a used destination but {} on a clean one", show(&r1), show(&r2)),
        );
    }
    Ok(())
}

fn c06_number(src: &mut Src) -> Res {
    match src.below(5) {
        0 => {
            let v = src.uint(8) as u8;
            let f = sym!("BYTE_TO_STRING_EXT", fn(u8, *mut u8) -> i32);
            same_on_clean(src, "BYTE_TO_STRING_EXT", |d| unsafe { f(v, d) }, v.to_string())
        }
        1 => {
            let v = src.uint(64);
            let f = sym!("LWORD_TO_STRING_EXT", fn(u64, *mut u8) -> i32);
            same_on_clean(src, "LWORD_TO_STRING_EXT", |d| unsafe { f(v, d) }, v.to_string())
        }
        2 => {
            let v = src.i64_any();
            let f = sym!("LINT_TO_STRING_EXT", fn(i64, *mut u8) -> i32);
            same_on_clean(src, "LINT_TO_STRING_EXT", |d| unsafe { f(v, d) }, v.to_string())
        }
        k => {
            let v = src.f64_any();
            let name = if k == 3 { "LREAL_TO_STRING_EXT" } else { "REAL_TO_STRING_EXT" };
            let f = sym!(name, fn(f64, *mut u8) -> i32);
            same_on_clean(src, name, |d| unsafe { f(v, d) }, format!("{v:?}"))
        }
    }
}

fn c06_time(src: &mut Src) -> Res {
    let v = src.i64_any();
    let name = *src.pick(&["TIME_TO_STRING_EXT", "DATE_TO_STRING_EXT", "DT_TO_STRING_EXT", "TOD_TO_STRING_EXT"]);
    let f = sym!(name, fn(i64, *mut u8) -> i32);
    same_on_clean(src, name, |d| unsafe { f(v, d) }, v.to_string())
}

// ------------------------------------------------------------------------------------------------- C07

pub fn c07_ws(src: &mut Src) -> Res {
    let text = src.text(MAXC, BIG);
    let a = Arena::get().reset();
    a.room(4 * text.len());
    let p = a.put(&u16::encode(&text));
    let d = dest_setup::<u8>(src, a);
    let name = "WSTRING_TO_STRING_EXT";
    let f = sym!(name, fn(*const u16, *mut u8) -> i32);
    let got = call(|| unsafe { f(p, d) });
    src.nt(text.iter().any(|c| *c as u32 >= 0x80));
    src.label_if(is_multi::<u16>(&text), "surrogate pairs");
    src.note(|| format!("{name}({})", s(&text)));
    judge::<u8>(name, a, got, Some(text.clone()), &|| format!("s={}", s(&text)))
}

/// every unpaired surrogate becomes U+FFFD
fn c07_odd(src: &mut Src) -> Res {
    let (u, c) = odd_utf16(src, 30);
    let a = Arena::get().reset();
    let p = a.put(&u);
    let d = dest_setup::<u8>(src, a);
    let name = "WSTRING_TO_STRING_EXT";
    let f = sym!(name, fn(*const u16, *mut u8) -> i32);
    let got = call(|| unsafe { f(p, d) });
    let want: Vec<char> = c.iter().map(|c| char::from_u32(*c).unwrap_or('\u{FFFD}')).collect();
    src.nt(true);
    src.label_if(want.contains(&'\u{FFFD}'), "unpaired surrogates");
    src.note(|| format!("{name}({u:04x?})"));
    judge::<u8>(name, a, got, Some(want), &|| format!("s={u:04x?}"))
}

pub fn c07_sw(src: &mut Src) -> Res {
    let text = src.text(MAXC, BIG);
    let a = Arena::get().reset();
    a.room(4 * text.len());
    let p = a.put(&u8::encode(&text));
    let d = dest_setup::<u16>(src, a);
    let name = "STRING_TO_WSTRING_EXT";
    let f = sym!(name, fn(*const u8, *mut u16) -> i32);
    let got = call(|| unsafe { f(p, d) });
    src.nt(text.iter().any(|c| *c as u32 >= 0x80));
    src.label_if(is_multi::<u16>(&text), "surrogate pairs");
    src.note(|| format!("{name}({})", s(&text)));
    judge::<u16>(name, a, got, Some(text.clone()), &|| format!("s={}", s(&text)))
}

fn c07(src: &mut Src) -> Res {
    match src.weighted(&[4, 4, 2, 2, 2]) {
        4 => c07_odd(src),
        0 => c07_ws(src),
        1 => c07_sw(src),
        2 => {
            let c = src.uint(8) as u8;
            let f = sym!("CHAR_TO_WCHAR", fn(u8) -> u16);
            let r = call(|| unsafe { f(c) });
            src.nt(true);
            src.note(|| format!("CHAR_TO_WCHAR({c:#x})"));
            if r != Ok(c as u16) {
                return fail("CHAR_TO_WCHAR:value", format!("CHAR_TO_WCHAR({c:#x}) = {r:?}"));
            }
            if c < 0x80 {
                let g = sym!("WCHAR_TO_CHAR", fn(u16) -> u8);
                let r = call(|| unsafe { g(c as u16) });
                if r != Ok(c) {
                    return fail("WCHAR_TO_CHAR:value", format!("WCHAR_TO_CHAR({c:#x}) = {r:?}"));
                }
            }
            Ok(())
        }
        _ => {
            let c = src.below(128) as u16;
            let f = sym!("WCHAR_TO_CHAR", fn(u16) -> u8);
            let r = call(|| unsafe { f(c) });
            src.nt(true);
            src.note(|| format!("WCHAR_TO_CHAR({c:#x})"));
            if r != Ok(c as u8) {
                return fail("WCHAR_TO_CHAR:value", format!("WCHAR_TO_CHAR({c:#x}) = {r:?}"));
            }
            Ok(())
        }
    }
}
fn c07_sweep(i: u64) -> Option<Vec<u64>> {
    // all CHAR values, both directions
    if i < 256 {
        Some(vec![2, i])
    } else if i < 384 {
        Some(vec![3, i - 256])
    } else {
        None
    }
}

macro_rules! both {
    ($name:ident, $f:ident) => {
        fn $name(src: &mut Src) -> Res {
            if src.bool() {
                $f::<u16>(src)
            } else {
                $f::<u8>(src)
            }
        }
    };
}
both!(p01, c01);
both!(p02, c02);
both!(p03, c03);
both!(p04, c04);
both!(p05, c05);

const ASSUME: &[&str] = &[
    "sources are terminated and valid in their encoding (except where invalid UTF-8 is generated on purpose), contain no NUL, and do not overlap the destination",
    "the destination is large enough for the result (the functions have no capacity parameter)",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01", run: p01, quick: 1_600_000, thorough: 40_000_000, sweep: None, configs: BOTH, assumptions: ASSUME,
            rule: "random STRING/WSTRING (mixed 1-4 byte characters, 0..260 chars, sometimes runs of patterns up to 70000) with lengths/positions around 0..n and random 32-bit ones; non-trivial: result is a proper non-empty part of the text, or the request is invalid",
        },
        Prop {
            id: "C02", run: p02, quick: 1_600_000, thorough: 40_000_000, sweep: None, configs: BOTH, assumptions: ASSUME,
            rule: "random texts, inserted texts, lengths and positions around the valid range and random 32-bit ones; non-trivial: the result differs from a non-empty text, or the request is invalid",
        },
        Prop {
            id: "C03", run: p03, quick: 1_000_000, thorough: 25_000_000, sweep: None, configs: BOTH, assumptions: ASSUME,
            rule: "0..40 (rarely 300, very rarely 70000) random arguments, possibly shared pointers, argument vector ending at an inaccessible page, clean or dirty destination; non-trivial: no argument, or several with non-empty result",
        },
        Prop {
            id: "C04", run: p04, quick: 1_600_000, thorough: 40_000_000, sweep: None, configs: BOTH, assumptions: ASSUME,
            rule: "texts with needles cut from them, near misses, prefix-repeating texts; non-trivial: match after the first character, or no match for a needle that would fit, or LEN of non-empty text",
        },
        Prop {
            id: "C05", run: p05, quick: 1_600_000, thorough: 40_000_000, sweep: None, configs: BOTH, assumptions: ASSUME,
            rule: "chains of strings derived from each other (equal, extended, shortened, one character nudged); non-trivial: some non-empty string, or too few arguments",
        },
        Prop {
            id: "C06", run: c06, quick: 1_000_000, thorough: 25_000_000, sweep: None, configs: BOTH, assumptions: ASSUME,
            rule: "1-4 calls of any string-producing function over the same destination, dirty or clean, sources ending at an inaccessible page; non-trivial: as in the called function's property, or invalid UTF-8, or a number/time conversion",
        },
        Prop {
            id: "C07", run: c07, quick: 1_200_000, thorough: 30_000_000, sweep: Some(c07_sweep), configs: BOTH, assumptions: ASSUME,
            rule: "random texts in both directions plus all CHAR values; non-trivial: a non-ASCII character, or a CHAR/WCHAR conversion",
        },
    ]
}
