//! C31-C38: the structured text library: its declarations against the native library, and its function bodies.

use super::BOTH;
use crate::engine::*;
use crate::st::{self, Block, Kind, Scalar};
use crate::sys;
use crate::vm::{self, In, Out, Stop, Ty, Val};

const BITS: [&str; 4] = ["LWORD", "DWORD", "WORD", "BYTE"];
const INTS: [&str; 8] = ["LINT", "DINT", "INT", "SINT", "ULINT", "UDINT", "UINT", "USINT"];
const CAP: usize = 2048;

// ------------------------------------------------------------------------------------------------ the frozen ABI

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Val,
    Ref,
    Many,
    ManyRef,
    Out,
    InOut,
}
pub struct Row {
    pub symbol: &'static str,
    call: &'static str,
    params: Vec<(&'static str, Mode, &'static str)>,
    pub ret: &'static str,
}
pub fn rows() -> &'static [Row] {
    static mut ROWS: Option<Vec<Row>> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if ROWS.is_none() {
            ROWS = Some(
                include_str!("../abi.txt")
                    .lines()
                    .filter(|l| !l.trim().is_empty())
                    .map(|l| {
                        let w: Vec<&str> = l.split_whitespace().collect();
                        let ps = w[2].trim_start_matches('(').trim_end_matches(')');
                        let params = ps
                            .split(',')
                            .filter(|p| !p.is_empty())
                            .map(|p| {
                                let (n, t) = p.split_once(':').unwrap();
                                for (m, k) in [("&*", Mode::ManyRef), ("&", Mode::Ref), ("*", Mode::Many), (">", Mode::Out), ("=", Mode::InOut)] {
                                    if let Some(t) = t.strip_prefix(m) {
                                        return (n, k, t);
                                    }
                                }
                                (n, Mode::Val, t)
                            })
                            .collect();
                        Row { symbol: w[0], call: w[1], params, ret: w[3] }
                    })
                    .collect(),
            );
        }
        ROWS.as_ref().unwrap()
    }
}
fn row(symbol: &str) -> &'static Row {
    rows().iter().find(|r| r.symbol == symbol).unwrap_or_else(|| panic!("no ABI row {symbol}"))
}
pub fn ty(tag: &str) -> Ty {
    match tag {
        "STRING" => vm::string(false, CAP),
        "WSTRING" => vm::string(true, CAP),
        t => vm::s(t),
    }
}
/// the native function itself
fn native(symbol: &str, args: &[In], garbage: u32) -> Result<Result<Out, String>, Fail> {
    match sys::symbol(symbol) {
        Some(a) => Ok(vm::direct(a, Some(&ty(row(symbol).ret)), args, garbage)),
        None => fail(format!("missing:{symbol}"), format!("the library exports no symbol {symbol}")),
    }
}

// ------------------------------------------------------------------------------------------------ judging

pub fn show_in(a: &[In]) -> String {
    let v: Vec<String> = a
        .iter()
        .map(|a| match a {
            In::V(v) => v.show(),
            In::Var(..) => "=>".into(),
            In::Many(v) => v.iter().map(|v| v.show()).collect::<Vec<_>>().join(", "),
        })
        .collect();
    v.join(", ")
}
fn same(a: &Val, b: &Val) -> bool {
    if a.is_float() && b.is_float() && a.ty.size() == b.ty.size() {
        let (x, y) = (a.float(), b.float());
        return x == y || (x.is_nan() && y.is_nan());
    }
    match (&a.ty, &b.ty) {
        (Ty::Str { wide: p, .. }, Ty::Str { wide: q, .. }) => p == q && a.bytes == b.bytes,
        (Ty::S(..), Ty::S(..)) => a.bits == b.bits,
        _ => false,
    }
}
fn same_kind(a: &Ty, b: &Ty) -> bool {
    a.tag() == b.tag()
}
enum Want {
    /// the result and the outputs
    Is(Val, Vec<Val>),
    Reject,
    /// anything but memory damage
    Open,
}
/// runs the ST function and compares
fn expect(name: &str, args: &[In], want: &Want) -> Res {
    let got = vm::run(name, args);
    let ctx = || format!("{name}({})", show_in(args));
    match (got, want) {
        (Err(Stop::Broken(k, m)), _) => fail(format!("{name}:{k}"), format!("{}: {m}", ctx())),
        (_, Want::Open) => Ok(()),
        (Err(Stop::Undefined(m)), _) => fail(format!("{name}:undefined"), format!("{} computes something undefined: {m}", ctx())),
        (Err(Stop::Reject(m)), Want::Is(v, _)) => fail(format!("{name}:rejected"), format!("{} was rejected ({m}), expected {}", ctx(), v.show())),
        (Err(Stop::Reject(_)), Want::Reject) => Ok(()),
        (Ok(o), Want::Reject) => {
            fail(format!("{name}:accepted"), format!("{} = {}, expected a rejection", ctx(), o.ret.map_or("nothing".into(), |v| v.show())))
        }
        (Ok(o), Want::Is(v, vars)) => {
            let Some(r) = o.ret else { return fail(format!("{name}:value"), format!("{} has no result", ctx())) };
            if !same_kind(&r.ty, &v.ty) {
                return fail(format!("{name}:type"), format!("{} is a {}, expected a {}", ctx(), r.ty.tag(), v.ty.tag()));
            }
            if !same(&r, v) {
                return fail(format!("{name}:value"), format!("{} = {}, expected {}", ctx(), r.show(), v.show()));
            }
            for (i, (a, b)) in o.vars.iter().zip(vars).enumerate() {
                if !same(a, b) {
                    return fail(format!("{name}:output"), format!("{} sets output {} to {}, expected {}", ctx(), i + 1, a.show(), b.show()));
                }
            }
            Ok(())
        }
    }
}
/// expects what the native function gives for other (or the same) arguments
fn as_native(symbol: &str, args: &[In]) -> Result<Want, Fail> {
    Ok(match native(symbol, args, 0)? {
        Ok(o) => Want::Is(o.ret.unwrap(), o.vars),
        Err(_) => Want::Reject,
    })
}
fn retype(w: Want, t: &str) -> Want {
    match w {
        Want::Is(v, o) => Want::Is(Val::new(vm::s(t), v.bits), o),
        w => w,
    }
}

// ------------------------------------------------------------------------------------------------ values

fn scalar(src: &mut Src, tag: &str) -> Val {
    let t = vm::s(tag);
    let bits = match &t {
        Ty::S("BOOL", _) => src.below(2),
        Ty::S(_, Scalar { kind: Kind::Float, size: 4 }) => src.f32_any().to_bits() as u64,
        Ty::S(_, Scalar { kind: Kind::Float, .. }) => src.f64_any().to_bits(),
        Ty::S(_, Scalar { kind: Kind::Signed, size }) => src.sint(8 * *size as u32) as u64,
        Ty::S(_, Scalar { size, .. }) => src.uint(8 * *size as u32),
        _ => unreachable!(),
    };
    Val::new(t, bits)
}
fn units(t: &[char], wide: bool) -> Vec<u8> {
    let s: String = t.iter().filter(|c| **c != '\0').collect();
    if wide {
        s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
    } else {
        s.into_bytes()
    }
}
fn text(src: &mut Src, wide: bool, max: usize) -> Val {
    let t = src.chars(max);
    Val::str(wide, units(&t, wide))
}
fn small(src: &mut Src, tag: &str, hi: u64) -> Val {
    if src.chance(1, 6) {
        scalar(src, tag)
    } else {
        Val::new(vm::s(tag), src.below(hi + 1))
    }
}

// ------------------------------------------------------------------------------------------------ C31

const CONSTANTS: [(&str, f64, bool); 8] = [
    ("PI_LREAL", std::f64::consts::PI, true),
    ("PI_REAL", std::f32::consts::PI as f64, false),
    ("FRAC_PI_2_LREAL", std::f64::consts::FRAC_PI_2, true),
    ("FRAC_PI_2_REAL", std::f32::consts::FRAC_PI_2 as f64, false),
    ("FRAC_PI_4_LREAL", std::f64::consts::FRAC_PI_4, true),
    ("FRAC_PI_4_REAL", std::f32::consts::FRAC_PI_4 as f64, false),
    ("E_LREAL", std::f64::consts::E, true),
    ("E_REAL", std::f32::consts::E as f64, false),
];

fn show_ty(t: &Ty) -> &'static str {
    t.tag()
}
fn signature(r: &Row) -> Res {
    let n = r.symbol;
    if sys::symbol(n).is_none() {
        return fail(format!("missing:{n}"), format!("the native library does not export {n}"));
    }
    let types: Vec<Ty> = r.params.iter().map(|p| ty(p.2)).collect();
    let (full, params, ret, nat) = match vm::declared(r.call, &types) {
        Ok(x) => x,
        Err(e) => return fail(format!("{n}:undeclared"), format!("{}, implemented by {n}: {e:?}", r.call)),
    };
    // an ST wrapper may stand between
    if nat && full != n {
        return fail(format!("{n}:undeclared"), format!("a call of {} with these types goes to {full}, not to {n}", r.call));
    }
    let bad = |m: String| fail(format!("{n}:signature"), format!("ST declaration of {full}: {m}"));
    if params.len() != r.params.len() {
        return bad(format!("{} parameters, the native function has {}", params.len(), r.params.len()));
    }
    for (p, (name, mode, tag)) in params.iter().zip(&r.params) {
        let have = match (p.block, p.byref, p.variadic) {
            (Block::Input, false, None) => Mode::Val,
            (Block::Input, true, None) => Mode::Ref,
            (Block::Input, false, Some(true)) => Mode::Many,
            (Block::Input, true, Some(true)) => Mode::ManyRef,
            (Block::Output, _, None) => Mode::Out,
            (Block::InOut, _, None) => Mode::InOut,
            _ => return bad(format!("{} is passed in a way the native function does not take", p.name)),
        };
        // outputs and in-outs are pointers alike
        let ptr = |m: Mode| if m == Mode::Out { Mode::InOut } else { m };
        if ptr(have) != ptr(*mode) {
            return bad(format!("{} is passed as {have:?}, the native function takes {mode:?}", p.name));
        }
        if !same_kind(&p.ty, &ty(tag)) {
            return bad(format!("{} is a {}, the native function takes a {tag}", p.name, show_ty(&p.ty)));
        }
        // the same names in another order swap the arguments of a call that names them
        if p.name != *name && params.iter().any(|q| q.name == *name) && r.params.iter().any(|q| q.0 == p.name) {
            return bad(format!("parameter {} stands where {name} belongs", p.name));
        }
    }
    match ret {
        Some(t) if same_kind(&t, &ty(r.ret)) => Ok(()),
        Some(t) => bad(format!("result {}, the native function returns {}", show_ty(&t), r.ret)),
        None => bad("no result".into()),
    }
}

/// arguments for a native function: of the declared types, biased to what it accepts
pub fn arguments(src: &mut Src, r: &Row) -> Vec<In> {
    let mut out = vec![];
    for (name, mode, tag) in &r.params {
        let wide = *tag == "WSTRING";
        let string = wide || *tag == "STRING";
        out.push(match mode {
            Mode::Out | Mode::InOut => In::Var(ty(tag), src.uint(8) as u8),
            Mode::Many | Mode::ManyRef => {
                let n = 1 + src.len(6);
                In::Many(
                    (0..n)
                        .map(|_| if string { text(src, wide, 12) } else { scalar(src, tag) })
                        .collect::<Vec<_>>(),
                )
            }
            _ if string => match r.call {
                // texts these accept
                "STRING_TO_LINT" | "STRING_TO_DINT" | "STRING_TO_LREAL" | "STRING_TO_REAL" if src.chance(3, 4) => {
                    let t = match r.call {
                        "STRING_TO_LINT" => src.sint(64).to_string(),
                        "STRING_TO_DINT" => src.sint(32).to_string(),
                        _ => format!("{:e}", src.f64_any()),
                    };
                    In::V(Val::str(false, t.into_bytes()))
                }
                _ => In::V(text(src, wide, 40)),
            },
            _ => In::V(match (*name, r.call) {
                ("L" | "P", _) => small(src, tag, 8),
                ("YEAR", _) => {
                    if src.chance(1, 6) {
                        scalar(src, tag)
                    } else {
                        Val::new(vm::s(tag), src.range(1677, 2262) as u64)
                    }
                }
                ("MONTH" | "DAY" | "HOUR" | "MINUTE" | "SECOND" | "MILLISECOND", _) => small(src, tag, 12),
                ("IN2", "ADD_TIME" | "SUB_TIME" | "ADD_DT_TIME" | "SUB_DT_TIME" | "ADD_TOD_TIME" | "SUB_TOD_TIME") => {
                    Val::new(vm::s(tag), src.sint(60) as u64)
                }
                ("IN1", "ADD_TIME" | "SUB_TIME" | "MUL" | "MUL_TIME" | "MUL_LTIME") => Val::new(vm::s(tag), src.sint(40) as u64),
                ("IN2", "MUL" | "MUL_TIME" | "MUL_LTIME") if !matches!(*tag, "REAL" | "LREAL") => small(src, tag, 100),
                ("N", _) => small(src, tag, 64),
                _ => scalar(src, tag),
            }),
        });
    }
    out
}

/// arguments that resemble the given ones
pub fn change(src: &mut Src, args: &[In]) -> Vec<In> {
    let mut out = args.to_vec();
    if out.is_empty() {
        return out;
    }
    let i = src.below(out.len() as u64) as usize;
    if out.len() > 1 && src.chance(1, 8) {
        // two of them exchanged
        let j = (i + 1) % out.len();
        if let (In::V(a), In::V(b)) = (&out[i], &out[j]) {
            if a.ty == b.ty {
                out.swap(i, j);
                return out;
            }
        }
    }
    if out.len() > 1 && src.chance(1, 8) {
        // a carry from one to the next: the same when put together
        let k = (i + 1) % out.len();
        let m = *src.pick(&[100u64, 60, 1000, 10, 12, 24, 31, 256, 65536, 1_000_000_000]);
        if let [In::V(a), In::V(b)] = [&out[i], &out[k]] {
            let whole = |v: &Val| matches!(v.ty, Ty::S(n, _) if n != "BOOL") && !v.is_float();
            if whole(a) && whole(b) {
                let (mut a, mut b) = (a.clone(), b.clone());
                a.bits = a.bits.wrapping_sub(1) & mask(8 * a.ty.size() as u32);
                b.bits = b.bits.wrapping_add(m) & mask(8 * b.ty.size() as u32);
                out[i] = In::V(a);
                out[k] = In::V(b);
                return out;
            }
        }
    }
    let mut twist = |v: &mut Val| match &v.ty {
        Ty::S("BOOL", _) => v.bits ^= 1,
        Ty::S(..) => {
            let bits = 8 * v.ty.size() as u32;
            v.bits = match src.below(4) {
                0 => v.bits ^ 1 << src.below(bits as u64),
                1 => v.bits ^ 1 << (bits - 1 - src.below(bits as u64 / 2) as u32),
                2 => v.bits.wrapping_add(1),
                _ => v.bits.wrapping_neg(),
            } & mask(bits)
        }
        Ty::Str { wide, .. } => {
            let u = if *wide { 2 } else { 1 };
            let n = v.bytes.len() / u;
            let ascii = |v: &Val, i: usize| v.bytes[i * u].is_ascii_alphanumeric() && (u == 1 || v.bytes[i * u + 1] == 0);
            let at = src.below(n.max(1) as u64) as usize;
            let how = if n > 0 { src.below(4) } else { 3 };
            if how < 2 && ascii(v, at) {
                // the same length
                v.bytes[at * u] = if v.bytes[at * u].is_ascii_digit() && src.bool() {
                    b'0' + src.below(10) as u8
                } else {
                    b'a' + if src.bool() { src.below(2) } else { src.below(26) } as u8
                };
            } else if how == 2 && src.chance(1, 4) && at + 1 < n && (!ascii(v, at) || ascii(v, at + 1)) {
                // one character of two units in place of two characters, and back
                let two: &[u8] = match (*wide, ascii(v, at)) {
                    (true, true) => &[0x3D, 0xD8, 0, 0xDE],
                    (false, true) => &[0xC3, 0xA9],
                    (true, false) => b"a\0b\0",
                    (false, false) => b"ab",
                };
                v.bytes.splice(at * u..(at + 2) * u, two.iter().copied());
            } else if how == 2 && src.chance(1, 3) && at + 1 < n {
                // the same polynomial
                let m = *src.pick(&[1, 31, 33, 37]);
                let (a, b) = (v.bytes[at * u], v.bytes[(at + 1) * u]);
                let fine = |c: u8| c.is_ascii_graphic();
                if ascii(v, at) && ascii(v, at + 1) && fine(a + 1) && fine(b.saturating_sub(m)) {
                    v.bytes[at * u] = a + 1;
                    v.bytes[(at + 1) * u] = b - m;
                }
            } else if how == 2 && ascii(v, at) {
                // the same characters in another order
                let to = src.below(n as u64) as usize;
                if ascii(v, to) {
                    v.bytes.swap(at * u, to * u);
                }
            } else {
                v.bytes.extend_from_slice(if *wide { b"x\0" } else { b"x" });
            }
        }
        _ => {}
    };
    match &mut out[i] {
        In::V(v) => twist(v),
        In::Many(v) if v.is_empty() => {}
        In::Many(v) => {
            let k = v.len() - 1;
            twist(&mut v[k])
        }
        In::Var(_, fill) => *fill ^= 0xFF,
    }
    out
}

fn externals() -> &'static [String] {
    static mut E: Option<Vec<String>> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if E.is_none() {
            E = Some(st::lib().pous.iter().filter(|p| p.external && p.generics.is_empty()).map(|p| p.name.to_uppercase()).collect());
        }
        E.as_ref().unwrap()
    }
}

/// (function block, its inputs and outputs)
fn blocks() -> &'static [(String, Vec<(&'static str, Block, &'static str)>)] {
    static mut B: Option<Vec<(String, Vec<(&'static str, Block, &'static str)>)>> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if B.is_none() {
            let mut v = vec![];
            let mut add = |n: String, ins: &[(&'static str, &'static str)], outs: &[(&'static str, &'static str)]| {
                let i = ins.iter().map(|x| (x.0, Block::Input, x.1));
                v.push((n, i.chain(outs.iter().map(|x| (x.0, Block::Output, x.1))).collect::<Vec<_>>()));
            };
            let b = "BOOL";
            for n in ["R_TRIG", "F_TRIG"] {
                add(n.into(), &[("CLK", b)], &[("Q", b)]);
            }
            add("SR".into(), &[("SET1", b), ("RESET", b)], &[("Q1", b)]);
            add("RS".into(), &[("SET", b), ("RESET1", b)], &[("Q1", b)]);
            for (x, t) in [("", "INT"), ("_INT", "INT"), ("_DINT", "DINT"), ("_UDINT", "UDINT"), ("_LINT", "LINT"), ("_ULINT", "ULINT")] {
                add(format!("CTU{x}"), &[("CU", b), ("R", b), ("PV", t)], &[("Q", b), ("CV", t)]);
                add(format!("CTD{x}"), &[("CD", b), ("LD", b), ("PV", t)], &[("Q", b), ("CV", t)]);
                add(
                    format!("CTUD{x}"),
                    &[("CU", b), ("CD", b), ("R", b), ("LD", b), ("PV", t)],
                    &[("QU", b), ("QD", b), ("CV", t)],
                );
            }
            for n in ["TP", "TON", "TOF"] {
                for x in ["", "_TIME", "_LTIME"] {
                    add(format!("{n}{x}"), &[("IN", b), ("PT", "TIME")], &[("Q", b), ("ET", "TIME")]);
                }
            }
            B = Some(v);
        }
        B.as_ref().unwrap()
    }
}
fn block_interface(name: &str, vars: &[(&'static str, Block, &'static str)]) -> Res {
    if sys::symbol(name).is_none() {
        return fail(format!("missing:{name}"), format!("the native library does not export {name}"));
    }
    let bad = |m: String| fail(format!("{name}:signature"), format!("function block {name} {m}"));
    let Some(p) = st::lib().pou(name) else {
        return fail(format!("{name}:undeclared"), format!("{name} is not declared in the ST library"));
    };
    if !p.is_fb || !p.external {
        return bad("is implemented natively, but not declared as an external function block".into());
    }
    let open: Vec<_> = p.vars.iter().filter(|v| !matches!(v.block, Block::Local | Block::Temp)).collect();
    for (n, b, t) in vars {
        let Some(v) = open.iter().find(|v| v.name.eq_ignore_ascii_case(n)) else { return bad(format!("has no variable {n}")) };
        if v.block != *b || v.byref {
            return bad(format!("declares {n} as {:?}", v.block));
        }
        if !matches!(&v.ty, st::Type::Named(x) if st::scalar(&x.to_uppercase()).is_some() && vm::s(&x.to_uppercase()) == vm::s(t)) {
            return bad(format!("declares {n} as {:?}, it is a {t}", v.ty));
        }
    }
    if open.len() != vars.len() {
        return bad(format!("declares {} inputs and outputs, it has {}", open.len(), vars.len()));
    }
    // the native block knows its variables by their place alone
    let place = |types: &[(String, st::Type)]| {
        let mut at = 0usize;
        let mut v: Vec<(String, usize)> = vec![];
        for (n, t) in types {
            let (size, align) = st::lib().layout(t);
            at = at.div_ceil(align) * align;
            v.push((n.to_uppercase(), at));
            at += size;
        }
        v
    };
    let have = place(&p.vars.iter().map(|v| (v.name.clone(), v.ty.clone())).collect::<Vec<_>>());
    let want = place(&vars.iter().map(|(n, _, t)| (n.to_string(), st::Type::Named(t.to_string()))).collect::<Vec<_>>());
    for (n, o) in want {
        match have.iter().find(|h| h.0 == n) {
            Some(h) if h.1 == o => {}
            h => return bad(format!("places {n} at byte {:?}, the native block has it at {o}", h.map(|h| h.1))),
        }
    }
    Ok(())
}

fn c31(src: &mut Src) -> Res {
    let (n, e) = (rows().len(), externals().len());
    let c = n + e + CONSTANTS.len();
    let k = src.below((c + blocks().len()) as u64) as usize;
    if k >= c {
        let (name, vars) = &blocks()[k - c];
        src.note(|| name.clone());
        src.label("function block");
        return block_interface(name, vars);
    }
    if k >= n + e {
        let (name, value, wide) = CONSTANTS[k - n - e];
        src.note(|| name.to_string());
        src.label("constant");
        let Some(a) = sys::symbol(name) else {
            return fail(format!("missing:{name}"), format!("the native library does not export {name}"));
        };
        let Some(g) = st::lib().global(name) else {
            return fail(format!("{name}:undeclared"), format!("{name} is not declared in the ST library"));
        };
        let want = if wide { "LREAL" } else { "REAL" };
        if !g.external || !matches!(&g.ty, st::Type::Named(t) if t.eq_ignore_ascii_case(want)) {
            return fail(format!("{name}:signature"), format!("{name} is declared as {:?}, external {}; it is a {want} of the native library", g.ty, g.external));
        }
        let got = unsafe { if wide { *(a as *const f64) } else { *(a as *const f32) as f64 } };
        if got != value {
            return fail(format!("{name}:value"), format!("{name} = {got:?}, expected {value:?}"));
        }
        return Ok(());
    }
    if k >= n {
        let name = &externals()[k - n];
        src.note(|| name.clone());
        src.label("external declaration");
        if sys::symbol(name).is_none() {
            return fail(format!("missing:{name}"), format!("{name} is declared external, the native library does not export it"));
        }
        return Ok(());
    }
    let r = &rows()[k];
    signature(r)?;
    if r.symbol == "TIME" {
        return Ok(());
    }
    let args = arguments(src, r);
    let garbage = src.uint(32) as u32;
    src.note(|| format!("{}({})", r.symbol, show_in(&args)));
    src.nt(true);
    let want = match native(r.symbol, &args, garbage)? {
        Ok(o) => {
            src.label("accepted");
            Want::Is(o.ret.unwrap(), o.vars)
        }
        Err(_) => {
            src.label("rejected");
            Want::Reject
        }
    };
    let got = expect(r.call, &args, &want);
    got.map_err(|f| Fail { msg: format!("{} (through the ST declaration; expected: {} called directly)", f.msg, r.symbol), ..f })
}
fn sweep31(i: u64) -> Option<Vec<u64>> {
    let all = (rows().len() + externals().len() + CONSTANTS.len() + blocks().len()) as u64;
    (i < all).then(|| vec![i])
}

// ------------------------------------------------------------------------------------------------ C32

/// (name, source, target) of the integer-like conversions
fn int_conversions() -> &'static [(String, &'static str, &'static str)] {
    static mut C: Option<Vec<(String, &'static str, &'static str)>> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if C.is_none() {
            let mut v = vec![];
            let mut add = |a: &'static str, b: &'static str| v.push((format!("{a}_TO_{b}"), a, b));
            for a in BITS {
                for b in BITS {
                    if a != b {
                        add(a, b);
                    }
                }
                add(a, "BOOL");
                add("BOOL", a);
                for i in INTS {
                    add(a, i);
                    add(i, a);
                }
            }
            for a in INTS {
                add("BOOL", a);
                for b in INTS {
                    if a != b {
                        add(a, b);
                    }
                }
            }
            add("LINT", "BOOL");
            add("DINT", "BOOL");
            add("BYTE", "CHAR");
            for b in BITS {
                add("CHAR", b);
            }
            for b in ["WORD", "DWORD", "LWORD"] {
                add("WCHAR", b);
            }
            C = Some(v);
        }
        C.as_ref().unwrap()
    }
}
fn c32(src: &mut Src) -> Res {
    let all = int_conversions();
    let (name, a, b) = &all[src.below(all.len() as u64) as usize];
    let v = scalar(src, a);
    src.note(|| format!("{name}({})", v.show()));
    let size = 8 * vm::s(b).size() as u32;
    let want = match (*a, *b) {
        ("LINT" | "DINT", "BOOL") => (v.bits != 0) as u64,
        (_, "BOOL") => v.bits & 1,
        _ => v.int() as u64 & mask(size),
    };
    src.nt(v.bits != 0);
    src.label_if(v.int() < 0, "negative");
    src.label_if(v.int() as i64 as u64 & mask(size) != v.int() as u64, "does not fit");
    expect(name, &[In::V(v)], &Want::Is(Val::new(vm::s(b), want), vec![]))
}
/// a few values of every function
fn sweep32(i: u64) -> Option<Vec<u64>> {
    let n = int_conversions().len() as u64;
    let vals = 64 + 40;
    if i >= n * vals {
        return None;
    }
    let (f, k) = (i % n, i / n);
    let a = int_conversions()[f as usize].1;
    let bits = if a == "BOOL" { 1 } else { 8 * vm::s(a).size() as u32 };
    let raw = if k < 64 { 1u64 << k } else { (k - 64).wrapping_sub(20) } & mask(bits);
    // choice of Src::sint is the zigzag of the value
    let signed = matches!(vm::s(a), Ty::S(_, Scalar { kind: Kind::Signed, .. }));
    let c = if signed {
        let v = sext(raw, bits);
        (((v << 1) ^ (v >> 63)) as u64) & mask(bits)
    } else {
        raw
    };
    Some(vec![f, c])
}

// ------------------------------------------------------------------------------------------------ C33

fn real_conversions() -> &'static [(String, &'static str, &'static str)] {
    static mut C: Option<Vec<(String, &'static str, &'static str)>> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if C.is_none() {
            let mut v = vec![];
            for r in ["LREAL", "REAL"] {
                for i in INTS {
                    v.push((format!("{r}_TO_{i}"), r, i));
                    v.push((format!("{i}_TO_{r}"), i, r));
                }
                v.push(("TRUNC".to_string(), r, "LINT"));
                v.push((format!("TRUNC__{r}"), r, "LINT"));
                v.push(("ABS".to_string(), r, r));
                v.push((format!("ABS__{r}"), r, r));
            }
            for i in ["SINT", "INT", "DINT", "LINT"] {
                v.push(("ABS".to_string(), i, i));
                v.push((format!("ABS__{i}"), i, i));
            }
            v.push(("LREAL_TO_REAL".to_string(), "LREAL", "REAL"));
            v.push(("REAL_TO_LREAL".to_string(), "REAL", "LREAL"));
            C = Some(v);
        }
        C.as_ref().unwrap()
    }
}
/// nearest float with `p` significant bits, ties to even, computed on integers
fn nearest_int(v: i128, p: u32) -> f64 {
    let (neg, m) = (v < 0, v.unsigned_abs());
    let len = 128 - m.leading_zeros();
    let r = if len <= p {
        m as f64
    } else {
        let s = len - p;
        let (q, rem, half) = (m >> s, m & ((1 << s) - 1), 1u128 << (s - 1));
        let q = if rem > half || (rem == half && q & 1 == 1) { q + 1 } else { q };
        q as f64 * 2f64.powi(s as i32)
    };
    if neg {
        -r
    } else {
        r
    }
}
fn int_limits(t: &str) -> (i128, i128) {
    match vm::s(t) {
        Ty::S(_, Scalar { kind: Kind::Signed, size }) => (-(1i128 << (8 * size - 1)), (1i128 << (8 * size - 1)) - 1),
        Ty::S(_, Scalar { size, .. }) => (0, (1i128 << (8 * size)) - 1),
        _ => unreachable!(),
    }
}
/// an integer near a rounding decision of a float with `p` bits
fn tie(src: &mut Src, p: u32, bits: u32) -> u64 {
    let m = (1u64 << (p - 1)) | src.uint(p - 1);
    let shift = 1 + src.below((bits - p) as u64) as u32;
    let near = src.range(-2, 2) as i64 as u64;
    ((m << shift) | (1u64 << (shift - 1))).wrapping_add(near)
}
fn c33(src: &mut Src) -> Res {
    let all = real_conversions();
    let (name, a, b) = &all[src.below(all.len() as u64) as usize];
    let real = |t: &str| t == "REAL" || t == "LREAL";
    let (v, want) = match (real(a), real(b)) {
        (true, false) => {
            let trunc = name.starts_with("TRUNC");
            let (lo, hi) = int_limits(b);
            let x = match src.weighted(&[4, 4, 1]) {
                0 => {
                    // an integer of the target and a fraction
                    let i = src.range(lo, hi) as f64;
                    let f = match src.below(4) {
                        0 => 0.5,
                        1 => f64::from_bits(0.5f64.to_bits() - 1),
                        2 => f64::from_bits(0.5f64.to_bits() + 1),
                        _ => src.below(1000) as f64 / 1000.0,
                    };
                    if src.bool() {
                        i + f
                    } else {
                        i - f
                    }
                }
                1 => (src.range(-4096, 4096) as f64) / 4.0,
                _ => src.f64_any(),
            };
            let v = if *a == "REAL" { Val::f32(x as f32) } else { Val::f64(x) };
            let x = v.float();
            // exact: below 2^63 the fraction is representable
            let r = if trunc {
                x.trunc()
            } else {
                let t = x.trunc();
                if (x - t).abs() >= 0.5 {
                    t + 1f64.copysign(x)
                } else {
                    t
                }
            };
            let inside = r.is_finite() && r.abs() < 1e30 && (r as i128) >= lo && (r as i128) <= hi;
            src.nt(inside && r != x);
            src.label_if(inside && r != x, "has a fraction");
            src.label_if(!inside, "outside the target range, any result");
            let w = if inside { Want::Is(Val::new(vm::s(b), r as i128 as u64), vec![]) } else { Want::Open };
            (v, w)
        }
        (false, true) => {
            let bits = 8 * vm::s(a).size() as u32;
            let p = if *b == "REAL" { 24 } else { 53 };
            let v = if bits > p && src.chance(1, 2) { Val::new(vm::s(a), tie(src, p, bits)) } else { scalar(src, a) };
            let r = nearest_int(v.int(), p);
            src.nt(r as i128 != v.int());
            src.label_if(r as i128 != v.int(), "rounded");
            let w = if *b == "REAL" { Val::f32(r as f32) } else { Val::f64(r) };
            (v, Want::Is(w, vec![]))
        }
        (true, true) => {
            let v = scalar(src, a);
            src.nt(v.float().is_finite() && v.float() != 0.0);
            let w = if name.starts_with("ABS") {
                let x = v.float().abs();
                if *b == "REAL" { Val::f32(x as f32) } else { Val::f64(x) }
            } else if *b == "REAL" {
                Val::f32(v.float() as f32)
            } else {
                Val::f64(v.float())
            };
            (v, Want::Is(w, vec![]))
        }
        (false, false) => {
            let v = scalar(src, a);
            src.nt(v.int() < 0);
            let lo = int_limits(a).0;
            let w = if v.int() == lo { Want::Open } else { Want::Is(Val::new(vm::s(b), v.int().unsigned_abs() as u64), vec![]) };
            (v, w)
        }
    };
    src.note(|| format!("{name}({})", v.show()));
    expect(name, &[In::V(v)], &want)
}

// ------------------------------------------------------------------------------------------------ C34

/// conversions that keep the 64-bit value
const SAME: &[(&str, &str, &str)] = &[
    ("LTIME_TO_TIME", "TIME", "TIME"),
    ("TIME_TO_LTIME", "TIME", "TIME"),
    ("LDT_TO_DT", "DT", "DT"),
    ("DT_TO_LDT", "DT", "DT"),
    ("LTOD_TO_TOD", "TOD", "TOD"),
    ("TOD_TO_LTOD", "TOD", "TOD"),
    ("TOD_TO_LWORD", "TOD", "LWORD"),
    ("LTOD_TO_LWORD", "TOD", "LWORD"),
    ("DT_TO_LWORD", "DT", "LWORD"),
    ("LDT_TO_LWORD", "DT", "LWORD"),
    ("DATE_TO_LWORD", "DATE", "LWORD"),
    ("LDATE_TO_LWORD", "DATE", "LWORD"),
    ("TIME_TO_LWORD", "TIME", "LWORD"),
    ("LTIME_TO_LWORD", "TIME", "LWORD"),
    ("TIME_TO_LINT", "TIME", "LINT"),
    ("LTIME_TO_LINT", "TIME", "LINT"),
    ("TOD_TO_LINT", "TOD", "LINT"),
    ("LTOD_TO_LINT", "TOD", "LINT"),
    ("DT_TO_LINT", "DT", "LINT"),
    ("LDT_TO_LINT", "DT", "LINT"),
    ("DATE_TO_LINT", "DATE", "LINT"),
    ("LDATE_TO_LINT", "DATE", "LINT"),
    ("DT_TO_ULINT", "DT", "ULINT"),
    ("LDT_TO_ULINT", "DT", "ULINT"),
    ("TIME_TO_ULINT", "TIME", "ULINT"),
    ("LTIME_TO_ULINT", "TIME", "ULINT"),
    ("DATE_TO_ULINT", "DATE", "ULINT"),
    ("LDATE_TO_ULINT", "DATE", "ULINT"),
    ("TOD_TO_ULINT", "TOD", "ULINT"),
    ("LTOD_TO_ULINT", "TOD", "ULINT"),
    ("LWORD_TO_DATE", "LWORD", "DATE"),
    ("LWORD_TO_LDATE", "LWORD", "DATE"),
    ("LWORD_TO_DT", "LWORD", "DT"),
    ("LWORD_TO_LDT", "LWORD", "DT"),
    ("LWORD_TO_TOD", "LWORD", "TOD"),
    ("LWORD_TO_LTOD", "LWORD", "TOD"),
    ("LWORD_TO_TIME", "LWORD", "TIME"),
    ("LWORD_TO_LTIME", "LWORD", "TIME"),
    ("ULINT_TO_DATE", "ULINT", "DATE"),
    ("ULINT_TO_LDATE", "ULINT", "DATE"),
    ("ULINT_TO_DT", "ULINT", "DT"),
    ("ULINT_TO_LDT", "ULINT", "DT"),
    ("ULINT_TO_TOD", "ULINT", "TOD"),
    ("ULINT_TO_LTOD", "ULINT", "TOD"),
    ("ULINT_TO_TIME", "ULINT", "TIME"),
    ("ULINT_TO_LTIME", "ULINT", "TIME"),
    ("LINT_TO_TIME", "LINT", "TIME"),
    ("LINT_TO_LTIME", "LINT", "TIME"),
    ("LINT_TO_TOD", "LINT", "TOD"),
    ("LINT_TO_LTOD", "LINT", "TOD"),
    ("LINT_TO_DATE", "LINT", "DATE"),
    ("LINT_TO_LDATE", "LINT", "DATE"),
];
fn c34(src: &mut Src) -> Res {
    match src.weighted(&[6, 3, 2]) {
        0 => {
            let (name, a, b) = SAME[src.below(SAME.len() as u64) as usize];
            let v = scalar(src, a);
            src.note(|| format!("{name}({})", v.show()));
            src.nt(v.bits != 0);
            let w = Val::new(vm::s(b), v.bits);
            expect(name, &[In::V(v)], &Want::Is(w, vec![]))
        }
        1 => {
            let (name, date) = *src.pick(&[
                ("LDT_TO_DATE", true),
                ("DT_TO_DATE", true),
                ("LDT_TO_LTOD", false),
                ("LDT_TO_TOD", false),
                ("DT_TO_LTOD", false),
                ("DT_TO_TOD", false),
            ]);
            let ts = crate::cal::any_ts(src);
            let v = Val::new(vm::s("DT"), ts as u64);
            src.note(|| format!("{name}({ts})"));
            src.nt(ts != 0);
            let day = 86_400_000_000_000i64;
            let n = ts.rem_euclid(day);
            src.label_if(ts < 0, "before 1970");
            let want = if date {
                match ts.checked_sub(n) {
                    Some(d) => Want::Is(Val::new(vm::s("DATE"), d as u64), vec![]),
                    // the midnight is not representable
                    None => Want::Open,
                }
            } else {
                Want::Is(Val::new(vm::s("TOD"), n as u64), vec![])
            };
            expect(name, &[In::V(v)], &want)
        }
        _ => {
            let name = *src.pick(&["TIME_TO_LREAL", "LTIME_TO_LREAL", "LREAL_TO_TIME", "LREAL_TO_LTIME"]);
            if name.starts_with("LREAL") {
                let x = match src.weighted(&[4, 2, 1]) {
                    0 => src.sint(53) as f64 + *src.pick(&[0.0, 0.5, 0.25, 0.75, 0.49]),
                    1 => src.sint(64) as f64,
                    _ => src.f64_any(),
                };
                src.note(|| format!("{name}({x})"));
                let t = x.trunc();
                let r = if (x - t).abs() >= 0.5 { t + 1f64.copysign(x) } else { t };
                src.nt(r != x);
                let want = if r >= -(2f64.powi(63)) && r < 2f64.powi(63) {
                    Want::Is(Val::new(vm::s("TIME"), r as i64 as u64), vec![])
                } else {
                    Want::Open
                };
                expect(name, &[In::V(Val::f64(x))], &want)
            } else {
                let v = if src.bool() { Val::new(vm::s("TIME"), tie(src, 53, 63)) } else { scalar(src, "TIME") };
                src.note(|| format!("{name}({})", v.show()));
                let r = nearest_int(v.int(), 53);
                src.nt(r as i128 != v.int());
                expect(name, &[In::V(v)], &Want::Is(Val::f64(r), vec![]))
            }
        }
    }
}
fn sweep34(i: u64) -> Option<Vec<u64>> {
    let n = SAME.len() as u64;
    if i < n * 66 {
        let (f, k) = (i % n, i / n);
        let c = if k < 64 { 1u64 << k } else { u64::MAX - (k - 64) };
        return Some(vec![0, f, c]);
    }
    None
}

// ------------------------------------------------------------------------------------------------ C35

/// (ST function or generic call, native function it stands for)
const SUMS: &[(&str, &str)] = &[
    ("ADD", "ADD_TIME"),
    ("ADD__TIME__TIME", "ADD_TIME"),
    ("ADD_TIME", "ADD_TIME"),
    ("ADD_LTIME", "ADD_TIME"),
    ("ADD", "ADD_TOD_TIME"),
    ("ADD__TIME_OF_DAY__TIME", "ADD_TOD_TIME"),
    ("ADD_LTOD_LTIME", "ADD_TOD_TIME"),
    ("ADD", "ADD_DT_TIME"),
    ("ADD__DATE_AND_TIME__TIME", "ADD_DT_TIME"),
    ("ADD_LDT_LTIME", "ADD_DT_TIME"),
    ("SUB", "SUB_TIME"),
    ("SUB__TIME__TIME", "SUB_TIME"),
    ("SUB_LTIME", "SUB_TIME"),
    ("SUB", "SUB_DATE_DATE"),
    ("SUB__DATE__DATE", "SUB_DATE_DATE"),
    ("SUB_LDATE_LDATE", "SUB_DATE_DATE"),
    ("SUB", "SUB_TOD_TIME"),
    ("SUB__TIME_OF_DAY__TIME", "SUB_TOD_TIME"),
    ("SUB_LTOD_LTIME", "SUB_TOD_TIME"),
    ("SUB", "SUB_TOD_TOD"),
    ("SUB__TIME_OF_DAY__TIME_OF_DAY", "SUB_TOD_TOD"),
    ("SUB_LTOD_LTOD", "SUB_TOD_TOD"),
    ("SUB", "SUB_DT_TIME"),
    ("SUB__DATE_AND_TIME__TIME", "SUB_DT_TIME"),
    ("SUB_LDT_LTIME", "SUB_DT_TIME"),
    ("SUB", "SUB_DT_DT"),
    ("SUB__DATE_AND_TIME__DATE_AND_TIME", "SUB_DT_DT"),
    ("SUB_LDT_LDT", "SUB_DT_DT"),
];
const FIELDS: [&str; 7] = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND"];
/// fields of a moment, mostly real ones, within an integer type
fn fields(src: &mut Src, tag: &str, from: usize) -> Vec<In> {
    let max = int_limits(tag).1;
    let good = src.chance(4, 5);
    (from..7)
        .map(|i| {
            let (lo, hi) = [(1678i128, 2261), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59), (0, 999)][i];
            let v = if good || src.bool() {
                Val::new(vm::s(tag), src.range(lo.min(max), hi.min(max)) as u64)
            } else if src.bool() {
                Val::new(vm::s(tag), (if src.bool() { hi + 1 } else { lo - 1 }) as u64)
            } else {
                scalar(src, tag)
            };
            In::V(v)
        })
        .collect()
}
fn c35(src: &mut Src) -> Res {
    match src.weighted(&[5, 3, 3, 3, 2]) {
        0 => {
            // sums and differences
            let (name, sym) = SUMS[src.below(SUMS.len() as u64) as usize];
            let r = row(sym);
            let near = src.sint(64) >> src.below(16);
            let args: Vec<In> = r
                .params
                .iter()
                .map(|p| {
                    let v = match src.weighted(&[3, 2, 1]) {
                        0 => src.sint(62),
                        1 => near.wrapping_add(src.sint(40)),
                        _ => src.sint(64),
                    };
                    In::V(Val::new(vm::s(p.2), v as u64))
                })
                .collect();
            src.note(|| format!("{name}({}) for {sym}", show_in(&args)));
            let w = as_native(sym, &args)?;
            src.nt(matches!(w, Want::Is(..)));
            src.label_if(matches!(w, Want::Reject), "out of range");
            expect(name, &args, &w)
        }
        1 => {
            // times of day from fields
            let tag = *src.pick(&INTS);
            let generic = src.bool();
            let long = src.bool();
            let args = fields(src, tag, 3);
            let name = match (long, generic) {
                (true, true) => "CONCAT_LTOD".to_string(),
                (true, false) => format!("CONCAT_LTOD__{tag}"),
                _ => "CONCAT_TOD".to_string(),
            };
            src.note(|| format!("{name}({})", show_in(&args)));
            let w = as_native(&format!("CONCAT_TOD__{tag}"), &args)?;
            src.nt(matches!(w, Want::Is(..)));
            src.label_if(matches!(w, Want::Reject), "no such moment");
            expect(&name, &args, &w)
        }
        2 => {
            // moments from fields; no native function does all of it
            let tag = *src.pick(&["INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"]);
            let base = *src.pick(&["CONCAT_DT", "CONCAT_LDT"]);
            let name = if src.bool() { base.to_string() } else { format!("{base}__{tag}") };
            let args = fields(src, tag, 0);
            src.note(|| format!("{name}({})", show_in(&args)));
            let d = native(&format!("CONCAT_DATE__{tag}"), &args[..3], 0)?;
            let t = native(&format!("CONCAT_TOD__{tag}"), &args[3..], 0)?;
            let w = match (d, t) {
                (Ok(d), Ok(t)) => as_native("CONCAT_DATE_TOD", &[In::V(d.ret.unwrap()), In::V(t.ret.unwrap())])?,
                _ => Want::Reject,
            };
            src.nt(matches!(w, Want::Is(..)));
            src.label_if(matches!(w, Want::Reject), "no such moment");
            expect(&name, &args, &retype(w, "DT"))
        }
        3 => {
            // fields of a moment
            let tag = *src.pick(&["INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"]);
            let (base, sym, t, n) = *src.pick(&[
                ("SPLIT_LTOD", "SPLIT_TOD", "TOD", 4),
                ("SPLIT_LDT", "SPLIT_DT", "DT", 7),
                ("SPLIT_TOD", "SPLIT_TOD", "TOD", 4),
                ("SPLIT_DT", "SPLIT_DT", "DT", 7),
                ("SPLIT_DATE", "SPLIT_DATE", "DATE", 3),
            ]);
            let name = if src.bool() { base.to_string() } else { format!("{base}__{tag}") };
            let mut ts = crate::cal::any_ts(src);
            if t == "TOD" {
                ts = ts.rem_euclid(86_400_000_000_000);
            }
            let mut args = vec![In::V(Val::new(vm::s(t), ts as u64))];
            for _ in 0..n {
                args.push(In::Var(vm::s(tag), 0xA5));
            }
            src.note(|| format!("{name}({ts}), {tag} outputs {:?}", &FIELDS[7 - n..]));
            let w = as_native(&format!("{sym}__{tag}"), &args)?;
            src.nt(matches!(w, Want::Is(..)));
            expect(&name, &args, &w)
        }
        _ => {
            if src.chance(1, 3) {
                let (d, t) = (crate::cal::any_ts(src), crate::cal::any_ts(src));
                let day = 86_400_000_000_000i64;
                let d = d.saturating_sub(d.rem_euclid(day));
                let args = [In::V(Val::new(vm::s("DATE"), d as u64)), In::V(Val::new(vm::s("TOD"), t.rem_euclid(day) as u64))];
                src.note(|| format!("CONCAT_DATE_LTOD({})", show_in(&args)));
                src.nt(true);
                let w = as_native("CONCAT_DATE_TOD", &args)?;
                return expect("CONCAT_DATE_LTOD", &args, &w);
            }
            // products and quotients through the generic names
            let op = *src.pick(&["MUL", "DIV"]);
            let tag = *src.pick(&["LINT", "DINT", "INT", "SINT", "ULINT", "UDINT", "UINT", "USINT", "REAL", "LREAL"]);
            let name = match src.below(3) {
                0 => op.to_string(),
                1 => format!("{op}_TIME"),
                _ => format!("{op}_LTIME"),
            };
            let t = src.sint(48);
            let f = if matches!(tag, "REAL" | "LREAL") && src.bool() {
                let x = src.sint(20) as f64 / 64.0;
                if tag == "REAL" { Val::f32(x as f32) } else { Val::f64(x) }
            } else {
                small(src, tag, 2000)
            };
            let args = [In::V(Val::new(vm::s("TIME"), t as u64)), In::V(f)];
            src.note(|| format!("{name}({})", show_in(&args)));
            // all three names of one operation agree
            let w = as_native(&format!("{op}__TIME__{tag}"), &args)?;
            src.nt(matches!(w, Want::Is(..)));
            expect(&name, &args, &w)
        }
    }
}
fn sweep35(i: u64) -> Option<Vec<u64>> {
    (i < 4 * SUMS.len() as u64).then(|| vec![0, i % SUMS.len() as u64, 20 + i, 0, 0, 7 * i + 1, 0, 3 * i + 2])
}

// ------------------------------------------------------------------------------------------------ C36

fn c36(src: &mut Src) -> Res {
    let wide = src.bool();
    let tag = if wide { "WSTRING" } else { "STRING" };
    if src.chance(1, 4) {
        // comparisons take their arguments by value, as STRING
        let (name, op) = *src.pick(&[("GREATER", "GT"), ("EQUAL", "EQ"), ("LESS", "LT")]);
        let name = format!("{tag}_{name}");
        let mut a = src.chars(20);
        let mut b = match src.weighted(&[2, 3]) {
            0 => src.chars(20),
            _ => {
                let mut b = a.clone();
                match src.below(3) {
                    0 => b.truncate(src.below(b.len() as u64 + 1) as usize),
                    1 => b.extend(src.chars(3)),
                    _ => {
                        if !b.is_empty() {
                            let i = src.below(b.len() as u64) as usize;
                            b[i] = src.char(3);
                        }
                    }
                }
                b
            }
        };
        while units(&a, wide).len() > if wide { 160 } else { 80 } {
            a.pop();
        }
        while units(&b, wide).len() > if wide { 160 } else { 80 } {
            b.pop();
        }
        let (a, b) = (Val::str(wide, units(&a, wide)), Val::str(wide, units(&b, wide)));
        let args = [In::V(a.clone()), In::V(b.clone())];
        src.note(|| format!("{name}({})", show_in(&args)));
        src.nt(!a.bytes.is_empty() && !b.bytes.is_empty());
        let ord = if wide { vm::wide(&a.bytes).cmp(&vm::wide(&b.bytes)) } else { a.bytes.cmp(&b.bytes) };
        src.label(match ord {
            std::cmp::Ordering::Less => "less",
            std::cmp::Ordering::Equal => "equal",
            _ => "greater",
        });
        let want = match op {
            "GT" => ord.is_gt(),
            "EQ" => ord.is_eq(),
            _ => ord.is_lt(),
        };
        return expect(&name, &args, &Want::Is(Val::new(vm::s("BOOL"), want as u64), vec![]));
    }
    let op = *src.pick(&["LEFT", "RIGHT", "MID", "INSERT", "DELETE", "REPLACE", "CONCAT"]);
    let max = if src.chance(1, 10) { 600 } else { 40 };
    let s = src.chars(max);
    let t = if matches!(op, "INSERT" | "REPLACE") { src.chars(20) } else { vec![] };
    let n = s.iter().filter(|c| **c != '\0').count() as u64;
    let num = |src: &mut Src| -> In {
        In::V(match src.weighted(&[6, 2, 1]) {
            0 => Val::new(vm::s("DINT"), src.below(n + 2)),
            1 => Val::new(vm::s("DINT"), (n as i64 + src.range(-2, 2) as i64) as u64),
            _ => scalar(src, "DINT"),
        })
    };
    let sv = In::V(Val::str(wide, units(&s, wide)));
    let tv = In::V(Val::str(wide, units(&t, wide)));
    let args: Vec<In> = match op {
        "LEFT" | "RIGHT" => vec![sv, num(src)],
        "MID" | "DELETE" => {
            let l = num(src);
            vec![sv, l, num(src)]
        }
        "INSERT" => vec![sv, tv, num(src)],
        "REPLACE" => {
            let l = num(src);
            vec![sv, tv, l, num(src)]
        }
        _ => {
            let k = 1 + src.len(8);
            let mut v = vec![];
            for _ in 0..k {
                let t = src.chars(12);
                v.push(Val::str(wide, units(&t, wide)));
            }
            vec![In::Many(v)]
        }
    };
    let out = In::Var(ty(tag), 0x5A);
    let mut nargs = args.clone();
    let sym = if op == "CONCAT" {
        format!("CONCAT__{tag}")
    } else {
        nargs.push(out);
        format!("{op}_EXT__{tag}")
    };
    let name = if src.bool() { op.to_string() } else { format!("{op}__{tag}") };
    src.note(|| format!("{name}({})", show_in(&args)));
    let w = match native(&sym, &nargs, 0)? {
        Ok(mut o) => Want::Is(if op == "CONCAT" { o.ret.unwrap() } else { o.vars.remove(0) }, vec![]),
        Err(_) => Want::Reject,
    };
    src.nt(matches!(&w, Want::Is(v, _) if !v.bytes.is_empty()));
    src.label_if(matches!(w, Want::Reject), "rejected");
    src.label(op);
    expect(&name, &args, &w)
}

// ------------------------------------------------------------------------------------------------ C37

/// (function without _STRING, native text function, type, type of the native function)
const TEXTS: &[(&str, &str, &str, &str)] = &[
    ("BYTE_TO", "BYTE_TO_STRING_EXT", "BYTE", "BYTE"),
    ("LWORD_TO", "LWORD_TO_STRING_EXT", "LWORD", "LWORD"),
    ("DWORD_TO", "LWORD_TO_STRING_EXT", "DWORD", "LWORD"),
    ("LINT_TO", "LINT_TO_STRING_EXT", "LINT", "LINT"),
    ("DINT_TO", "LINT_TO_STRING_EXT", "DINT", "LINT"),
    ("DT_TO", "DT_TO_STRING_EXT", "DT", "DT"),
    ("LDT_TO", "DT_TO_STRING_EXT", "DT", "DT"),
    ("TIME_TO", "TIME_TO_STRING_EXT", "TIME", "TIME"),
    ("LTIME_TO", "TIME_TO_STRING_EXT", "TIME", "TIME"),
    ("DATE_TO", "DATE_TO_STRING_EXT", "DATE", "DATE"),
    ("LDATE_TO", "DATE_TO_STRING_EXT", "DATE", "DATE"),
    ("TOD_TO", "TOD_TO_STRING_EXT", "TOD", "TOD"),
    ("LTOD_TO", "TOD_TO_STRING_EXT", "TOD", "TOD"),
    ("LREAL_TO", "LREAL_TO_STRING_EXT", "LREAL", "LREAL"),
    ("REAL_TO", "LREAL_TO_STRING_EXT", "REAL", "LREAL"),
];
fn to_utf16(b: &[u8]) -> Vec<u8> {
    std::str::from_utf8(b).unwrap().encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
fn c37(src: &mut Src) -> Res {
    match src.weighted(&[6, 4, 2, 2]) {
        0 => {
            let (f, sym, a, b) = TEXTS[src.below(TEXTS.len() as u64) as usize];
            let wide = src.bool();
            let name = format!("{f}_{}", if wide { "WSTRING" } else { "STRING" });
            let v = match a {
                "DT" | "DATE" => Val::new(vm::s(a), crate::cal::any_ts(src) as u64),
                "TOD" => Val::new(vm::s(a), crate::cal::any_ts(src).rem_euclid(86_400_000_000_000) as u64),
                _ => scalar(src, a),
            };
            src.note(|| format!("{name}({})", v.show()));
            let nv = match (a, b) {
                ("REAL", _) => Val::f64(v.float()),
                _ => Val::new(vm::s(b), v.int() as u64),
            };
            let nv = if a == "LREAL" { v.clone() } else { nv };
            let w = match native(sym, &[In::V(nv), In::Var(ty("STRING"), 0x33)], 0)? {
                Ok(mut o) => {
                    let t = o.vars.remove(0).bytes;
                    src.nt(t.len() > 1);
                    Want::Is(if wide { Val::str(true, to_utf16(&t)) } else { Val::str(false, t) }, vec![])
                }
                Err(_) => Want::Reject,
            };
            expect(&name, &[In::V(v)], &w)
        }
        1 => {
            // numbers in a WSTRING
            let k = src.below(4);
            let (name, sym) = [
                ("WSTRING_TO_LINT", "STRING_TO_LINT"),
                ("WSTRING_TO_DINT", "STRING_TO_DINT"),
                ("WSTRING_TO_LREAL", "STRING_TO_LREAL"),
                ("WSTRING_TO_REAL", "STRING_TO_REAL"),
            ][k as usize];
            let t: Vec<char> = match src.weighted(&[6, 2, 2]) {
                0 => {
                    let s = match (k < 2, src.below(3)) {
                        (true, 0) => src.sint(64).to_string(),
                        (true, 1) => src.sint(33).to_string(),
                        (true, _) => format!("16#{:X}", src.uint(40)),
                        (false, 0) => format!("{}", src.sint(40) as f64 / 1024.0),
                        (false, 1) => format!("{:e}", src.f32_any()),
                        (false, _) => format!("{:e}", src.f64_any()),
                    };
                    s.chars().collect()
                }
                1 => {
                    // long texts are numbers, too
                    let z = src.below(90) as usize;
                    let mut s = "0".repeat(z);
                    s.push_str(&src.uint(31).to_string());
                    s.chars().collect()
                }
                _ => src.chars(80),
            };
            let u = units(&t, false);
            let args = [In::V(Val::str(true, units(&t, true)))];
            src.note(|| format!("{name}({})", show_in(&args)));
            let w = as_native(sym, &[In::V(Val::str(false, u))])?;
            src.nt(matches!(w, Want::Is(..)));
            src.label_if(matches!(w, Want::Reject), "not a number of the type");
            expect(name, &args, &w)
        }
        2 => {
            let wide = src.bool();
            let name = if wide { "WSTRING_TO_STRING" } else { "STRING_TO_WSTRING" };
            let max = if src.chance(1, 10) { 500 } else { 60 };
            let t = src.chars(max);
            let args = [In::V(Val::str(wide, units(&t, wide)))];
            src.note(|| format!("{name}({})", show_in(&args)));
            src.nt(!t.is_empty());
            expect(name, &args, &Want::Is(Val::str(!wide, units(&t, !wide)), vec![]))
        }
        _ => {
            // single characters
            let name = *src.pick(&["STRING_TO_CHAR", "WSTRING_TO_WCHAR", "CHAR_TO_STRING", "WCHAR_TO_WSTRING"]);
            match name {
                "STRING_TO_CHAR" | "WSTRING_TO_WCHAR" => {
                    let wide = name.starts_with('W');
                    let v = text(src, wide, 20);
                    let first = if wide {
                        Val::new(vm::s("WCHAR"), vm::wide(&v.bytes).first().copied().unwrap_or(0) as u64)
                    } else {
                        Val::new(vm::s("CHAR"), v.bytes.first().copied().unwrap_or(0) as u64)
                    };
                    src.note(|| format!("{name}({})", v.show()));
                    src.nt(!v.bytes.is_empty());
                    expect(name, &[In::V(v)], &Want::Is(first, vec![]))
                }
                _ => {
                    let wide = name.starts_with('W');
                    let v = scalar(src, if wide { "WCHAR" } else { "CHAR" });
                    src.note(|| format!("{name}({})", v.show()));
                    src.nt(v.bits != 0);
                    let b = if v.bits == 0 { vec![] } else { v.bits.to_le_bytes()[..if wide { 2 } else { 1 }].to_vec() };
                    expect(name, &[In::V(v)], &Want::Is(Val::str(wide, b), vec![]))
                }
            }
        }
    }
}
fn sweep37(i: u64) -> Option<Vec<u64>> {
    let n = 2 * TEXTS.len() as u64;
    if i < n * 6 {
        return Some(vec![0, (i / 2) % TEXTS.len() as u64, i % 2, 37 * (i / n), 11 * (i / n), 5]);
    }
    None
}

// ------------------------------------------------------------------------------------------------ C38

fn c38(src: &mut Src) -> Res {
    let wide = src.bool();
    let (bt, tag) = (if wide { "LREAL" } else { "REAL" }, *src.pick(&INTS));
    let e = {
        let (lo, hi) = int_limits(tag);
        // beyond 2^53 an exponent has no exact LREAL
        let (lo, hi) = (lo.max(-(1 << 53)), hi.min(1 << 53));
        match src.weighted(&[5, 2, 2, 1]) {
            3 => *src.pick(&[0, 1, lo, hi, lo + 1, hi - 1]),
            0 => src.range(lo.max(-40), hi.min(40)),
            1 => src.range(lo.max(-2000), hi.min(2000)),
            _ => src.range(lo, hi),
        }
    };
    let x = match src.weighted(&[3, 3, 1, 1]) {
        0 => src.range(-20, 20) as f64 / 4.0,
        3 => super::nums::special(src, wide),
        1 => {
            // near one: large powers stay finite
            let d = src.sint(52) as f64 * 2f64.powi(-(src.range(52, 100) as i32));
            let y = 1.0 + d;
            if src.chance(1, 4) {
                -y
            } else {
                y
            }
        }
        _ => src.f64_any(),
    };
    let base = if wide { Val::f64(x) } else { Val::f32(x as f32) };
    let ev = Val::new(vm::s(tag), e as u64);
    let name = if src.chance(1, 3) { "EXPT".to_string() } else { format!("EXPT__{bt}__{tag}") };
    let args = [In::V(base.clone()), In::V(ev)];
    src.note(|| format!("{name}({})", show_in(&args)));
    src.nt(e != 0 && base.float() != 1.0 && base.float() != 0.0);
    src.label_if(e.abs() > i32::MAX as i128, "exponent beyond 32 bits");
    if base.float().is_nan() {
        return expect(&name, &args, &Want::Open);
    }
    let got = match vm::run(&name, &args) {
        Ok(Out { ret: Some(v), .. }) if same_kind(&v.ty, &vm::s(bt)) => v.float(),
        Ok(o) => return fail(format!("{name}:type"), format!("{name}({}) = {:?}", show_in(&args), o.ret)),
        Err(Stop::Broken(k, m)) => return fail(format!("{name}:{k}"), format!("{name}({}): {m}", show_in(&args))),
        Err(e) => return fail(format!("{name}:rejected"), format!("{name}({}): {e:?}", show_in(&args))),
    };
    let ctx = format!("{name}({})", show_in(&args));
    super::nums::judge_pow(&name, &ctx, got, base.float(), e as f64, wide)
}
fn sweep38(i: u64) -> Option<Vec<u64>> {
    // every type with every sign
    let n = 2 * INTS.len() as u64;
    (i < n * 8).then(|| vec![i % 2, (i / 2) % 8, 0, 41 + 3 * (i / n), 0, 26 + i / n, 1 + (i % 2)])
}

pub fn props() -> Vec<Prop> {
    let base = Prop {
        id: "C31",
        run: c31,
        quick: 300_000,
        thorough: 20_000_000,
        rule: "a call was compared (argument values of all declared types), not only a declaration",
        sweep: Some(sweep31),
        configs: BOTH,
        assumptions: &["the ST library is executed by the harness's interpreter, not by the ST compiler"],
    };
    let st: &'static [&'static str] = &["the ST library is executed by the harness's interpreter, not by the ST compiler"];
    vec![
        base,
        Prop {
            id: "C32",
            run: c32,
            quick: 600_000,
            thorough: 40_000_000,
            rule: "the converted value is not zero",
            sweep: Some(sweep32),
            configs: BOTH,
            assumptions: st,
        },
        Prop {
            id: "C33",
            run: c33,
            quick: 600_000,
            thorough: 40_000_000,
            rule: "the conversion has to round, or to change a sign",
            sweep: None,
            configs: BOTH,
            assumptions: &[
                "the ST library is executed by the harness's interpreter, not by the ST compiler",
                "a REAL or LREAL outside the range of the integer type, and ABS of the smallest integer, have no defined result",
            ],
        },
        Prop {
            id: "C34",
            run: c34,
            quick: 600_000,
            thorough: 40_000_000,
            rule: "the converted value is not zero, or has to be rounded",
            sweep: Some(sweep34),
            configs: BOTH,
            assumptions: st,
        },
        Prop {
            id: "C35",
            run: c35,
            quick: 500_000,
            thorough: 30_000_000,
            rule: "the native function accepts the values",
            sweep: Some(sweep35),
            configs: BOTH,
            assumptions: st,
        },
        Prop {
            id: "C36",
            run: c36,
            quick: 300_000,
            thorough: 15_000_000,
            rule: "a non-empty result, or a comparison of two non-empty strings",
            sweep: None,
            configs: BOTH,
            assumptions: &[
                "the ST library is executed by the harness's interpreter, not by the ST compiler",
                "results fit the declared 2048 characters; strings compared by value have at most 80",
            ],
        },
        Prop {
            id: "C37",
            run: c37,
            quick: 300_000,
            thorough: 20_000_000,
            rule: "a text of more than one character, a number that parses, or a non-empty string",
            sweep: Some(sweep37),
            configs: BOTH,
            assumptions: &[
                "the ST library is executed by the harness's interpreter, not by the ST compiler",
                "results fit the declared length",
            ],
        },
        Prop {
            id: "C38",
            run: c38,
            quick: 250_000,
            thorough: 8_000_000,
            rule: "exponent other than 0, base other than 0 and 1",
            sweep: Some(sweep38),
            configs: BOTH,
            assumptions: &[
                "the ST library is executed by the harness's interpreter, not by the ST compiler",
                "exponents of magnitude up to 2^53; tolerance as in C29",
            ],
        },
    ]
}
