//! Runs the structured text library: an interpreter for its function bodies, with the native functions called through
//! their ST declarations. Memory is real, every object sits between guard bytes, and the interpreter's own accesses are
//! bounds-checked.
//!
//! Semantics are those of the ST compiler the library is written for: implicit conversions follow the target type,
//! integers wrap, float to integer truncates (undefined outside the target range), a call of a generic function goes to
//! NAME__TYPE..., by-reference parameters, VAR_OUTPUT and VAR_IN_OUT are pointers, a STRING result is written through a
//! hidden first pointer, a {sized} variadic is a count and a pointer.

use crate::engine::call;
use crate::st::{self, Block, Expr, Kind, Lib, Pou, Scalar, Stmt, Type};
use crate::sys;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    S(&'static str, Scalar),
    Str { wide: bool, cap: usize },
    Ref(Box<Ty>),
    /// lower bound, length
    Arr(i128, usize, Box<Ty>),
}
impl Ty {
    pub fn size(&self) -> usize {
        match self {
            Ty::S(_, s) => s.size,
            Ty::Str { wide, cap } => (cap + 1) * if *wide { 2 } else { 1 },
            Ty::Ref(_) => 8,
            Ty::Arr(_, n, t) => n * t.size(),
        }
    }
    /// name in the resolved name of a generic function
    pub fn tag(&self) -> &'static str {
        match self {
            Ty::S(n, _) => n,
            Ty::Str { wide: false, .. } => "STRING",
            Ty::Str { wide: true, .. } => "WSTRING",
            _ => "POINTER",
        }
    }
}

/// A value of a type: the raw bits of a scalar, or the bytes of a string without terminator.
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub ty: Ty,
    pub bits: u64,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Stop {
    /// the library rejected the call (panic)
    Reject(String),
    /// no result is defined by the language (float out of the integer range, ...)
    Undefined(String),
    /// a wrong memory access, or an unresolved call
    Broken(&'static str, String),
}
type R<T> = Result<T, Stop>;

/// canonical name of a scalar type: aliases and the long date and time types name the same type
pub fn canon(n: &str) -> &'static str {
    const ALL: &[&str] = &[
        "BOOL", "BYTE", "WORD", "DWORD", "LWORD", "SINT", "INT", "DINT", "LINT", "USINT", "UINT", "UDINT", "ULINT", "REAL", "LREAL",
        "CHAR", "WCHAR", "TIME", "DATE", "TIME_OF_DAY", "DATE_AND_TIME",
    ];
    let m = match n {
        "LTIME" => "TIME",
        "LDATE" => "DATE",
        "TOD" | "LTOD" | "LTIME_OF_DAY" => "TIME_OF_DAY",
        "DT" | "LDT" | "LDATE_AND_TIME" => "DATE_AND_TIME",
        n => n,
    };
    ALL.iter().find(|x| **x == m).unwrap_or_else(|| panic!("type {n}"))
}
pub fn s(n: &str) -> Ty {
    Ty::S(canon(n), st::scalar(n).unwrap_or_else(|| panic!("type {n}")))
}
pub fn string(wide: bool, cap: usize) -> Ty {
    Ty::Str { wide, cap }
}

impl Val {
    pub fn new(ty: Ty, bits: u64) -> Val {
        let m = if let Ty::S(_, s) = &ty { crate::engine::mask(8 * s.size as u32) } else { u64::MAX };
        Val { ty, bits: bits & m, bytes: vec![] }
    }
    pub fn str(wide: bool, bytes: Vec<u8>) -> Val {
        let cap = bytes.len() / if wide { 2 } else { 1 };
        Val { ty: Ty::Str { wide, cap }, bits: 0, bytes }
    }
    pub fn f64(x: f64) -> Val {
        Val::new(s("LREAL"), x.to_bits())
    }
    pub fn f32(x: f32) -> Val {
        Val::new(s("REAL"), x.to_bits() as u64)
    }
    pub fn is_float(&self) -> bool {
        matches!(&self.ty, Ty::S(_, Scalar { kind: Kind::Float, .. }))
    }
    /// value of an integer-like scalar
    pub fn int(&self) -> i128 {
        match &self.ty {
            Ty::S(_, Scalar { kind: Kind::Signed, size }) => crate::engine::sext(self.bits, 8 * *size as u32) as i128,
            _ => self.bits as i128,
        }
    }
    pub fn float(&self) -> f64 {
        match &self.ty {
            Ty::S(_, Scalar { size: 4, .. }) => f32::from_bits(self.bits as u32) as f64,
            _ => f64::from_bits(self.bits),
        }
    }
    pub fn show(&self) -> String {
        match &self.ty {
            Ty::S(n, Scalar { kind: Kind::Float, .. }) => format!("{n}#{:?}", self.float()),
            Ty::S(n, _) => format!("{n}#{}", self.int()),
            Ty::Str { wide: false, .. } => sys::show(&self.bytes),
            Ty::Str { wide: true, .. } => sys::show(&wide(&self.bytes)),
            _ => format!("{self:?}"),
        }
    }
}
pub fn wide(b: &[u8]) -> Vec<u16> {
    b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}

fn cast(v: &Val, to: &Ty) -> R<Val> {
    match (&v.ty, to) {
        (Ty::S(_, a), Ty::S(_, b)) => {
            let bits = match (a.kind == Kind::Float, b.kind == Kind::Float) {
                (false, false) => v.int() as u64,
                (false, true) if b.size == 4 => (v.int() as f32).to_bits() as u64,
                (false, true) => (v.int() as f64).to_bits(),
                (true, true) if a.size == b.size => v.bits,
                (true, true) if b.size == 4 => (v.float() as f32).to_bits() as u64,
                (true, true) => v.float().to_bits(),
                (true, false) => {
                    let x = v.float().trunc();
                    let (lo, hi) = match b.kind {
                        Kind::Signed => (-(2f64.powi(8 * b.size as i32 - 1)), 2f64.powi(8 * b.size as i32 - 1)),
                        _ => (0.0, 2f64.powi(8 * b.size as i32)),
                    };
                    if !(x >= lo && x < hi) {
                        return Err(Stop::Undefined(format!("{x} converted to {}", to.tag())));
                    }
                    x as i128 as u64
                }
            };
            Ok(Val::new(to.clone(), bits))
        }
        (Ty::Str { wide: a, .. }, Ty::Str { wide: b, cap }) if a == b => {
            let n = v.bytes.len().min(cap * if *a { 2 } else { 1 });
            Ok(Val { ty: to.clone(), bits: 0, bytes: v.bytes[..n].to_vec() })
        }
        (Ty::Ref(_), Ty::Ref(_)) => Ok(Val { ty: to.clone(), bits: v.bits, bytes: vec![] }),
        (Ty::Str { wide: w, .. }, Ty::S("CHAR" | "WCHAR", b)) if (b.size == 2) == *w && v.bytes.len() == b.size => {
            let mut x = [0u8; 8];
            x[..b.size].copy_from_slice(&v.bytes);
            Ok(Val::new(to.clone(), u64::from_le_bytes(x)))
        }
        (a, b) => panic!("ST interpreter: conversion from {a:?} to {b:?}"),
    }
}

// ------------------------------------------------------------------------------------------------ memory

const HEAP: usize = 2 << 20;
const GUARD: usize = 96;
const GUARD_BYTE: u8 = 0xC7;

struct Heap {
    mem: sys::Region,
    top: usize,
    objs: Vec<(usize, usize)>,
}
fn heap() -> &'static mut Heap {
    static mut H: Option<Heap> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if H.is_none() {
            let mut mem = sys::Region::new(HEAP);
            mem.fill(GUARD_BYTE);
            H = Some(Heap { mem, top: GUARD, objs: vec![] });
        }
        H.as_mut().unwrap()
    }
}
impl Heap {
    fn reset(&mut self) {
        let n = (self.top + 8192).min(HEAP);
        self.mem.bytes_mut()[..n].fill(GUARD_BYTE);
        self.top = GUARD;
        self.objs.clear();
    }
    fn alloc(&mut self, size: usize, fill: u8) -> *mut u8 {
        let off = self.top.div_ceil(16) * 16;
        assert!(off + size + GUARD < HEAP, "ST interpreter: out of memory");
        self.mem.bytes_mut()[off..off + size].fill(fill);
        self.objs.push((off, size));
        self.top = off + size + GUARD;
        unsafe { self.mem.base.add(off) }
    }
    /// every byte outside the objects is untouched
    fn intact(&self) -> R<()> {
        let b = self.mem.bytes();
        let mut at = 0;
        let bad = |i: usize| {
            let o = self.objs.iter().rev().find(|o| o.0 < i).map(|o| (i - o.0, o.1));
            Err(Stop::Broken("memory", match o {
                Some((d, s)) => format!("byte {d} behind the start of a {s}-byte variable was overwritten"),
                None => "memory before all variables was overwritten".into(),
            }))
        };
        for (o, s) in &self.objs {
            if let Some(i) = b[at..*o].iter().position(|x| *x != GUARD_BYTE) {
                return bad(at + i);
            }
            at = o + s;
        }
        let end = (self.top + 4096).min(HEAP);
        if let Some(i) = b[at..end].iter().position(|x| *x != GUARD_BYTE) {
            return bad(at + i);
        }
        Ok(())
    }
    /// the `n` bytes at `p` belong to one variable
    fn inside(&self, p: *const u8, n: usize) -> bool {
        let o = (p as usize).wrapping_sub(self.mem.base as usize);
        self.objs.iter().any(|(b, s)| o >= *b && o + n <= b + s)
    }
    /// bytes of the variable at `p` from there to its end
    fn rest(&self, p: *const u8) -> Option<usize> {
        let o = (p as usize).wrapping_sub(self.mem.base as usize);
        self.objs.iter().find(|(b, s)| o >= *b && o < b + s).map(|(b, s)| b + s - o)
    }
}

#[derive(Clone, Debug)]
struct Place {
    p: *mut u8,
    ty: Ty,
}

fn load(p: &Place) -> R<Val> {
    let h = heap();
    match &p.ty {
        Ty::Str { wide, cap } => {
            // a string is read up to its terminator, at most the declared length
            let u = if *wide { 2 } else { 1 };
            let Some(rest) = h.rest(p.p) else {
                return Err(Stop::Broken("access", "read of a string outside of any variable".into()));
            };
            let mut bytes = vec![];
            for i in 0..*cap {
                if (i + 1) * u > rest {
                    return Err(Stop::Broken("access", format!("read of a string of up to {cap} characters from a variable of {rest} bytes, without terminator in it")));
                }
                let unit = unsafe { std::slice::from_raw_parts(p.p.add(i * u), u) };
                if unit.iter().all(|b| *b == 0) {
                    break;
                }
                bytes.extend_from_slice(unit);
            }
            Ok(Val { ty: p.ty.clone(), bits: 0, bytes })
        }
        _ => {
            let n = p.ty.size();
            assert!(n <= 8, "ST interpreter: load of {:?}", p.ty);
            if !h.inside(p.p, n) {
                return Err(Stop::Broken("access", format!("read of {n} bytes that are not inside one variable")));
            }
            let mut b = [0u8; 8];
            unsafe { std::ptr::copy_nonoverlapping(p.p, b.as_mut_ptr(), n) };
            Ok(Val { ty: p.ty.clone(), bits: u64::from_le_bytes(b), bytes: vec![] })
        }
    }
}
fn store(p: &Place, v: &Val) -> R<()> {
    let v = cast(v, &p.ty)?;
    let mut b = match &p.ty {
        Ty::Str { .. } => v.bytes,
        _ => v.bits.to_le_bytes()[..p.ty.size()].to_vec(),
    };
    if let Ty::Str { wide, .. } = p.ty {
        b.push(0);
        if wide {
            b.push(0);
        }
    }
    if !heap().inside(p.p, b.len()) {
        return Err(Stop::Broken("access", format!("write of {} bytes that are not inside one variable", b.len())));
    }
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p.p, b.len()) };
    Ok(())
}

// ------------------------------------------------------------------------------------------------ calls

#[derive(Clone, Debug)]
enum Bound {
    Place(Place),
    /// count and pointer of a variadic
    Many(usize, *mut u8),
    Missing,
}

pub struct Vm {
    lib: &'static Lib,
    steps: u32,
    depth: u32,
}

/// An argument at the outside: a value, or for outputs the variable's type with a fill byte for its old contents.
#[derive(Clone, Debug)]
pub enum In {
    V(Val),
    Var(Ty, u8),
    /// arguments of a variadic parameter; strings may repeat the variable of an earlier index
    Many(Vec<Val>),
}
#[derive(Debug)]
pub struct Out {
    pub ret: Option<Val>,
    /// the variables given with In::Var, afterwards
    pub vars: Vec<Val>,
}

fn fn_params(p: &Pou) -> Vec<&st::Var> {
    p.vars.iter().filter(|v| matches!(v.block, Block::Input | Block::Output | Block::InOut)).collect()
}

impl Vm {
    fn ty(&self, t: &Type) -> Ty {
        match t {
            Type::Named(n) => s(&n.to_uppercase()),
            Type::Str { wide, len } => {
                Ty::Str { wide: *wide, cap: len.as_ref().map(|e| self.lib.const_int(e) as usize).unwrap_or(80) }
            }
            Type::Ref(t) => Ty::Ref(Box::new(self.ty(t))),
            Type::Array(lo, hi, t) => {
                let lo = self.lib.const_int(lo);
                Ty::Arr(lo, (self.lib.const_int(hi) - lo + 1) as usize, Box::new(self.ty(t)))
            }
        }
    }
    fn temp(&self, ty: &Ty, fill: u8) -> Place {
        Place { p: heap().alloc(ty.size(), fill), ty: ty.clone() }
    }
    fn temp_val(&self, v: &Val) -> R<Place> {
        let p = self.temp(&v.ty, 0);
        store(&p, v)?;
        Ok(p)
    }

    /// the function a call names, given the types of its arguments
    fn resolve(&self, name: &str, types: &[Option<Ty>]) -> R<(&'static Pou, String, Vec<(String, Ty)>)> {
        let Some(p) = self.lib.pou(name) else {
            return Err(Stop::Broken("unresolved", format!("{name} is not declared")));
        };
        if p.generics.is_empty() {
            return Ok((p, p.name.to_uppercase(), vec![]));
        }
        let params = fn_params(p);
        let mut full = p.name.to_uppercase();
        let mut bind = vec![];
        for (g, _) in &p.generics {
            let mut best: Option<Ty> = None;
            for (i, t) in types.iter().enumerate() {
                let v = params.get(i).or(params.last().filter(|v| v.variadic.is_some()));
                if let (Some(v), Some(t)) = (v, t) {
                    if matches!(&v.ty, Type::Named(n) if n.eq_ignore_ascii_case(g)) {
                        // the widest argument type decides
                        match &best {
                            Some(b) if b.size() >= t.size() => {}
                            _ => best = Some(t.clone()),
                        }
                    }
                }
            }
            let Some(b) = best else {
                return Err(Stop::Broken("unresolved", format!("type {g} of the call of {name} is not determined")));
            };
            full = format!("{full}__{}", b.tag());
            bind.push((g.to_uppercase(), b));
        }
        match self.lib.pou(&full) {
            Some(q) => {
                self.agree(p, q, &bind)?;
                Ok((q, full, vec![]))
            }
            None => Ok((p, full, bind)),
        }
    }
    /// a generic declaration and its implementation for some types have the same interface
    fn agree(&self, g: &Pou, q: &Pou, bind: &[(String, Ty)]) -> R<()> {
        let bad = |m: String| Err(Stop::Broken("signature", format!("{} and the generic {}: {m}", q.name, g.name)));
        let (a, b) = (fn_params(g), fn_params(q));
        if a.len() != b.len() {
            return bad(format!("{} and {} parameters", b.len(), a.len()));
        }
        for (x, y) in a.iter().zip(&b) {
            let (t, u) = (self.var_ty(x, bind), self.ty(&y.ty));
            if t.tag() != u.tag() {
                return bad(format!("parameter {} is a {} and a {}", y.name, u.tag(), t.tag()));
            }
            if (x.block == Block::Input) != (y.block == Block::Input) || x.variadic.is_some() != y.variadic.is_some() {
                return bad(format!("parameter {} is passed in two ways", y.name));
            }
        }
        // A generic declaration names its result only roughly (SUB<T1, T2> : T1 also covers TOD - TOD,
        // whose result is a TIME): the concrete function decides. A fixed result type does bind.
        if let Some(Type::Named(n)) = &g.ret {
            if bind.iter().any(|(b, _)| b.eq_ignore_ascii_case(n)) {
                return Ok(());
            }
        }
        match (self.ret_ty(g, bind), self.ret_ty(q, &[])) {
            (Some(t), Some(u)) if t.tag() == u.tag() => Ok(()),
            (None, None) => Ok(()),
            (t, u) => bad(format!("result {} and {}", u.map_or("none", |t| t.tag()), t.map_or("none", |t| t.tag()))),
        }
    }
    fn var_ty(&self, v: &st::Var, bind: &[(String, Ty)]) -> Ty {
        if let Type::Named(n) = &v.ty {
            if let Some((_, t)) = bind.iter().find(|(g, _)| g.eq_ignore_ascii_case(n)) {
                return t.clone();
            }
        }
        self.ty(&v.ty)
    }
    fn ret_ty(&self, p: &Pou, bind: &[(String, Ty)]) -> Option<Ty> {
        p.ret.as_ref().map(|t| {
            if let Type::Named(n) = t {
                if let Some((_, t)) = bind.iter().find(|(g, _)| g.eq_ignore_ascii_case(n)) {
                    return t.clone();
                }
            }
            self.ty(t)
        })
    }

    fn native(&mut self, p: &Pou, name: &str, bind: &[(String, Ty)], args: &[Bound]) -> R<Option<Val>> {
        let Some(addr) = sys::symbol(name) else {
            return Err(Stop::Broken("missing", format!("{name} is declared external, but the native library does not export it")));
        };
        let mut ints: Vec<u64> = vec![];
        let mut floats: Vec<f64> = vec![];
        let ret = self.ret_ty(p, bind);
        let out = match &ret {
            Some(t @ Ty::Str { .. }) => {
                let o = self.temp(t, 0);
                ints.push(o.p as u64);
                Some(o)
            }
            _ => None,
        };
        for (v, a) in fn_params(p).iter().zip(args) {
            match a {
                Bound::Many(n, q) => {
                    ints.push(*n as u64);
                    ints.push(*q as u64);
                }
                Bound::Missing => return Err(Stop::Broken("unresolved", format!("{name} called without argument {}", v.name))),
                Bound::Place(pl) => {
                    if v.byref || v.block != Block::Input || matches!(pl.ty, Ty::Str { .. }) {
                        ints.push(pl.p as u64);
                    } else {
                        let x = load(pl)?;
                        match &x.ty {
                            Ty::S(_, Scalar { kind: Kind::Float, .. }) => floats.push(f64::from_bits(x.bits)),
                            _ => ints.push(x.int() as u64),
                        }
                    }
                }
            }
        }
        assert!(floats.len() <= 8 && ints.len() <= 14, "ST interpreter: too many arguments");
        let float = matches!(ret, Some(Ty::S(_, Scalar { kind: Kind::Float, .. })));
        let r = raw_call(addr, &ints, &floats, float).map_err(Stop::Reject)?;
        Ok(match ret {
            None => None,
            Some(Ty::Str { .. }) => Some(load(&out.unwrap())?),
            Some(t) => Some(Val::new(t, r)),
        })
    }

    fn invoke(&mut self, p: &'static Pou, name: &str, bind: &[(String, Ty)], args: &[Bound]) -> R<Option<Val>> {
        self.depth += 1;
        assert!(self.depth < 64, "ST interpreter: recursion");
        let generic_native = !p.generics.is_empty();
        if p.external || generic_native {
            let r = if generic_native && !p.external && sys::symbol(name).is_none() {
                Err(Stop::Broken("unresolved", format!("{name} has neither an ST nor a native implementation")))
            } else {
                self.native(p, name, bind, args)
            };
            self.depth -= 1;
            return r;
        }
        let mut f = Frame { p, vars: vec![] };
        let ret = self.ret_ty(p, bind);
        if let Some(t) = &ret {
            f.vars.push((p.name.to_uppercase(), self.temp(t, 0)));
        }
        let params = fn_params(p);
        for (v, a) in params.iter().zip(args) {
            match a {
                Bound::Place(pl) => {
                    let want = self.ty(&v.ty);
                    let by_pointer = v.byref || v.block != Block::Input;
                    let place = if by_pointer {
                        Place { p: pl.p, ty: want }
                    } else {
                        let t = self.temp(&want, 0);
                        store(&t, &load(pl)?)?;
                        t
                    };
                    f.vars.push((v.name.to_uppercase(), place));
                }
                Bound::Missing => {
                    let t = self.temp(&self.ty(&v.ty), 0);
                    f.vars.push((v.name.to_uppercase(), t));
                }
                Bound::Many(..) => panic!("ST interpreter: variadic function {name} with a body"),
            }
        }
        for v in p.vars.iter().filter(|v| matches!(v.block, Block::Local | Block::Temp)) {
            let ty = self.ty(&v.ty);
            let t = self.temp(&ty, 0);
            f.vars.push((v.name.to_uppercase(), t.clone()));
            if let Some(e) = &v.init {
                let x = self.eval(&f, e)?;
                store(&t, &x)?;
            }
        }
        self.block(&f, &p.body)?;
        self.depth -= 1;
        match ret {
            Some(_) => Ok(Some(load(&f.vars[0].1)?)),
            None => Ok(None),
        }
    }

    /// binds the arguments of a call inside a body
    fn call(&mut self, f: &Frame, name: &str, args: &[st::Arg]) -> R<Option<Val>> {
        enum A {
            P(Place),
            V(Val),
        }
        if self.lib.pou(name).is_none() {
            match (name.to_uppercase().as_str(), args) {
                ("ADR" | "REF", [a]) => return self.eval(f, &Expr::AddrOf(Box::new(a.value.clone()))).map(Some),
                ("MOVE", [a]) => return self.eval(f, &a.value).map(Some),
                ("SEL", [g, a, b]) => {
                    let g = self.eval(f, &g.value)?.bits & 1;
                    return self.eval(f, if g == 1 { &b.value } else { &a.value }).map(Some);
                }
                ("MUX", [k, rest @ ..]) => {
                    let k = self.eval(f, &k.value)?.int();
                    if k < 0 || k as usize >= rest.len() {
                        return Err(Stop::Undefined(format!("MUX selects argument {k}")));
                    }
                    return self.eval(f, &rest[k as usize].value).map(Some);
                }
                ("SIZEOF", [a]) => {
                    let p = self.place(f, &a.value)?;
                    return Ok(Some(Val::new(s("ULINT"), p.ty.size() as u64)));
                }
                _ => {}
            }
        }
        let mut vals: Vec<(Option<String>, A)> = vec![];
        for a in args {
            let x = match &a.value {
                e @ (Expr::Var(_) | Expr::Deref(_) | Expr::Index(..)) if self.is_place(f, e) => A::P(self.place(f, e)?),
                e => A::V(self.eval(f, e)?),
            };
            vals.push((a.name.clone(), x));
        }
        let Some(decl) = self.lib.pou(name) else {
            return Err(Stop::Broken("unresolved", format!("{name} is not declared")));
        };
        // order by parameter
        let params = fn_params(decl);
        let variadic = params.last().is_some_and(|v| v.variadic.is_some());
        let mut slots: Vec<Option<A>> = vec![];
        slots.resize_with(params.len().max(vals.len()), || None);
        for (i, (n, x)) in vals.into_iter().enumerate() {
            let k = match n {
                Some(n) => match params.iter().position(|v| v.name.eq_ignore_ascii_case(&n)) {
                    Some(k) => k,
                    None => return Err(Stop::Broken("unresolved", format!("{name} has no parameter {n}"))),
                },
                None => i,
            };
            slots[k] = Some(x);
        }
        if !variadic && slots.len() > params.len() {
            return Err(Stop::Broken("unresolved", format!("{name} called with {} arguments, it has {} parameters", slots.len(), params.len())));
        }
        let types: Vec<Option<Ty>> = slots
            .iter()
            .map(|s| match s {
                Some(A::P(p)) => Some(p.ty.clone()),
                Some(A::V(v)) => Some(v.ty.clone()),
                None => None,
            })
            .collect();
        let (p, full, bind) = self.resolve(name, &types)?;
        let params = fn_params(p);
        let mut bound = vec![];
        let mut many: Vec<Place> = vec![];
        for (i, x) in slots.into_iter().enumerate() {
            let v = params[i.min(params.len() - 1)];
            let ty = self.var_ty(v, &bind);
            let b = match x {
                None => Bound::Missing,
                Some(A::P(pl)) => {
                    let by_pointer = v.byref || v.block != Block::Input;
                    match (&pl.ty, &ty) {
                        (Ty::S(_, a), Ty::S(_, b)) if by_pointer && a.size != b.size => {
                            return Err(Stop::Broken("type", format!("{full}: a {} variable is passed for the {} parameter {}", pl.ty.tag(), ty.tag(), v.name)));
                        }
                        (Ty::Str { wide: a, .. }, Ty::Str { wide: b, .. }) if a != b => {
                            return Err(Stop::Broken("type", format!("{full}: a {} is passed for the {} parameter {}", pl.ty.tag(), ty.tag(), v.name)));
                        }
                        (Ty::S(..), Ty::Str { .. }) | (Ty::Str { .. }, Ty::S(..)) => {
                            return Err(Stop::Broken("type", format!("{full}: a {} is passed for the {} parameter {}", pl.ty.tag(), ty.tag(), v.name)));
                        }
                        _ => {}
                    }
                    if by_pointer || matches!(ty, Ty::Str { .. }) {
                        Bound::Place(pl)
                    } else {
                        let t = self.temp(&ty, 0);
                        store(&t, &load(&pl)?)?;
                        Bound::Place(t)
                    }
                }
                Some(A::V(x)) => {
                    match (&x.ty, &ty) {
                        (Ty::Str { wide: a, .. }, Ty::Str { wide: b, .. }) if a == b => {}
                        (Ty::S(..), Ty::S(..)) | (Ty::Ref(_), Ty::Ref(_)) => {}
                        _ => return Err(Stop::Broken("type", format!("{full}: a {} is passed for the {} parameter {}", x.ty.tag(), ty.tag(), v.name))),
                    }
                    if matches!(ty, Ty::Str { .. }) {
                        Bound::Place(self.temp_val(&x)?)
                    } else {
                        let t = self.temp(&ty, 0);
                        store(&t, &x)?;
                        Bound::Place(t)
                    }
                }
            };
            if v.variadic.is_some() {
                if let Bound::Place(pl) = b {
                    many.push(pl);
                }
            } else {
                bound.push(b);
            }
        }
        if variadic {
            let v = params.last().unwrap();
            bound.push(self.many(&many, v.byref)?);
        }
        self.invoke(p, &full, &bind, &bound)
    }

    fn many(&mut self, places: &[Place], byref: bool) -> R<Bound> {
        let mut mem: Vec<u8> = vec![];
        for p in places {
            if byref || matches!(p.ty, Ty::Str { .. }) {
                mem.extend_from_slice(&(p.p as u64).to_le_bytes());
            } else {
                mem.extend_from_slice(&load(p)?.bits.to_le_bytes()[..p.ty.size()]);
            }
        }
        let q = heap().alloc(mem.len(), 0);
        unsafe { std::ptr::copy_nonoverlapping(mem.as_ptr(), q, mem.len()) };
        Ok(Bound::Many(places.len(), q))
    }

    // -------------------------------------------------------------------------------------------- bodies

    fn is_place(&self, f: &Frame, e: &Expr) -> bool {
        match e {
            Expr::Var(n) => f.find(n).is_some(),
            Expr::Deref(_) => true,
            Expr::Index(a, _) => self.is_place(f, a),
            _ => false,
        }
    }
    fn place(&mut self, f: &Frame, e: &Expr) -> R<Place> {
        match e {
            Expr::Var(n) => match f.find(n) {
                Some(p) => Ok(p.clone()),
                None => Err(Stop::Broken("unresolved", format!("{} uses the unknown variable {n}", f.p.name))),
            },
            Expr::Deref(x) => {
                let v = self.eval(f, x)?;
                match v.ty {
                    Ty::Ref(t) => Ok(Place { p: v.bits as *mut u8, ty: *t }),
                    t => panic!("ST interpreter: ^ on {t:?}"),
                }
            }
            Expr::Index(a, i) => {
                let p = self.place(f, a)?;
                let i = self.eval(f, i)?.int();
                // an access outside of the variable is noticed when it is read or written
                match p.ty {
                    Ty::Arr(lo, _, t) => Ok(Place { p: p.p.wrapping_offset((i - lo) as isize * t.size() as isize), ty: *t }),
                    Ty::Str { wide, .. } => {
                        let (n, t) = if wide { (2, "WCHAR") } else { (1, "CHAR") };
                        Ok(Place { p: p.p.wrapping_offset(i as isize * n), ty: s(t) })
                    }
                    t => panic!("ST interpreter: index into {t:?}"),
                }
            }
            _ => panic!("ST interpreter: not a variable: {e:?}"),
        }
    }
    fn eval(&mut self, f: &Frame, e: &Expr) -> R<Val> {
        Ok(match e {
            Expr::Int(i) => {
                let t = if *i >= -(1 << 31) && *i < (1 << 31) { "DINT" } else if *i <= i64::MAX as i128 { "LINT" } else { "ULINT" };
                Val::new(s(t), *i as u64)
            }
            Expr::Real(r) => Val::f64(*r),
            Expr::Bool(b) => Val::new(s("BOOL"), *b as u64),
            Expr::Str(t) => {
                // the parser keeps no quote kind; a literal adapts to its target in store()
                Val::str(false, t.as_bytes().to_vec())
            }
            Expr::Typed(t, x) => {
                let v = self.eval(f, x)?;
                cast(&v, &s(t))?
            }
            Expr::Var(n) if f.find(n).is_none() => match self.lib.global(n).cloned() {
                Some(g) => {
                    let x = g.init.unwrap_or_else(|| panic!("ST interpreter: global {n} without value"));
                    let v = self.eval(f, &x)?;
                    cast(&v, &self.ty(&g.ty))?
                }
                None => return Err(Stop::Broken("unresolved", format!("{} uses the unknown variable {n}", f.p.name))),
            },
            Expr::Var(_) | Expr::Deref(_) | Expr::Index(..) => {
                let p = self.place(f, e)?;
                load(&p)?
            }
            Expr::AddrOf(x) => {
                let p = self.place(f, x)?;
                Val { ty: Ty::Ref(Box::new(p.ty)), bits: p.p as u64, bytes: vec![] }
            }
            Expr::Bit(x, n) => {
                let v = self.eval(f, x)?;
                if *n as usize >= 8 * v.ty.size() {
                    return Err(Stop::Broken("type", format!("{}: bit {n} of a {}", f.p.name, v.ty.tag())));
                }
                Val::new(s("BOOL"), (v.bits >> n) & 1)
            }
            Expr::Un(op, x) => {
                let v = self.eval(f, x)?;
                match *op {
                    "-" if v.is_float() => match v.ty.size() {
                        4 => Val::f32(-(f32::from_bits(v.bits as u32))),
                        _ => Val::f64(-v.float()),
                    },
                    "-" => {
                        let t = promote(&v.ty, &s("DINT"));
                        Val::new(t, (v.int() as u64).wrapping_neg())
                    }
                    _ if v.ty.tag() == "BOOL" => Val::new(s("BOOL"), (v.bits & 1) ^ 1),
                    _ => Val::new(v.ty.clone(), !v.bits),
                }
            }
            Expr::Bin(op, a, b) if op == "AND_THEN" || op == "OR_ELSE" => {
                let x = self.eval(f, a)?;
                if (x.bits & 1 == 1) == (op == "OR_ELSE") {
                    x
                } else {
                    self.eval(f, b)?
                }
            }
            Expr::Bin(op, a, b) => {
                let (x, y) = (self.eval(f, a)?, self.eval(f, b)?);
                self.bin(op, x, y)?
            }
            Expr::Call(n, args) => match self.call(f, n, args)? {
                Some(v) => v,
                None => return Err(Stop::Broken("type", format!("{n} has no result"))),
            },
        })
    }
    fn bin(&mut self, op: &str, x: Val, y: Val) -> R<Val> {
        let b = |v: bool| Val::new(s("BOOL"), v as u64);
        if matches!(x.ty, Ty::Str { .. }) || matches!(y.ty, Ty::Str { .. }) {
            let wide_str = |v: &Val| matches!(v.ty, Ty::Str { wide: true, .. });
            let o = if wide_str(&x) { wide(&x.bytes).cmp(&wide(&y.bytes)) } else { x.bytes.cmp(&y.bytes) };
            return match op {
                "=" => Ok(b(o.is_eq())),
                "<>" => Ok(b(o.is_ne())),
                "<" => Ok(b(o.is_lt())),
                "<=" => Ok(b(o.is_le())),
                ">" => Ok(b(o.is_gt())),
                ">=" => Ok(b(o.is_ge())),
                _ => panic!("ST interpreter: {op} on strings"),
            };
        }
        if matches!(x.ty, Ty::Ref(_)) {
            panic!("ST interpreter: {op} on pointers");
        }
        if x.is_float() || y.is_float() {
            // literals are LREAL here; an operation with a REAL operand and an LREAL one is done in LREAL
            let (p, q) = (if x.is_float() { x.float() } else { x.int() as f64 }, if y.is_float() { y.float() } else { y.int() as f64 });
            let narrow = x.ty.tag() == "REAL" && y.ty.tag() == "REAL";
            let r = match op {
                "+" => p + q,
                "-" => p - q,
                "*" => p * q,
                "/" => p / q,
                "=" => return Ok(b(p == q)),
                "<>" => return Ok(b(p != q)),
                "<" => return Ok(b(p < q)),
                "<=" => return Ok(b(p <= q)),
                ">" => return Ok(b(p > q)),
                ">=" => return Ok(b(p >= q)),
                _ => panic!("ST interpreter: {op} on floats"),
            };
            return Ok(if narrow { Val::f32(r as f32) } else { Val::f64(r) });
        }
        let (p, q) = (x.int(), y.int());
        let boolean = x.ty.tag() == "BOOL" && y.ty.tag() == "BOOL";
        let t = if boolean { s("BOOL") } else { promote(&promote(&x.ty, &y.ty), &s("DINT")) };
        let r = match op {
            "+" => p + q,
            "-" => p - q,
            "*" => (p as i64 as i128).wrapping_mul(q),
            "/" | "MOD" if q == 0 => return Err(Stop::Undefined("division by zero".into())),
            "/" => p / q,
            "MOD" => p % q,
            "AND" => p & q,
            "OR" => p | q,
            "XOR" => p ^ q,
            "=" => return Ok(b(p == q)),
            "<>" => return Ok(b(p != q)),
            "<" => return Ok(b(p < q)),
            "<=" => return Ok(b(p <= q)),
            ">" => return Ok(b(p > q)),
            ">=" => return Ok(b(p >= q)),
            _ => panic!("ST interpreter: operator {op}"),
        };
        Ok(Val::new(t, r as u64))
    }
    fn block(&mut self, f: &Frame, b: &[Stmt]) -> R<Flow> {
        for st in b {
            self.steps += 1;
            assert!(self.steps < 1_000_000, "ST interpreter: endless loop");
            match st {
                Stmt::Empty => {}
                Stmt::Return => return Ok(Flow::Return),
                Stmt::Exit => return Ok(Flow::Exit),
                Stmt::Continue => return Ok(Flow::Continue),
                Stmt::Expr(e) => match e {
                    Expr::Call(n, a) => {
                        self.call(f, n, a)?;
                    }
                    e => {
                        self.eval(f, e)?;
                    }
                },
                Stmt::Assign(l, r) => {
                    let mut v = self.eval(f, r)?;
                    if let Expr::Bit(x, n) = l {
                        let p = self.place(f, x)?;
                        let old = load(&p)?;
                        let bits = (old.bits & !(1 << n)) | ((v.bits & 1) << n);
                        store(&p, &Val::new(p.ty.clone(), bits))?;
                        continue;
                    }
                    let p = self.place(f, l)?;
                    if let (Expr::Str(t), Ty::Str { wide: true, .. } | Ty::S("WCHAR", _)) = (r, &p.ty) {
                        v = Val::str(true, t.encode_utf16().flat_map(|u| u.to_le_bytes()).collect());
                    }
                    store(&p, &v)?;
                }
                Stmt::If(arms, other) => {
                    let mut done = false;
                    for (c, b) in arms {
                        if self.eval(f, c)?.bits & 1 == 1 {
                            match self.block(f, b)? {
                                Flow::Next => {}
                                x => return Ok(x),
                            }
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        match self.block(f, other)? {
                            Flow::Next => {}
                            x => return Ok(x),
                        }
                    }
                }
                Stmt::While(c, b) => {
                    while self.eval(f, c)?.bits & 1 == 1 {
                        self.steps += 1;
                        assert!(self.steps < 1_000_000, "ST interpreter: endless loop");
                        match self.block(f, b)? {
                            Flow::Next | Flow::Continue => {}
                            Flow::Exit => break,
                            Flow::Return => return Ok(Flow::Return),
                        }
                    }
                }
                Stmt::Repeat(b, c) => loop {
                    self.steps += 1;
                    assert!(self.steps < 1_000_000, "ST interpreter: endless loop");
                    match self.block(f, b)? {
                        Flow::Next | Flow::Continue => {}
                        Flow::Exit => break,
                        Flow::Return => return Ok(Flow::Return),
                    }
                    if self.eval(f, c)?.bits & 1 == 1 {
                        break;
                    }
                },
                Stmt::For(n, from, to, by, b) => {
                    let p = self.place(f, &Expr::Var(n.to_uppercase()))?;
                    let v = self.eval(f, from)?;
                    store(&p, &v)?;
                    loop {
                        self.steps += 1;
                        assert!(self.steps < 1_000_000, "ST interpreter: endless loop");
                        let end = self.eval(f, to)?.int();
                        let step = match by {
                            Some(e) => self.eval(f, e)?.int(),
                            None => 1,
                        };
                        let i = load(&p)?.int();
                        if (step >= 0 && i > end) || (step < 0 && i < end) {
                            break;
                        }
                        match self.block(f, b)? {
                            Flow::Next | Flow::Continue => {}
                            Flow::Exit => break,
                            Flow::Return => return Ok(Flow::Return),
                        }
                        let i = load(&p)?.int();
                        store(&p, &Val::new(p.ty.clone(), (i + step) as u64))?;
                    }
                }
                Stmt::Case(e, arms, other) => {
                    let x = self.eval(f, e)?.int();
                    let mut hit = None;
                    'arms: for (labels, b) in arms {
                        for (lo, hi) in labels {
                            let l = self.eval(f, lo)?.int();
                            let h = match hi {
                                Some(h) => self.eval(f, h)?.int(),
                                None => l,
                            };
                            if x >= l && x <= h {
                                hit = Some(b);
                                break 'arms;
                            }
                        }
                    }
                    match self.block(f, hit.unwrap_or(other))? {
                        Flow::Next => {}
                        x => return Ok(x),
                    }
                }
            }
        }
        Ok(Flow::Next)
    }
}

enum Flow {
    Next,
    Continue,
    Exit,
    Return,
}
struct Frame {
    p: &'static Pou,
    vars: Vec<(String, Place)>,
}
impl Frame {
    fn find(&self, n: &str) -> Option<&Place> {
        self.vars.iter().find(|(m, _)| m.eq_ignore_ascii_case(n)).map(|(_, p)| p)
    }
}
/// the wider of two integer types; at equal width the unsigned one
fn promote(a: &Ty, b: &Ty) -> Ty {
    let (Ty::S(_, x), Ty::S(_, y)) = (a, b) else { panic!("ST interpreter: arithmetic on {a:?} and {b:?}") };
    if x.size > y.size || (x.size == y.size && x.kind != Kind::Signed) {
        a.clone()
    } else {
        b.clone()
    }
}

/// Calls a function of the library by its ST name (possibly generic), as a program would. Arguments are positional.
pub fn run(name: &str, args: &[In]) -> Result<Out, Stop> {
    let h = heap();
    h.reset();
    let mut vm = Vm { lib: st::lib(), steps: 0, depth: 0 };
    let types: Vec<Option<Ty>> = args
        .iter()
        .flat_map(|a| match a {
            In::V(v) => vec![Some(v.ty.clone())],
            In::Var(t, _) => vec![Some(t.clone())],
            In::Many(v) => v.iter().map(|v| Some(v.ty.clone())).collect(),
        })
        .collect();
    let (p, full, bind) = vm.resolve(name, &types)?;
    let params = fn_params(p);
    if params.len() != args.len() {
        return Err(Stop::Broken("signature", format!("{full} has {} parameters, {} expected", params.len(), args.len())));
    }
    let mut bound = vec![];
    let mut keep: Vec<(Place, Vec<u8>)> = vec![];
    let mut vars = vec![];
    let put = |vm: &mut Vm, v: &Val, keep: &mut Vec<(Place, Vec<u8>)>| -> R<Place> {
        let p = vm.temp_val(v)?;
        let b = unsafe { std::slice::from_raw_parts(p.p, p.ty.size()) }.to_vec();
        keep.push((p.clone(), b));
        Ok(p)
    };
    for (v, a) in params.iter().zip(args) {
        let want = vm.var_ty(v, &bind);
        let pointer = v.byref || v.block != Block::Input;
        match a {
            In::V(x) => {
                if v.block != Block::Input || v.variadic.is_some() {
                    return Err(Stop::Broken("signature", format!("{full}: {} should be a plain input", v.name)));
                }
                match (&x.ty, &want) {
                    (Ty::S(a, _), Ty::S(b, _)) if a == b => {}
                    (Ty::Str { wide: a, .. }, Ty::Str { wide: b, .. }) if a == b => {}
                    _ => return Err(Stop::Broken("signature", format!("{full}: {} is a {}, not a {}", v.name, want.tag(), x.ty.tag()))),
                }
                let pl = if pointer || matches!(want, Ty::Str { .. }) {
                    put(&mut vm, x, &mut keep)?
                } else {
                    let t = vm.temp(&want, 0);
                    store(&t, x)?;
                    t
                };
                bound.push(Bound::Place(pl));
            }
            In::Var(t, fill) => {
                if v.block == Block::Input {
                    return Err(Stop::Broken("signature", format!("{full}: {} should be an output", v.name)));
                }
                match (t, &want) {
                    (Ty::S(a, _), Ty::S(b, _)) if a == b => {}
                    (Ty::Str { wide: a, .. }, Ty::Str { wide: b, .. }) if a == b => {}
                    _ => return Err(Stop::Broken("signature", format!("{full}: {} is a {}, not a {}", v.name, want.tag(), t.tag()))),
                }
                let pl = vm.temp(t, *fill);
                vars.push(pl.clone());
                bound.push(Bound::Place(pl));
            }
            In::Many(xs) => {
                if v.variadic.is_none() {
                    return Err(Stop::Broken("signature", format!("{full}: {} should be variadic", v.name)));
                }
                let mut pls: Vec<Place> = vec![];
                for (i, x) in xs.iter().enumerate() {
                    // equal strings share a variable
                    match xs[..i].iter().position(|y| y == x) {
                        Some(k) => pls.push(pls[k].clone()),
                        None => pls.push(put(&mut vm, x, &mut keep)?),
                    }
                }
                bound.push(vm.many(&pls, v.byref)?);
            }
        }
    }
    let r = vm.invoke(p, &full, &bind, &bound);
    if !matches!(r, Err(Stop::Reject(_))) {
        heap().intact()?;
    }
    let ret = r?;
    for (p, b) in &keep {
        if unsafe { std::slice::from_raw_parts(p.p, b.len()) } != &b[..] {
            return Err(Stop::Broken("modified", format!("{full} modified an input")));
        }
    }
    let mut out = vec![];
    for p in &vars {
        out.push(load(p)?);
    }
    Ok(Out { ret, vars: out })
}

/// A declared parameter of a resolved function.
pub struct Param {
    pub name: String,
    pub block: Block,
    pub byref: bool,
    pub variadic: Option<bool>,
    pub ty: Ty,
}
/// The declaration a call with these argument types is compiled against: resolved name, parameters, result,
/// and whether it is the declaration of a native function.
pub fn declared(name: &str, types: &[Ty]) -> Result<(String, Vec<Param>, Option<Ty>, bool), Stop> {
    let vm = Vm { lib: st::lib(), steps: 0, depth: 0 };
    let t: Vec<Option<Ty>> = types.iter().cloned().map(Some).collect();
    let (p, full, bind) = vm.resolve(name, &t)?;
    let params = fn_params(p)
        .iter()
        .map(|v| Param { name: v.name.to_uppercase(), block: v.block, byref: v.byref, variadic: v.variadic, ty: vm.var_ty(v, &bind) })
        .collect();
    Ok((full, params, vm.ret_ty(p, &bind), p.external || !p.generics.is_empty()))
}
const SLOT: usize = 4608;
const SLOTS: usize = 12;
thread_local!(static SLAB: std::cell::UnsafeCell<Vec<u64>> = std::cell::UnsafeCell::new(vec![0; SLOT * SLOTS / 8]));

/// Calls a native function directly, through the given signature. The unused upper halves of argument registers hold
/// garbage, as the calling convention allows.
pub fn direct(addr: usize, ret: Option<&Ty>, args: &[In], garbage: u32) -> Result<Out, String> {
    let mut mem: Vec<Box<[u64]>> = vec![];
    let mut count = 0;
    // the same place for the same argument of every call of a thread, as for the variables of a cyclic program
    let mut alloc = |n: usize, fill: u8| -> *mut u8 {
        count += 1;
        if count <= SLOTS && n <= SLOT {
            let p = unsafe { SLAB.with(|s| (*s.get()).as_mut_ptr().cast::<u8>()).add((count - 1) * SLOT) };
            unsafe { std::ptr::write_bytes(p, fill, n) };
            return p;
        }
        mem.push(vec![u64::from_ne_bytes([fill; 8]); n.div_ceil(8) + 1].into_boxed_slice());
        mem.last_mut().unwrap().as_mut_ptr() as *mut u8
    };
    let mut ints: Vec<u64> = vec![];
    let mut floats: Vec<f64> = vec![];
    let mut outs: Vec<Place> = vec![];
    let dirt = (garbage as u64) << 32;
    let mut result = None;
    if let Some(t @ Ty::Str { .. }) = ret {
        let p = alloc(t.size(), 0x55);
        ints.push(p as u64);
        result = Some(Place { p, ty: t.clone() });
    }
    let text = |v: &Val, alloc: &mut dyn FnMut(usize, u8) -> *mut u8| -> *mut u8 {
        let p = alloc(v.bytes.len() + 2, 0);
        unsafe { std::ptr::copy_nonoverlapping(v.bytes.as_ptr(), p, v.bytes.len()) };
        p
    };
    for a in args {
        match a {
            In::V(v) => match &v.ty {
                Ty::Str { .. } => ints.push(text(v, &mut alloc) as u64),
                Ty::S(_, Scalar { kind: Kind::Float, size }) => {
                    floats.push(f64::from_bits(if *size == 4 { v.bits | dirt } else { v.bits }))
                }
                // the convention extends to 32 bits
                _ if v.ty.size() < 8 => ints.push((v.int() as u64 & 0xFFFF_FFFF) | dirt),
                _ => ints.push(v.bits),
            },
            In::Var(t, fill) => {
                let p = alloc(t.size(), *fill);
                outs.push(Place { p, ty: t.clone() });
                ints.push(p as u64);
            }
            In::Many(vs) => {
                let mut m: Vec<u8> = vec![];
                for v in vs {
                    match &v.ty {
                        Ty::Str { .. } => m.extend_from_slice(&(text(v, &mut alloc) as u64).to_le_bytes()),
                        t => m.extend_from_slice(&v.bits.to_le_bytes()[..t.size()]),
                    }
                }
                let p = alloc(m.len(), 0);
                unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), p, m.len()) };
                ints.push(vs.len() as u64 | dirt);
                ints.push(p as u64);
            }
        }
    }
    assert!(floats.len() <= 8 && ints.len() <= 14);
    let float_ret = matches!(ret, Some(Ty::S(_, Scalar { kind: Kind::Float, .. })));
    let r = raw_call(addr, &ints, &floats, float_ret)?;
    let read = |p: &Place| -> Val {
        let b = unsafe { std::slice::from_raw_parts(p.p, p.ty.size()) };
        match &p.ty {
            Ty::Str { wide, .. } => {
                let u = if *wide { 2 } else { 1 };
                let n = b.chunks(u).position(|c| c.iter().all(|x| *x == 0)).unwrap_or(b.len() / u);
                Val { ty: p.ty.clone(), bits: 0, bytes: b[..n * u].to_vec() }
            }
            t => {
                let mut x = [0u8; 8];
                x[..b.len()].copy_from_slice(b);
                Val::new(t.clone(), u64::from_le_bytes(x))
            }
        }
    };
    Ok(Out {
        ret: match (&result, ret) {
            (Some(p), _) => Some(read(p)),
            (None, Some(t)) => Some(Val::new(t.clone(), r)),
            _ => None,
        },
        vars: outs.iter().map(read).collect(),
    })
}
fn raw_call(addr: usize, ints: &[u64], floats: &[f64], float_ret: bool) -> Result<u64, String> {
    let mut i = [0u64; 14];
    let mut f = [0f64; 8];
    i[..ints.len()].copy_from_slice(ints);
    f[..floats.len()].copy_from_slice(floats);
    type F<T> = unsafe extern "C-unwind" fn(
        u64, u64, u64, u64, u64, u64, f64, f64, f64, f64, f64, f64, f64, f64, u64, u64, u64, u64, u64, u64, u64, u64,
    ) -> T;
    macro_rules! go {
        ($t:ty) => {{
            let g: F<$t> = unsafe { std::mem::transmute(addr) };
            call(|| unsafe {
                g(
                    i[0], i[1], i[2], i[3], i[4], i[5], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], i[6], i[7], i[8], i[9], i[10],
                    i[11], i[12], i[13],
                )
            })
        }};
    }
    if float_ret {
        go!(f64).map(|v| v.to_bits())
    } else {
        go!(u64)
    }
}
