//! C17-C23: function blocks, driven through the memory layout their ST declarations promise.

use super::BOTH;
use crate::clock;
use crate::engine::*;
use crate::st::{self, Block, Kind};
use crate::sys::{self, Region};
use std::collections::HashMap;
#[cfg(debug_assertions)]
use std::time::Duration;

pub struct Field {
    pub name: String,
    pub off: usize,
    pub size: usize,
    pub kind: Option<Kind>,
    pub block: Block,
}
pub struct Layout {
    pub name: String,
    pub fields: Vec<Field>,
    /// size rounded up to the alignment: the distance of two instances in an array
    pub size: usize,
    pub sym: usize,
}

impl Layout {
    fn new(name: &str) -> Result<Layout, Fail> {
        let lib = st::lib();
        let Some(p) = lib.pou(name) else {
            return fail(format!("undeclared:{name}"), format!("the ST library declares no function block {name}"));
        };
        let Some(sym) = sys::symbol(name) else {
            return fail(format!("missing:{name}"), format!("the library exports no symbol {name}"));
        };
        let (mut off, mut al) = (0, 1);
        let mut fields = vec![];
        for v in &p.vars {
            let (s, a) = lib.layout(&v.ty);
            off = (off + a - 1) / a * a;
            al = al.max(a);
            let kind = match &v.ty {
                st::Type::Named(n) => st::scalar(n).map(|s| s.kind),
                _ => None,
            };
            fields.push(Field { name: v.name.clone(), off, size: s, kind, block: v.block });
            off += s;
        }
        Ok(Layout { name: name.to_string(), fields, size: (off + al - 1) / al * al, sym })
    }
    pub fn get(name: &str) -> Result<&'static Layout, Fail> {
        static mut M: Option<HashMap<String, &'static Layout>> = None;
        #[allow(static_mut_refs)]
        unsafe {
            if M.is_none() {
                M = Some(HashMap::new());
            }
            if let Some(l) = M.as_ref().unwrap().get(name) {
                return Ok(l);
            }
            let l: &'static Layout = Box::leak(Box::new(Layout::new(name)?));
            M.as_mut().unwrap().insert(name.to_string(), l);
            Ok(l)
        }
    }
    fn field(&self, n: &str) -> Result<&Field, Fail> {
        match self.fields.iter().find(|f| f.name == n) {
            Some(f) => Ok(f),
            None => fail(format!("undeclared:{}.{n}", self.name), format!("{} declares no variable {n}", self.name)),
        }
    }
}

/// text built only when it is shown
struct Lazy<F: Fn() -> String>(F);
impl<F: Fn() -> String> std::fmt::Display for Lazy<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&(self.0)())
    }
}

/// An instance in some memory.
#[derive(Clone, Copy)]
struct Inst {
    l: &'static Layout,
    p: *mut u8,
}
impl Inst {
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.l.size) }
    }
    fn set(&self, n: &str, v: i128) -> Result<(), Fail> {
        let f = self.l.field(n)?;
        let b = (v as u64).to_le_bytes();
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(f.off), f.size) };
        Ok(())
    }
    fn get_f(&self, f: &Field) -> i128 {
        let mut b = [0u8; 8];
        unsafe { std::ptr::copy_nonoverlapping(self.p.add(f.off), b.as_mut_ptr(), f.size) };
        let u = u64::from_le_bytes(b);
        if f.kind == Some(Kind::Signed) {
            sext(u, f.size as u32 * 8) as i128
        } else {
            u as i128
        }
    }
    fn get(&self, n: &str) -> Result<i128, Fail> {
        Ok(self.get_f(self.l.field(n)?))
    }
    fn call(&self) -> Result<(), String> {
        let f: unsafe extern "C-unwind" fn(*mut u8) = unsafe { std::mem::transmute(self.l.sym) };
        let p = self.p;
        call(|| unsafe { f(p) })
    }
    /// call, which must succeed and must not touch the inputs
    fn cycle(&self, hist: &dyn std::fmt::Display) -> Res {
        let mut before = [0u8; 512];
        before[..self.l.size].copy_from_slice(self.bytes());
        let n = &self.l.name;
        if let Err(e) = self.call() {
            return fail(format!("{n}:rejected"), format!("{n} panicked: {e}; {hist}"));
        }
        for f in &self.l.fields {
            if f.block == Block::Input && self.bytes()[f.off..f.off + f.size] != before[f.off..f.off + f.size] {
                return fail(format!("{n}:input"), format!("{n} changed its input {}; {hist}", f.name));
            }
        }
        Ok(())
    }
    fn expect(&self, n: &str, want: i128, hist: &dyn std::fmt::Display) -> Res {
        let got = self.get(n)?;
        if got != want {
            let b = &self.l.name;
            return fail(format!("{b}:{n}"), format!("{b}.{n} is {got}, expected {want}; {hist}"));
        }
        Ok(())
    }
}

/// memory for one instance that ends at an inaccessible page
fn solo() -> &'static mut Region {
    static mut R: Option<Region> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if R.is_none() {
            R = Some(Region::new(4096));
        }
        R.as_mut().unwrap()
    }
}
fn fresh(l: &'static Layout) -> Inst {
    let r = solo();
    r.fill(0xA5);
    let p = unsafe { r.base.add(r.size - l.size) };
    unsafe { std::ptr::write_bytes(p, 0, l.size) };
    Inst { l, p }
}
fn solo_intact(i: &Inst, hist: &str) -> Res {
    let r = solo();
    if r.bytes()[..r.size - i.l.size].iter().any(|b| *b != 0xA5) {
        return fail(format!("{}:outside", i.l.name), format!("{} wrote before its instance; {hist}", i.l.name));
    }
    Ok(())
}

const CNT: [(&str, u32, bool); 6] =
    [("", 16, true), ("_INT", 16, true), ("_DINT", 32, true), ("_UDINT", 32, false), ("_LINT", 64, true), ("_ULINT", 64, false)];

fn burst_in(src: &mut Src, done: &mut bool) -> u64 {
    if *done || !src.chance(1, 6) {
        return 1;
    }
    *done = true;
    burst_len(src)
}
fn burst_len(src: &mut Src) -> u64 {
    src.label("long run");
    if src.chance(1, 30) {
        2 + src.big_count() as u64
    } else {
        2 + src.below(600)
    }
}
/// now and then (once per case at most) a number of repetitions beyond the limits of a byte or of 16 bits
fn burst(src: &mut Src, done: &mut bool) -> u64 {
    if *done || !src.chance(1, 2000) {
        return 1;
    }
    *done = true;
    burst_len(src)
}

// ------------------------------------------------------------------------------------------------- C17

struct CounterModel {
    cv: i128,
    lo: i128,
    hi: i128,
    last_up: bool,
    last_down: bool,
}
impl CounterModel {
    fn step(&mut self, up: bool, down: bool, r: bool, ld: bool, pv: i128) -> &'static str {
        if r {
            self.cv = 0;
            return "reset";
        }
        if ld {
            self.cv = pv;
            return "load";
        }
        let eu = up && !self.last_up;
        let ed = down && !self.last_down;
        self.last_up = up;
        self.last_down = down;
        match (eu, ed) {
            (true, true) => "both",
            (true, false) if self.cv < self.hi => {
                self.cv += 1;
                "up"
            }
            (false, true) if self.cv > self.lo => {
                self.cv -= 1;
                "down"
            }
            (false, false) => "idle",
            _ => "saturated",
        }
    }
}

fn c17(src: &mut Src) -> Res {
    let fam = src.below(3) as usize;
    let (suffix, bits, signed) = *src.pick(&CNT);
    let name = format!("{}{suffix}", ["CTU", "CTD", "CTUD"][fam]);
    let l = Layout::get(&name)?;
    let i = fresh(l);
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    let mut m = CounterModel { cv: 0, lo, hi, last_up: false, last_down: false };
    let value = |src: &mut Src| -> i128 {
        match src.weighted(&[6, 2, 2]) {
            0 => {
                let v = src.range(-3, 6);
                v.clamp(lo, hi)
            }
            1 => {
                let e = src.below(4) as i128;
                if src.bool() {
                    hi - e
                } else {
                    lo + e
                }
            }
            _ => {
                if signed {
                    src.sint(bits) as i128
                } else {
                    src.uint(bits) as i128
                }
            }
        }
    };
    if src.chance(1, 3) {
        m.cv = value(src);
        i.set("CV", m.cv)?;
        src.label("preset CV");
    }
    let mut pv = value(src);
    let n = 1 + src.len(60);
    let mut hist = String::new();
    let (mut moved, mut kinds) = (0, 0u32);
    let mut bursted = false;
    for k in 0..n {
        if src.chance(1, 6) {
            pv = match src.weighted(&[2, 1]) {
                0 => value(src),
                _ => (m.cv + src.range(-2, 2)).clamp(lo, hi),
            };
        }
        let burst = burst(src, &mut bursted);
        let c = src.below(4);
        let (mut up, mut down) = match fam {
            0 => (c & 1 == 1, false),
            1 => (false, c & 1 == 1),
            _ => (c & 1 == 1, c & 2 == 2),
        };
        let r = fam != 1 && src.chance(1, 8);
        let ld = fam != 0 && src.chance(1, 6);
        for _ in 0..burst {
            i.set("PV", pv)?;
            if fam != 1 {
                i.set("CU", up as i128)?;
                i.set("R", r as i128)?;
            }
            if fam != 0 {
                i.set("CD", down as i128)?;
                i.set("LD", ld as i128)?;
            }
            let before = m.cv;
            let what = m.step(up, down, r, ld, pv);
            kinds |= match what {
                "up" => 1,
                "down" => 2,
                "reset" => 4,
                "load" => 8,
                "both" => 16,
                "saturated" => 32,
                _ => 0,
            };
            moved += (m.cv != before) as u64;
            if src.describe && burst == 1 && hist.len() < 2000 {
                hist.push_str(&format!("[CU={} CD={} R={} LD={} PV={pv}]", up as u8, down as u8, r as u8, ld as u8));
            }
            let after = m.cv;
            let h = Lazy(|| format!("{name} call {k}: {before} --{what}--> {after}, calls {hist}"));
            i.cycle(&h)?;
            i.expect("CV", m.cv, &h)?;
            match fam {
                0 => i.expect("Q", (m.cv >= pv) as i128, &h)?,
                1 => i.expect("Q", (m.cv <= 0) as i128, &h)?,
                _ => {
                    i.expect("QU", (m.cv >= pv) as i128, &h)?;
                    i.expect("QD", (m.cv <= 0) as i128, &h)?;
                }
            }
            if burst > 1 {
                // toggle, so that every second call is an edge
                if fam != 1 && c & 1 == 1 {
                    up = !up;
                }
                if fam != 0 && (fam == 1 || c & 2 == 2) {
                    down = !down;
                }
            }
        }
        if burst > 1 {
            hist.push_str(&format!("[{burst} toggling calls, PV={pv} R={} LD={}]", r as u8, ld as u8));
        }
    }
    solo_intact(&i, &hist)?;
    src.label_if(kinds & 16 != 0, "both inputs rise");
    src.label_if(kinds & 32 != 0, "saturated");
    src.label_if(kinds & 12 != 0, "reset or load");
    src.nt(moved >= 2 && n >= 4);
    src.note(|| format!("{name}: {hist}"));
    Ok(())
}

// ------------------------------------------------------------------------------------------------- C18-C20

/// The clock the library sees: the crate's mock clock (checked configuration), or the monotonic clock of the system as
/// defined in clock.rs (release configuration); there the wall clock jumps around, which must not matter.
struct Clock {
    ns: i128,
    start: i128,
    _c: clock::Controlled,
}
impl Clock {
    fn new(src: &mut Src) -> Clock {
        let start = match src.weighted(&[3, 2, 2, 1]) {
            0 => 0,
            1 => src.range(0, 5_000_000_000),
            2 => src.range(0, 1 << 62),
            _ => src.range(0, 1 << 40) * 1_000_000_000,
        };
        let mut c = Clock { ns: 0, start, _c: clock::Controlled::new() };
        c.set(start);
        c
    }
    fn set(&mut self, ns: i128) {
        self.ns = ns;
        #[cfg(debug_assertions)]
        iec61131std::timers::test_time_helpers::MockClock::set_time(Duration::new(
            (ns / 1_000_000_000) as u64,
            (ns % 1_000_000_000) as u32,
        ));
        clock::set_mono(ns);
    }
    fn tick(&mut self, ns: i128) {
        // the running time stays representable: 292 years
        let room = (i64::MAX as i128 - (self.ns - self.start)).max(0);
        self.set(self.ns + ns.min(room));
    }
    fn advance(&mut self, src: &mut Src, ns: i128) {
        self.tick(ns);
        if cfg!(not(debug_assertions)) {
            let jump = if src.chance(1, 4) { src.range(0, 4_000_000_000_000_000_000) } else { 1_700_000_000_000_000_000 + self.ns % (1 << 60) };
            clock::set_wall(jump);
        }
    }
}
fn any_pt(src: &mut Src) -> i128 {
    match src.weighted(&[5, 2, 2, 1]) {
        0 => src.range(0, 12),
        1 => src.range(0, 60_000) * 1_000_000,
        2 => src.range(0, 1 << 40),
        _ => src.range(0, i64::MAX as i128),
    }
}
fn any_step(src: &mut Src, left: i128) -> i128 {
    match src.weighted(&[3, 3, 4, 2]) {
        0 => src.range(0, 6),
        1 => 0,
        // up to, exactly to, or just past the end of the interval
        2 => (left + src.range(-2, 2)).clamp(0, 1 << 61),
        _ => src.range(0, 1 << 36),
    }
}

struct TimerRun {
    i: Inst,
    hist: String,
    describe: bool,
}
impl TimerRun {
    fn call(&mut self, t: i128, input: bool, pt: i128) -> Res {
        self.i.set("IN", input as i128)?;
        self.i.set("PT", pt)?;
        if self.describe {
            self.hist.push_str(&format!("[t={t} IN={} PT={pt}]", input as u8));
        }
        self.i.cycle(&self.hist)
    }
}

/// What is known about a timer: start of the running interval, TP: pulse in progress, previous input.
#[derive(Clone, Copy, PartialEq, Default)]
struct TimerModel {
    start: Option<i128>,
    pulse: bool,
    prev: bool,
}
impl TimerModel {
    /// the state and (Q, ET) after a call at the time `now`
    fn step(self, kind: usize, now: i128, input: bool, pt: i128) -> (TimerModel, bool, i128, &'static str) {
        let rising = input && !self.prev;
        let falling = !input && self.prev;
        let el = self.start.map(|s| now - s).unwrap_or(0);
        let mut m = TimerModel { prev: input, ..self };
        let (q, et, why) = match kind {
            0 => {
                if self.pulse && el <= pt {
                    (true, el, "during the pulse")
                } else if rising {
                    m.start = Some(now);
                    m.pulse = true;
                    (true, 0, "rising edge while no pulse is in progress")
                } else {
                    m.pulse = false;
                    if input && self.start.is_some() {
                        (false, pt, "pulse over, IN still TRUE")
                    } else {
                        m.start = None;
                        (false, 0, "idle")
                    }
                }
            }
            1 => {
                if !input {
                    m.start = None;
                    (false, 0, "IN is FALSE")
                } else if rising {
                    m.start = Some(now);
                    (false, 0, "rising edge")
                } else {
                    (el > pt, el.min(pt), "IN TRUE since the rising edge")
                }
            }
            _ => {
                if input {
                    m.start = None;
                    (true, 0, "IN is TRUE")
                } else if falling {
                    m.start = Some(now);
                    (true, 0, "falling edge")
                } else if self.start.is_some() {
                    (el <= pt, el.min(pt), "since the falling edge")
                } else {
                    (false, 0, "IN never was TRUE")
                }
            }
        };
        (m, q, et, why)
    }
}

fn timer(src: &mut Src, kind: usize) -> Res {
    let name = format!("{}{}", ["TP", "TON", "TOF"][kind], src.pick(&["", "_TIME", "_LTIME"]));
    let l = Layout::get(&name)?;
    let mut clk = Clock::new(src);
    let i = fresh(l);
    let mut run = TimerRun { i, hist: name.clone(), describe: src.describe };
    let mut pt = any_pt(src);
    let steps = 1 + src.len(50);
    // with the system clock, time may pass during a call: between any two readings of the clock
    let ticking = cfg!(not(debug_assertions)) && src.chance(1, 4);
    // everything the timer may be, given what it showed: one state unless time passes during calls
    let mut states = vec![TimerModel::default()];
    let (mut edges, mut ons, mut expired) = (0, 0, 0);
    let mut bursted = false;
    // calls still to come of a long run: number, clock step, IN toggles
    let mut rerun: (u64, i128, bool) = (0, 0, false);
    let mut step = 0;
    while step < steps || rerun.0 > 0 {
        let repeated = rerun.0 > 0;
        if repeated {
            rerun.0 -= 1;
        } else {
            step += 1;
        }
        let prev = states[0].prev;
        let left = states[0].start.map(|s| s + pt - clk.ns).unwrap_or(0);
        let (d, input) = if repeated {
            (rerun.1, prev != rerun.2)
        } else {
            let d = any_step(src, left);
            (d, if src.chance(2, 5) { !prev } else { prev })
        };
        if repeated {
            clk.tick(d);
        } else {
            clk.advance(src, d);
        }
        // the preset may change whenever no interval runs (and is not displayed any more)
        let idle = match kind {
            0 => states.iter().all(|s| s.start.is_none()),
            1 => !input || !prev,
            _ => input,
        };
        if idle && !repeated && src.chance(1, 4) {
            pt = any_pt(src);
        }
        if !repeated {
            let b = burst(src, &mut bursted);
            if b > 1 {
                rerun = (b, if src.bool() { d } else { src.range(0, 3) }, src.bool());
                let h = format!("[{b} more calls after the next, {} ns apart, IN {}]", rerun.1, if rerun.2 { "toggling" } else { "constant" });
                run.hist.push_str(&h);
            }
        }
        run.describe = src.describe && !repeated;
        let now = clk.ns;
        let room = i64::MAX as i128 - (now - clk.start);
        let mut during = 0;
        if ticking && room > 1 << 40 {
            during = if repeated { 1 } else { src.range(0, 6) };
            clock::set_tick(during);
        }
        run.call(now - clk.start, input, pt)?;
        // the instants the outputs may belong to: the readings, the end of the interval, the instant that ET tells
        let got = (run.i.get("Q")? != 0, run.i.get("ET")?);
        let mut times = vec![now];
        if during > 0 {
            let last = clock::last_read();
            clock::set_tick(0);
            clk.set(clock::mono());
            let mut t = now;
            while t < last && times.len() < 6 {
                t += during;
                times.push(t);
            }
            for s in &states {
                if let Some(s) = s.start {
                    for t in [s + pt, s + pt + 1, s + got.1] {
                        if t > now && t <= last && !times.contains(&t) {
                            times.push(t);
                        }
                    }
                }
            }
            if run.describe {
                run.hist.push_str(&format!("(until {})", last - clk.start));
            }
        }
        let mut next: Vec<TimerModel> = vec![];
        let mut first = None;
        for s in &states {
            for t in &times {
                let (m, q, et, why) = s.step(kind, *t, input, pt);
                if (q, et) == got {
                    if !next.contains(&m) {
                        next.push(m);
                    }
                } else if first.is_none() {
                    first = Some((q, et, why));
                }
            }
        }
        if next.is_empty() {
            let (q, et, why) = first.unwrap();
            let f = if (got.0 != q) && (states.len() * times.len() == 1 || got.1 == et) { "Q" } else { "ET" };
            let torn = if states.len() * times.len() > 1 { ", or what another instant during the call gives" } else { "" };
            return fail(
                format!("{name}:{f}"),
                format!("{name} shows Q={}, ET={}, expected Q={q}, ET={et}{torn} ({why}); {}", got.0, got.1, run.hist),
            );
        }
        let was = states[0].start;
        edges += (next[0].start != was && next[0].start.is_some()) as u64;
        if next[0].start.is_some() && next[0].start == was {
            let over = clk.ns - was.unwrap() > pt;
            expired += over as u64;
            ons += !over as u64;
        }
        states = next;
    }
    solo_intact(&i, &run.hist)?;
    src.label_if(edges > 1, "several edges");
    src.label_if(ons > 0, "running");
    src.label_if(expired > 0, "expired");
    src.label_if(pt > 1 << 50, "very long preset");
    src.label_if(ticking, "time passes during calls");
    src.nt(edges > 0 && (ons > 0 || expired > 0));
    src.note(|| run.hist.clone());
    Ok(())
}
fn c18(src: &mut Src) -> Res {
    timer(src, 0)
}
fn c19(src: &mut Src) -> Res {
    timer(src, 1)
}
fn c20(src: &mut Src) -> Res {
    timer(src, 2)
}

// ------------------------------------------------------------------------------------------------- C21, C22

fn c21(src: &mut Src) -> Res {
    let rising = src.bool();
    let name = if rising { "R_TRIG" } else { "F_TRIG" };
    let i = fresh(Layout::get(name)?);
    let n = src.len(80);
    let long = src.chance(1, 100);
    let mut bursted = !long;
    let mut prev = false;
    let mut hist = name.to_string();
    let mut fired = 0;
    for _ in 0..n {
        let mut clk = src.bool();
        let b = if long { burst_in(src, &mut bursted) } else { 1 };
        let toggles = b > 1 && src.bool();
        if src.describe {
            hist.push_str(if clk { " 1" } else { " 0" });
            if b > 1 {
                hist.push_str(&format!("({b} calls, {})", if toggles { "toggling" } else { "constant" }));
            }
        }
        for _ in 0..b {
            i.set("CLK", clk as i128)?;
            i.cycle(&hist)?;
            let q = if rising { clk && !prev } else { !clk && prev };
            i.expect("Q", q as i128, &hist)?;
            fired += q as u64;
            prev = clk;
            clk ^= toggles;
        }
    }
    solo_intact(&i, &hist)?;
    src.nt(fired >= 2);
    src.note(|| hist.clone());
    Ok(())
}
/// every input history of up to 10 calls
fn sweep21(k: u64) -> Option<Vec<u64>> {
    let (which, k) = (k & 1, k >> 1);
    // k enumerates bit strings of length 0..=10
    let n = 63 - (k + 1).leading_zeros() as u64;
    if n > 10 {
        return None;
    }
    let bits = (k + 1) - (1 << n);
    let mut v = vec![which, n, 0];
    v.extend((0..n).map(|i| bits >> i & 1));
    Some(v)
}

fn c22(src: &mut Src) -> Res {
    let sr = src.bool();
    let (name, s, r) = if sr { ("SR", "SET1", "RESET") } else { ("RS", "SET", "RESET1") };
    let i = fresh(Layout::get(name)?);
    let n = src.len(60);
    let long = src.chance(1, 100);
    let mut bursted = !long;
    let mut q = false;
    let mut hist = name.to_string();
    let mut changes = 0;
    for _ in 0..n {
        let c = src.below(4);
        let (mut set, mut reset) = (c & 1 == 1, c & 2 == 2);
        let b = if long { burst_in(src, &mut bursted) } else { 1 };
        let toggles = if b > 1 { src.below(4) } else { 0 };
        if src.describe {
            hist.push_str(&format!(" S{}R{}", set as u8, reset as u8));
            if b > 1 {
                hist.push_str(&format!("({b} calls, toggling {})", ["nothing", "S", "R", "both"][toggles as usize]));
            }
        }
        for _ in 0..b {
            i.set(s, set as i128)?;
            i.set(r, reset as i128)?;
            i.cycle(&hist)?;
            let old = q;
            q = match (set, reset) {
                (true, true) => sr,
                (true, false) => true,
                (false, true) => false,
                (false, false) => q,
            };
            changes += (old != q) as u64;
            i.expect("Q1", q as i128, &hist)?;
            set ^= toggles & 1 == 1;
            reset ^= toggles & 2 == 2;
        }
    }
    solo_intact(&i, &hist)?;
    src.nt(changes >= 2);
    src.note(|| hist.clone());
    Ok(())
}
/// every input history of up to 5 calls
fn sweep22(k: u64) -> Option<Vec<u64>> {
    let (which, mut k) = (k & 1, k >> 1);
    let mut n = 0;
    while k >= 1 << (2 * n) {
        k -= 1 << (2 * n);
        n += 1;
    }
    if n > 5 {
        return None;
    }
    let mut v = vec![which, n as u64, 0];
    v.extend((0..n).map(|i| k >> (2 * i) & 3));
    Some(v)
}

// ------------------------------------------------------------------------------------------------- C23

pub fn all_blocks() -> Vec<String> {
    let mut v: Vec<String> = ["R_TRIG", "F_TRIG", "SR", "RS"].iter().map(|s| s.to_string()).collect();
    for f in ["CTU", "CTD", "CTUD"] {
        v.extend(CNT.iter().map(|(s, _, _)| format!("{f}{s}")));
    }
    for f in ["TP", "TON", "TOF"] {
        v.extend(["", "_TIME", "_LTIME"].iter().map(|s| format!("{f}{s}")));
    }
    v
}

struct Track {
    l: &'static Layout,
    slot: usize,
    /// (time, input bytes, output bytes) of every call
    calls: Vec<(i128, Vec<u8>, Vec<u8>)>,
}
fn pick_bytes(l: &Layout, mem: &[u8], block: Block) -> Vec<u8> {
    l.fields.iter().filter(|f| f.block == block).flat_map(|f| mem[f.off..f.off + f.size].to_vec()).collect()
}

/// Many instances, or few that lie far apart (distances that are powers of two), and objects of their own size between.
fn c23_many(src: &mut Src) -> Res {
    const SPAN: usize = 4 << 20;
    static mut R: Option<Region> = None;
    #[allow(static_mut_refs)]
    let mem = unsafe {
        if R.is_none() {
            R = Some(Region::new(SPAN));
            R.as_mut().unwrap().fill(0xA5);
        }
        R.as_mut().unwrap()
    };
    src.heavy = true;
    let names = all_blocks();
    let far = src.bool();
    // at most three block types, often one only
    let kinds: Vec<usize> = (0..1 + src.below(3)).map(|_| src.below(names.len() as u64) as usize).collect();
    let (n, dist) = if far {
        let d = 8usize << src.range(3, 15);
        (2 + src.below(14) as usize, d)
    } else {
        (2 + src.draw_size(1100), 0)
    };
    let mut tracks: Vec<Track> = vec![];
    let mut at = 8 * src.below(64) as usize;
    for _ in 0..n {
        let l = Layout::get(&names[kinds[src.below(kinds.len() as u64) as usize]])?;
        if at + l.size + 8 > SPAN {
            break;
        }
        mem.bytes_mut()[at..at + l.size].fill(0);
        tracks.push(Track { l, slot: at, calls: vec![] });
        at += if dist > 0 { dist } else { (l.size + 7) / 8 * 8 };
    }
    let n = tracks.len();
    let mut clk = Clock::new(src);
    let rounds = 2 + src.below(6);
    let seed = src.uint(64);
    let mut rng = Rng::new(seed);
    // whole program cycles: every instance once per round, in order or shuffled, inputs at random
    let shuffled = src.bool();
    let mut fault = None;
    'run: for round in 0..rounds {
        let mut order: Vec<usize> = (0..n).collect();
        if shuffled {
            for i in (1..n).rev() {
                order.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
        for k in order {
            let d = rng.below(3) as i128;
            clk.tick(d);
            let l = tracks[k].l;
            let i = Inst { l, p: unsafe { mem.base.add(tracks[k].slot) } };
            for f in &l.fields {
                if f.block == Block::Input && (f.kind == Some(Kind::Bool) || round == 0) {
                    let v = if f.kind == Some(Kind::Bool) { rng.below(2) } else { rng.below(4) };
                    i.set(&f.name, v as i128)?;
                }
            }
            let ins = pick_bytes(l, i.bytes(), Block::Input);
            let h = Lazy(|| format!("round {round}: instance {k} ({}) of {n}", l.name));
            let t = clk.ns;
            if let Err(e) = i.cycle(&h) {
                fault = Some(e);
                break 'run;
            }
            let outs = pick_bytes(l, i.bytes(), Block::Output);
            tracks[k].calls.push((t, ins, outs));
        }
    }
    // nothing outside the instances has changed; the memory is left as it was found
    for tr in &tracks {
        mem.bytes_mut()[tr.slot..tr.slot + tr.l.size].fill(0xA5);
    }
    let end = (at + 8192).min(SPAN);
    if let Some(x) = (0..end).find(|x| mem.bytes()[*x] != 0xA5) {
        mem.fill(0xA5);
        if fault.is_none() {
            fault = Some(Fail { sig: "outside".into(), msg: format!("the calls of {n} instances changed memory outside them, at offset {x}") });
        }
    }
    if let Some(f) = fault {
        return Err(f);
    }
    for (k, tr) in tracks.iter().enumerate() {
        alone(&mut clk, tr, k, n)?;
    }
    src.label(if far { "far apart" } else { "many instances" });
    src.nt(true);
    src.note(|| {
        let ks: Vec<&str> = kinds.iter().map(|k| names[*k].as_str()).collect();
        format!("{n} instances of {ks:?}, distance {dist}, {rounds} rounds, shuffled {shuffled}, seed {seed}")
    });
    Ok(())
}
/// the instance alone, in memory that ends at an inaccessible page, must show the same outputs
fn alone(clk: &mut Clock, tr: &Track, k: usize, n: usize) -> Res {
    let i = fresh(tr.l);
    for (c, (t, ins, outs)) in tr.calls.iter().enumerate() {
        clk.set(*t);
        let mut o = 0;
        for f in &tr.l.fields {
            if f.block == Block::Input {
                unsafe { std::ptr::copy_nonoverlapping(ins[o..].as_ptr(), i.p.add(f.off), f.size) };
                o += f.size;
            }
        }
        let h = Lazy(|| format!("{} alone, call {c}", tr.l.name));
        i.cycle(&h)?;
        let alone = pick_bytes(tr.l, i.bytes(), Block::Output);
        if alone != *outs {
            return fail(
                format!("{}:interference", tr.l.name),
                format!("call {c} of instance {k} ({}) gave outputs {outs:02x?} among {n} instances but {alone:02x?} alone", tr.l.name),
            );
        }
    }
    solo_intact(&i, &tr.l.name)
}

fn c23(src: &mut Src) -> Res {
    if src.chance(1, 50) {
        return c23_many(src);
    }
    static mut R: Option<Region> = None;
    #[allow(static_mut_refs)]
    let mem = unsafe {
        if R.is_none() {
            R = Some(Region::new(8 * 1024));
        }
        R.as_mut().unwrap()
    };
    let names = all_blocks();
    let n = 1 + src.len(24);
    // at most 24 instances packed one after the other (8-byte aligned), their second homes behind them
    let mut tracks: Vec<Track> = vec![];
    let mut at = 8 * src.below(4) as usize;
    let mut used: Vec<(usize, usize)> = vec![];
    let count = names.len();
    mem.fill(0xA5);
    let few = src.bool();
    let only = 1 + src.below(3) as usize;
    let base = src.below(count as u64) as usize;
    for _ in 0..n {
        let k = if few { (base + src.below(only as u64) as usize) % count } else { src.below(count as u64) as usize };
        let l = Layout::get(&names[k])?;
        let al = if l.size % 8 == 0 { 8 } else if l.size % 4 == 0 { 4 } else if l.size % 2 == 0 { 2 } else { 1 };
        at = (at + al - 1) / al * al;
        mem.bytes_mut()[at..at + l.size].fill(0);
        used.push((at, l.size));
        tracks.push(Track { l, slot: at, calls: vec![] });
        at += l.size;
    }
    let mut clk = Clock::new(src);
    let steps = 1 + src.len(200);
    let mut moved = 0;
    let mut image = mem.bytes().to_vec();
    let mut free = at + 64;
    for step in 0..steps {
        let k = src.below(n as u64) as usize;
        if src.chance(1, 2) {
            let d = src.range(0, 8);
            clk.advance(src, d);
        }
        let l = tracks[k].l;
        if src.chance(1, 15) && free + l.size + 8 < mem.size {
            // move the instance: copy its bytes elsewhere and destroy the old place
            free = (free + 7) / 8 * 8;
            let old = tracks[k].slot;
            let b = mem.bytes()[old..old + l.size].to_vec();
            mem.bytes_mut()[free..free + l.size].copy_from_slice(&b);
            mem.bytes_mut()[old..old + l.size].fill(0xA5);
            tracks[k].slot = free;
            free += l.size;
            image.copy_from_slice(mem.bytes());
            moved += 1;
        }
        let i = Inst { l, p: unsafe { mem.base.add(tracks[k].slot) } };
        for f in &l.fields {
            if f.block == Block::Input {
                if f.kind == Some(Kind::Bool) {
                    let v = src.bool();
                    i.set(&f.name, v as i128)?;
                } else if f.name == "PT" {
                    if tracks[k].calls.is_empty() {
                        let v = src.range(0, 20);
                        i.set("PT", v)?;
                    }
                } else if tracks[k].calls.is_empty() || src.chance(1, 5) {
                    let v = src.sint(f.size as u32 * 8);
                    let v = if src.bool() { v as i128 } else { v.rem_euclid(4) as i128 };
                    i.set(&f.name, v)?;
                }
            }
        }
        let (s, e) = (tracks[k].slot, tracks[k].slot + l.size);
        image[s..e].copy_from_slice(&mem.bytes()[s..e]);
        let ins = pick_bytes(l, i.bytes(), Block::Input);
        let h = Lazy(|| format!("step {step}: instance {k} ({}) of {n}", l.name));
        let t = clk.ns;
        i.cycle(&h)?;
        if let Some(x) = (0..mem.size).find(|x| (*x < s || *x >= e) && mem.bytes()[*x] != image[*x]) {
            let d = if x < s { x as i64 - s as i64 } else { (x - e) as i64 };
            return fail(format!("{}:outside", l.name), format!("a call changed memory outside its instance ({d} from it); {h}"));
        }
        image[s..e].copy_from_slice(&mem.bytes()[s..e]);
        let outs = pick_bytes(l, i.bytes(), Block::Output);
        tracks[k].calls.push((t, ins, outs));
    }
    for (k, tr) in tracks.iter().enumerate() {
        alone(&mut clk, tr, k, n)?;
    }
    src.label_if(moved > 0, "relocated instance");
    src.label_if(few, "few block types");
    src.nt(n >= 2 && steps >= 4);
    src.note(|| {
        let kinds: Vec<String> = tracks.iter().map(|t| format!("{}x{}", t.l.name, t.calls.len())).collect();
        format!("{steps} calls over [{}], {moved} relocations", kinds.join(" "))
    });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const LAYOUT: &str = "instance memory is laid out as the ST declaration says (declaration order, natural alignment), BOOL inputs are 0 or 1";
    const TIME: &[&str] = &[
        LAYOUT,
        "PT is not negative and changes only while no interval runs or is shown",
        "the clock is controlled: the crate's mock clock (checked configuration), the clock_gettime the standard library calls (release configuration); the running time stays below 2^63 ns",
    ];
    vec![
        Prop {
            id: "C17", run: c17, quick: 400_000, thorough: 8_000_000, sweep: None, configs: BOTH,
            assumptions: &[LAYOUT, "CV of an instance may be preset before its first call (initialised or retained variable)"],
            rule: "histories of 1..61 calls of one of the 18 counters with small, limit and arbitrary PV, random edges, resets and loads, runs of up to 70000 calls with and without edges, CV started at 0 or preset; non-trivial: at least 4 calls and 2 changes of CV",
        },
        Prop {
            id: "C18", run: c18, quick: 400_000, thorough: 8_000_000, sweep: None, configs: BOTH, assumptions: TIME,
            rule: "histories of 1..51 calls, now and then with a run of up to 70000 more, with IN toggling at random and clock steps of 0, a few ns, exactly to / just past the end, or long; non-trivial: an edge and a running or expired interval",
        },
        Prop {
            id: "C19", run: c19, quick: 400_000, thorough: 8_000_000, sweep: None, configs: BOTH, assumptions: TIME,
            rule: "histories of 1..51 calls, now and then with a run of up to 70000 more, with IN toggling at random and clock steps of 0, a few ns, exactly to / just past the end, or long; non-trivial: an edge and a running or expired interval",
        },
        Prop {
            id: "C20", run: c20, quick: 400_000, thorough: 8_000_000, sweep: None, configs: BOTH, assumptions: TIME,
            rule: "histories of 1..51 calls, now and then with a run of up to 70000 more, with IN toggling at random and clock steps of 0, a few ns, exactly to / just past the end, or long; non-trivial: an edge and a running or expired interval",
        },
        Prop {
            id: "C21", run: c21, quick: 200_000, thorough: 4_000_000, sweep: Some(sweep21), configs: BOTH, assumptions: &[LAYOUT],
            rule: "all input histories of up to 10 calls, random ones of up to 80, now and then with a run of up to 70000 more; non-trivial: at least two edges detected",
        },
        Prop {
            id: "C22", run: c22, quick: 200_000, thorough: 4_000_000, sweep: Some(sweep22), configs: BOTH, assumptions: &[LAYOUT],
            rule: "all input histories of up to 5 calls, random ones of up to 60, now and then with a run of up to 70000 more; non-trivial: at least two changes of the output",
        },
        Prop {
            id: "C23", run: c23, quick: 40_000, thorough: 1_000_000, sweep: None, configs: BOTH,
            assumptions: &[LAYOUT, "the clock is controlled, both runs of an instance see the same times"],
            rule: "1..25 instances of the 31 block types packed in one array, 1..201 interleaved calls, instances relocated now and then; one case in fifty: up to 1100 instances, or 2..15 at a distance of 64 bytes to 256 KB; each instance re-run alone; non-trivial: two instances and four calls",
        },
    ]
}
