//! C39: no call depends on calls made before it, nor on calls other threads make at the same moment.
//!
//! A case is a list of items (calls of functions, runs of function blocks on an instance of their own). A first child
//! process executes them in order, a second one in another order, a third one in several threads at once, many times
//! over. The process that generates the cases never calls the library, so every child starts from pristine state.

use super::fb::{all_blocks, Layout};
use super::stlib::{arguments, change, rows, show_in, ty, Row};
use super::BOTH;
use crate::clock;
use crate::engine::*;
use crate::st::{Block, Kind};
use crate::sys;
use crate::vm::{self, In, Out, Ty, Val};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub enum Item {
    Fun { r: &'static Row, addr: usize, args: Vec<In>, garbage: u32 },
    /// input bytes of each call
    Block { l: &'static Layout, ins: Vec<Vec<u8>> },
}
/// hash and text of an outcome
pub type Seen = (u64, String);

impl Item {
    pub fn show(&self) -> String {
        match self {
            Item::Fun { r, args, .. } => format!("{}({})", r.symbol, show_in(args)),
            Item::Block { l, ins } => format!("{} {:02x?}", l.name, ins),
        }
    }
    pub fn name(&self) -> &str {
        match self {
            Item::Fun { r, .. } => r.symbol,
            Item::Block { l, .. } => &l.name,
        }
    }
    pub fn run(&self) -> Seen {
        match self {
            Item::Fun { r, addr, args, garbage } => match vm::direct(*addr, Some(&ty(r.ret)), args, *garbage) {
                Err(_) => (1, "a rejection".into()),
                Ok(Out { ret, vars }) => {
                    let mut h = 7u64;
                    let mut text = String::new();
                    for v in ret.iter().chain(&vars) {
                        let nan = v.is_float() && v.float().is_nan();
                        let bits = if nan { 0x7FF8 } else { v.bits };
                        for b in bits.to_le_bytes().iter().chain(&v.bytes) {
                            h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
                        }
                        h = h.rotate_left(17) ^ v.bytes.len() as u64;
                        if text.len() < 400 {
                            text.push_str(&v.show());
                            text.push(' ');
                        }
                    }
                    (h | 2, text)
                }
            },
            Item::Block { l, ins } => {
                let mut mem = vec![0u64; l.size.div_ceil(8)];
                let p = mem.as_mut_ptr() as *mut u8;
                let f: unsafe extern "C-unwind" fn(*mut u8) = unsafe { std::mem::transmute(l.sym) };
                let mut h = 11u64;
                let mut text = String::new();
                for i in ins {
                    let mut o = 0;
                    for f in l.fields.iter().filter(|f| f.block == Block::Input) {
                        unsafe { std::ptr::copy_nonoverlapping(i[o..].as_ptr(), p.add(f.off), f.size) };
                        o += f.size;
                    }
                    if call(|| unsafe { f(p) }).is_err() {
                        return (1, format!("{text}a rejection"));
                    }
                    for f in l.fields.iter().filter(|f| f.block == Block::Output) {
                        let b = unsafe { std::slice::from_raw_parts(p.add(f.off), f.size) };
                        for x in b {
                            h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
                        }
                        if text.len() < 400 {
                            text.push_str(&format!("{}={b:02x?} ", f.name));
                        }
                    }
                    h = h.rotate_left(17);
                }
                (h | 2, text)
            }
        }
    }
}

/// memory the children report through
struct Board {
    base: *mut u8,
}
unsafe impl Sync for Board {}
const SLOT: usize = 512;
const SLOTS: usize = 2 * MOST;
/// items of a case
const MOST: usize = 256;
impl Board {
    fn get() -> &'static Board {
        static mut B: Option<Board> = None;
        #[allow(static_mut_refs)]
        unsafe {
            if B.is_none() {
                let p = mmap(std::ptr::null_mut(), SLOT * SLOTS, 3, 0x21, -1, 0);
                assert!(p as isize != -1, "mmap");
                B = Some(Board { base: p });
            }
            B.as_ref().unwrap()
        }
    }
    fn clear(&self) {
        unsafe { std::ptr::write_bytes(self.base, 0, SLOT * SLOTS) }
    }
    fn put(&self, i: usize, s: &Seen) {
        let t = &s.1.as_bytes()[..s.1.len().min(SLOT - 16)];
        unsafe {
            let p = self.base.add(i * SLOT);
            std::ptr::copy_nonoverlapping(t.as_ptr(), p.add(16), t.len());
            *(p.add(8) as *mut u64) = t.len() as u64;
            *(p as *mut u64) = s.0;
        }
    }
    /// nothing if it was never reported
    fn see(&self, i: usize) -> Option<Seen> {
        unsafe {
            let p = self.base.add(i * SLOT);
            let (h, n) = (*(p as *const u64), *(p.add(8) as *const u64) as usize);
            let t = std::slice::from_raw_parts(p.add(16), n.min(SLOT - 16));
            (h != 0).then(|| (h, String::from_utf8_lossy(t).into_owned()))
        }
    }
}

/// runs `f` in a child process
fn child(f: impl FnOnce()) -> Result<(), String> {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            sys::watchdog(30);
            crate::cov::off();
            let _c = clock::Controlled::new();
            clock::set_wall(1_700_000_000_123_456_789);
            clock::set_mono(5_000_000_000_000);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok();
            _exit(if ok { 0 } else { 99 });
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        match (st & 0x7F, st >> 8 & 0xFF) {
            (0, 0) => Ok(()),
            (0, c) => Err(format!("the process ended with code {c}")),
            (14, _) => Err("it did not end within 30 s".into()),
            (s, _) => Err(format!("the process was ended by signal {s}")),
        }
    }
}

fn few(src: &mut Src, v: &mut Val, first: u8, most: u64) {
    if let Ty::Str { wide, .. } = v.ty {
        let n = src.below(most + 1);
        let mut b = vec![];
        for _ in 0..n {
            b.push(first + src.below(2) as u8);
            if wide {
                b.push(0);
            }
        }
        *v = Val::str(wide, b);
    }
}
/// makes a text invalid: a lone surrogate, a byte that is no UTF-8
fn damage(src: &mut Src, v: &mut Val) {
    if let Ty::Str { wide, .. } = v.ty {
        let n = v.bytes.len() / if wide { 2 } else { 1 };
        let at = src.below(n as u64 + 1) as usize;
        if wide {
            let u: u16 = *src.pick(&[0xD800, 0xDBFF, 0xDC00, 0xDFFF]);
            v.bytes.splice(2 * at..2 * at, u.to_le_bytes());
        } else {
            v.bytes.insert(at, *src.pick(&[0x80, 0xFF, 0xC3, 0xED]));
        }
    }
}
/// up to `max` calls
pub fn generate(src: &mut Src, max: usize) -> Result<Vec<Item>, Fail> {
    // a few functions, so that they meet themselves
    let kinds: Vec<u64> = (0..1 + src.below(4)).map(|_| src.below(rows().len() as u64 + 28)).collect();
    let n = 1 + match src.below(3) {
        0 => src.len(max - 1),
        1 => src.draw_size(max - 1),
        _ => src.below(max as u64) as usize,
    };
    fill(src, &kinds, n)
}
/// `n` calls of one function or function block
pub fn items_of(src: &mut Src, n: usize) -> Result<Vec<Item>, Fail> {
    let k = src.below(rows().len() as u64 + 28);
    fill(src, &[k], n)
}
fn fill(src: &mut Src, kinds: &[u64], n: usize) -> Result<Vec<Item>, Fail> {
    let short = src.bool();
    let mut items: Vec<Item> = vec![];
    for _ in 0..n {
        let k = *src.pick(kinds) as usize;
        if k < rows().len() {
            let r = &rows()[k];
            let Some(addr) = sys::symbol(r.symbol) else {
                return fail(format!("missing:{}", r.symbol), format!("the library exports no symbol {}", r.symbol));
            };
            let before: Vec<&Vec<In>> = items
                .iter()
                .filter_map(|i| match i {
                    Item::Fun { r: q, args, .. } if q.symbol == r.symbol => Some(args),
                    _ => None,
                })
                .collect();
            let how = src.weighted(&[3, 4, 2]);
            let args = match how {
                1 | 2 if !before.is_empty() => {
                    // right after the call it resembles, or later
                    let old = if src.bool() { before[before.len() - 1] } else { *src.pick(&before) };
                    if how == 1 { change(src, old) } else { old.clone() }
                }
                _ => {
                    let mut a = arguments(src, r);
                    let number = matches!(r.symbol, "STRING_TO_LINT" | "STRING_TO_DINT" | "STRING_TO_LREAL" | "STRING_TO_REAL");
                    let first = if number && !src.chance(1, 4) { b'1' } else { b'a' };
                    if short || src.bool() {
                        // short texts over two characters meet each other's contents
                        let find = r.symbol.starts_with("FIND");
                        for (k, v) in a.iter_mut().enumerate() {
                            let most = if find && k > 0 { 2 } else { 6 };
                            match v {
                                In::V(v) => few(src, v, first, most),
                                In::Many(vs) => vs.iter_mut().for_each(|v| few(src, v, first, most)),
                                In::Var(..) => {}
                            }
                        }
                    }
                    a
                }
            };
            let mut args = args;
            if src.chance(1, 12) {
                for a in &mut args {
                    match a {
                        In::V(v) => damage(src, v),
                        In::Many(vs) if !vs.is_empty() => damage(src, vs.last_mut().unwrap()),
                        _ => {}
                    }
                }
            }
            let garbage = src.uint(32) as u32;
            items.push(Item::Fun { r, addr, args, garbage });
        } else {
            let l = Layout::get(&all_blocks()[k - rows().len()])?;
            let steps = 1 + src.len(12);
            let mut ins = vec![];
            for _ in 0..steps {
                let mut b = vec![];
                for f in l.fields.iter().filter(|f| f.block == Block::Input) {
                    let v = match f.kind {
                        Some(Kind::Bool) => src.below(2),
                        Some(Kind::Signed) if f.name == "PT" => src.uint(40),
                        _ => src.uint(8 * f.size as u32) & 0xFF,
                    };
                    b.extend_from_slice(&v.to_le_bytes()[..f.size]);
                }
                ins.push(b);
            }
            items.push(Item::Block { l, ins });
        }
    }
    Ok(items)
}

fn c39(src: &mut Src) -> Res {
    let items = generate(src, 200)?;
    let n = items.len();
    // how often each is repeated in the first order
    let mut left = 100_000u64;
    let times: Vec<u64> = (0..n)
        .map(|_| {
            let t = if src.chance(1, 12) { (1 + src.len(300) as u64 * if src.chance(1, 20) { 250 } else { 1 }).min(left) } else { 1 };
            left -= t.min(left);
            t.max(1)
        })
        .collect();
    let threads = match src.weighted(&[5, 3]) {
        0 => 0,
        _ => 2 + src.below(3) as usize,
    };
    let board = Board::get();
    src.nt(n > 1);
    src.label_if(threads > 0, "several threads");
    src.label_if(times.iter().any(|t| *t > 1), "calls repeated");
    src.note(|| {
        let v: Vec<String> = items.iter().zip(&times).map(|(i, t)| if *t > 1 { format!("{t} x {}", i.show()) } else { i.show() }).collect();
        let more = if v.len() > 12 { format!("; and {} more", v.len() - 12) } else { String::new() };
        format!("{}{more}{}", v[..v.len().min(12)].join("; "), if threads > 0 { format!("; in {threads} threads") } else { String::new() })
    });

    board.clear();
    // the order as given, every repetition compared with the first
    let died = |what: &str, upto: usize, e: String| -> Res {
        let i = (0..upto).find(|i| board.see(*i).is_none()).unwrap_or(0);
        fail(format!("{}:{what}", items[i].name()), format!("{} {what}: {e}", items[i].show()))
    };
    if let Err(e) = child(|| {
        for (i, it) in items.iter().enumerate() {
            let first = it.run();
            board.put(i, &first);
            for _ in 1..times[i] {
                let again = it.run();
                if again.0 != first.0 {
                    board.put(MOST + i, &again);
                }
            }
        }
    }) {
        return died("crashes", n, e);
    }
    let first: Vec<Seen> = (0..n).map(|i| board.see(i).unwrap()).collect();
    src.label_if(first.iter().any(|s| s.0 == 1), "with a rejected call");
    src.label_if(first.iter().any(|s| s.0 != 1), "with an accepted call");
    for i in 0..n {
        if let Some(again) = board.see(MOST + i) {
            return fail(
                format!("{}:repeated", items[i].name()),
                format!("{} gives {} the first time and {} when repeated", items[i].show(), first[i].1, again.1),
            );
        }
    }

    // backwards, or from the middle
    board.clear();
    let order: Vec<usize> = if n > 2 && n % 2 == 0 { (0..n).map(|i| (i + n / 2) % n).rev().collect() } else { (0..n).rev().collect() };
    if let Err(e) = child(|| {
        for i in &order {
            board.put(*i, &items[*i].run());
        }
    }) {
        return died("crashes", n, e);
    }
    for i in 0..n {
        let other = board.see(i).unwrap();
        if other.0 != first[i].0 {
            return fail(
                format!("{}:history", items[i].name()),
                format!(
                    "{} gives {} after {i} other calls, but {} after {} others",
                    items[i].show(),
                    first[i].1,
                    other.1,
                    order.iter().position(|k| *k == i).unwrap()
                ),
            );
        }
    }
    if threads == 0 {
        return Ok(());
    }

    // all at once
    board.clear();
    let wrong = |i: usize| MOST + i;
    let r = child(|| {
        let ready = AtomicU32::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (ready, items, first) = (&ready, &items, &first);
                s.spawn(move || {
                    ready.fetch_add(1, SeqCst);
                    while (ready.load(SeqCst) as usize) < threads {
                        std::thread::yield_now();
                    }
                    let until = clock::real_ns() + 2_500_000;
                    let mut k = 0u64;
                    while k < 2 || (k < 4000 && clock::real_ns() < until) {
                        for j in 0..items.len() {
                            let i = (j + t * items.len().div_ceil(threads)) % items.len();
                            let got = items[i].run();
                            if got.0 != first[i].0 {
                                board.put(wrong(i), &got);
                                return;
                            }
                        }
                        k += 1;
                    }
                });
            }
        });
    });
    if let Err(e) = r {
        return fail("threads:crash", format!("{} in {threads} threads at once: {e}", items.iter().map(|i| i.show()).collect::<Vec<_>>().join("; ")));
    }
    for i in 0..n {
        if let Some(got) = board.see(wrong(i)) {
            return fail(
                format!("{}:threads", items[i].name()),
                format!("{} gives {} alone, but {} while other threads call", items[i].show(), first[i].1, got.1),
            );
        }
    }
    Ok(())
}

fn sweep39(i: u64) -> Option<Vec<u64>> {
    // every function and block met by itself, many times over
    let n = rows().len() as u64 + 28;
    (i < 40 * n).then(|| vec![0, i % n, u64::MAX])
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C39", run: c39, quick: 12_000, thorough: 2_000_000, sweep: Some(sweep39), configs: BOTH,
        assumptions: &["the clocks stand still during a case"],
        rule: "lists of up to 200 calls of 1 to 4 of the 333 functions and 28 function blocks (arguments fresh, equal to or resembling earlier ones; up to 75000 repetitions), executed in pristine processes in two orders and in 2 to 4 threads at once; every outcome must be the same each time; non-trivial: at least two items",
    }]
}
