//! C41: what a call costs. Its time, its stack and the memory it uses on the way depend on the length of the texts and
//! lists it is given, not on the values of its numbers, and grow in proportion to the length (FIND: of both texts).
//!
//! The bounds are absolute and far above what the functions need (microseconds, a few hundred bytes): a loop that runs
//! as often as a number says, or once per pair of characters, exceeds them by orders of magnitude. Calls are made in a
//! thread with a small stack.

use super::stlib::{arguments, rows, show_in, ty};
use super::BOTH;
use crate::clock;
use crate::engine::*;
use crate::sys;
use crate::vm::{self, In, Ty, Val};

/// processor time of a call with short arguments, ns
const TIME: u64 = 60_000_000;
/// per byte of its texts and lists
const TIME_BYTE: u64 = 3_000;
const HEAP: i64 = 300_000;
const HEAP_BYTE: i64 = 64;
const STACK: usize = 192 * 1024;

fn long(src: &mut Src, wide: bool, max: usize) -> Val {
    let n = 1 + src.below(max as u64) as usize;
    let style = src.below(8) as usize;
    // a short pattern over and over: the worst case of a search
    let mut pattern: String = (0..1 + src.below(8)).map(|_| if src.bool() { 'a' } else { src.char(style) }).collect();
    if pattern.is_empty() || pattern.contains('\0') {
        pattern = "a".into();
    }
    let mut bytes: Vec<u8> = vec![];
    if wide {
        let p: Vec<u8> = pattern.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
        while bytes.len() < 2 * n {
            bytes.extend_from_slice(&p);
        }
        if src.bool() {
            bytes.extend_from_slice(b"b\0");
        }
    } else {
        while bytes.len() < n {
            bytes.extend_from_slice(pattern.as_bytes());
        }
        if src.bool() {
            bytes.push(b'b');
        }
    }
    Val::str(wide, bytes)
}

fn size(a: &[In]) -> usize {
    a.iter()
        .map(|a| match a {
            In::V(v) => v.bytes.len() + 8,
            In::Many(v) => v.iter().map(|v| v.bytes.len() + 8).sum(),
            In::Var(..) => 8,
        })
        .sum()
}

fn c41(src: &mut Src) -> Res {
    crate::cov::reserve();
    let r = src.pick(rows());
    let Some(addr) = sys::symbol(r.symbol) else {
        return fail(format!("missing:{}", r.symbol), format!("the library exports no symbol {}", r.symbol));
    };
    let mut args = arguments(src, r);
    let texts = args.iter().filter(|a| matches!(a, In::V(Val { ty: Ty::Str { .. }, .. }) | In::Many(_))).count();
    let big = texts > 0 && src.chance(1, 60);
    if big {
        src.heavy = true;
        let find = r.symbol.starts_with("FIND");
        let max = if src.bool() { 400_000 } else { 30_000 };
        let mut first = true;
        let how = src.below(3);
        for a in &mut args {
            match a {
                In::V(v) => {
                    if let Ty::Str { wide, .. } = v.ty {
                        // the search may take time in proportion to both lengths
                        *v = long(src, wide, if find && !first { 25 } else { max });
                        first = false;
                    }
                }
                In::Many(vs) if !vs.is_empty() => match (&vs[0].ty, how) {
                    (Ty::Str { wide, .. }, 0) => {
                        let w = *wide;
                        *vs = vec![long(src, w, max / 4); 3];
                    }
                    _ => *vs = vs.iter().cloned().cycle().take(1 + src.below(20_000) as usize).collect(),
                },
                _ => {}
            }
        }
        let total = size(&args);
        let n = args.iter().map(|a| if let In::V(v) = a { v.bytes.len() } else { 0 }).max().unwrap_or(0);
        for a in &mut args {
            match a {
                In::V(v) if matches!(v.ty, Ty::S(_, _)) && !v.is_float() && src.chance(3, 4) => {
                    *v = Val::new(v.ty.clone(), *src.pick(&[0, 1, n as u64 / 2, n as u64 / 3, n as u64 / 4]));
                }
                In::Var(t @ Ty::Str { .. }, _) => {
                    let wide = matches!(t, Ty::Str { wide: true, .. });
                    *t = vm::string(wide, 2 * total + 100);
                }
                _ => {}
            }
        }
    } else {
        // numbers of all sizes
        for a in &mut args {
            if let In::V(v) = a {
                if let Ty::S(..) = v.ty {
                    if src.bool() {
                        let bits = 8 * v.ty.size() as u32;
                        *v = Val::new(v.ty.clone(), if v.is_float() && bits == 64 { src.f64_any().to_bits() } else if v.is_float() { src.f32_any().to_bits() as u64 } else { src.uint(bits) });
                    }
                }
            }
        }
    }
    let bytes = size(&args);
    src.nt(big || args.iter().any(|a| matches!(a, In::V(v) if v.bits > 0x7FFF || v.bytes.len() > 8)));
    src.label(if big { "long texts or lists" } else { "numbers of all sizes" });
    // a string result comes back through a hidden pointer
    let ret = match ty(r.ret) {
        Ty::Str { wide, .. } if big => vm::string(wide, 2 * bytes + 100),
        t => t,
    };
    let shown = || {
        let mut s = format!("{}({})", r.symbol, show_in(&args));
        if s.len() > 400 {
            let (mut a, mut b) = (200, s.len() - 100);
            while !s.is_char_boundary(a) {
                a -= 1;
            }
            while !s.is_char_boundary(b) {
                b += 1;
            }
            s = format!("{} ... {} ({bytes} bytes)", &s[..a], &s[b..]);
        }
        s
    };
    src.note(shown);

    let _c = clock::Controlled::new();
    clock::set_wall(1_700_000_000_123_456_789);
    clock::set_mono(5_000_000_000_000);
    let limit = (TIME + TIME_BYTE * bytes as u64) * if shrinking() { 3 } else { 1 };
    let (took, peak, ok) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut best = u64::MAX;
                let mut ok = false;
                // the processor may be slow, but not every time
                for _ in 0..3 {
                    sys::reset_peak();
                    let t = clock::cpu_ns();
                    ok = vm::direct(addr, Some(&ret), &args, 0).is_ok();
                    best = best.min(clock::cpu_ns() - t);
                    if best <= limit {
                        break;
                    }
                }
                (best, sys::lib_peak(), ok)
            })
            .expect("thread")
            .join()
            .expect("thread")
    });
    src.label_if(!ok, "rejected");
    src.label_if(took > limit / 20, "took over a twentieth of the bound");
    if took > limit {
        return fail(
            format!("{}:time", r.symbol),
            format!("{} takes {} ms of processor time (bound {} ms)", shown(), took / 1_000_000, limit / 1_000_000),
        );
    }
    let room = HEAP + HEAP_BYTE * bytes as i64;
    src.label_if(peak > room / 4, "used over a quarter of the memory bound");
    if peak > room {
        return fail(format!("{}:memory", r.symbol), format!("{} uses {peak} bytes of memory on the way (bound {room})", shown()));
    }
    Ok(())
}

fn sweep41(i: u64) -> Option<Vec<u64>> {
    let n = rows().len() as u64;
    (i < 40 * n).then(|| vec![i % n, u64::MAX])
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C41", run: c41, quick: 300_000, thorough: 20_000_000, sweep: Some(sweep41), configs: BOTH,
        assumptions: &["the processor is at most some hundred times slower than the one the bounds were tried on"],
        rule: "one call of any of the 333 functions in a thread with 192 KB of stack; numbers biased to all magnitudes, one call in sixty with texts of up to 400000 bytes or lists of up to 20000; processor time, stack and peak heap bounded; non-trivial: a number above 32767 or a text of more than 8 bytes",
    }]
}
