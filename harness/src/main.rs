//! Property checks of the iec61131std library. Driven by /verif/bin/check.
extern crate iec61131std;

mod bf;
mod cal;
mod clock;
mod cov;
mod dict;
mod engine;
mod props;
mod st;
mod sys;
mod vm;

use engine::*;
use std::io::Write;

pub const CONFIG: &str = if cfg!(debug_assertions) { "checked" } else { "release" };

extern "C" {
    fn open(path: *const i8, flags: i32, mode: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F || (0xD800..0xE000).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shared_log(path: &str) {
    let cap = MAX_CHOICES + 64;
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        let fd = open(p.as_ptr(), 0o102 | 0o1000, 0o644);
        assert!(fd >= 0, "cannot open {path}");
        assert!(ftruncate(fd, (cap * 8) as i64) == 0);
        let m = mmap(std::ptr::null_mut(), cap * 8, 3, 1, fd, 0);
        assert!(m as isize != -1);
        cov::set_log(m as *mut u64, cap);
    }
}

fn read_known() -> Vec<String> {
    // lines "known: property=<id> sig=<signature> ..." of the known-findings file
    let path = std::env::var("KNOWN_FINDINGS").unwrap_or_default();
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter(|l| l.starts_with("known:"))
        .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("sig=").map(|s| s.to_string())))
        .collect()
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if !sys::IN_LIB.with(|c| c.get()) {
            eprintln!("harness error: {info}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |name: &str, def: &str| -> String {
        a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| def.to_string())
    };
    let num = |name: &str, def: &str| -> u64 { opt(name, def).parse().expect(name) };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} quick={} thorough={} configs={:?}", p.id, p.quick, p.thorough, p.configs);
            }
        }
        Some("st") => {
            let l = st::lib();
            let ext = l.pous.iter().filter(|p| p.external).count();
            println!("{} POUs, {} external, {} globals", l.pous.len(), ext, l.globals.len());
            if a.get(2).map(|s| s.as_str()) == Some("--list") {
                for p in &l.pous {
                    let t = |t: &st::Type| match t {
                        st::Type::Named(n) => n.clone(),
                        st::Type::Str { wide, len } => format!("{}{}", if *wide { "WSTRING" } else { "STRING" }, if len.is_some() { "[]" } else { "" }),
                        o => format!("{o:?}"),
                    };
                    let v: Vec<String> = p.vars.iter().map(|v| format!("{:?}{}{} {}: {}", v.block, if v.byref { "&" } else { "" }, if v.variadic.is_some() { "..." } else { "" }, v.name, t(&v.ty))).collect();
                    println!("{}{} {:?} -> {} ({})", if p.external { "E " } else { "S " }, p.name, p.generics, p.ret.as_ref().map(t).unwrap_or_default(), v.join("; "));
                }
            } else if let Some(n) = a.get(2) {
                println!("{:#?}", l.pou(n));
            }
        }
        Some("info") => {
            let p = props::find(&a[2]);
            println!(
                "{{\"id\":{},\"quick\":{},\"thorough\":{},\"rule\":{},\"configs\":[{}],\"assumptions\":[{}]}}",
                jstr(p.id),
                p.quick,
                p.thorough,
                jstr(p.rule),
                p.configs.iter().map(|c| jstr(c)).collect::<Vec<_>>().join(","),
                p.assumptions.iter().map(|c| jstr(c)).collect::<Vec<_>>().join(",")
            );
        }
        Some("run") => {
            let p = props::find(&a[2]);
            let out = opt("--out", "/tmp");
            let shard = num("--shard", "0");
            let base = format!("{out}/{}-{shard}", CONFIG);
            shared_log(&format!("{base}.case"));
            let mut r = Runner::new(dict::load(), read_known());
            r.deadline = clock::real_seconds() + num("--seconds", "1000000");
            let v = r.run(&p, num("--seed", "1"), shard, num("--shards", "1"), num("--cases", "1000"));
            write_result(&base, &p, &r, v);
        }
        Some("replay") => {
            // exit 0: holds, 1: violated (message on stdout), by signal: the library crashed
            let p = props::find(&a[2]);
            let text = std::fs::read_to_string(&a[3]).expect("replay file");
            let mut r = Runner::new(dict::load(), vec![]);
            r.watch = 20;
            // one case per line, in one process
            for line in text.lines() {
                let choices: Vec<u64> = line.split_whitespace().map(|w| w.parse().expect("choice")).collect();
                let (res, _, desc) = r.replay(&p, &choices, true);
                for d in desc {
                    println!("  {d}");
                }
                if let Err(f) = res {
                    println!("FAIL sig={} {}", f.sig, f.msg);
                    std::process::exit(1);
                }
            }
            println!("OK");
        }
        Some("merge") => {
            // number of distinct hashes over the given files
            let mut s = std::collections::HashSet::new();
            for f in &a[2..] {
                let b = std::fs::read(f).expect("hash file");
                for c in b.chunks_exact(8) {
                    s.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            println!("{}", s.len());
        }
        _ => {
            eprintln!("usage: harness list|info|run|replay|merge");
            std::process::exit(2);
        }
    }
}

fn write_result(base: &str, p: &Prop, r: &Runner, v: Option<Violation>) {
    let mut h = std::io::BufWriter::new(std::fs::File::create(format!("{base}.hashes")).unwrap());
    for x in &r.nontrivial {
        h.write_all(&x.to_le_bytes()).unwrap();
    }
    h.flush().unwrap();
    let labels: Vec<String> = r.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let samples: Vec<String> = r.samples.iter().map(|s| jstr(s)).collect();
    let known: Vec<String> =
        r.known_hits.iter().map(|(k, (n, m))| format!("{}:[{},{}]", jstr(k), n, jstr(m))).collect();
    if let Some(v) = &v {
        let lines: Vec<String> = v.history.iter().map(|c| c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).collect();
        std::fs::write(format!("{base}.history"), lines.join("\n") + "\n").unwrap();
    }
    let viol = match v {
        None => "null".to_string(),
        Some(v) => format!(
            "{{\"sig\":{},\"msg\":{},\"choices\":[{}],\"desc\":[{}]}}",
            jstr(&v.sig),
            jstr(&v.msg),
            v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            v.desc.iter().map(|d| jstr(d)).collect::<Vec<_>>().join(",")
        ),
    };
    let j = format!(
        "{{\"property\":{},\"config\":{},\"evaluations\":{},\"nontrivial\":{},\"corpus\":{},\"counters\":{},\"covered\":{},\"dict_ints\":{},\"shrinks\":{},\"labels\":{{{}}},\"samples\":[{}],\"known\":{{{}}},\"violation\":{}}}\n",
        jstr(p.id), jstr(CONFIG), r.evaluations, r.nontrivial.len(), r.corpus.len(), cov::counters(), cov::covered(),
        r.dict.ints.len(), r.shrinks, labels.join(","), samples.join(","), known.join(","), viol
    );
    std::fs::write(format!("{base}.json"), j).unwrap();
}
