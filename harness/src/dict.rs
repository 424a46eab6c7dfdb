//! Seeds for the generators: numeric and string literals of the library source (as fuzzers take dictionaries).
use crate::engine::Dict;

pub fn repo() -> String {
    std::env::var("REPO").unwrap_or_else(|_| "/repo".into())
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut es: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    es.sort();
    for p in es {
        if p.is_dir() {
            files(&p, out)
        } else if p.extension().is_some_and(|e| e == "rs" || e == "st") {
            out.push(p)
        }
    }
}

pub fn load() -> Dict {
    let mut d = Dict::default();
    let mut fs = vec![];
    files(std::path::Path::new(&format!("{}/src", repo())), &mut fs);
    for f in fs {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let text = text.split("#[cfg(test)]\nmod").next().unwrap_or("").to_string();
        scan(&text, &mut d);
    }
    for k in [1_000u64, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000] {
        d.add_int(k);
        d.add_int((k as i64).wrapping_neg() as u64);
    }
    d
}

fn scan(text: &str, d: &mut Dict) {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = vec![];
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    let (v, n) = escape(&b[i..]);
                    i += n;
                    if let Some(c) = v.filter(|c| *c != '\0') {
                        d.add_int(c as u64);
                        s.push(c);
                    }
                    continue;
                }
                if i < b.len() && b[i] != '\0' {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 24 && d.strs.len() < 400 && !d.strs.contains(&s) {
                d.strs.push(s);
            }
        } else if c == '\'' && b.get(i + 2) == Some(&'\'') {
            d.add_int(b[i + 1] as u64);
            if b[i + 1] != '\0' && !d.strs.contains(&vec![b[i + 1]]) {
                d.strs.push(vec![b[i + 1]]);
            }
            i += 3;
        } else if c == '\'' && b.get(i + 1) == Some(&'\\') {
            let (v, n) = escape(&b[i + 1..]);
            if let Some(c) = v {
                d.add_int(c as u64);
                if c != '\0' && !d.strs.contains(&vec![c]) {
                    d.strs.push(vec![c]);
                }
            }
            i += 1 + n;
            if b.get(i) == Some(&'\'') {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let st = i;
            while i < b.len()
                && (b[i].is_ascii_alphanumeric()
                    || b[i] == '_'
                    || (b[i] == '.' && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()))
                    || ((b[i] == '-' || b[i] == '+') && (b[i - 1] == 'e' || b[i - 1] == 'E') && !b[st..i].contains(&'x')))
            {
                i += 1;
            }
            let t: String = b[st..i].iter().filter(|c| **c != '_').collect();
            number(&t, d);
        } else {
            i += 1;
        }
    }
}

/// an escape sequence (of either language) at the start of `b`: its character and its length
fn escape(b: &[char]) -> (Option<char>, usize) {
    let hex = |s: &[char]| u32::from_str_radix(&s.iter().filter(|c| **c != '_').collect::<String>(), 16).ok().and_then(char::from_u32);
    match b.get(1) {
        Some('n') => (Some('\n'), 2),
        Some('r') => (Some('\r'), 2),
        Some('t') => (Some('\t'), 2),
        Some('0') => (Some('\0'), 2),
        Some('x') if b.len() >= 4 => (hex(&b[2..4]), 4),
        Some('u') if b.get(2) == Some(&'{') => match b.iter().position(|c| *c == '}') {
            Some(e) => (hex(&b[3..e]), e + 1),
            None => (None, 2),
        },
        Some('\n') | None => (None, 1),
        Some(c) => (Some(*c), 2),
    }
}

fn number(t: &str, d: &mut Dict) {
    let mut s = t;
    for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "f32", "f64"] {
        if let Some(p) = s.strip_suffix(suf) {
            if !(s.starts_with("0x") && suf.starts_with('f')) {
                s = p;
                break;
            }
        }
    }
    let int = if let Some(h) = s.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(h) = s.strip_prefix("0b") {
        u64::from_str_radix(h, 2).ok()
    } else if let Some(h) = s.strip_prefix("0o") {
        u64::from_str_radix(h, 8).ok()
    } else {
        s.parse().ok()
    };
    if let Some(v) = int {
        d.add_int(v);
    }
    if let Ok(f) = s.parse::<f64>() {
        if !d.floats.contains(&f) && d.floats.len() < 500 {
            d.floats.push(f);
        }
        if int.is_none() && f.abs() < 9e18 {
            d.add_int(f as i64 as u64);
        }
    }
}
