#!/usr/bin/env python3
"""Mutation test of the checks over the Rust sources: one textual mutation at a time in scratch copies; mutants that do
not build or that the existing tests notice are dropped, the others must be noticed by a check. Lists the survivors.
usage: mutate_rs.py [--cases N] [--limit N] [--seed N] [--jobs N] [--list] [file.rs ...]"""
import json, os, queue, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
cases, limit, seed, jobs = int(opt("--cases", "20000")), int(opt("--limit", "100000")), int(opt("--seed", "1")), int(opt("--jobs", "4"))
root = opt("--root", "/tmp/mrs")
retest = opt("--retest", "")
lst = "--list" in a
if lst: a.remove("--list")
SRC = "/repo/src"
PROPS = {
    "arithmetic_functions.rs": "C29 C38 C24", "bistable_functionblocks.rs": "C22 C23", "bit_num_conversion.rs": "C27 C33 C32",
    "bit_shift_functions.rs": "C25", "counters.rs": "C17 C23", "date_time_conversion.rs": "C16 C34",
    "date_time_extra_functions.rs": "C14 C15 C35 C31", "date_time_numeric_functions.rs": "C11 C12 C13 C35 C31",
    "endianness_conversion_functions.rs": "C26", "extra_functions.rs": "C08 C09 C10 C24 C30 C06 C31 C37",
    "flanks.rs": "C21 C23", "numerical_functions.rs": "C29 C33", "string_conversion.rs": "C07 C06 C31",
    "string_functions.rs": "C01 C02 C03 C04 C05 C06 C07 C36 C31", "timers.rs": "C18 C19 C20 C23",
    "types.rs": "C18 C19 C20 C12 C13 C24 C28", "utils.rs": "C17 C18 C19 C20 C21 C23", "validation_functions.rs": "C28 C31",
}
STABLE = {s.split("::", 1)[1].removeprefix("/repo/src/lib.rs::") if "lib.rs::" in s else s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
rng = random.Random(seed)

def strip(t):
    """comments and test modules blanked, positions kept"""
    bl = lambda m: re.sub(r"[^\n]", " ", m.group(0))
    t = re.sub(r'/\*.*?\*/', bl, t, flags=re.S)
    t = re.sub(r'//[^\n]*', bl, t)
    i = t.find("#[cfg(test)]\nmod ")
    return t if i < 0 else t[:i] + re.sub(r"[^\n]", " ", t[i:])

INTS = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "isize", "usize", "i128"]
REP = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), (" * ", " / "),
       (" / ", " * "), (" % ", " / "), (" < ", " <= "), (" > ", " >= "), (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" | ", " & "),
       ("true", "false"), ("false", "true"), ("checked_add", "checked_sub"), ("checked_sub", "checked_add"), ("checked_mul", "checked_add"),
       ("saturating_add", "wrapping_add"), ("saturating_sub", "wrapping_sub"), ("saturating_", "wrapping_"), ("wrapping_", "saturating_"),
       ("take(", "skip("), ("skip(", "take("), (".min(", ".max("), (".max(", ".min("), ("rotate_left", "rotate_right"), ("rotate_right", "rotate_left"),
       ("is_some", "is_none"), ("is_none", "is_some"), ("is_ok", "is_err"), (".all(", ".any("), (".any(", ".all("), ("+= ", "-= "), ("-= ", "+= "),
       ("..=", ".."), ("to_be", "to_le"), ("from_be", "from_le"), ("swap_bytes()", "reverse_bits()"), ("Ordering::Less", "Ordering::Equal"),
       ("is_le()", "is_lt()"), ("is_ge()", "is_gt()"), (".floor()", ".round()"), (".round()", ".trunc()"), (".trunc()", ".floor()"), ("if !", "if "), ("if ", "if !"),
       (".unwrap_or(0)", ".unwrap_or(1)"), (".rev()", ""), ("is_sign_negative", "is_sign_positive"), ("f64", "f32"), ("f32", "f64"),
       ("nanoseconds", "microseconds"), ("milliseconds", "microseconds"), ("num_seconds", "num_minutes"), (".0", ".1"), ("self.q", "self.input"), ("return ", "let _ = ")]

def mutants(f):
    t = open(os.path.join(SRC, f), encoding="utf-8", newline="").read()
    s = strip(t)
    out, pos = [], 0
    for line in s.split("\n"):
        b = pos; pos += len(line) + 1
        L = line.strip()
        if not L or L.startswith(("use ", "#[", "#!", "mod ", "pub mod")): continue
        no = t[:b].count("\n") + 1
        def put(i, j, new):
            out.append((f, t[:b + i] + new + t[b + j:], f"{f}:{no}: {L}  ->  {(line[:i] + new + line[j:]).strip()}"))
        sig = " fn " in line or L.startswith("fn ")
        for x, y in REP:
            if x == "if " and "if !" in line: continue
            for m in re.finditer(re.escape(x), line):
                if x in ("f64", "f32", "true", "false", ".0") and re.match(r"\w", line[m.end():m.end() + 1] or " "): continue
                if x in ("f64", "f32") and re.match(r"\w", line[m.start() - 1]): continue
                if x == "if " and re.match(r"\w", line[m.start() - 1:m.start()]): continue
                if sig and x in (" < ", " > ", " & ", "&&"): continue
                put(m.start(), m.end(), y)
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?![\w.])", line):
            if sig: continue
            v = int(m.group(1).replace("_", ""))
            put(m.start(), m.end(), str(v + 1))
            if v: put(m.start(), m.end(), str(v - 1))
        for m in re.finditer(r"\bas (" + "|".join(INTS) + r")\b", line):
            for y in rng.sample([x for x in INTS if x != m.group(1)], 3): put(m.start(1), m.end(1), y)
            put(m.end(), m.end(), " + 1")
        for m in re.finditer(r"(?<![\w])(" + "|".join(INTS) + r")(?!\w)", line):
            if line[:m.start()].endswith("as "): continue
            if re.search(r"\) -> [iu]\d+ \{$", line) and m.start() > line.rindex("->"): continue  # same register
            w = lambda x: int(x[1:].replace("size", "64"))
            for y in rng.sample([x for x in INTS if x != m.group(1)], 2):
                if not sig or w(y) < w(m.group(1)): put(m.start(), m.end(), y)
        if re.match(r"^\s*(\*?\w[\w.\[\]]*(\(.*\))?\s*([-+*/|&]?=\s.*)?);\s*$", line) and not L.startswith("return"):
            put(len(line) - len(line.lstrip()), len(line), "")
        # exchanged arguments of a call
        for m in re.finditer(r"\w\(([^()]+(?:\([^()]*\))?[^()]*)\)", line):
            args = [x.strip() for x in m.group(1).split(",")]
            if not sig and len(args) > 1 and all(args):
                k = rng.randrange(len(args) - 1); z = args[:]; z[k], z[k + 1] = z[k + 1], z[k]
                put(m.start(1), m.end(1), ", ".join(z))
    return out

files = a or sorted(PROPS)
allm = []
for f in files: allm += mutants(f)
rng.shuffle(allm); allm = allm[:limit]
if retest:
    # the survivors listed in an earlier run's output, with the checks' full quick budget
    want = {l.split(" | ", 1)[1].strip() for l in open(retest) if l.startswith("SURVIVED | ")}
    allm = list({m[2]: m for m in allm if m[2] in want}.values())
print(len(allm), "mutants", flush=True)
if lst:
    for m in sorted(allm, key=lambda m: m[2])[:]: print(m[2])
    sys.exit()

def sh(cmd, **k):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 99, "timeout")
def setup(n):
    d = f"{root}/w{n}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/m")
    sh(f"cp -a /repo {d}/repo")
    open(f"{d}/m/Cargo.toml", "w").write(open("/opt/vp/rustlib/Cargo.toml").read().replace('"/repo', f'"{d}/repo'))
    if os.path.exists("/opt/vp/rustlib/Cargo.lock"): shutil.copy("/opt/vp/rustlib/Cargo.lock", f"{d}/m/")
    sh(f"mkdir {d}/verif; cd {V}; cp -a bin harness lib tools target properties.jsonl MANIFEST.json known_findings.txt {d}/verif/; mkdir -p {d}/verif/evidence {d}/verif/work")
    p = f"{d}/verif/lib/Cargo.toml"
    t = open(p).read().replace('"/repo/', f'"{d}/repo/'); open(p, "w").write(t)
    return d
def one(d, m):
    f, text, what = m
    p = f"{d}/repo/src/{f}"
    open(p, "w", encoding="utf-8", newline="").write(text)
    try:
        pre = f". /opt/vp/rustlib/env.sh; export CARGO_TARGET_DIR={d}/repo/target CARGO_BUILD_JOBS=2; cd {d}/repo; "
        r = sh(pre + f"timeout -k 5 120 cargo test --lib --manifest-path {d}/m/Cargo.toml --no-fail-fast --offline -- --test-threads 4", timeout=300)
        passed = set(re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok", r.stdout, re.M))
        if not passed: return "no build", what
        if STABLE - passed: return "tests", what
        r = sh(f"REPO_DIR={d}/repo CARGO_BUILD_JOBS=2 bin/check --build", cwd=f"{d}/verif", timeout=600)
        if r.returncode: return "no harness build", what
        for c in PROPS.get(f, "").split():
            r = sh(f"REPO_DIR={d}/repo bin/check {c} {'' if retest else f'--cases {cases}'}", cwd=f"{d}/verif", timeout=600)
            if r.returncode == 1: return "killed " + c, what
            if r.returncode: return f"ERROR {c} {r.stdout[-200:]}", what
        return "SURVIVED", what
    finally:
        shutil.copyfile(f"{SRC}/{f}", p)
q = queue.Queue()
for m in allm: q.put(m)
tally, lock = {}, threading.Lock()
def work(n):
    d = setup(n)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        try: k, what = one(d, m)
        except Exception as e: k, what = "ERROR " + repr(e), m[2]
        with lock:
            kk = k.split()[0]
            tally[kk] = tally.get(kk, 0) + 1
            if sum(tally.values()) % 50 == 0: print(tally, flush=True)
            if kk not in ("killed", "tests", "no"): print(k, "|", what, flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(n,)) for n in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
print(tally)
