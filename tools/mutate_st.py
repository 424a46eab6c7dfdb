#!/usr/bin/env python3
"""Mutation test of the checks over the ST library: mutates one statement or declaration at a time in a scratch copy
(the built harness reads the ST files at run time) and lists the mutants no check notices.
usage: mutate_st.py [--cases N] [--limit N] [--seed N] [file.st ...]"""
import os, re, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
cases, limit, seed = int(opt("--cases", "4000")), int(opt("--limit", "100000")), int(opt("--seed", "1"))
props = opt("--props", "C31,C32,C33,C34,C35,C36,C37,C38,C17,C18,C19,C20,C21,C22,C23").split(",")
src = "/repo/iec61131-st"
files = a or sorted(f for f in os.listdir(src) if f.endswith(".st"))
TYPES = ["LWORD","DWORD","WORD","BYTE","LINT","DINT","INT","SINT","ULINT","UDINT","UINT","USINT","REAL","LREAL","BOOL","STRING","WSTRING","CHAR","WCHAR","TIME","DATE","TOD","DT"]
rng = random.Random(seed)
def strip(t):
    # keep positions, blank comments
    def bl(m): return re.sub(r"[^\n]", " ", m.group(0))
    t = re.sub(r"\(\*.*?\*\)", bl, t, flags=re.S)
    t = re.sub(r"/\*.*?\*/", bl, t, flags=re.S)
    return re.sub(r"//[^\n]*", bl, t)
def mutants(f):
    t = open(os.path.join(src, f), encoding="utf-8", newline="").read()
    s = strip(t)
    out = []
    pos = 0
    for line in s.split("\n"):
        b, e = pos, pos + len(line); pos = e + 1
        if not line.strip(): continue
        L = line.strip()
        def put(i, j, new, what): out.append((f, t[:b+i] + new + t[b+j:], f"{f}:{t[:b].count(chr(10))+1}: {L}  ->  {what}"))
        # type names
        for m in re.finditer(r"(?<![\w])(" + "|".join(TYPES) + r")(?![\w#])", line):
            if m.group(1) in ("TIME","DATE") and "FUNCTION" in line and m.start() < 12: continue
            alt = [x for x in TYPES if x != m.group(1)]
            for x in rng.sample(alt, 2):
                put(m.start(), m.end(), x, line[:m.start()].strip() + " " + x + line[m.end():])
        # call of another function: change the type in the name
        for m in re.finditer(r"\b([A-Z_]+)(__|_TO_|_)(" + "|".join(TYPES + ["DATE_AND_TIME","TIME_OF_DAY"]) + r")\b(?=\()", line):
            x = rng.choice([x for x in TYPES if x != m.group(3)])
            put(m.start(3), m.end(3), x, "call " + m.group(1) + m.group(2) + x)
        if ":=" in line and "(" in line or re.match(r"^\s*\w+\(", line):
            m = re.search(r"\(([^()]*,[^()]*)\)", line)
            if m:
                args = [x.strip() for x in m.group(1).split(",")]
                for k in range(len(args) - 1):
                    z = args[:]; z[k], z[k+1] = z[k+1], z[k]
                    put(m.start(1), m.end(1), ", ".join(z), "args " + ", ".join(z))
        if ":=" in line and line.rstrip().endswith(";") and "__STRING_LENGTH" not in line:
            put(0, len(line), "", "(deleted)")
            m = re.search(r":=\s*(.*);", line)
            put(m.start(1), m.end(1), m.group(1) + " + 1", "+ 1")
        for x, y in [("<>", "="), ("< 0", "<= 0"), ("< 0", "> 0"), ("TRUE", "FALSE"), ("FALSE", "TRUE"), (".0", ".1"), ("-1", "1"), ("{ref}", ""), ("{external}", ""), ("{sized}", ""), ("VAR_IN_OUT", "VAR_INPUT"), ("VAR_INPUT", "VAR_INPUT {ref}"), ("VAR_OUTPUT", "VAR_INPUT")]:
            i = line.find(x)
            if i >= 0: put(i, i + len(x), y, f"{x} -> {y}")
    return out
allm = []
for f in files: allm += mutants(f)
rng.shuffle(allm); allm = allm[:limit]
def one(m):
    f, text, what = m
    d = tempfile.mkdtemp(prefix="mst")
    try:
        shutil.copytree(src, d + "/iec61131-st")
        open(os.path.join(d, "iec61131-st", f), "w", encoding="utf-8", newline="").write(text)
        os.mkdir(d + "/o")
        for p in props:
            e = dict(os.environ, REPO=d, KNOWN_FINDINGS="/dev/null")
            try:
                r = subprocess.run([V + "/target/harness-release", "run", p, "--seed", "1", "--cases", str(cases), "--out", d + "/o"], env=e, capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                return ("timeout " + p, what)
            if r.returncode != 0: return (f"error {p}: " + r.stderr.strip().split("\n")[-1][:150], what)
            j = open(f"{d}/o/release-0.json").read()
            if '"violation":null' not in j: return ("killed " + p, what)
        return ("SURVIVED", what)
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, allm))
from collections import Counter
print(Counter(r[0].split(":")[0] for r in res))
for r in res:
    if not r[0].startswith("killed"): print(r[0], "|", r[1])
