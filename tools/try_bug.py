#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies (never in /repo): the patch applies and builds, the stable tests pass, the
demonstration passes without and fails with the patch; then runs the property's check on the patched copy.

  tools/try_bug.py ID...            (default: all under seeded/)
  options: --no-check  --all-checks  --tier T  --seed N
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
opt = lambda n, d: args[args.index(n) + 1] if n in args else d
tier, seed = opt("--tier", "quick"), opt("--seed", "1")
ids = [a for i, a in enumerate(args) if not a.startswith("--") and (i == 0 or args[i - 1] not in ("--tier", "--seed"))]
ids = ids or sorted(os.listdir(f"{V}/seeded"))
STABLE = {s.split("::", 1)[1].removeprefix("/repo/src/lib.rs::") if "lib.rs::" in s else s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def prepare(root):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    sh(f"cp -a /repo {root}/repo")
    os.makedirs(f"{root}/m")
    open(f"{root}/m/Cargo.toml", "w").write(open("/opt/vp/rustlib/Cargo.toml").read().replace('"/repo', f'"{root}/repo'))
    if os.path.exists("/opt/vp/rustlib/Cargo.lock"):
        shutil.copy("/opt/vp/rustlib/Cargo.lock", f"{root}/m/Cargo.lock")


def build(root, tests):
    pre = f". /opt/vp/rustlib/env.sh; export CARGO_TARGET_DIR={root}/repo/target; cd {root}/repo; "
    r = sh(pre + f"cargo build --manifest-path {root}/m/Cargo.toml --offline")
    if r.returncode or not tests:
        return r.returncode == 0, r.stdout
    r = sh(pre + f"cargo test --manifest-path {root}/m/Cargo.toml --no-fail-fast --offline -- --test-threads 8")
    passed = set(re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok", r.stdout, re.M))
    missing = [s for s in STABLE if s not in passed]
    return not missing, f"tests not passing: {missing[:5]}\n" + (r.stdout[-500:] if missing else "")


def demo(root, i):
    d = f"{root}/demo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{V}/seeded/{i}", d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh(f"bash {d}/demo.sh", cwd=f"{root}/repo", timeout=300)
    return r.returncode, r.stdout[-600:]


clean = "/tmp/bt/clean"
prepare(clean)
ok, out = build(clean, False)
assert ok, out
bad = 0
for i in ids:
    i = i if os.path.isdir(f"{V}/seeded/{i}") else next(x for x in sorted(os.listdir(f"{V}/seeded")) if x.startswith(i + "-"))
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    root = f"/tmp/bt/{i}"
    prepare(root)
    r = sh(f"git apply {V}/seeded/{i}/patch.diff", cwd=f"{root}/repo")
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout); bad += 1; continue
    ok, out = build(root, True)
    if not ok:
        print(i, "BUILD/TESTS FAIL", out[-700:]); bad += 1; continue
    a, oa = demo(clean, i)
    b, ob = demo(root, i)
    if a != 0 or b == 0:
        print(i, f"DEMO WRONG clean={a} patched={b}\n{oa}\n{ob}"); bad += 1; continue
    msg = f"{i} ok (demo: {ob.strip().splitlines()[-1][:150] if ob.strip() else b})"
    if "--no-check" not in args:
        sh(f"rsync -a --exclude seeded --exclude work {V}/ {root}/verif/ 2>/dev/null || (cp -a {V} {root}/verif)")
        lib = f"{root}/verif/lib/Cargo.toml"
        t = open(lib).read().replace('"/repo/', f'"{root}/repo/')
        open(lib, "w").write(t)
        props = [meta["property"]]
        if "--all-checks" in args:
            props = [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
        caught = []
        for p in props:
            r = sh(f"REPO_DIR={root}/repo bin/check {p} --tier {tier} --seed {seed}", cwd=f"{root}/verif")
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                caught.append(p)
                if p == meta["property"]:
                    msg += "\n    " + "\n    ".join(r.stdout.strip().splitlines()[:4])
            elif r.returncode != 0:
                msg += f"\n    {p}: exit {r.returncode} {r.stdout[-500:]}"
        msg += f"\n    {'CAUGHT' if meta['property'] in caught else 'MISSED'} by {caught}"
    print(msg, flush=True)
    shutil.rmtree(root)
shutil.rmtree(clean)
print("bad:", bad)
