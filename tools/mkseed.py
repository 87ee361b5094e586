#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in seeds/*.py.  mkseed.py [ID...]; with --try: build, test, demonstrate and check each."""
import json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); REPO = "/repo"
SEEDS = {}
for p in sorted(glob.glob(HERE + "/seeds/*.py")): exec(open(p).read())

def run(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def support(d):
    s = d + "/support"; shutil.rmtree(s, ignore_errors=True); os.makedirs(s + "/demo/src"); os.makedirs(s + "/repo")
    R = V + "/rust"; ig = shutil.ignore_patterns("target")
    shutil.copytree(R + "/stubs", s + "/stubs", ignore=ig); shutil.copytree(R + "/mc", s + "/mc", ignore=ig)
    for n in ("zkenc-core", "zkenc-cli", "zkenc-js"): shutil.copytree(R + "/repo/" + n, s + "/repo/" + n, ignore=ig)
    t = open(R + "/Cargo.toml").read().replace('"h-pure", "h-full", "addon", ', '"demo", '); open(s + "/Cargo.toml", "w").write(t.replace("opt-level = 1", "opt-level = 0"))
    shutil.copy(R + "/Cargo.lock", s + "/Cargo.lock")
    c = open(R + "/h-full/Cargo.toml").read().replace('name = "h-full"', 'name = "demo"'); open(s + "/demo/Cargo.toml", "w").write(c)
    shutil.copy(HERE + "/seedkit/kit.rs", s + "/demo/src/kit.rs")

def make(i, s):
    assert not run("git", "-C", REPO, "status", "--short").stdout.strip(), "repo not clean"
    d = V + "/seeded/" + i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for f, a, b in s["edits"]:
            p = REPO + "/" + f; t = open(p).read(); assert t.count(a) == 1, (i, f, t.count(a), a); open(p, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(run("git", "-C", REPO, "diff").stdout)
    finally: run("git", "-C", REPO, "checkout", "--", ".")
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "rust" in s:
        open(d + "/main.rs", "w").write("mod kit;\nuse kit::*;\n" + s["rust"]); support(d)
        sh = open(HERE + "/seedkit/demo.sh").read()
        if s.get("also"): sh = sh.replace("${DEMO_ALSO:-}", s["also"])
        open(d + "/demo.sh", "w").write(sh)
    else:
        for n, t in s["files"].items(): open(d + "/" + n, "w").write(t)
        open(d + "/demo.sh", "w").write(s["demo"])
    for n in s.get("copies", []): shutil.copy(V + "/" + n, d)
    os.chmod(d + "/demo.sh", 0o755)

def trial(i, s):
    d = V + "/seeded/" + i; r = dict(id=i)
    a = run("bash", d + "/demo.sh", cwd=REPO); r["demo_clean"] = a.returncode
    if a.returncode: print(a.stdout[-1500:])
    assert not run("git", "-C", REPO, "status", "--short").stdout.strip(), "repo not clean"
    try:
        assert run("git", "-C", REPO, "apply", d + "/patch.diff").returncode == 0
        b = run("bash", "/opt/vp/build.sh"); r["build"] = b.returncode
        t = run("bash", "/opt/vp/test.sh", "/tmp/seed-test.json"); r["test"] = t.returncode
        a = run("bash", d + "/demo.sh", cwd=REPO); r["demo_bug"] = a.returncode; r["says"] = a.stdout.strip()[-300:]
        if "--nocheck" not in sys.argv:
            for p in [s["property"]] + s.get("more", []):
                c = run("python3", V + "/check.py", p, "quick", cwd=V); r[p] = c.returncode; r[p + "-why"] = [l for l in c.stdout.splitlines() if l.startswith("  [") or l.startswith("ERROR")][:4]
    finally: run("git", "-C", REPO, "checkout", "--", ".")
    print(json.dumps(r, indent=1)[:3000], flush=True)

ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(SEEDS)
for i in ids:
    if "--try" not in sys.argv or not os.path.exists(V + "/seeded/" + i): make(i, SEEDS[i])
    if "--try" in sys.argv: trial(i, SEEDS[i])
