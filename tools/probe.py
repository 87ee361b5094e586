#!/usr/bin/env python3
"""Hand-written mutants: probe.py LIST.py [ID..] -- LIST.py defines P = [(id, prop, file, old, new), ...]; each is applied
to a scratch copy (MUT=/tmp/probe), built, and the parts of that property's check run. Prints caught / SURVIVED."""
import sys, os, time
sys.argv0 = sys.argv[0]; here = os.path.dirname(os.path.abspath(__file__))
src = open(here + "/mutate.py").read().replace("\nmain()\n", "\n"); exec(compile(src, here + "/mutate.py", "exec"))
chk = {}; t = open(V + "/check.py").read(); exec("PARTS = " + t.split("PARTS = ")[1].split("\nBUILD")[0], chk)
L = {}; exec(open(sys.argv[1]).read(), L); want = set(sys.argv[2:])
prep()
def build(parts):
    if "js" in parts:
        rc, out = sh(["cargo", "build", "-q", "--release", "-p", "addon"], 900, M + "/rust")
        if rc: return out
    for p, args in (("pure", ["-p", "h-pure"]), ("full", ["-p", "h-full"]), ("full", ["-p", "zkenc-cli", "--bin", "zkenc"])):
        if p in parts:
            rc, out = sh(["cargo", "build", "-q"] + args, 900, M + "/rust")
            if rc: return out
for pid, prop, f, *edits in L["P"]:
    if want and pid not in want and prop not in want: continue
    src = M + "/repo/packages/" + f; orig = open("/repo/packages/" + f).read(); text = orig; t0 = time.time()
    for old, new in zip(edits[::2], edits[1::2]):
        if text.count(old) < 1: print(pid, "NO MATCH", repr(old[:60])); text = None; break
        text = text.replace(old, new, 1)
    if text is None: continue
    open(src, "w").write(text); parts = chk["PARTS"][prop]
    bad = build(parts if f.endswith(".rs") else ["js"] if "js" in parts else parts)
    if bad: print("%-8s %s nobuild %s" % (prop, pid, bad[-300:].replace("\n", " | ")), flush=True)
    else:
        hits = []
        for part in parts:
            cmd = [M + "/build/cargo/debug/h-" + part, prop] if part != "js" else ["node", "--expose-gc", M + "/js/main.mjs", prop]
            v = verdict(cmd, prop, 200)
            if v: hits.append("%s:%s" % (part, v[:3] if isinstance(v, list) else v))
        print("%-4s %-26s %-8s %5.1f s %s" % (prop, pid, "caught" if any(":[" in h for h in hits) else "ERROR" if hits else "SURVIVED", time.time() - t0, " ".join(hits)[:260]), flush=True)
    open(src, "w").write(orig)
