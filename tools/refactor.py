#!/usr/bin/env python3
"""Behaviour-preserving rewrites: refactor.py [ID..] -- every R in tools/refactors/*.py = [(id, props, {file: [(start, end, new), ...]})]
replaces, in a scratch copy, the text from `start` up to (not including) the next `end` by `new`; the parts of the checks
of the named properties must then stay quiet. Prints quiet / ALARM / nobuild."""
import sys, os, time, glob
here = os.path.dirname(os.path.abspath(__file__))
src = open(here + "/mutate.py").read().replace("\nmain()\n", "\n"); exec(compile(src, here + "/mutate.py", "exec"))
chk = {}; t = open(V + "/check.py").read(); exec("PARTS = " + t.split("PARTS = ")[1].split("\nBUILD")[0], chk)
R = []
for f in sorted(glob.glob(here + "/refactors/*.py")): L = {}; exec(open(f).read(), L); R += L["R"]
want = set(sys.argv[1:])
prep()
def build(parts):
    cmds = []
    if "js" in parts: cmds.append(["cargo", "build", "-q", "--release", "-p", "addon"])
    if "pure" in parts: cmds.append(["cargo", "build", "-q", "-p", "h-pure"])
    if "full" in parts: cmds += [["cargo", "build", "-q", "-p", "h-full"], ["cargo", "build", "-q", "-p", "zkenc-cli", "--bin", "zkenc"]]
    for c in cmds:
        rc, out = sh(c, 900, M + "/rust")
        if rc: return out
for rid, props, files in R:
    if want and rid not in want and not any(rid.startswith(w) for w in want): continue
    t0 = time.time(); bad = None
    for f, segs in files.items():
        text = open("/repo/packages/" + f).read()
        for start, end, new in segs:
            i = text.find(start); j = -1 if i < 0 else len(text) if end == 'EOF' else text.find(end, i + len(start))
            if i < 0 or j < 0: bad = "NO MATCH " + repr((start[:50], end[:50])); break
            text = text[:i] + new + text[j:]
        if bad: break
        open(M + "/repo/packages/" + f, "w").write(text)
    if bad: print(rid, bad, flush=True)
    else:
        parts = {p for prop in props.split() for p in chk["PARTS"][prop]}
        if all(f.endswith((".ts", ".js", ".tsx")) for f in files): parts &= {"js"}
        out = build(parts)
        if out: print("%-24s nobuild\n%s" % (rid, out[-1500:]), flush=True)
        else:
            for prop in props.split():
                for part in chk["PARTS"][prop]:
                    if part not in parts: continue
                    cmd = [M + "/build/cargo/debug/h-" + part, prop] if part != "js" else ["node", "--expose-gc", M + "/js/main.mjs", prop]
                    v = verdict(cmd, prop, 240)
                    if v: print("%-24s ALARM %s %s %s" % (rid, prop, part, v), flush=True)
            print("%-24s done %.0f s" % (rid, time.time() - t0), flush=True)
    for f in files: open(M + "/repo/packages/" + f, "w").write(open("/repo/packages/" + f).read())
