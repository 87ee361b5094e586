#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: rebuild from /repo's working tree, explore, judge, write evidence.
check.py --setup: build everything once.   check.py --replay FILE: run one recorded execution again.
Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: the check could not decide."""
import fcntl, hashlib, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = HERE + "/build/cargo"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET)
ENV.pop("RUSTC_WRAPPER", None); ENV.pop("RUSTFLAGS", None)
# property -> parts of the machinery that decide it
PARTS = {
    "C01": ["full", "js"], "C02": ["full", "js"], "C03": ["full", "js"], "C04": ["pure", "full", "js"], "C05": ["full", "js"], "C06": ["pure", "full"], "C07": ["pure", "full", "js"], "C08": ["pure"],
    "C09": ["full", "js"], "C10": ["full"], "C11": ["pure", "full", "js"], "C12": ["full", "js"], "C13": ["full", "js"], "C14": ["pure", "js"], "C15": ["full"], "C16": ["js"], "C17": ["js"], "C18": ["full"], "C19": ["pure"], "C20": ["full"], "C21": ["full"], "C22": ["js"],
}
BUILD = {"js": [["--release", "-p", "addon"]], "pure": [["-p", "h-pure"]], "full": [["-p", "h-full"], ["-p", "zkenc-cli", "--bin", "zkenc"]]}
LIMIT = {"quick": 240, "thorough": 3000}

def sh(cmd, timeout, cwd=HERE + "/rust"):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, "timed out after %d s" % timeout
    return p.returncode, out.decode("utf8", "replace")

def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO + "/packages")):
        ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git", "dist", "pkg"))
        for f in sorted(fs):
            if f.endswith((".rs", ".ts", ".js", ".mjs", ".toml", ".json")):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def build(parts):
    """-> {part: error text}"""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(HERE + "/build/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    stamp, now = HERE + "/build/stamp", tree_hash()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        # never trust modification times of the tree under test
        sh(["cargo", "clean", "-q", "-p", "pure-core", "-p", "pure-cli", "-p", "zkenc-core", "-p", "zkenc-cli", "-p", "zkenc-js"], 120)
        sh(["cargo", "clean", "-q", "--release", "-p", "zkenc-core", "-p", "zkenc-cli", "-p", "zkenc-js"], 120)
        open(stamp, "w").write(now)
    bad = {}
    for part in parts:
        for args in BUILD[part]:
            rc, out = sh(["cargo", "build", "-q"] + args, 600)
            if rc: bad[part] = out; break
    return bad

def command(part, prop):
    if part in ("pure", "full"): return [TARGET + "/debug/h-" + part, prop]
    return ["node", "--expose-gc", HERE + "/js/main.mjs", prop]

def known():
    out = {}
    for l in open(HERE + "/known-findings.txt"):
        m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
        if m: out[(m[1], m[2])] = m[3].strip()
    return out

def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    parts = PARTS[prop]; bad = build(parts); build_s = time.time() - t0
    res, errors = {}, []
    for part in parts:
        if part in bad:
            errors.append("%s: does not build against this tree:\n%s" % (part, bad[part][-3000:])); continue
        out = "%s/build/%s-%s.json" % (HERE, prop, part)
        if os.path.exists(out): os.unlink(out)
        rc, text = sh(command(part, prop) + ["--tier", tier, "--out", out, "--limit", str(LIMIT[tier])], LIMIT[tier] + 200)
        print("[%s] %s" % (part, (text.strip() or "-").splitlines()[0]))
        if os.path.exists(out): res[part] = json.load(open(out))
        if rc in (-4, -6, -7, -8, -11) and part not in res:  # the code under test took the process down (stack overflow, abort)
            res[part] = dict(violations=[dict(sig="process-died", msg="the exploring process was ended by signal %d: %s" % (-rc, text.strip()[-500:]), exploration="", choices=[])], sig_counts={"process-died": 1}, exhaustive=False)
        elif rc != 0 or part not in res: errors.append("%s: exploration ended with status %d\n%s" % (part, rc, text[-2000:]))
    kf = known(); fresh, old = [], {}
    os.makedirs(HERE + "/replays", exist_ok=True)
    for part, r in res.items():
        counts = r.get("sig_counts", {})
        first = {}
        for v in r["violations"]:
            v["sig"] = re.sub(r"\s+", "_", v["sig"])
            if v["sig"] not in first or len(v["choices"]) < len(first[v["sig"]]["choices"]): first[v["sig"]] = v
        for sig, v in sorted(first.items()):
            if (prop, sig) in kf: old[sig] = v; continue
            path = "%s/replays/%s-%s.json" % (HERE, prop, hashlib.sha256((part + sig).encode()).hexdigest()[:10])
            json.dump(dict(property=prop, part=part, tier=tier, sig=sig, msg=v["msg"], exploration=v["exploration"], choices=v["choices"], count=counts.get(sig, 1),
                           rerun="python3 check.py --replay " + path), open(path, "w"), indent=1)
            fresh.append((sig, v["msg"], path))
    for sig, v in old.items(): print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kf[(prop, sig)], sig))
    for sig, msg, path in fresh: print("VIOLATION property=%s replay=%s\n  [%s] %s" % (prop, path, sig, msg[:600]))
    add = lambda k: sum(int(r.get(k, 0)) for r in res.values())
    cov = dict(states=add("states"), transitions=add("transitions"), traces_validated_against_impl=add("traces"), executions=add("executions"),
               samples=[s for p, r in res.items() for s in ["%s: %s" % (p, x) for x in r.get("samples", [])][:6]],
               exhaustive=bool(res) and not errors and all(r.get("exhaustive") for r in res.values()),
               bounds=[b for r in res.values() for b in r.get("bounds", [])], capped=[b for r in res.values() for b in r.get("capped", [])],
               outcomes={p: r.get("outcomes", {}) for p, r in res.items()}, max_depth=max([r.get("max_depth", 0) for r in res.values()] or [0]),
               parts={p: dict(states=r.get("states", 0), transitions=r.get("transitions", 0), traces=r.get("traces", 0), executions=r.get("executions", 0), wall_s=r.get("wall_s", 0)) for p, r in res.items()},
               known_findings_seen=sorted(old), violations_found={s: m[:400] for s, m, _ in fresh}, build_s=round(build_s, 1), errors=[e[:500] for e in errors])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(fresh),
              assumptions=ASSUME.get(prop, []) + ([COMMON] if "full" in parts or "js" in parts else []))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d traces replayed on the code, %.1f s" % (prop, tier, cov["executions"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"], ev["wall_s"]))
    if fresh: return 1
    if errors:
        for e in errors: print("ERROR " + e)
        return 2
    return 0

COMMON = "the arkworks crates, which are not installed here, are stood in for by exact-arithmetic re-implementations (ideal pairing groups); blake3 is a re-implementation"
ASSUME = {
    "C22": ["React, the browser and the puzzle package, which are not installed here, are stood in for by js/page.mjs (hooks, batching and effects as documented) and by three fixed puzzles"],
    "C05": ["the attacker combines published elements by pairings of two of them and sums of two such terms with published coefficients"],
    "C14": ["AES/GHASH reference: an independent implementation in the harness, checked against the published test vectors on every run"],
}

if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["--setup"]:
        bad = build(sorted(BUILD))
        for p, e in bad.items(): print("%s: %s" % (p, e))
        sys.exit(2 if bad else 0)
    if a and a[0] == "--replay":
        r = json.load(open(a[1])); bad = build([r["part"]])
        if bad: print(bad); sys.exit(2)
        rc, text = sh(command(r["part"], r["property"]) + ["--tier", r["tier"], "--replay", r["exploration"], ",".join("%d:%d" % (n, c) for n, c in r["choices"])], 300)
        print(text); sys.exit(rc)
    sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
