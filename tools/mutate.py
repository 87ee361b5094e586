#!/usr/bin/env python3
"""Mutation campaign on a scratch copy: every mutant of the given source files against the parts of the checks that
should notice. mutate.py (rs|ts) FILE... [--props P,P] [--from N] [--every K] ; results in /tmp/mut/<name>.jsonl"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); M = os.environ.get("MUT", "/tmp/mut")
def prep():
    os.makedirs(M, exist_ok=True)
    for src, dst in (("/repo", M + "/repo"), (V + "/rust", M + "/rust"), (V + "/js", M + "/js")):
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "--exclude", "node_modules", src + "/", dst + "/"] if shutil.which("rsync") else ["sh", "-c", "mkdir -p %s && cd %s && tar --exclude=./target --exclude=./.git --exclude=node_modules -cf - . | tar -xf - -C %s" % (dst, src, dst)], check=True)
    for d, _, fs in os.walk(M):
        if "/repo/" in d and "/rust/" not in d or d.startswith(M + "/repo"): continue
        if "target" in d or "build" in d: continue
        for f in fs:
            if f.endswith((".rs", ".toml", ".mjs")):
                p = d + "/" + f; t = open(p).read()
                if '"/repo/' in t: open(p, "w").write(t.replace('"/repo/', '"%s/repo/' % M))
def strip(lines, ts):
    """-> indices of lines that are code"""
    out, block, skip = [], False, None
    depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if block:
            if "*/" in s: block = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: block = True
            continue
        if not ts and s.startswith("#[cfg(test)]"): break
        if not s or s.startswith(("//", "*", "#", "use ", "import ", "export {", "pub mod", "mod ", "interface", "} from")): continue
        out.append(i)
    return out
def mutants(text, ts):
    lines = text.split("\n"); res = []
    for i in strip(lines, ts):
        l = lines[i]; code = l.split("//")[0] if '"' not in l.split("//")[0] or l.split("//")[0].count('"') % 2 == 0 else l
        add = lambda a, b, new: res.append((i, l[a:b], new, l[:a] + new + l[b:]))
        instr = [False] * (len(code) + 1); q = None
        for k, c in enumerate(code):
            instr[k] = q is not None
            if q: q = None if c == q and code[k-1] != "\\" else q
            elif c in '"`' or (ts and c == "'"): q = c; instr[k] = True
        def each(rx, f):
            for m in re.finditer(rx, code):
                if not instr[m.start()]:
                    for n in f(m): add(m.start(), m.end(), n)
        each(r"===|!==|==|!=", lambda m: [{"===": "!==", "!==": "===", "==": "!=", "!=": "=="}[m[0]]])
        each(r"(?<=[\w\)\]] )(<=|>=|<|>)(?= [\w\(\-])", lambda m: {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"]}[m[0]])
        each(r"(?<= )[+\-*/%](?= )", lambda m: {"+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "%": ["*"]}[m[0]])
        each(r"&&|\|\|(?! *\{)", lambda m: ["||" if m[0] == "&&" else "&&"])
        each(r"(?<=\()!(?=[\w])|(?<= )!(?=[\w])", lambda m: [""])
        each(r"(?<![\w.\"\[])\d+n?(?![\w.\"])|(?<=\[)\d+(?=\])", lambda m: [(str(int(m[0].rstrip("n")) + 1) + ("n" if m[0].endswith("n") else ""))] + (["0" + ("n" if m[0].endswith("n") else "")] if m[0].rstrip("n") not in ("0", "1") else []) + (["0" + ("n" if m[0].endswith("n") else "")] if m[0].rstrip("n") == "1" else []))
        each(r"\btrue\b|\bfalse\b", lambda m: ["false" if m[0] == "true" else "true"])
        each(r"\.\.=?(?=\w)", lambda m: [] if ts else ["..=" if m[0] == ".." else ".."])
        each(r"\b(0x[0-9a-fA-F]+)n?", lambda m: ["0x1" + ("n" if m[0].endswith("n") else "")])
        m = re.match(r"^(\s*)(\}? ?else )?if \((.*)\) \{\s*$" if ts else r"^(\s*)(\} else )?if (?!let )(.*) \{\s*$", l)
        if m:
            for b in ("true", "false"): res.append((i, "if", b, "%s%sif %s {" % (m[1], m[2] or "", ("(%s)" % b) if ts else b)))
        if re.match(r"^\s*(?!let |const |var |return |use |pub |export |type |throw |break|continue|\}|\))[\w.\*\[\]&]+.*;\s*$", l) and l.count("(") == l.count(")") and l.count("{") == l.count("}"):
            res.append((i, "stmt", "-", re.match(r"\s*", l)[0] + ";"))
        if re.match(r"^\s*(throw .*;|return Err\(.*\);|break;|continue;)\s*$", l): res.append((i, "stmt", "-", re.match(r"\s*", l)[0] + ";"))
    seen, out = set(), []
    for i, a, b, new in res:
        if (i, new) in seen or new == lines[i]: continue
        seen.add((i, new)); t = lines[:]; t[i] = new; out.append((i + 1, lines[i].strip(), new.strip(), "\n".join(t)))
    return out
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=M + "/build/cargo")
def sh(cmd, timeout, cwd):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, "timeout"
    return p.returncode, out.decode("utf8", "replace")
KNOWN = {m[1] + " " + m[2] for m in re.finditer(r"^known: property=(\S+) sig=(\S+)", open(V + "/known-findings.txt").read(), re.M)}
def verdict(cmd, prop, limit):
    out = M + "/out.json"
    if os.path.exists(out): os.unlink(out)
    rc, text = sh(cmd + ["--tier", "quick", "--out", out, "--limit", str(limit)], limit + 60, M)
    if not os.path.exists(out): return ["process died %d" % rc] if rc in (-4, -6, -7, -8, -11) else "error %d %s" % (rc, text[-200:])
    r = json.load(open(out)); sigs = [s for s in r.get("sig_counts", {}) if prop + " " + re.sub(r"\s+", "_", s) not in KNOWN]
    return sigs or ("error %d %s" % (rc, text[-200:]) if rc else sigs)
def main():
    a = sys.argv[1:]; kind = a[0]; files = [x for x in a[1:] if "/src/" in x]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    prep()
    if kind == "ts":
        if not os.path.exists(M + "/build/cargo/release/libaddon.so"): print(sh(["cargo", "build", "-q", "--release", "-p", "addon"], 900, M + "/rust"))
    else: print(sh(["cargo", "build", "-q"] + sum([["-p", p] for p in opt("--pkgs", "h-pure").split(",")], []), 900, M + "/rust"))
    plan = [tuple(p.split(":")) for p in opt("--props", "js:C17").split(",")] if ":" in opt("--props", "js:C17") else []
    for f in files:
        src = M + "/repo/packages/" + f; orig = open("/repo/packages/" + f).read(); ms = mutants(orig, kind == "ts"); every = int(opt("--every", "1"))
        log = open(M + "/" + f.replace("/", "_") + ".jsonl", "a"); tally = {}
        print(f, len(ms), "mutants", flush=True)
        if "--list" in a:
            for m in ms: print(m[0], m[1], "=>", m[2])
            continue
        for n, (ln, old, new, text) in list(enumerate(ms))[int(opt("--from", "0"))::every]:
            open(src, "w").write(text); t0 = time.time(); res, how = "SURVIVED", ""
            if kind == "rs":
                crate = "zkenc-" + f.split("/")[0].split("-")[1]
                rc, out = sh(["cargo", "build", "-q"] + sum([["-p", p] for p in opt("--pkgs", "h-pure").split(",")], []), 600, M + "/rust")
                if rc: res = "nobuild"
            if res != "nobuild":
                for part, prop in plan:
                    cmd = [M + "/build/cargo/debug/h-" + part, prop] if part != "js" else ["node", "--expose-gc", M + "/js/main.mjs", prop]
                    v = verdict(cmd, prop, 150)
                    if v:
                        res, how = ("caught" if isinstance(v, list) else "error"), "%s %s" % (prop, v[:3] if isinstance(v, list) else v); break
            tally[res] = tally.get(res, 0) + 1
            log.write(json.dumps(dict(n=n, line=ln, old=old, new=new, res=res, how=how, s=round(time.time() - t0, 1))) + "\n"); log.flush()
            if res in ("SURVIVED", "error"): print("%s %s:%d  %s  =>  %s   %s" % (res, f, ln, old, new, how[:200]), flush=True)
        open(src, "w").write(orig); print(f, tally, flush=True)
main()
