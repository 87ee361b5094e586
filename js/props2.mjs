// C16 (interleavings of calls in flight) and C17 (the witness calculator).
import { AsyncLocalStorage } from "node:async_hooks";
import fs from "node:fs";
import { explore, tier } from "./mc.mjs";
import * as W from "./world.mjs";
import { all, square, array, output, files, text, show, lib, dec, body } from "./props.mjs";
const { addon, P, mod, hex, eq, attempt, readWtns, fakeWasm, recorded, drain } = W;

const snap = (x) => JSON.stringify(x, (k, v) => typeof v === "bigint" ? v + "n" : ArrayBuffer.isView(v) ? "bytes:" + hex(new Uint8Array(v.buffer, v.byteOffset, v.byteLength)) : v);
// ---------------------------------------------------------------------------------------------
/** One call: its arguments (private copies), the promise, and how its result is judged. */
function calls() {
  const fx = globalThis.__c16 ??= (() => { const out = {}; for (const k of all) { const [ct, key] = addon("wasm_encap", k.r1cs, W.wtns([1n, ...k.cases.vals])); const m = text("message for " + k.name); out[k.name] = { ct, key, m, comb: W.join(1, ct, text(JSON.stringify(k.cases.pub)), addon("encrypt_gcm", key, m)[0]) }; } return out; })();
  const mk = (k, op, shared) => {
    const f = shared && shared.k === k ? shared.args.f : { r1csBuffer: Uint8Array.from(k.r1cs), symContent: k.sym, wasmBuffer: Uint8Array.from(k.wasm) }, x = fx[k.name];
    const pub = JSON.parse(JSON.stringify(k.cases.pub)), good = JSON.parse(JSON.stringify(k.cases.good[0], (a, v) => typeof v === "bigint" ? v.toString() : v)), msg = text("secret of " + k.name);
    const ct = Uint8Array.from(op === "decrypt" ? x.comb : x.ct), opts = { includePublicInput: true };
    const bind = (r) => { const got = recorded(r); return got.length === k.cases.vals.length && got.every((v, i) => v === k.cases.vals[i]) ? null : `recorded ${got}`; };
    return { name: `${op} ${k.name}`, args: { f, pub, good, msg, ct, opts }, k,
      run: (L) => op === "encap" ? L.index.encap(f, pub) : op === "decap" ? L.index.decap(f, ct, good) : op === "encrypt" ? L.index.encrypt(f, pub, msg, opts) : L.index.decrypt(f, ct, good),
      wrong: (r) => {
        if (op === "encap") return bind(r.ciphertext) || (eq(dec(k.r1cs, k.cases.wit, r.ciphertext), r.key) ? null : "the key is not the one in the ciphertext");
        if (op === "decap") return eq(r, x.key) ? null : `key ${hex(r)}, expected ${hex(x.key)}`;
        if (op === "decrypt") return eq(r, x.m) ? null : `message ${Buffer.from(r).toString("latin1")}`;
        const s = W.split(r.ciphertext); if (!s) return "layout"; const b = bind(s.ct); if (b) return b; const key = dec(k.r1cs, k.cases.wit, s.ct); if (!eq(key, r.key)) return "the returned key is not the one in the ciphertext";
        try { const m = addon("decrypt_gcm", key, s.msg)[0]; if (!eq(m, msg)) return `message ${Buffer.from(m).toString("latin1")}`; } catch (e) { return "the message part does not open: " + e; }
        return s.json && s.json.toString() === JSON.stringify(k.cases.pub) ? null : `public part ${s.json}`;
      } };
  };
  return mk;
}
/** Two circuits (s*s = p) that number their public inputs differently; their files agree in length, beginning and end. */
function twins() {
  return globalThis.__twins ??= [0, 1].map((swap) => {
    const pad = Array.from({ length: 40 }, (_, i) => `${i + 10},-1,0,main.inner[${i}].out`).join("\n"), sym = `${pad}\n1,${swap ? 2 : 1},0,main.p\n2,${swap ? 1 : 2},0,main.q\n3,3,0,main.s\n${pad}\n`, p = swap ? 2 : 1, free = [[[0, 1]], [[0, 1]], [[0, 1]]], rows = [...Array(12).fill(free), [[[3, 1]], [[3, 1]], [[p, 1]]], ...Array(12).fill(free)];
    const r1cs = W.r1cs(0, 2, 1, rows), wasm = fakeWasm({ n32: 8, prime: P, inputs: [["p", 1], ["q", 1], ["s", 1]], wires: [["one"], ["in", swap ? "q" : "p", 0], ["in", swap ? "p" : "q", 0], ["in", "s", 0]], asserts: [] });
    const cases = [[25, 7, 5], [36, 8, 6]].map(([pv, q, sv]) => { const vals = swap ? [BigInt(q), BigInt(pv)] : [BigInt(pv), BigInt(q)], [ct, key] = addon("wasm_encap", r1cs, W.wtns([1n, ...vals])), pub = { p: String(pv), q: String(q) }, m = text(`secret of ${swap} and ${pv}`); return { vals, pub, good: { ...pub, s: String(sv) }, wit: [1n, ...vals, BigInt(sv)], ct, key, m, comb: W.join(1, ct, text(JSON.stringify(pub)), addon("encrypt_gcm", key, m)[0]) }; });
    return { name: swap ? "second twin" : "first twin", sym, r1cs, wasm, cases };
  });
}
const OPS = ["encap", "decap", "encrypt", "decrypt"];
async function interleave(cx, list, { failures, later }) {
  const als = new AsyncLocalStorage(), rec = W.recorder(), { w, L } = lib({ controlled: true }, rec.con);
  const owner = new Map(), failed = new Set(); const step0 = w.sched.step.bind(w.sched); let initFailed = false;
  w.sched.step = (kind, run) => { const o = als.getStore(); const p = step0(kind, () => als.run(o, run)); const e = w.sched.pending.at(-1); if (e && e.kind === kind) { e.owner = o; const no = e.no; e.no = (x) => { failed.add(kind === "init" ? "init" : o); if (kind === "init") initFailed = true; no(x); }; } return p; };
  const before = list.map((c) => snap(c.args)), res = list.map(() => null), seq = [];
  const start = (i) => { als.run(i, () => { let p; try { p = c(i).run(L); } catch (e) { p = Promise.reject(e); } W.settle(Promise.resolve(p)).then((r) => { res[i] = r; seq.push(i); }); }); }; const c = (i) => list[i];
  // the first call is made at once, the others at any moment
  start(0); for (let i = 1; i < list.length; i++) { als.run(i, () => step0("call" + i, () => { start(i); })); }
  w.sched.waiting = () => res.some((r) => r === null);
  const fail = failures ? (kind) => kind.startsWith("call") ? [] : kind === "init" ? [() => new Error("init failed")] : kind === "compile" ? [() => new W.RealWasm.CompileError("no memory")] : kind === "instantiate" ? [() => new W.RealWasm.LinkError("no memory")] : [() => new DOMException("failed", "OperationError")] : null;
  await w.sched.drive(cx, fail, (s) => cx.state(list.map((c) => c.name).join("|") + s.pending.map((p) => p.owner + p.kind).sort().join() + "/" + res.map((r) => r && r[0]).join() + [...failed].join()));
  const names = list.map((c) => c.name).join(" | "), trace = w.sched.log.join(" "); cx.sample(() => `${names}: ${trace}`);
  list.forEach((c, i) => {
    const r = res[i]; cx.traced();
    if (!cx.check(r, "js:never-settles", () => `${names}: ${c.name} never settles after ${trace}`)) return;
    cx.outcome(`${r[0]}${failed.size ? " (a step failed)" : ""}`);
    const excused = failed.has(i) || failed.has("init");
    if (r[0] === "err") cx.check(excused, "js:call-fails", () => `${names}: ${c.name} fails after ${trace}: ${r[1]}`);
    else { cx.check(!failed.has(i), "js:failure-swallowed", () => `${names}: a step of ${c.name} failed, yet it returned (${trace})`); let bad; try { bad = c.wrong(r[1]); } catch (e) { bad = String(e && e.stack || e); } cx.check(!bad, "js:wrong-result", () => `${names}: ${c.name} after ${trace}: ${bad}`); }
    cx.check(snap(c.args) === before[i], "js:input-modified", () => `${names}: an argument of ${c.name} was modified (${trace})`);
  });
  cx.check(w.useBeforeInit === 0, "js:use-before-init", () => `${names}: the module was used before its initialization completed (${trace})`);
  if (!initFailed) cx.check(w.inits === 1, "js:initialized-again", () => `${names}: initialized ${w.inits} times (${trace})`);
  if (later) { // and afterwards the library works
    const c = later; const b = snap(c.args); let r = null; W.settle(Promise.resolve().then(() => c.run(L))).then((x) => { r = x; }); w.sched.waiting = () => r === null; const q = { choose: () => 0, dev: () => 0, op() {} }; await w.sched.drive(q);
    if (cx.check(r, "js:never-settles", () => `after ${names} (${trace}) ${c.name} never settles`)) { if (cx.check(r[0] === "ok", initFailed ? "js:init-failure-sticks" : "js:failure-sticks", () => `after ${names} (${trace}), a later ${c.name} fails: ${r[1]}`)) { const bad = c.wrong(r[1]); cx.check(!bad, "js:wrong-result", () => `after ${names} (${trace}), ${c.name}: ${bad}`); } cx.check(snap(c.args) === b, "js:input-modified", () => `${c.name}`); }
    cx.check(w.useBeforeInit === 0, "js:use-before-init", () => `${names}: used before initialization completed`);
  }
}
function c16() {
  explore("two calls", "every pair of operations (encap, decap, encrypt, decrypt) on the same or different circuits, sharing their file buffers or not, the second called at any moment, every completion order of initialization, compilation, instantiation, key import, encryption and decryption: each returns what it would return alone, inputs unmodified, one initialization before use, a later call (the same again or another) works", 0, async (cx) => {
    const mk = calls(), a = cx.pick(OPS), b = cx.pick(OPS), k = cx.pick(tier([square], all)), l = cx.pick([square, array]); const one = mk(k, a), two = mk(l, b, k === l && cx.flag() ? one : null); await interleave(cx, [one, two], { later: cx.flag() ? one : mk(output, cx.pick(tier(["encap"], OPS))) });
  });
  explore("two calls, failing steps", "the same with up to 2 steps failing: only calls whose own step (or the initialization) failed may fail, and a later call (either again, or another) works", 2, async (cx) => {
    const mk = calls(), a = cx.pick(OPS), b = cx.pick(tier(["encap", "decap", "decrypt"], OPS)); const one = mk(square, a), two = mk(array, b); const l = cx.choose(3); await interleave(cx, [one, two], { failures: true, later: l === 0 ? one : l === 1 ? two : mk(output, cx.pick(tier(["encap"], OPS))) });
  });
  explore("three calls", "triples of calls of which at most one (thorough: any) is not an encapsulation or decapsulation, every completion order", 0, async (cx) => {
    const mk = calls(), set = tier(["encap", "decap"], ["encap", "decap", "decrypt"]); await interleave(cx, [mk(square, cx.pick(set)), mk(array, cx.pick(set)), mk(output, cx.pick(set))], { later: null });
  });
  explore("one call, failing steps", "every operation x every circuit alone with up to 3 failing steps, and then again on the same module with the same or fresh arguments", 3, async (cx) => {
    const mk = calls(), k = cx.pick(all), a = cx.pick(OPS), one = mk(k, a); await interleave(cx, [one], { failures: true, later: cx.flag() ? one : mk(cx.pick(all), cx.pick(OPS), cx.flag() ? one : null) });
  });
  explore("failing calls and later ones", "sequences of up to 3 (thorough: 4) calls one after another on one module, each right, with wrong inputs, a damaged ciphertext, a damaged circuit or a damaged circuit program: every right call gives its own result", 0, async (cx) => {
    const mk = calls(), rec = W.recorder(), { w, L } = lib({}, rec.con), n = tier(3, 4), hist = [];
    for (let i = 0; i < n; i++) {
      const c = mk(i % 2 ? array : square, cx.pick(OPS)), how = cx.choose(i === n - 1 ? 1 : 5); const a = c.args;
      if (how === 1) { a.good.p = a.good.m = "3"; a.pub.p = a.pub.m = "x"; } if (how === 2) { a.ct = a.ct.fill(7); a.f.symContent = ""; } if (how === 3) a.f.r1csBuffer.fill(0, 0, 4); if (how === 4) { a.f.wasmBuffer.fill(0, 0, 4); a.f.r1csBuffer = a.f.r1csBuffer.fill(1, 20, 24); }
      const b = snap(a), r = await attempt(() => c.run(L)); hist.push(c.name + (how ? " damaged" : "")); cx.op(); cx.traced(); cx.state(hist.join()); cx.outcome(`${how ? "damaged" : "right"} ${r[0]}`);
      if (!how) { if (cx.check(r[0] === "ok", "js:failure-sticks", () => `${hist.join(", ")}: ${r[1]}`)) { const bad = c.wrong(r[1]); cx.check(!bad, "js:wrong-result", () => `${hist.join(", ")}: ${bad}`); } } else cx.check(r[0] === "err", "js:damaged-accepted", () => hist.join(", "));
      cx.check(snap(a) === b, "js:input-modified", () => `an argument of ${hist.join(", ")} was modified`);
    }
    cx.check(w.inits === 1, "js:initialized-again", () => `initialized ${w.inits} times over ${hist.join(", ")}`); cx.sample(() => hist.join(", "));
  });
  explore("look-alike and reused arguments", "all sequences of 3 calls, each any operation (quick: the second a decapsulation or decryption) on one of two circuits whose files have equal lengths, beginnings and ends, with one of two sets of inputs, in fresh objects or in the objects of the call before, overwritten in place: every call answers for the arguments it was given", 0, async (cx) => {
    const { L } = lib(), n = 3, hist = []; let old = null;
    for (let i = 0; i < n; i++) {
      const t = twins()[cx.choose(2)], v = t.cases[cx.choose(2)], op = cx.pick(i === 1 ? tier(["decap", "decrypt"], OPS) : OPS), reuse = i > 0 && cx.flag();
      const ct = op === "decrypt" ? v.comb : v.ct; let a;
      if (reuse) { a = old; a.f.r1csBuffer.set(t.r1cs); a.f.wasmBuffer.set(t.wasm); a.f.symContent = t.sym; Object.assign(a.pub, v.pub); Object.assign(a.good, v.good); a.msg.set(v.m); if (a.ct.length === ct.length) a.ct.set(ct); else a.ct = Uint8Array.from(ct); }
      else a = { f: { r1csBuffer: Uint8Array.from(t.r1cs), symContent: t.sym, wasmBuffer: Uint8Array.from(t.wasm) }, pub: { ...v.pub }, good: { ...v.good }, msg: Uint8Array.from(v.m), ct: Uint8Array.from(ct) };
      old = a; hist.push(`${op} ${t.name} p=${v.pub.p}${reuse ? " (same objects)" : ""}`); const b = snap(a);
      const r = await attempt(() => op === "encap" ? L.index.encap(a.f, a.pub) : op === "decap" ? L.index.decap(a.f, a.ct, a.good) : op === "encrypt" ? L.index.encrypt(a.f, a.pub, a.msg, { includePublicInput: true }) : L.index.decrypt(a.f, a.ct, a.good)); cx.op(); cx.traced(); cx.state(hist.join()); cx.outcome(op + " " + r[0]);
      const what = () => hist.join(", then "); if (!cx.check(r[0] === "ok", "js:look-alike:call-fails", () => `${what()}: ${r[1]}`)) return;
      const bound = (c) => { const g = recorded(c); return g.length === 2 && g.every((x, j) => x === v.vals[j]); }; const res = r[1]; let good;
      if (op === "encap") good = bound(res.ciphertext) && eq(dec(t.r1cs, v.wit, res.ciphertext), res.key); else if (op === "decap") good = eq(res, v.key); else if (op === "decrypt") good = eq(res, v.m);
      else { const sp = W.split(res.ciphertext); try { good = sp && bound(sp.ct) && eq(addon("decrypt_gcm", dec(t.r1cs, v.wit, sp.ct), sp.msg)[0], v.m) && sp.json.toString() === JSON.stringify(v.pub); } catch { good = false; } }
      cx.check(good, "js:look-alike:wrong-result", () => `${what()}: not the answer for these arguments`); cx.check(snap(a) === b, "js:input-modified", () => `an argument of ${what()} was modified`);
    }
    cx.sample(() => hist.join(", then "));
  });
  explore("witness calculators side by side", "two witness computations of different circuits (calculateWitness, calculateWitnessArray, getCircuitInfo) in flight, every completion order, up to one failing step: each gives its own circuit's answer, also when circuits print messages or fail their assertions", 1, async (cx) => {
    const { w, L } = lib({ controlled: true }); const c1 = { ...square.circuit, log: ["value ", 1, "\n"] }, c2 = { ...array.circuit, asserts: cx.flag() ? [[1, 2]] : [] }; const als = new AsyncLocalStorage(), failed = new Set();
    const st = w.sched.step.bind(w.sched); w.sched.step = (kind, run) => { const o = als.getStore(), p = st(kind, () => als.run(o, run)), e = w.sched.pending.at(-1), no = e.no; e.no = (x) => { failed.add(o); no(x); }; return p; };
    const ops = ["calculateWitness", "calculateWitnessArray", "getCircuitInfo"], o = [cx.pick(ops), cx.pick(ops)], ins = [{ p: "25", s: "5" }, { m: ["35", "25"], t: [5, "7"] }], codes = [fakeWasm(c1), fakeWasm(c2)], before = snap([ins, codes]), res = [null, null]; const want = [square.cases.wit, array.cases.wit];
    [0, 1].forEach((i) => als.run(i, () => W.settle(o[i] === "getCircuitInfo" ? L.witness.getCircuitInfo(codes[i]) : L.witness[o[i]](codes[i], ins[i])).then((r) => { res[i] = r; }))); w.sched.waiting = () => res.includes(null);
    await w.sched.drive(cx, () => [() => new W.RealWasm.CompileError("no memory")]); const trace = w.sched.log.join(" "); cx.sample(() => `${o}: ${trace}`); cx.state([o, trace, c2.asserts.length]);
    [0, 1].forEach((i) => { const r = res[i]; cx.traced(); if (!cx.check(r, "js:never-settles", () => `${o[i]} after ${trace}`)) return; cx.outcome(o[i] + " " + r[0]); const stops = i === 1 && c2.asserts.length && o[1] !== "getCircuitInfo";
      if (failed.has(i) || stops) { cx.check(r[0] === "err", "js:failure-swallowed", () => `${o[i]} returned after ${trace}`); if (stops && !failed.has(1)) cx.check(/Assert Failed/.test(r[1]) && /Template|template Fake/.test(r[1]), "js:assertion-text", () => r[1]); return; }
      if (!cx.check(r[0] === "ok", "js:call-fails", () => `${o[i]} after ${trace}: ${r[1]}`)) return;
      const v = o[i] === "calculateWitness" ? readWtns(r[1]).values : r[1]; if (o[i] === "getCircuitInfo") cx.check(v.prime === P && v.n32 === 8 && v.witnessSize === want[i].length && v.version === 2, "js:circuit-info", () => show(v)); else cx.check(v && v.length === want[i].length && v.every((x, j) => x === want[i][j]), "js:wrong-result", () => `${o[i]} after ${trace}: ${v}`); });
    cx.check(snap([ins, codes]) === before, "js:input-modified", () => `an argument of ${o} was modified`);
  });
}
// ---------------------------------------------------------------------------------------------
/** Primes of exactly these many 32-bit words. */
const FIELDS = [[1, 97n], [1, 4294967291n], [2, 18446744069414584321n], [3, (1n << 89n) - 1n], [4, (1n << 127n) - 1n], [8, P], [12, 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787n]];
const flat = (x) => Array.isArray(x) ? x.flatMap(flat) : [x];
async function calc(which, code) { const { w, L } = lib(); const b = which ? W.freshJs() : L.builder; return { w, c: await b(code) }; }
/** Judge what the circuit was told and what came back. */
function judgeRun(cx, what, log, ref, r, out, circuit, prime, n32) {
  if (ref.bad) { cx.check(r[0] === "err", "calc:accepted:" + ref.bad.split(" ")[0], () => `${what}: ${ref.bad}, yet a witness is returned`); return; }
  if (!cx.check(r[0] === "ok", "calc:refused", () => `${what}: ${r[1]}`)) return;
  const sets = log.sets.at(-1) || [], got = new Map(sets.map(([n, i, v]) => [n + "#" + i, v])), want = circuit.inputs.flatMap(([n]) => ref.vals[n].map((v, i) => [n + "#" + i, v]));
  cx.check(sets.length === want.length && want.every(([k, v]) => got.get(k) === v), "calc:fed", () => `${what}: the circuit was given ${show(sets)}, expected ${show(want)}`);
  const byName = {}; for (const [n, i] of sets) (byName[n] ??= []).push(i); for (const n in byName) cx.check(byName[n].every((x, i) => x === i), "calc:order", () => `${what}: ${n} set in order ${byName[n]}`);
  const wit = ref.wit; const same = (v) => v.length === wit.length && v.every((x, i) => x === wit[i]);
  if (out === 0) cx.check(same(r[1]), "calc:array", () => `${what}: returned ${r[1]}, expected ${wit}`);
  if (out === 1) { const v = []; for (let i = 0; i < r[1].length; i += 4 * n32) v.push(W.fromLe(r[1].subarray(i, i + 4 * n32))); cx.check(r[1].length === 4 * n32 * wit.length && same(v), "calc:binary", () => `${what}: binary ${hex(r[1]).slice(0, 200)}, expected ${wit}`); }
  if (out === 2) { const f = readWtns(r[1]); cx.check(!f.bad && f.n8 === 4 * n32 && f.prime === prime && same(f.values), "calc:file", () => `${what}: file ${show(f)}, expected ${wit}`); }
}
const METHODS = ["calculateWitness", "calculateBinWitness", "calculateWTNSBin"];
const evalWires = (c, vals, prime) => { const w = []; c.wires.forEach((o, i) => { if (o[0] !== "mul" && o[0] !== "add") w[i] = o[0] === "one" ? 1n : o[0] === "const" ? BigInt(o[1]) : vals[o[1]][o[2]]; }); c.wires.forEach((o, i) => { if (o[0] === "mul") w[i] = w[o[1]] * w[o[2]] % prime; if (o[0] === "add") w[i] = (w[o[1]] + w[o[2]]) % prime; }); return w; };
function reference(circuit, input, prime) {
  const vals = {}; const sizes = new Map(circuit.inputs);
  for (const k of Object.keys(input)) { const f = flat(input[k]); if (!sizes.has(k)) { if (f.length === 0 && circuit.unknown === 0) continue; return { bad: "unknown name" }; } if (f.length !== sizes.get(k)) return { bad: f.length < sizes.get(k) ? "too-few values" : "too-many values" }; try { vals[k] = f.map((v) => mod(BigInt(v), prime)); } catch { return { bad: "not-a-number value" }; } }
  for (const [n, s] of circuit.inputs) if (!vals[n]) { if (s) return { bad: "missing input" }; vals[n] = []; }
  return { vals, wit: evalWires(circuit, vals, prime) };
}
function c17() {
  const SH = { 1: [1, [1]], 2: [[2]], 3: [[3]], 4: [[4], [2, 2]], 6: [[6], [2, 3], [3, 2], [1, 2, 3], [3, 1, 2]], 8: [[8], [2, 2, 2], [2, 4]], 0: [[0]] };
  const nest = (dims, vals) => typeof dims === "number" ? vals.shift() : dims.length === 0 ? vals.shift() : [...Array(dims[0])].map(() => nest(dims.slice(1), vals));
  explore("inputs", "up to 3 named inputs of sizes 0 to 8 in every nesting x order of keys x field width x one value at a boundary in every spelling x one name or count wrong x every output form, by both calculators: every element set once, reduced, in row-major order, and the outputs are the witness; otherwise refused", 2, async (cx) => {
    const which = cx.choose(2), out = cx.choose(3), [n32, prime] = cx.devPick([FIELDS[5], ...FIELDS.filter((_, i) => i !== 5)]); const sizes = cx.pick([[1], [4], [6], [2, 1], [6, 4], [8], [1, 2, 3], [], [0, 2], [1, 1, 1]]), names = ["a", "in", "long_name_3"];
    const circuit = { n32, prime, unknown: cx.dev(2) ? 0 : -1, inputs: sizes.map((s, i) => [names[i], s]), wires: [["one"]] }; sizes.forEach((s, i) => { for (let j = 0; j < s; j++) circuit.wires.push(["in", names[i], j]); }); const nw = circuit.wires.length; if (nw > 2) circuit.wires.push(["mul", 1, 2], ["add", 1, nw - 1]);
    const total = sizes.reduce((a, b) => a + b, 0), vals = [...Array(total).keys()].map((i) => BigInt(i + 3)); const spell = [(v) => v.toString(), (v) => Number(v), (v) => v];
    const at = cx.dev(1 + total), sv = at ? cx.pick([[0n, 0], [1n, 2], [prime - 1n, 0], [prime, 0], [prime + 1n, 2], [-1n, 0], [-1n, 1], [-prime, 0], [-prime - 3n, 2], [prime * prime + 2n, 0], [255n, 3], [0n, 4], [1n, 5], [2n ** 31n, 1], [9007199254740991n, 1], [1n << 300n, 0]]) : null;
    const raw = vals.map((v, i) => { if (i + 1 !== at) return spell[i % 3](v); const [x, how] = sv; return how === 3 ? "0x" + x.toString(16) : how === 4 ? "" : how === 5 ? true : spell[how](x); });
    const input = {}; let o = 0; const ent = sizes.map((s, i) => { const dims = cx.pick(SH[s]); const part = raw.slice(o, o + s); o += s; return [names[i], nest(dims, part)]; });
    const wrong = cx.dev(11); if (ent.length) { const e = ent[ent.length - 1]; if (wrong > 7) { const v = flat(e[1]); e[1] = wrong === 8 ? [[], ...v] : wrong === 9 ? [...v, [[], []]] : [v.slice(0, 1), [], ...v.slice(1)]; }; if (wrong === 1) e[0] += "x"; if (wrong === 2) ent.pop(); if (wrong === 3) e[1] = [e[1], "1"]; if (wrong === 4) e[1] = Array.isArray(e[1]) ? e[1].slice(1) : []; if (wrong === 5) ent.push(["unknown", ["1"]]); if (wrong === 6) ent.push(["empty", []]); if (wrong === 7) e[1] = ["q"].concat(flat(e[1]).slice(1)); } else if (wrong) ent.push(["u", "1"]);
    for (const i of cx.pick([[0, 1, 2, 3], [3, 2, 1, 0], [1, 2, 3, 0]])) if (ent[i]) input[ent[i][0]] = ent[i][1];
    const ref = reference(circuit, input, prime), { w, c } = await calc(which, fakeWasm(circuit)), before = snap(input); const r = await attempt(() => c[METHODS[out]](input, 0)); cx.op(); cx.traced();
    cx.state([which, out, n32, circuit.inputs, snap(input)]); cx.outcome(`${ref.bad ? ref.bad : "proper"}: ${r[0]}`); cx.sample(() => `${show(input)}: ${r[0] === "ok" ? "witness" : r[1]}`);
    judgeRun(cx, `${which ? "js" : "ts"} ${METHODS[out]} of ${show(input)} for ${show(circuit.inputs)} in ${n32} words`, w.instances[0], ref, r, out, circuit, prime, n32); cx.check(snap(input) === before, "calc:input-modified", () => before);
    cx.check(c.prime === prime && c.n32 === n32 && c.witnessSize === circuit.wires.length, "calc:parameters", () => `${c.prime} ${c.n32} ${c.witnessSize}`);
  });
  explore("repeated use", "all sequences of up to 3 (thorough: 4) computations on one calculator over every output form and three right, two wrong and one unsatisfying input: each answers as a fresh calculator would", 0, async (cx) => {
    const which = cx.choose(2), n = tier(3, 4); const circuit = { n32: 8, prime: P, inputs: [["x", 2], ["y", 1]], wires: [["one"], ["mul", 2, 4], ["in", "x", 0], ["in", "x", 1], ["in", "y", 0], ["add", 3, 4]], asserts: [[3, 4]] }; const { w, c } = await calc(which, fakeWasm(circuit));
    const inputs = [{ x: [5, 6], y: 6 }, { y: "-1", x: ["8", "-1"] }, { x: [[9], [P + 1n]], y: 1n }, { x: [1, 2] }, { x: [1, 2], y: 2, z: 3 }, { x: [1, 2], y: 3 }], hist = [];
    const steps = 1 + cx.choose(n);
    for (let i = 0; i < steps; i++) {
      const out = cx.choose(i === steps - 1 ? 3 : tier(1, 3)), inp = cx.pick(inputs), ref = reference(circuit, inp, P); if (!ref.bad && ref.wit[3] !== ref.wit[4]) ref.bad = "assertion fails"; hist.push(`${METHODS[out]} ${show(inp)}`);
      const r = await attempt(() => c[METHODS[out]](inp, 0)); cx.op(); cx.state(which + hist.join(";")); cx.outcome(`${ref.bad ? "wrong" : "right"} ${r[0]}`); judgeRun(cx, `${which ? "js" : "ts"}: ${hist.join("; ")}`, w.instances[0], ref, r, out, circuit, P, 8);
    }
    cx.traced(); cx.sample(() => hist.join("; "));
  });
  explore("values", "every field width x every witness size to 6 (thorough: 12) and two large ones x values at word boundaries: all output forms agree, by both calculators and the library's wrappers", 1, async (cx) => {
    const which = cx.choose(2), [n32, prime] = cx.pick(FIELDS), n = cx.choose(tier(8, 14)), size = n < tier(6, 12) ? n : [1000, 5000][n & 1], bits = BigInt(32 * n32); const V = [7n, 0n, prime - 1n, 1n, (1n << 31n) % prime, ((1n << 32n) - 1n) % prime, (1n << 32n) % prime, (1n << (bits - 1n)) % prime, ((1n << bits) - 1n) % prime];
    const at = cx.dev(size && size < 20 ? size : 1), v = [...Array(size)].map((_, i) => V[(i + 1) % 2 ? 0 : 3]); if (size) v[at] = cx.pick(V); const circuit = { n32, prime, inputs: size ? [["v", size]] : [], wires: [["one"], ...v.map((_, i) => ["in", "v", i])] }, input = size ? { v: v.map(String) } : {}, ref = reference(circuit, input, prime), code = fakeWasm(circuit);
    cx.state([which, n32, String(prime), size, at, size ? v[at] : 0]); cx.traced(); cx.op(3); cx.outcome(`${n32} words`); cx.sample(() => `${n32} words, ${size} values`);
    for (let out = 0; out < 3; out++) { const { w, c } = await calc(which, code), r = await attempt(() => c[METHODS[out]](input, 0)); judgeRun(cx, `${which ? "js" : "ts"} ${METHODS[out]} of ${size} values in ${n32} words`, w.instances[0], ref, r, out, circuit, prime, n32); }
    if (!which) { const { L } = lib(), a = await attempt(() => L.witness.calculateWitnessArray(code, input)), f = await attempt(() => L.witness.calculateWitness(code, input)), g = await attempt(() => L.witness.getCircuitInfo(code));
      cx.check(a[0] === "ok" && a[1].every((x, i) => x === ref.wit[i]) && a[1].length === ref.wit.length, "calc:wrapper-array", () => show(a)); const rd = f[0] === "ok" ? readWtns(f[1]) : { bad: f[1] }; cx.check(!rd.bad && rd.values.every((x, i) => x === ref.wit[i]) && rd.values.length === ref.wit.length && rd.prime === prime, "calc:wrapper-file", () => show(rd)); cx.check(g[0] === "ok" && g[1].n32 === n32 && g[1].prime === prime && g[1].witnessSize === ref.wit.length, "calc:wrapper-info", () => show(g)); }
  });
  explore("names", "input names of many shapes (one letter, long, digits, underscores, names with hashes that have leading zeros or high bits, dotted and indexed): each reaches its signal and no other", 0, async (cx) => {
    const which = cx.choose(2); const zero = globalThis.__zero ??= (() => { const out = []; for (let i = 0; out.length < 4 && i < 2e6; i++) { const [a, b] = W.fnv("s" + i); if (((a >>> 0) < 0x01000000 && out.length < 2) || ((b >>> 0) < 0x00100000 && out.length >= 2) || (i > 3e5 && (b >>> 0) < 0x10000000)) out.push("s" + i); } return out; })();
    const name = cx.pick(["x", "x".repeat(300), "a_1", "A1", "in[0]", "sub.in", "_", "\u00e9", ...zero]), other = "other"; const circuit = { n32: 8, prime: P, inputs: [[name, 2], [other, 1]], wires: [["one"], ["in", name, 0], ["in", name, 1], ["in", other, 0]] }, input = cx.flag() ? { [other]: 3, [name]: [1, 2] } : { [name]: ["1", 2n], [other]: [3] };
    const { w, c } = await calc(which, fakeWasm(circuit)), r = await attempt(() => c.calculateWitness(input)); cx.op(); cx.traced(); cx.state([which, name]); cx.outcome("name " + r[0]); cx.sample(() => name.slice(0, 40)); judgeRun(cx, `name ${name}`, w.instances[0], reference(circuit, input, P), r, 0, circuit, P, 8);
  });
  explore("large arrays", "arrays of 100 to 1000 (thorough: 20000) elements flat and nested to up to 4 dimensions, single values nested up to 60 deep, 100 named inputs, by both calculators: every element set once in row-major order; one element too many or too few at the end or in an inner array refused", 0, async (cx) => {
    const which = cx.choose(2), out = cx.choose(3), dims = cx.pick(tier([[100], [10, 10], [257], [1000], [10, 10, 10], [2, 500], [500, 2], [4, 4, 4, 4], Array(60).fill(1), "names"], [[100], [10, 10], [255], [256], [257], [1000], [4096], [20000], [10, 10, 10], [2, 500], [500, 2], [4, 4, 4, 4], [2, 2, 2, 2, 2, 2, 2, 2, 2, 2], Array(60).fill(1), Array(500).fill(1), "names"])), wrong = cx.choose(3);
    const total = dims === "names" ? 100 : dims.reduce((a, b) => a * b, 1), vals = [...Array(total).keys()].map((i) => String(i * 7 + 1)); let input, inputs;
    if (dims === "names") { inputs = vals.map((_, i) => ["v" + i, 1]); input = Object.fromEntries(vals.map((v, i) => ["v" + (total - 1 - i), vals[total - 1 - i]])); if (wrong === 1) delete input.v57; if (wrong === 2) input.v100 = "1"; }
    else { inputs = [["a", total]]; const a = nest(dims, vals.slice()); let x = a; for (let d = dims.length - 1; d > 0; d--) x = x[x.length - 1]; if (wrong === 1) x.pop(); if (wrong === 2) x.push("1"); input = { a }; }
    const circuit = { n32: 8, prime: P, inputs, wires: [["one"], ...(dims === "names" ? vals.map((_, i) => ["in", "v" + i, 0]) : vals.map((_, i) => ["in", "a", i]))] };
    const ref = reference(circuit, input, P), { w, c } = await calc(which, fakeWasm(circuit)), r = await attempt(() => c[METHODS[out]](input, 0)); cx.op(); cx.traced(); cx.state([which, out, dims, wrong]); cx.outcome(`${ref.bad || "proper"} ${r[0]}`); cx.sample(() => `${String(dims).slice(0, 40)}: ${r[0]}`);
    judgeRun(cx, `${which ? "js" : "ts"} ${METHODS[out]} of an array ${String(dims).slice(0, 60)}${wrong ? wrong === 1 ? " with one value missing" : " with one value too many" : ""}`, w.instances[0], ref, r, out, circuit, P, 8);
  });
  explore("the real sudoku circuit", "the repository's compiled sudoku circuit on a solved puzzle and on every single-cell fault (thorough: all cells, quick: 9), by both calculators: witness satisfying every constraint of its circuit file with the inputs in their wires, wrong ones refused; and the stand-in circuit's conventions are the real one's", 0, async (cx) => {
    const D = "/repo/packages/zkenc-cli/tests/r1cs/"; const S = globalThis.__sudoku ??= (() => { if (!fs.existsSync(D + "sudoku.wasm")) return null; const sym = new Map(fs.readFileSync(D + "sudoku.sym", "utf8").trim().split("\n").map((l) => { const p = l.split(","); return [p[3], +p[1]]; })); return { wasm: fs.readFileSync(D + "sudoku.wasm"), r1cs: readR1cs(fs.readFileSync(D + "sudoku.r1cs")), sym, raw: fs.readFileSync(D + "sudoku.r1cs") }; })();
    if (!S) { cx.outcome("no circuit to run"); return; }
    const sol = [...Array(81).keys()].map((i) => { const r = Math.floor(i / 9), c = i % 9; return (r * 3 + Math.floor(r / 3) + c) % 9 + 1; }), puzzle = sol.map((v, i) => i % 3 ? v : 0); const which = cx.choose(2), fault = cx.choose(1 + tier(9, 81)), out = cx.choose(3); const bad = sol.slice(); if (fault) { const i = tier((fault - 1) * 9 + 1, fault - 1); bad[i] = bad[i] % 9 + 1; }
    const { c } = await calc(which, S.wasm), input = { puzzle: puzzle.map(String), solution: bad }; const r = await attempt(() => c[METHODS[out]](input, 0)); cx.op(); cx.traced(); cx.state([which, fault, out]); cx.outcome(`${fault ? "fault" : "solution"} ${r[0]}`); cx.sample(() => `fault ${fault}: ${r[0]}`);
    const satisfied = (w) => S.r1cs.rows.every((row) => { const e = (lc) => lc.reduce((s, [i, k]) => (s + k * w[i]) % P, 0n); return e(row[0]) * e(row[1]) % P === e(row[2]); });
    const witness = (b) => out === 0 ? b : out === 1 ? [...Array(b.length / 32).keys()].map((i) => W.fromLe(b.subarray(32 * i, 32 * i + 32))) : readWtns(b).values;
    if (r[0] === "ok") { const w = witness(r[1]); const okw = w && w.length === S.r1cs.nWires && w[0] === 1n && satisfied(w); if (!fault) cx.check(okw && input.puzzle.every((v, i) => { const k = S.sym.get(`main.puzzle[${i}]`) ?? S.sym.get(`main.puzzle[${Math.floor(i / 9)}][${i % 9}]`); return k === undefined || k < 0 || w[k] === BigInt(v); }), "calc:real-circuit", () => "the witness of the solution does not satisfy the circuit"); else cx.check(!okw, "calc:real-circuit-fault", () => `fault ${fault} satisfies the circuit`); }
    else cx.check(fault, "calc:real-circuit-refused", () => r[1]);
    for (const [what, inp] of [["unknown name", { ...input, nope: [1] }], ["too few", { ...input, puzzle: puzzle.slice(1) }], ["too many", { ...input, puzzle: [...puzzle, 1] }], ["missing", { puzzle }]]) { const x = await attempt(() => c[METHODS[out]](inp, 0)); cx.op(); cx.check(x[0] === "err", "calc:real-circuit-accepts", () => what); }
  });
}
function readR1cs(b) { let p = 8; const n = b.readUInt32LE(p); p += 4; const s = {}; for (let i = 0; i < n; i++) { const t = b.readUInt32LE(p), l = Number(b.readBigUInt64LE(p + 4)); s[t] = b.subarray(p + 12, p + 12 + l); p += 12 + l; } const h = s[1], fs_ = h.readUInt32LE(0), nWires = h.readUInt32LE(4 + fs_), m = h.readUInt32LE(4 + fs_ + 24); const k = s[2]; p = 0; const rows = []; for (let i = 0; i < m; i++) { const row = []; for (let j = 0; j < 3; j++) { const c = k.readUInt32LE(p); p += 4; const lc = []; for (let q = 0; q < c; q++) { lc.push([k.readUInt32LE(p), W.fromLe(k.subarray(p + 4, p + 4 + fs_))]); p += 4 + fs_; } row.push(lc); } rows.push(row); } return { nWires, rows }; }
export const props = () => ({ C16: c16, C17: c17 });
