// A stateless explorer for asynchronous code: a driver is an async function over a choice tree, and
// every path of the tree is executed once from its initial state (depth first, work shared among
// worker threads). The same conventions as rust/mc: `choose` branches, `dev` branches where any
// answer but 0 is a deviation (bounded), `check`/`violation` judge, and every violation carries its choices.
import { Worker, isMainThread, parentPort, workerData } from "node:worker_threads";
import { createHash } from "node:crypto";
import fs from "node:fs";
import os from "node:os";

const SLICE_MS = 60, HANG_MS = 30000, LIVE = 4096;
export class Ctx {
  constructor(prefix, name, devBound, live) { Object.assign(this, { prefix, name, devBound, live, choices: [], isDev: [], devs: 0, states: new Set(), transitions: 0, traces: 0, outcomes: {}, sampleText: "", violations: [] }); if (live) Atomics.store(live, 0, 0); }
  branch(n, dev) {
    if (!(n > 0)) throw new Error("choice among nothing");
    const i = this.choices.length, c = i < this.prefix.length ? this.prefix[i] : 0;
    if (c >= n) throw new Error(`replay diverged: choice ${c} of ${n} at depth ${i}`);
    this.choices.push([n, c]); this.isDev.push(dev); if (dev && c) this.devs++;
    if (this.live && i < LIVE / 2 - 1) { this.live[1 + 2 * i] = n; this.live[2 + 2 * i] = c; Atomics.store(this.live, 0, i + 1); }
    return c;
  }
  choose(n) { return this.branch(n, false); }
  dev(n) { return this.branch(n, true); }
  pick(xs) { return xs[this.choose(xs.length)]; }
  devPick(xs) { return xs[this.dev(xs.length)]; }
  flag() { return this.choose(2) === 1; }
  permutation(n) { const rest = [...Array(n).keys()], out = []; while (rest.length) out.push(...rest.splice(this.choose(rest.length), 1)); return out; }
  state(x) { this.states.add(parseInt(createHash("md5").update(this.name + "\0" + (typeof x === "string" ? x : JSON.stringify(x, (k, v) => typeof v === "bigint" ? v + "n" : v))).digest("hex").slice(0, 13), 16)); }
  op(n = 1) { this.transitions += n; }
  traced() { this.traces++; }
  outcome(s) { this.outcomes[s] = (this.outcomes[s] || 0) + 1; }
  sample(f) { if (!this.sampleText) this.sampleText = String(f()); }
  violation(sig, msg) { this.violations.push({ sig, msg: String(msg).slice(0, 1500), exploration: this.name, choices: this.choices.slice() }); }
  check(ok, sig, msg) { if (!ok) this.violation(sig, msg()); return !!ok; }
}
// main.mjs registers explorations here; workers run them by name.
export const table = new Map();
let conf = { tier: "quick" };
export const setConf = (c) => { conf = c; };
export const tier = (q, d) => conf.tier === "thorough" ? d : q;
export function explore(name, bounds, devBound, fn) { table.set(name, { name, bounds, devBound, fn }); }

export async function runWorker(load) {
  conf = workerData.conf;
  await load(conf.property);
  const live = new Int32Array(workerData.live);
  parentPort.on("message", async (m) => {
    const ex = table.get(m.name), t0 = Date.now();
    const acc = { executions: 0, transitions: 0, traces: 0, depth: 0, outcomes: {}, samples: [], sigs: {}, violations: [], states: new Set() };
    const stack = m.stack, errors = [];
    while (stack.length && (Date.now() - t0 < SLICE_MS || !acc.executions)) {
      const top = stack[stack.length - 1]; let [pre, alt, n] = top;
      if (alt + 1 < n) top[1] = alt + 1; else stack.pop();
      const prefix = pre.length === 0 && n === 1 ? [] : [...pre, alt], plen = prefix.length;
      const cx = new Ctx(prefix, ex.name, ex.devBound, live);
      Atomics.store(live, LIVE - 1, (Date.now() / 100) | 0);
      // an error of the harness is reported as one, but the rest is still explored
      try { await ex.fn(cx); if (cx.choices.length < plen) throw new Error("replay diverged: shorter than its prefix"); }
      catch (e) { errors.push(`${ex.name} ${JSON.stringify(cx.choices)}: ${e && e.stack || e}`); }
      let devs = 0;
      cx.choices.forEach(([n, c], i) => {
        if (i >= plen && n > 1 && !(cx.isDev[i] && devs >= ex.devBound)) stack.push([cx.choices.slice(0, i).map((x) => x[1]), 1, n]);
        if (cx.isDev[i] && c) devs++;
      });
      acc.executions++; acc.transitions += cx.transitions; acc.traces += cx.traces; acc.depth = Math.max(acc.depth, cx.choices.length);
      for (const k in cx.outcomes) acc.outcomes[k] = (acc.outcomes[k] || 0) + cx.outcomes[k];
      for (const s of cx.states) acc.states.add(s);
      if (acc.samples.length < 1 && cx.sampleText) acc.samples.push(cx.sampleText);
      for (const v of cx.violations) { acc.sigs[v.sig] = (acc.sigs[v.sig] || 0) + 1; if (acc.sigs[v.sig] <= 2) acc.violations.push(v); }
    }
    Atomics.store(live, LIVE - 1, 0);
    parentPort.postMessage({ acc, stack, errors });
  });
  parentPort.postMessage({ ready: true });
}

export async function runMain(file, opts, say, cleanup) {
  conf = opts; const start = Date.now(), deadline = start + opts.limit * 1000;
  const T = { property: opts.property, executions: 0, states: 0, transitions: 0, traces: 0, max_depth: 0, exhaustive: true, outcomes: {}, bounds: [], capped: [], samples: [], sig_counts: {}, violations: [], wall_s: 0 };
  const finish = (code) => { T.exhaustive = !T.capped.length; T.wall_s = (Date.now() - start) / 1000; if (opts.out) fs.writeFileSync(opts.out, JSON.stringify(T));
    if (code === 0) { say(`${T.property}: ${T.executions} executions, ${T.states} states, ${T.transitions} transitions, ${T.traces} traces, ${T.violations.length} violations, outcomes ${JSON.stringify(T.outcomes)}`); for (const v of T.violations) say(`  [${v.sig}] ${v.exploration} ${v.msg}`); }
    cleanup(); process.exit(code); };
  if (opts.replay) {
    const ex = table.get(opts.replay[0]); if (!ex) { say("no such exploration"); cleanup(); process.exit(2); }
    const choices = opts.replay[1], cx = new Ctx(choices.map((c) => c[1]), ex.name, Infinity, null);
    await ex.fn(cx);
    const k = Math.min(choices.length, cx.choices.length);
    if (JSON.stringify(cx.choices.slice(0, k)) !== JSON.stringify(choices.slice(0, k))) { say(`replay diverged: recorded ${JSON.stringify(choices)}, ran ${JSON.stringify(cx.choices)}`); cleanup(); process.exit(2); }
    say(`replayed ${ex.name} (${cx.choices.length} choices): ${cx.sampleText}`);
    for (const v of cx.violations) say(`VIOLATED [${v.sig}] ${v.msg}`);
    if (!cx.violations.length) say("no violation");
    cleanup(); process.exit(cx.violations.length ? 1 : 0);
  }
  let errors = 0; const n = +(process.env.MC_THREADS || Math.min(8, os.availableParallelism()));
  const ws = [];
  for (let i = 0; i < n; i++) {
    const live = new SharedArrayBuffer(4 * LIVE);
    const w = new Worker(file, { workerData: { conf: opts, live }, stdout: true, stderr: true });
    ws.push({ w, live: new Int32Array(live), busy: false, ready: new Promise((ok, no) => { w.once("message", ok); w.once("error", no); }) });
  }
  try { await Promise.all(ws.map((x) => x.ready)); } catch (e) { say("harness error: " + (e && e.stack || e)); finish(2); }
  for (const ex of table.values()) {
    T.bounds.push(`${ex.name}: ${ex.bounds}`);
    const stack = [[[], 0, 1]], states = new Set(); let capped = false, perEx = 0;
    await new Promise((done) => {
      const merge = (a) => {
        T.executions += a.executions; T.transitions += a.transitions; T.traces += a.traces; T.max_depth = Math.max(T.max_depth, a.depth);
        for (const k in a.outcomes) T.outcomes[k] = (T.outcomes[k] || 0) + a.outcomes[k];
        for (const s of a.states) states.add(s);
        for (const s of a.samples) if (perEx < 3 && T.samples.length < 24) { perEx++; T.samples.push(`${ex.name}: ${s}`); }
        for (const k in a.sigs) T.sig_counts[k] = (T.sig_counts[k] || 0) + a.sigs[k];
        for (const v of a.violations) if (T.violations.filter((x) => x.sig === v.sig).length < 4) T.violations.push(v);
      };
      const deal = () => {
        if (Date.now() > deadline && stack.length) { stack.length = 0; capped = true; }
        for (const x of ws) if (!x.busy && stack.length) { const k = Math.max(1, Math.ceil(stack.length / (2 * n))); x.busy = true; x.w.postMessage({ name: ex.name, stack: stack.splice(0, k) }); }
        if (!stack.length && ws.every((x) => !x.busy)) { clearInterval(timer); done(); }
      };
      const timer = setInterval(() => {
        for (const x of ws) { const t = x.busy && Atomics.load(x.live, LIVE - 1); if (t && ((Date.now() / 100) | 0) - t > HANG_MS / 100) {
          const k = Atomics.load(x.live, 0), choices = []; for (let i = 0; i < k; i++) choices.push([x.live[1 + 2 * i], x.live[2 + 2 * i]]);
          T.violations.push({ sig: `hang:${ex.name}`, msg: `no answer within ${HANG_MS / 1000} s`, exploration: ex.name, choices }); T.sig_counts[`hang:${ex.name}`] = 1; T.capped.push("ended at a fatal violation"); finish(0); } }
      }, 100);
      for (const x of ws) { x.w.removeAllListeners("message"); x.w.removeAllListeners("error");
        x.w.on("error", (e) => { say("harness error: " + (e && e.stack || e)); finish(2); });
        x.w.on("message", (m) => { for (const e of m.errors) { errors++; if (errors <= 5) say("harness error: " + e); } if (errors >= 200) { T.capped.push("harness errors"); merge(m.acc); finish(2); } x.busy = false; merge(m.acc); stack.push(...m.stack); deal(); }); }
      deal();
    });
    T.states += states.size; if (capped) T.capped.push(ex.name);
  }
  if (!T.executions) { say("nothing explored"); finish(2); }
  if (errors) { T.capped.push("harness errors"); say(`${errors} harness errors`); finish(2); }
  finish(0);
}
