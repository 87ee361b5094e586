// The world around the library: the native addon, the bundled TypeScript, and stand-ins for the
// asynchronous platform services (WebAssembly, Web Crypto, the wasm module's initialization) whose
// completion order and failures the explorer decides.
import { createRequire } from "node:module";
import * as nodeCrypto from "node:crypto";
import fs from "node:fs";
import { threadId } from "node:worker_threads";
const require = createRequire(import.meta.url);
export const REPO = "/repo/packages/zkenc-js/src/";

// ---- the Rust side
const HERE = new URL("..", import.meta.url).pathname;
const lib = { exports: {} };
process.dlopen(lib, HERE + "build/cargo/release/libaddon.so");
const call = lib.exports;
const bytes = (x) => typeof x === "string" ? Buffer.from(x) : Buffer.from(x.buffer, x.byteOffset, x.byteLength);
export function addon(op, ...args) {
  const [code, ...out] = call(op, ...args.map((a) => bytes(typeof a === "number" ? String(a) : a)));
  const res = out.map((b) => new Uint8Array(b));
  if (code === 0) return res;
  const msg = Buffer.from(res[0] || []).toString();
  if (code === 2) { const e = new globalThis.__RealWebAssembly.RuntimeError("unreachable"); e.rustPanic = msg; throw e; }
  throw msg; // as wasm-bindgen throws the JsValue itself
}
globalThis.__RealWebAssembly ??= globalThis.WebAssembly;
const RealWasm = globalThis.__RealWebAssembly, realCrypto = globalThis.crypto;
export const stdoutFd = +Buffer.from(addon("stdout")[0]).toString();
export const say = (s) => fs.writeSync(stdoutFd, s + "\n");
export const scratchRoot = `/tmp/mc-js-${process.pid}`;
export function scratch() { const d = `${scratchRoot}/t${threadId}`; fs.rmSync(d, { recursive: true, force: true }); fs.mkdirSync(d, { recursive: true }); return d + "/"; }

// ---- the bundle
export async function bundle() {
  const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
  const shim = { name: "shim", setup(b) {
    b.onResolve({ filter: /zkenc_js(\.js)?$/ }, () => ({ path: "shim", namespace: "shim" }));
    b.onLoad({ filter: /.*/, namespace: "shim" }, () => ({ contents: `
      const s = () => globalThis.__world.shim;
      export const init = (...a) => s().init(...a), wasm_encap = (...a) => s().wasm_encap(...a), wasm_decap = (...a) => s().wasm_decap(...a);
      export default init;`, loader: "js" }));
    // tsc compiles the .ts files only: "./x.js" names what x.ts becomes
    b.onResolve({ filter: /^\.{1,2}\/.*\.js$/ }, (a) => { const p = new URL(a.path.replace(/\.js$/, ".ts"), "file://" + a.resolveDir + "/").pathname; return fs.existsSync(p) ? { path: p } : undefined; });
  } };
  const entry = ["index", "zkenc", "crypto", "witness", "sym_parser", "witness_calculator"].map((n) => `export * as ${n} from ${JSON.stringify(REPO + n + ".ts")};`).join("\n")
    + `\nexport { default as builder } from ${JSON.stringify(REPO + "witness_calculator.ts")};`;
  const r = await esbuild.build({ stdin: { contents: entry, resolveDir: REPO, loader: "ts" }, bundle: true, write: false, format: "cjs", platform: "node", target: "node22", plugins: [shim], logLevel: "silent", tsconfigRaw: "{}" });
  return { ts: r.outputFiles[0].text, js: fs.readFileSync(REPO + "witness_calculator.js", "utf8") };
}
let factories;
export function setCode(code) { factories = { ts: new Function("module", "exports", "require", "console", code.ts), js: new Function("module", "exports", "require", "console", code.js) }; }
/** A fresh copy of every module of the library (own module-level state). */
export function fresh(con) { const m = { exports: {} }; factories.ts(m, m.exports, require, con || quiet); return m.exports; }
export function freshJs(con) { const m = { exports: {} }; factories.js(m, m.exports, require, con || quiet); return m.exports; }
export const quiet = new Proxy({}, { get: () => () => {} });
export function recorder() { const lines = []; return { lines, con: new Proxy({}, { get: (_, k) => (...a) => { lines.push(a.map((x) => typeof x === "string" ? x : x instanceof Error ? x.stack : nodeInspect(x)).join(" ")); } }) }; }
import { inspect } from "node:util";
const nodeInspect = (x) => inspect(x, { depth: 6, maxArrayLength: null, maxStringLength: null, breakLength: Infinity });

// ---- asynchronous steps
/** Everything asynchronous goes through `step`: at once (free-running), or when `drive` says so. */
export class Sched {
  constructor(controlled) { this.controlled = controlled; this.pending = []; this.n = 0; this.log = []; this.failures = null; }
  step(kind, run) {
    if (!this.controlled) return new Promise((ok) => ok(run()));
    return new Promise((ok, no) => { this.pending.push({ id: this.n++, kind, run, ok, no }); });
  }
  /** Let pending steps complete in the order the explorer picks until nothing is pending. `fail(kind)`: list of errors a step may fail with. */
  async drive(cx, fail, note) {
    await drain();
    let idle = 0;
    for (;;) {
      while (this.pending.length) {
        idle = 0;
        const p = this.pending.splice(cx.choose(this.pending.length), 1)[0];
        const errs = fail ? fail(p.kind) : [];
        const f = errs.length ? cx.dev(1 + errs.length) : 0;
        this.log.push(p.id + p.kind + (f ? "!" : "")); cx.op();
        if (f) p.no(errs[f - 1]()); else { let v, bad; try { v = p.run(); } catch (e) { bad = [e]; } bad ? p.no(bad[0]) : p.ok(v); }
        await drain();
        if (note) note(this);
      }
      if (!this.waiting || !this.waiting() || idle++ >= 20) return;
      await new Promise((r) => setTimeout(r, 5)); // something of its own accord (a timer)?
    }
  }
}
/** Run all microtasks. */
export const drain = () => new Promise((r) => setImmediate(r));

/** What the library finds around it during one execution. */
export class World {
  constructor(opt = {}) {
    this.sched = new Sched(!!opt.controlled); this.monitor = []; this.inits = 0; this.initDone = 0; this.useBeforeInit = 0; this.random = opt.random || null; this.randomLog = []; this.failRandom = opt.failRandom ?? Infinity; this.instances = []; this.ivs = [];
    const w = this;
    class EncapResult { #c; #k; constructor(c, k) { this.#c = c; this.#k = k; } get ciphertext() { return this.#c.slice(); } get key() { return this.#k.slice(); } free() {} }
    const u8 = (x) => { if (!(x instanceof Uint8Array)) { const y = new Uint8Array(x.length); y.set(x); return y; } return x; };
    this.shim = {
      init: opt.init || (() => { w.inits++; return w.sched.controlled ? w.sched.step("init", () => { w.initDone++; }) : void w.initDone++; }),
      wasm_encap: (r, x) => { if (!w.initDone) w.useBeforeInit++; const o = addon("wasm_encap", u8(r), u8(x)); return new EncapResult(o[0], o[1]); },
      wasm_decap: (r, x, c) => { if (!w.initDone) w.useBeforeInit++; return addon("wasm_decap", u8(r), u8(x), u8(c))[0]; },
    };
    globalThis.__world = this;
  }
}
const world = () => globalThis.__world;
const copy = (b) => { if (b instanceof ArrayBuffer || b instanceof SharedArrayBuffer) return new Uint8Array(b).slice(); if (ArrayBuffer.isView(b)) return new Uint8Array(b.buffer, b.byteOffset, b.byteLength).slice(); throw new TypeError("not a BufferSource"); };

// ---- Web Crypto
const aesName = (a) => (typeof a === "string" ? a : a && a.name || "").toUpperCase();
const opError = (m) => new DOMException(m, "OperationError");
export const subtle = {
  importKey(format, data, alg, extractable, usages) {
    let raw; try { raw = copy(data); } catch (e) { return Promise.reject(e); }
    return world().sched.step("importKey", () => {
      if (format !== "raw" || aesName(alg) !== "AES-GCM") throw new DOMException("unsupported key", "NotSupportedError");
      if (![16, 24, 32].includes(raw.length)) throw new DOMException("Invalid key length", "DataError");
      for (const u of usages) if (!["encrypt", "decrypt", "wrapKey", "unwrapKey"].includes(u)) throw new DOMException("bad usage", "SyntaxError");
      if (!usages.length) throw new DOMException("Usages cannot be empty", "SyntaxError");
      return { type: "secret", extractable, algorithm: { name: "AES-GCM", length: raw.length * 8 }, usages: [...usages], __raw: raw };
    });
  },
  encrypt(alg, key, data) { return gcm("encrypt", alg, key, data); },
  decrypt(alg, key, data) { return gcm("decrypt", alg, key, data); },
  digest(alg, data) { const d = copy(data); return world().sched.step("digest", () => new Uint8Array(nodeCrypto.createHash(aesName(alg).replace("-", "").toLowerCase()).update(d).digest()).buffer); },
};
function gcm(op, alg, key, data) {
  let iv, d, aad; try { iv = copy(alg.iv); d = copy(data); aad = alg.additionalData && copy(alg.additionalData); } catch (e) { return Promise.reject(e); }
  const tag = (alg.tagLength ?? 128) / 8, w = world();
  return w.sched.step(op, () => {
    if (aesName(alg) !== "AES-GCM" || !key.usages.includes(op)) throw new DOMException("bad key", "InvalidAccessError");
    if (![4, 8, 12, 13, 14, 15, 16].includes(tag)) throw opError("tag length");
    const name = `aes-${key.__raw.length * 8}-gcm`;
    if (op === "encrypt") { w.ivs.push(Buffer.from(iv).toString("hex")); const c = nodeCrypto.createCipheriv(name, key.__raw, iv, { authTagLength: tag }); if (aad) c.setAAD(aad); return exact(Buffer.concat([c.update(d), c.final(), c.getAuthTag()])); }
    if (d.length < tag) throw opError("too short");
    const c = nodeCrypto.createDecipheriv(name, key.__raw, iv, { authTagLength: tag }); if (aad) c.setAAD(aad); c.setAuthTag(d.subarray(d.length - tag));
    try { return exact(Buffer.concat([c.update(d.subarray(0, d.length - tag)), c.final()])); } catch { throw opError("The operation failed for an operation-specific reason"); }
  });
}
const exact = (b) => new Uint8Array(b).buffer;
export function stream(seed) { let n = 0, buf = Buffer.alloc(0); return (k) => { while (buf.length < k) buf = Buffer.concat([buf, nodeCrypto.createHash("sha256").update(`${seed}/${n++}`).digest()]); const r = buf.subarray(0, k); buf = buf.subarray(k); return r; }; }
const fakeCrypto = {
  subtle,
  getRandomValues(a) {
    const w = world(); if (!ArrayBuffer.isView(a) || a instanceof Float32Array || a instanceof Float64Array || a instanceof DataView) throw new DOMException("not an integer array", "TypeMismatchError");
    if (a.byteLength > 65536) throw new DOMException("quota", "QuotaExceededError");
    if (w.randomLog.length >= w.failRandom) { w.randomLog.push(null); throw opError("no entropy"); }
    const v = new Uint8Array(a.buffer, a.byteOffset, a.byteLength); if (w.random) v.set(w.random(v.length)); else nodeCrypto.randomFillSync(v);
    w.randomLog.push(Buffer.from(v).toString("hex")); return a;
  },
  randomUUID: () => nodeCrypto.randomUUID(),
};

// ---- WebAssembly, with circuits described by text
export function fakeWasm(circuit) { return new TextEncoder().encode("FAKE" + JSON.stringify(circuit, (k, v) => typeof v === "bigint" ? v.toString() : v)); }
class Module { constructor(src) { const b = copy(src); if (b[0] === 0 && b[1] === 0x61) { this.real = new RealWasm.Module(b); return; } const t = Buffer.from(b).toString(); if (!t.startsWith("FAKE")) throw new RealWasm.CompileError("WebAssembly.compile(): expected magic word 00 61 73 6d"); try { this.circuit = JSON.parse(t.slice(4)); } catch { throw new RealWasm.CompileError("WebAssembly.compile(): truncated"); } } }
export function fnv(s) { let h = 0xcbf29ce484222325n; for (let i = 0; i < s.length; i++) { h ^= BigInt(s.charCodeAt(i)); h = BigInt.asUintN(64, h * 0x100000001b3n); } return [Number(h >> 32n) | 0, Number(h & 0xffffffffn) | 0]; }
class Instance {
  constructor(mod, imports) {
    if (mod.real) { const i = new RealWasm.Instance(mod.real, imports); this.exports = i.exports; return; }
    const c = mod.circuit, w = world(), R = (imports || {}).runtime || {}, n32 = c.n32 ?? 8, prime = BigInt(c.prime), mask = 0xffffffffn;
    for (const f of ["exceptionHandler", "printErrorMessage", "writeBufferMessage", "showSharedRWMemory"]) if (typeof R[f] !== "function") throw new RealWasm.LinkError(`import ${f} missing`);
    const mem = new Uint32Array(n32), log = { circuit: c, sets: [], inits: [], reads: [], events: [] }; w.instances.push(log);
    const names = new Map(); let at = 0; for (const [name, size] of c.inputs) { const [a, b] = fnv(name); names.set(a + "," + b, { name, size, at }); at += size; }
    const nIn = at, vals = Array(nIn).fill(0n), set = Array(nIn).fill(false); let left = nIn, wit = Array(c.wires.length).fill(0n), sanity = 0, msg = [], msgAt = 0;
    const put = (v) => { for (let i = 0; i < n32; i++) mem[i] = Number((v >> BigInt(32 * i)) & mask); };
    const val = (o) => { const [k, ...a] = o; return k === "one" ? 1n : k === "const" ? BigInt(a[0]) : k === "in" ? vals[names.get(fnv(a[0]).join()).at + a[1]] : k === "mul" ? wit[a[0]] * wit[a[1]] % prime : k === "add" ? (wit[a[0]] + wit[a[1]]) % prime : (() => { throw new Error("bad wire"); })(); };
    const compute = () => {
      for (const late of [false, true]) c.wires.forEach((o, i) => { if ((o[0] === "mul" || o[0] === "add") === late) wit[i] = val(o); });
      for (const l of c.log || []) { if (typeof l === "number") { put(wit[l]); R.showSharedRWMemory(); } else { msg = [...l].map((x) => x.charCodeAt(0)).concat(0); msgAt = 0; R.writeBufferMessage(); } }
      for (const [a, b] of c.asserts || []) if (wit[a] !== wit[b]) { msg = [..."Error in template Fake line: 1"].map((x) => x.charCodeAt(0)).concat(0); msgAt = 0; R.printErrorMessage(); R.exceptionHandler(4); return; }
    };
    this.exports = Object.freeze({
      memory: { buffer: mem.buffer }, getVersion: () => c.version ?? 2, getMinorVersion: () => 1, getPatchVersion: () => 9, getSharedRWMemoryStart: () => 0,
      getFieldNumLen32: () => n32, getWitnessSize: () => c.wires.length, getInputSize: () => nIn,
      readSharedRWMemory: (i) => { log.events.push("r"); return mem[i] | 0; }, writeSharedRWMemory: (i, v) => { mem[i] = Number(v); },
      getRawPrime: () => { put(prime); }, getMessageChar: () => msgAt < msg.length ? msg[msgAt++] : 0,
      init: (s) => { sanity = s; left = nIn; set.fill(false); log.inits.push(s); log.sets.push([]); if (!nIn) compute(); },
      getInputSignalSize: (a, b) => { const e = names.get((a | 0) + "," + (b | 0)); return e ? e.size : c.unknown ?? -1; },
      setInputSignal: (a, b, pos) => {
        const e = names.get((a | 0) + "," + (b | 0));
        if (left === 0) { R.exceptionHandler(2); return; }
        if (!e) { R.exceptionHandler(1); return; }
        if (pos < 0 || pos >= e.size) { R.exceptionHandler(6); return; }
        if (set[e.at + pos]) { R.exceptionHandler(3); return; }
        let v = 0n; for (let i = n32 - 1; i >= 0; i--) v = (v << 32n) | BigInt(mem[i]);
        set[e.at + pos] = true; vals[e.at + pos] = v; log.sets[log.sets.length - 1]?.push([e.name, pos, v]); left--;
        if (left === 0) compute();
      },
      getWitness: (i) => { if (i < 0 || i >= wit.length) throw new RealWasm.RuntimeError("memory access out of bounds"); put(wit[i]); log.reads.push(i); },
    });
  }
}
const fakeWasmNs = {
  Module, Instance, CompileError: RealWasm.CompileError, RuntimeError: RealWasm.RuntimeError, LinkError: RealWasm.LinkError, Memory: RealWasm.Memory, Table: RealWasm.Table, Global: RealWasm.Global,
  validate: (b) => { try { new Module(b); return true; } catch { return false; } },
  compile(src) { let b; try { b = copy(src); } catch (e) { return Promise.reject(e); } return world().sched.step("compile", () => new Module(b)); },
  instantiate(x, imports) {
    if (x instanceof Module) return world().sched.step("instantiate", () => new Instance(x, imports));
    let b; try { b = copy(x); } catch (e) { return Promise.reject(e); }
    return world().sched.step("instantiate", () => { const module = new Module(b); return { module, instance: new Instance(module, imports) }; });
  },
};
export function install() { Object.defineProperty(globalThis, "crypto", { value: fakeCrypto, configurable: true, writable: true }); Object.defineProperty(globalThis, "WebAssembly", { value: fakeWasmNs, configurable: true, writable: true }); }
export { realCrypto, RealWasm, nodeCrypto };

// ---- formats
export const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
export const le = (x, n = 32) => { const b = new Uint8Array(n); let v = BigInt(x); for (let i = 0; i < n; i++) { b[i] = Number(v & 255n); v >>= 8n; } return b; };
export const fromLe = (b) => { let v = 0n; for (let i = b.length - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i]); return v; };
export const mod = (x, p = P) => ((x % p) + p) % p;
export const cat = (...xs) => new Uint8Array(Buffer.concat(xs));
const u32 = (x) => { const b = Buffer.alloc(4); b.writeUInt32LE(x >>> 0); return b; }, u64 = (x) => { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt(x)); return b; };
export function container(magic, version, sections) { return cat(Buffer.from(magic), u32(version), u32(sections.length), ...sections.flatMap(([t, b]) => [u32(t), u64(b.length), b])); }
/** rows: [[[wire, coefficient]...] x 3] */
export function r1cs(nOut, nIn, nPrv, rows) {
  const n = 1 + nOut + nIn + nPrv;
  const h = cat(u32(32), le(P), u32(n), u32(nOut), u32(nIn), u32(nPrv), u64(n), u32(rows.length));
  const k = cat(...rows.flatMap((r) => r.flatMap((lc) => [u32(lc.length), ...lc.flatMap(([w, c]) => [u32(w), le(mod(BigInt(c)))])])));
  return container("r1cs", 1, [[1, h], [2, k], [3, cat(...[...Array(n).keys()].map((i) => u64(i)))]]);
}
export function wtns(values, n8 = 32, prime = P) { return container("wtns", 2, [[1, cat(u32(n8), le(prime, n8), u32(values.length))], [2, cat(...values.map((v) => le(v, n8)))]]); }
/** Strict reader: values, or a fault. */
export function readWtns(b) {
  const d = Buffer.from(b); let p = 0; const need = (n) => { if (p + n > d.length) throw new Error("cut"); p += n; return p - n; };
  try {
    if (d.toString("latin1", need(4), 4) !== "wtns") return { bad: "magic" };
    const version = d.readUInt32LE(need(4)); if (version !== 2) return { bad: "version " + version };
    const n = d.readUInt32LE(need(4)), s = [];
    for (let i = 0; i < n; i++) { const t = d.readUInt32LE(need(4)), l = Number(d.readBigUInt64LE(need(8))), a = need(l); s.push([t, d.subarray(a, a + l)]); }
    if (p !== d.length) return { bad: "trailing bytes" };
    if (s.length !== 2 || s[0][0] !== 1 || s[1][0] !== 2) return { bad: "sections" };
    const h = s[0][1], n8 = h.readUInt32LE(0); if (h.length !== 8 + n8) return { bad: "header length" };
    const prime = fromLe(h.subarray(4, 4 + n8)), count = h.readUInt32LE(4 + n8); if (s[1][1].length !== n8 * count) return { bad: "value section length" };
    return { n8, prime, values: [...Array(count).keys()].map((i) => fromLe(s[1][1].subarray(i * n8, (i + 1) * n8))) };
  } catch (e) { return { bad: String(e.message) }; }
}
export const hex = (b) => Buffer.from(b).toString("hex");
export const eq = (a, b) => a.length === b.length && Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0;
export const recorded = (ct) => addon("recorded", ct).map(fromLe);
/** Settle a promise: ["ok", value] or ["err", text, error]. */
export const settle = (p) => p.then((v) => ["ok", v], (e) => ["err", e instanceof Error ? `${e.name}: ${e.message}` : String(e), e]);
export const attempt = async (f) => { try { return ["ok", await f()]; } catch (e) { return ["err", e instanceof Error ? `${e.name}: ${e.message}` : String(e), e]; } };
/** Combined ciphertext by the documented layout. */
export function split(b) { const d = Buffer.from(b); const flag = d[0], l = d.readUInt32BE(1), ct = d.subarray(5, 5 + l); if (ct.length !== l) return null; let p = 5 + l, json = null; if (flag === 1) { const k = d.readUInt32BE(p); json = d.subarray(p + 4, p + 4 + k); if (json.length !== k) return null; p += 4 + k; } return { flag, ct, json, msg: d.subarray(p) }; }
export function join(flag, ct, json, msg) { const be = (x) => { const b = Buffer.alloc(4); b.writeUInt32BE(x); return b; }; return cat(Buffer.from([flag]), be(ct.length), ct, ...(json ? [be(json.length), json] : []), msg); }
