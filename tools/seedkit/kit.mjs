// Loads the library's TypeScript with stand-ins for the compiled Rust module and for circuit programs.
import { createRequire } from "node:module";
import { webcrypto } from "node:crypto";
import fs from "node:fs";
const require = createRequire(import.meta.url);
export const SRC = "/repo/packages/zkenc-js/src/";
export const shim = globalThis.__shim = { init: async () => {}, encaps: [], wasm_encap(r, w) { shim.encaps.push(w); const key = webcrypto.getRandomValues(new Uint8Array(32)); return { ciphertext: shim.seal(key), key }; }, seal: (k) => k.map((x) => x ^ 0x5a), wasm_decap: (r, w, c) => c.map((x) => x ^ 0x5a) };
export async function load(con) {
  const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
  const plugin = { name: "s", setup(b) {
    b.onResolve({ filter: /zkenc_js(\.js)?$/ }, () => ({ path: "s", namespace: "s" }));
    b.onLoad({ filter: /.*/, namespace: "s" }, () => ({ contents: "export const init = (...a) => globalThis.__shim.init(...a), wasm_encap = (...a) => globalThis.__shim.wasm_encap(...a), wasm_decap = (...a) => globalThis.__shim.wasm_decap(...a);" }));
    b.onResolve({ filter: /^\.{1,2}\/.*\.js$/ }, (a) => { const p = new URL(a.path.replace(/\.js$/, ".ts"), "file://" + a.resolveDir + "/").pathname; return fs.existsSync(p) ? { path: p } : undefined; });
  } };
  const entry = ["index", "crypto", "witness", "sym_parser"].map((n) => `export * as ${n} from "${SRC}${n}.ts";`).join("") + `export { default as builder } from "${SRC}witness_calculator.ts";`;
  const r = await esbuild.build({ stdin: { contents: entry, resolveDir: SRC, loader: "ts" }, bundle: true, write: false, format: "cjs", platform: "node", plugins: [plugin], logLevel: "silent", tsconfigRaw: "{}" });
  const m = { exports: {} }; new Function("module", "exports", "require", "console", r.outputFiles[0].text)(m, m.exports, require, con || console); return m.exports;
}
export const loadJs = () => { const m = { exports: {} }; new Function("module", "exports", "require", fs.readFileSync(SRC + "witness_calculator.js", "utf8"))(m, m.exports, require); return m.exports; };
const fnv = (s) => { let h = 0xcbf29ce484222325n; for (const c of s) h = BigInt.asUintN(64, (h ^ BigInt(c.charCodeAt(0))) * 0x100000001b3n); return [Number(h >> 32n), Number(h & 0xffffffffn)].join(); };
export const BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
/** A circuit program whose witness is 1 followed by its inputs. */
export function circuit(inputs, { n32 = 8, prime = BN } = {}) { return new TextEncoder().encode(JSON.stringify({ inputs, n32, prime: prime.toString() })); }
export const wasm = { compiles: 0, failNext: 0, sets: [] };
WebAssembly.compile = async (b) => { wasm.compiles++; if (wasm.failNext-- > 0) throw new Error("no memory"); wasm.failNext = 0; const v = new Uint8Array(b.buffer || b, b.byteOffset || 0, b.byteLength); return JSON.parse(new TextDecoder().decode(v)); };
WebAssembly.instantiate = async (c, { runtime }) => {
  const prime = BigInt(c.prime), mem = new Uint32Array(c.n32), slots = new Map(); let n = 0; for (const [k, s] of c.inputs) { slots.set(fnv(k), [n, s]); n += s; }
  let vals = [], left = n; const put = (v) => { for (let i = 0; i < c.n32; i++) mem[i] = Number((v >> BigInt(32 * i)) & 0xffffffffn); };
  return { exports: { getVersion: () => 2, getFieldNumLen32: () => c.n32, getRawPrime: () => put(prime), readSharedRWMemory: (i) => mem[i] | 0, writeSharedRWMemory: (i, v) => { mem[i] = v; }, getWitnessSize: () => n + 1, getInputSize: () => n, init: () => { left = n; vals = []; },
    getInputSignalSize: (a, b) => slots.get([a, b].join())?.[1] ?? -1, getMessageChar: () => 0,
    setInputSignal: (a, b, i) => { const s = slots.get([a, b].join()); if (!left--) runtime.exceptionHandler(2); let v = 0n; for (let j = c.n32; j--;) v = v << 32n | BigInt(mem[j]); vals[s[0] + i] = v; wasm.sets.push(v); }, getWitness: (i) => put(i ? vals[i - 1] : 1n) } };
};
/** Values of a witness file, or an error. */
export function values(b) { const d = Buffer.from(b.buffer, b.byteOffset, b.byteLength); let p = 12; const s = []; for (let i = 0; i < 2; i++) { const l = Number(d.readBigUInt64LE(p + 4)); if (p + 12 + l > d.length) throw new Error("section exceeds the file"); s.push(d.subarray(p + 12, p + 12 + l)); p += 12 + l; } if (p !== d.length) throw new Error("bytes left over"); const n8 = s[0].readUInt32LE(0), n = s[0].readUInt32LE(4 + n8), out = []; if (s[1].length !== n * n8) throw new Error("wrong length of values"); for (let i = 0; i < n; i++) { let v = 0n; for (let j = n8; j--;) v = v << 8n | BigInt(s[1][i * n8 + j]); out.push(v); } return out; }
