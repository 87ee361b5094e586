// What is explored and judged for each property on the JavaScript side.
import { AsyncLocalStorage } from "node:async_hooks";
import fs from "node:fs";
import nodeCrypto from "node:crypto";
import { explore, tier } from "./mc.mjs";
import * as W from "./world.mjs";
const { addon, P, mod, le, hex, eq, settle, attempt, readWtns, fakeWasm, recorded } = W;

// ---- circuits
const one = (w) => [[w, 1]];
const build = (name, nOut, nIn, nPrv, rows, names, inputs, wires, asserts, cases) => {
  const sym = names.map((n, i) => `${i + 1},${i + 1},0,main.${n}`).join("\n") + "\n";
  const circuit = { n32: 8, prime: P, inputs, wires, asserts };
  return { name, nPub: nOut + nIn, r1cs: W.r1cs(nOut, nIn, nPrv, rows), sym, names, circuit, wasm: fakeWasm(circuit), cases };
};
// each case: public inputs as the caller writes them, the public values, satisfying full inputs, unsatisfying ones
export const square = build("square", 0, 1, 1, [[one(2), one(2), one(1)]], ["p", "s"], [["p", 1], ["s", 1]], [["one"], ["in", "p", 0], ["in", "s", 0]], [],
  { pub: { p: "25" }, vals: [25n], good: [{ p: 25, s: 5 }, { p: "25", s: "-5" }, { s: [5], p: [25n] }], wit: [1n, 25n, 5n], bad: [{ p: 25, s: 6 }, { p: 36, s: 6 }, { p: 0, s: 0 }] });
export const array = build("array", 0, 2, 2, [[one(3), one(4), one(1)], [one(3), one(3), one(2)]], ["m[0]", "m[1]", "t[0]", "t[1]"], [["m", 2], ["t", 2]],
  [["one"], ["in", "m", 0], ["in", "m", 1], ["in", "t", 0], ["in", "t", 1]], [],
  { pub: { m: [35, 25] }, vals: [35n, 25n], good: [{ m: [35, 25], t: [5, 7] }, { t: ["-5", -7], m: ["35", "25"] }], wit: [1n, 35n, 25n, 5n, 7n], bad: [{ m: [35, 25], t: [7, 5] }, { m: [25, 35], t: [5, 7] }] });
export const output = build("output", 1, 1, 1, [[one(2), one(3), one(1)]], ["y", "x", "a"], [["x", 1], ["a", 1]], [["one"], ["mul", 2, 3], ["in", "x", 0], ["in", "a", 0]], [],
  { pub: { y: "36", x: "4" }, vals: [36n, 4n], good: [{ x: 4, a: 9 }, { a: "9", x: "4" }], wit: [1n, 36n, 4n, 9n], bad: [{ x: 4, a: 8 }, { x: 9, a: 4 }] });
export const all = [square, array, output];
const files = (k) => ({ r1csBuffer: k.r1cs, symContent: k.sym, wasmBuffer: k.wasm });
const text = (s) => new TextEncoder().encode(s);
const show = (x) => JSON.stringify(x, (k, v) => typeof v === "bigint" ? v + "n" : v instanceof Uint8Array ? hex(v).slice(0, 60) : v);
const lib = (opt, con) => { const w = new W.World(opt); return { w, L: W.fresh(con) }; };
const dec = (r1cs, wit, ct) => addon("wasm_decap", r1cs, W.wtns(wit), ct)[0];
/** A call of the library that must not die of a panic or crash. */
const isCrash = (r) => r[0] === "err" && r[2] && r[2].rustPanic !== undefined;
const hasKey = (r) => r[0] === "ok";

const props = {};
// ---------------------------------------------------------------------------------------------
props.C01 = () => explore("js encap, decap", "every circuit x spelling of the public inputs x satisfying inputs: decap returns the key of encap; also with the ciphertext copied and at an offset in a larger buffer", 2, async (cx) => {
  const k = cx.pick(all), { L } = lib(); const good = cx.pick(k.cases.good); const how = cx.dev(3);
  const r = await attempt(() => L.index.encap(files(k), k.cases.pub)); cx.op(2);
  if (!cx.check(hasKey(r), "js:encap-refused", () => `${k.name}: encap of ${show(k.cases.pub)}: ${r[1]}`)) return;
  const { ciphertext, key } = r[1]; cx.state([k.name, show(good), how]);
  cx.check(key instanceof Uint8Array && key.length === 32 && ciphertext instanceof Uint8Array, "js:encap-shape", () => `key of ${key && key.length} bytes`);
  const ct = how === 0 ? ciphertext : how === 1 ? Buffer.from(ciphertext) : W.cat(Buffer.alloc(5, 1), ciphertext, Buffer.alloc(3, 1)).subarray(5, 5 + ciphertext.length);
  const d = await attempt(() => L.index.decap(files(k), ct, good)); cx.traced(); cx.outcome("js decap " + d[0]);
  cx.sample(() => `${k.name} ${show(good)}: ${d[0]}`);
  cx.check(hasKey(d) && eq(d[1], key), "js:key-differs", () => `${k.name}: decap with ${show(good)} gives ${d[0]} ${d[0] === "ok" ? hex(d[1]) : d[1]}, encap gave ${hex(key)}`);
});

props.C02 = () => explore("js decap, decrypt", "every circuit x inputs that do not satisfy it or have other public values, and every satisfying one, through decap and decrypt, with circuits that check their constraints themselves and that do not: a key or message only for satisfying, matching inputs", 1, async (cx) => {
  const k = cx.pick(all), { L } = lib(), e = cx.flag(), asserts = cx.flag(); const all2 = [...k.cases.bad, ...k.cases.good], inp = cx.pick(all2), ok = k.cases.good.includes(inp); const msg = text("the message");
  const mine = asserts && k === square ? { ...files(k), wasmBuffer: fakeWasm({ ...k.circuit, wires: [...k.circuit.wires, ["mul", 2, 2]], asserts: [[3, 1]] }) } : files(k);
  const other = cx.dev(2); // another statement of the same circuit
  const pub = other ? (k === square ? { p: "49" } : k === array ? { m: [35, 36] } : { y: 36, x: "12" }) : k.cases.pub;
  const c = e ? await L.index.encrypt(files(k), pub, msg) : await L.index.encap(files(k), pub); cx.op(2);
  const r = await attempt(() => e ? L.index.decrypt(mine, c.ciphertext, inp) : L.index.decap(mine, c.ciphertext, inp)); cx.traced();
  cx.state([k.name, e, show(inp), other, asserts]); cx.outcome(`${ok && !other ? "matching" : "not matching"}: ${r[0]}`); cx.sample(() => `${k.name} ${show(inp)}: ${r[0]}`);
  if (other || !ok) cx.check(r[0] === "err", "js:released", () => `${k.name}: ${e ? "decrypt" : "decap"} with ${show(inp)} for ${show(pub)} succeeded`);
  else if (!(mine !== files && asserts && k === square)) cx.check(r[0] === "ok", "js:refused", () => `${k.name}: ${show(inp)}: ${r[1]}`);
});

// ---------------------------------------------------------------------------------------------
props.C03 = () => {
  explore("js encap", "layouts of up to 3 public wires (outputs, inputs) x each public value given, missing, misspelled, wrongly cased or prefixed (up to 2 such) x order of keys x order of symbol lines x alias lines and additional entries, through encap and encrypt: the recorded publics are the given ones, or the call is refused", 2, async (cx) => {
    const [o, i, p] = cx.pick([[0, 1, 1], [1, 1, 1], [1, 0, 1], [0, 2, 1], [2, 1, 1], [0, 3, 2], [2, 0, 0], [0, 1, 0]]), np = o + i, n = 1 + np + p;
    const name = (w) => w <= np ? `p${w}` : `s${w}`;
    let lines = []; for (let w = 1; w < n; w++) lines.push([w, `main.${name(w)}`]);
    const alias = cx.dev(5);
    if (alias === 1) lines.push([1, "main.sub.in"]); if (alias === 2) lines.unshift([1, "main.sub.in"]); if (alias === 3 && p) lines.push([np + 1, "main.sub.x"]); if (alias === 4) lines.push([-1, "main.gone"]);
    const so = cx.dev(3); if (so === 1) lines.reverse(); if (so === 2) lines.push(lines.shift());
    const sym = lines.map(([w, s], j) => `${j + 1},${w},0,${s}`).join("\n") + "\n";
    const states = [], vals = []; for (let w = 1; w <= np; w++) { states.push(cx.dev(6)); vals.push(BigInt(1000 + w)); }
    let ent = []; states.forEach((s, j) => { const v = vals[j].toString(), k = name(j + 1); if (s === 0) ent.push([k, v]); if (s === 2) ent.push([k + "_", v]); if (s === 3) ent.push([k.toUpperCase(), v]); if (s === 4) ent.push(["main." + k, v]); if (s === 5) ent.push([k + "[0]", v]); });
    const more = cx.dev(5); if (more === 1) ent.push(["note", "7"]); if (more === 2) ent.unshift([name(np + 1), "7"]); if (more === 3) ent.push(["gone", "9"]); if (more === 4) ent.push(["0", "5"]);
    const ord = cx.dev(3); if (ord === 1) ent.reverse(); if (ord === 2) ent.push(ent.shift() || ["note", "1"]);
    const inputs = Object.fromEntries(ent), r1 = W.r1cs(o, i, p, []), { L } = lib(), e = cx.choose(2); cx.op();
    const r = await attempt(() => e ? L.index.encrypt({ r1csBuffer: r1, symContent: sym }, inputs, text("m")) : L.index.encap({ r1csBuffer: r1, symContent: sym }, inputs));
    const full = states.every((s) => s === 0); cx.state([o, i, p, states, alias, so, more, ord, e]); cx.outcome(`${full ? "complete" : "incomplete"}: ${r[0]}`); cx.traced();
    cx.sample(() => `${show(inputs)}: ${r[0]} ${r[0] === "err" ? r[1] : ""}`);
    if (isCrash(r)) cx.violation("js:panic", `${show(inputs)}: ${r[2].rustPanic}`);
    if (!full) { if (r[0] === "ok") cx.violation(states.length && more === 0 ? "js:weaker-statement" : "js:weaker-statement:extra", `public inputs ${show(inputs)} do not give every public signal, yet a ciphertext for ${recorded(e ? W.split(r[1].ciphertext).ct : r[1].ciphertext)} is produced`); return; }
    if (!cx.check(r[0] === "ok", "js:refused", () => `${show(inputs)} with ${JSON.stringify(sym)}: ${r[1]}`)) return;
    const got = recorded(e ? W.split(r[1].ciphertext).ct : r[1].ciphertext);
    cx.check(got.length === np && got.every((v, j) => v === vals[j]), "js:recorded", () => `${show(inputs)} with ${JSON.stringify(sym)}: recorded ${got}, given ${vals}`);
  });
  explore("js public values", "two public values, each any of 24 field elements at boundaries and their other spellings (negative, beyond the prime, hexadecimal, numbers, big integers), through encap and encrypt: recorded modulo the prime", 0, async (cx) => {
    const vals = [0n, 1n, -1n, 255n, 256n, (1n << 31n) - 1n, 1n << 32n, (1n << 53n) - 1n, 1n << 64n, (1n << 128n) + 1n, (1n << 253n) + 9n, P - 1n, P, P + 1n, 2n * P - 1n, (1n << 254n) - 1n, 1n << 254n, (1n << 256n) - 1n, (1n << 256n) + 3n, 1n << 300n, -P, -P - 2n, -(1n << 64n), P * P + 5n];
    const v = [cx.pick(vals), cx.pick(vals)], how = cx.choose(4), e = cx.flag(); const spell = (x) => how === 0 ? x.toString() : how === 1 ? (x > -(2n ** 53n) && x < 2n ** 53n ? Number(x) : x) : how === 2 ? x : x >= 0n ? "0x" + x.toString(16) : x.toString(); if (how === 2 && e) return;
    const inputs = { a: spell(v[0]), b: [spell(v[1])] }; if (e && (typeof inputs.a === "bigint" || typeof inputs.b[0] === "bigint")) return; const { L } = lib(), r1 = W.r1cs(0, 2, 1, []), sym = "1,1,0,main.a\n2,2,0,main.b[0]\n3,3,0,main.s\n", f = { r1csBuffer: r1, symContent: sym }; cx.op(); cx.traced(); cx.state([v.map(String), how, e]);
    const r = await attempt(() => e ? L.index.encrypt(f, inputs, text("m")) : L.index.encap(f, inputs)); cx.outcome("values: " + r[0]); if (!cx.check(r[0] === "ok", "js:value-refused", () => `${show(inputs)}: ${r[1]}`)) return; const got = recorded(e ? W.split(r[1].ciphertext).ct : r[1].ciphertext), want = v.map((x) => mod(x)); cx.check(got.length === 2 && got[0] === want[0] && got[1] === want[1], "js:value-recorded", () => `${show(inputs)} recorded ${got}, expected ${want}`); cx.sample(() => show(inputs));
  });
  explore("js many public inputs", "10 to 300 public wires as scalars, one array, or rows of an array, wires in order or reversed, through encap and encrypt; all given, or one missing at any place: recorded exactly, or refused", 0, async (cx) => {
    const n = cx.pick(tier([10, 12, 33, 100, 300], [4, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 100, 101, 255, 256, 257, 300, 1000])), form = cx.choose(3), rev = cx.flag(), e = cx.flag(), { L } = lib(); cx.op();
    const cols = n % 3 ? 2 : 3, name = (i) => form === 0 ? `p${i}` : form === 1 ? `a[${i}]` : `a[${Math.floor(i / cols)}][${i % cols}]`, wire = (i) => rev ? n - i : i + 1; if (form === 2 && n % cols) return;
    const places = n > 40 ? [0, 1, 9, 10, 11, 99, 100, 255, 256, n >> 1, n - 2, n - 1].filter((x, i, a) => x < n && a.indexOf(x) === i) : [...Array(n).keys()]; const miss = cx.choose(1 + places.length), gone = miss ? places[miss - 1] : -1;
    const val = (i) => BigInt(5000 + i); const inputs = {}; if (form === 0) { for (let i = 0; i < n; i++) if (i !== gone) inputs[name(i)] = String(val(i)); } else if (form === 1) { inputs.a = [...Array(n).keys()].map((i) => String(val(i))); } else inputs.a = [...Array(n / cols).keys()].map((r) => [...Array(cols).keys()].map((c) => String(val(r * cols + c))));
    if (gone >= 0 && form === 1) inputs.a.length = gone; if (gone >= 0 && form === 2) { inputs.a[Math.floor(gone / cols)].length = gone % cols; }
    const sym = [...Array(n).keys()].map((i) => `${i + 1},${wire(i)},0,main.${name(i)}`).join("\n") + "\n", f = { r1csBuffer: W.r1cs(0, n, 1, []), symContent: sym };
    const r = await attempt(() => e ? L.index.encrypt(f, inputs, text("m")) : L.index.encap(f, inputs)); cx.state([n, form, rev, e, gone]); cx.traced(); cx.outcome(`${gone < 0 ? "all" : "one missing"}: ${r[0]}`); cx.sample(() => `${n} inputs, form ${form}, ${gone} missing: ${r[0]}`);
    if (gone >= 0) { cx.check(r[0] === "err", "js:weaker-statement", () => `${n} public inputs, form ${form}, ${name(gone)} missing (reversed ${rev}): a ciphertext for ${r[0] === "ok" && recorded(e ? W.split(r[1].ciphertext).ct : r[1].ciphertext).length} is produced`); return; }
    if (!cx.check(r[0] === "ok", "js:refused", () => `${n} inputs, form ${form}: ${r[1]}`)) return;
    const got = recorded(e ? W.split(r[1].ciphertext).ct : r[1].ciphertext); cx.check(got.length === n && got.every((v, j) => v === val(rev ? n - 1 - j : j)), "js:recorded", () => `${n} inputs, form ${form}, reversed ${rev}: recorded ${got.slice(0, 20)}...`);
  });
};

props.C04 = () => {
  explore("js entropy bytes", "for encrypt and the AES helper: each bit of the bytes the nonce is drawn from flipped, and none: every nonce bit depends on entropy, and the nonce on at least 96 bits of it; equal entropy gives the equal nonce; each entropy call failing in turn: no output", 1, async (cx) => {
    const helper = cx.flag(), run = async (flip, fail) => {
      let at = 0; const src = W.stream("nonce"); const { w, L } = lib({ random: (n) => { const b = Buffer.from(src(n)); for (let i = 0; i < n; i++) if (at + i === flip >> 3) b[i] ^= 1 << (flip & 7); at += n; return b; }, failRandom: fail });
      addon("entropy", "77", String(2 ** 52)); cx.op();
      const r = await attempt(async () => helper ? await L.crypto.aesGcmEncrypt(new Uint8Array(32).fill(3), text("hello")) : (await L.index.encrypt(files(square), square.cases.pub, text("hello"))).ciphertext);
      addon("entropy", "system", String(2 ** 52));
      return { r, w, at, nonce: r[0] === "ok" ? hex(helper ? r[1].slice(0, 12) : W.split(r[1]).msg.subarray(0, 12)) : null };
    };
    const base = await run(-1), n = base.at; if (!cx.check(base.r[0] === "ok", "js:refused", () => base.r[1])) return;
    cx.check(n >= 12, "js:nonce-entropy", () => `the nonce is made of ${n} bytes of entropy`);
    const draws = base.w.randomLog.length, which = cx.choose(1 + Math.min(n, 64) + draws); cx.state([helper, which]); cx.traced(); cx.sample(() => `${helper ? "helper" : "encrypt"} draws ${n} bytes in ${draws} calls`);
    if (which === 0) { const again = await run(-1); cx.check(again.nonce === base.nonce, "js:nonce-not-from-entropy", () => "equal entropy, different nonces"); cx.outcome("equal entropy"); }
    else if (which <= Math.min(n, 64)) { cx.outcome("byte flipped"); const first = 8 * (which - 1); for (let b = first; b < first + 8; b++) { const f = await run(b); cx.op(); cx.check(f.nonce !== base.nonce || n > 12, "js:nonce-ignores-entropy", () => `flipping entropy bit ${b} leaves the nonce ${f.nonce}`); }
      if (which === 1) { const used = new Uint8Array(12); let count = 0; for (let j = 0; j < 8 * Math.min(n, 64); j++) { const x = await run(j); cx.op(); count += x.nonce !== base.nonce; for (let b = 0; b < 12; b++) used[b] |= parseInt(x.nonce.slice(2 * b, 2 * b + 2), 16) ^ parseInt(base.nonce.slice(2 * b, 2 * b + 2), 16); }
        cx.check(used.every((b) => b === 255), "js:nonce-constant-bit", () => `nonce bits that ever change: ${hex(used)}`); cx.check(count >= 96, "js:nonce-little-entropy", () => `the nonce depends on ${count} bits of ${n} bytes of entropy`); } }
    else { const f = await run(-1, which - 1 - Math.min(n, 64)); cx.outcome("entropy failed: " + f.r[0]); cx.check(f.r[0] === "err", "js:entropy-failure-ignored", () => `entropy call ${which - 1 - Math.min(n, 64)} failed, the call returned output`); }
  });
  explore("js bindings entropy failure", "encap and encrypt with the system entropy of the Rust side failing from the n-th draw on, n up to one past the last: the call fails", 0, async (cx) => {
    const e = cx.flag(), k = cx.pick(all), f = cx.choose(3); const { L } = lib(); addon("entropy", "5", String(f)); cx.op();
    const r = await attempt(() => e ? L.index.encrypt(files(k), k.cases.pub, text("x")) : L.index.encap(files(k), k.cases.pub)); const calls = +Buffer.from(addon("drawn")[0]).toString();
    addon("entropy", "system", String(2 ** 52)); cx.traced(); cx.state([e, k.name, f]); cx.outcome(`failing from ${f}: ${r[0]}`);
    if (calls > f) cx.check(r[0] === "err", "js:entropy-failure-ignored", () => `entropy draw ${f} failed, ${e ? "encrypt" : "encap"} returned a result`);
    cx.check(calls > 0, "js:no-entropy", () => "no entropy drawn from the system");
  });
  explore("js call histories", "all sequences of up to 3 (thorough: 5) calls of encap, encrypt, aesGcmEncrypt on identical inputs, in one module instance and in fresh ones: no key, ciphertext, or nonce occurs twice", 0, async (cx) => {
    let { w, L } = lib(); const n = tier(3, 5), seen = new Map(), hist = []; const sep = cx.flag();
    const fresh = (what, b) => { const h = what + hex(b); cx.check(!seen.has(h), "js:repeated-" + what, () => `${what} ${hex(b).slice(0, 64)} in both ${seen.get(h)} and ${hist.length}:${hist.at(-1)}`); seen.set(h, hist.length + ":" + hist.at(-1)); };
    for (let i = 0; i < n; i++) {
      if (sep) { ({ w, L } = lib()); }
      const op = cx.choose(3); hist.push(["encap", "encrypt", "gcm"][op]); cx.op();
      if (op === 0) { const r = await L.index.encap(files(square), square.cases.pub); fresh("key", r.key); fresh("ciphertext", r.ciphertext); }
      if (op === 1) { const r = await L.index.encrypt(files(square), square.cases.pub, text("same")); const s = W.split(r.ciphertext); fresh("key", r.key); fresh("ciphertext", s.ct); fresh("nonce", s.msg.subarray(0, 12)); }
      if (op === 2) { const r = await L.crypto.aesGcmEncrypt(new Uint8Array(32), text("same")); fresh("nonce", r.slice(0, 12)); }
      cx.state(hist.join());
    }
    cx.traced(); cx.outcome("history of " + n); cx.sample(() => hist.join(" "));
  });
  explore("js long histories", "2500 (thorough: 40000) AES helper calls, 600 (6000) encapsulations, or 600 (6000) encryptions alternating with helper calls, one after another or 50 in flight, in one module instance on identical inputs: no nonce, key or ciphertext twice", 0, async (cx) => {
    const { L } = lib(), op = cx.choose(3), batch = cx.pick([1, 50]), seen = new Map(), n = op === 0 ? tier(2500, 40000) : tier(600, 6000), f = files(square), key = new Uint8Array(32).fill(9);
    const fresh = (what, b, i) => { const h = what + hex(b); cx.check(!seen.has(h), "js:repeated-" + what, () => `${what} ${hex(b).slice(0, 64)} in both call ${seen.get(h)} and call ${i}, ${batch} in flight`); seen.set(h, i); };
    for (let i = 0; i < n; i += batch) await Promise.all([...Array(batch).keys()].map(async (j) => { const k = i + j; cx.op();
      if (op === 1) { const r = await L.index.encap(f, square.cases.pub); fresh("key", r.key, k); fresh("ciphertext", r.ciphertext, k); return; }
      if (op === 0 || k % 2) { const r = await L.crypto.aesGcmEncrypt(key, text("same")); fresh("nonce", r.slice(0, 12), k); return; }
      const r = await L.index.encrypt(f, square.cases.pub, text("same")), s = W.split(r.ciphertext); fresh("key", r.key, k); fresh("ciphertext", s.ct, k); fresh("nonce", s.msg.subarray(0, 12), k); }));
    cx.state([op, batch]); cx.traced(); cx.outcome(["helper", "encap", "mixed"][op] + " history of " + n); cx.sample(() => `${n} calls, ${batch} in flight`);
  });
};

const secretIn = (hay, secret) => {
  const b = Buffer.from(hay), s = Buffer.from(secret), n = Math.min(8, s.length); if (n < 4) return null; const low = b.toString("latin1").toLowerCase(), raw = b.toString("latin1");
  for (let i = 0; i + n <= s.length; i++) {
    const c = s.subarray(i, i + n); if (b.includes(c)) return "raw"; if (low.includes(c.toString("hex"))) return "hex";
    for (const sep of [", ", ",", " "]) if (low.includes([...c].join(sep))) return "decimal"; for (const sep of [" ", ":", ", "]) if (low.includes([...c].map((x) => x.toString(16).padStart(2, "0")).join(sep))) return "hex";
    const e = c.subarray(0, n - n % 3).toString("base64"); if (e.length >= 8 && raw.includes(e)) return "base64";
  }
  return null;
};
/** The same of text, where even four bytes cannot agree by chance: numbers in any layout, hexadecimal in any grouping. */
const secretInText = (t, secret) => {
  const h = secretIn(text(t), secret); if (h || secret.length < 12) return h; const low = t.toLowerCase(), nums = (low.match(/\d+/g) ?? []).map(Number), hexes = low.replace(/0x/g, "").replace(/[^0-9a-f]/g, "");
  for (const s of [Buffer.from(secret), Buffer.from(secret).reverse()]) {
    for (let i = 0; i + 4 <= s.length; i++) { const w = s.subarray(i, i + 4); if (low.includes(w.toString("hex"))) return "hex"; for (const step of [1, 2]) for (let j = 0; j + 3 * step < nums.length; j++) if (w.every((b, q) => nums[j + q * step] === b)) return "decimal"; }
    for (let i = 0; i + 6 <= s.length; i++) { const w = s.subarray(i, i + 6); if (hexes.includes(w.toString("hex"))) return "hex"; if (t.includes(w.toString("base64")) || t.includes(w.toString("base64url"))) return "base64"; }
  }
  return null;
};
props.C05 = () => explore("js leaks", "every operation on every circuit, succeeding and failing (wrong inputs, damaged ciphertext): neither key nor message occurs in a ciphertext, in console output or in an error", 1, async (cx) => {
  const k = cx.pick(all), rec = W.recorder(), { w, L } = lib({}, rec.con), include = cx.flag(), op = cx.choose(4); const m = text("attack at dawn, bring 7 horses"); cx.op(2);
  const c = await L.index.encrypt(files(k), k.cases.pub, m, { includePublicInput: include }), e = await L.index.encap(files(k), k.cases.pub);
  const inp = cx.devPick([k.cases.good[0], ...k.cases.bad]); const dmg = cx.dev(3); const ct = (x) => { const y = Uint8Array.from(x); if (dmg === 1) y[y.length - 1] ^= 1; if (dmg === 2) return y.slice(0, y.length >> 1); return y; };
  const r = op === 0 ? await attempt(() => L.index.decrypt(files(k), ct(c.ciphertext), inp)) : op === 1 ? await attempt(() => L.index.decap(files(k), ct(e.ciphertext), inp)) : op === 2 ? await attempt(() => L.index.getPublicInput(ct(c.ciphertext))) : ["ok"];
  const printed = rec.lines.join("\n") + "\n" + (r[0] === "err" ? (r[2] && r[2].stack || r[1]) + r[1] : ""); cx.traced(); cx.state([k.name, include, op, show(inp), dmg]); cx.outcome(["decrypt", "decap", "getPublicInput", "encrypt"][op] + " " + r[0]);
  cx.sample(() => `${k.name}: ${printed.length} characters of output and error`);
  for (const [what, hay] of [["combined ciphertext", c.ciphertext], ["ciphertext", e.ciphertext], ["output", printed]]) for (const [name, s] of [["key", c.key], ["key", e.key], ["message", m]]) {
    const h = typeof hay === "string" ? secretInText(hay, s) : secretIn(hay, s); cx.check(!h, `js:leak:${name}:${what.replace(" ", "-")}`, () => `${name} occurs in the ${what} (${h})`);
  }
});

// ---------------------------------------------------------------------------------------------
const hostile = (b, cuts) => { const v = []; for (const n of cuts) v.push([`cut to ${n}`, b.slice(0, n)]); return v; };
props.C07 = () => {
  explore("js files cut", "each of circuit, circuit program, ciphertext and combined ciphertext cut at every byte (symbol text: every character), through encap, decap, decrypt and getPublicInput: an error, or the result of the whole file; never a crash", 0, async (cx) => {
    const k = tier(cx.pick([square]), cx.pick(all)), { L } = lib(); const c = globalThis.__c07 ??= {}; const m = text("msg");
    c[k.name] ??= { e: await L.index.encap(files(k), k.cases.pub), c: await L.index.encrypt(files(k), k.cases.pub, m) };
    const { e, c: cc } = c[k.name], op = cx.choose(6), inp = k.cases.good[0]; cx.op();
    const cutAt = (b) => { const n = cx.choose(b.length); cx.state([k.name, op, n]); return b.slice(0, n); };
    let r, whole = null, f = files(k);
    if (op === 0) { const x = cutAt(k.r1cs); r = await attempt(() => L.index.encap({ ...f, r1csBuffer: x }, k.cases.pub)); }
    if (op === 1) { const x = cutAt(k.sym); r = await attempt(() => L.index.encap({ ...f, symContent: x }, k.cases.pub)); if (r[0] === "ok" && recorded(r[1].ciphertext).every((v, i) => v === k.cases.vals[i])) whole = true; }
    if (op === 2) { const x = cutAt(k.wasm); r = await attempt(() => L.index.decap({ ...f, wasmBuffer: x }, e.ciphertext, inp)); }
    if (op === 3) { const x = cutAt(e.ciphertext); r = await attempt(() => L.index.decap(f, x, inp)); }
    if (op === 4) { const x = cutAt(cc.ciphertext); r = await attempt(() => L.index.decrypt(f, x, inp)); }
    if (op === 5) { const x = cutAt(cc.ciphertext); r = await attempt(() => L.index.getPublicInput(x)); if (r[0] === "ok") whole = JSON.stringify(r[1]) === JSON.stringify(k.cases.pub); }
    cx.traced(); cx.outcome(["r1cs", "sym", "wasm", "ciphertext", "combined", "public part"][op] + " " + r[0]); cx.sample(() => `${r[0]} ${r[0] === "err" ? r[1] : ""}`);
    cx.check(!isCrash(r), "js:panic", () => `${r[2].rustPanic}`);
    cx.check(r[0] === "err" || whole, "js:cut-accepted", () => `operation ${op} accepted its ${["circuit", "symbol file", "circuit program", "ciphertext", "combined ciphertext", "combined ciphertext"][op]} cut short`);
  });
  explore("js length fields", "combined ciphertexts with both length fields at boundary values and the flag byte at 0, 1, 2, 255, decrypted and asked for public inputs: an error or the original, no crash, memory in proportion", 2, async (cx) => {
    const k = square, { L } = lib(), m = text("msg"), c = globalThis.__c07b ??= await L.index.encrypt(files(k), k.cases.pub, m); const b = Buffer.from(c.ciphertext), s = W.split(b), l1 = s.ct.length, l2 = s.json.length; const at = 5 + l1;
    const bounds = (l) => [l, 0, 1, l - 1, l + 1, b.length, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffb, 256];
    const a = cx.devPick(bounds(l1)), d = cx.devPick(bounds(l2)), flag = cx.devPick([1, 0, 2, 255]), ask = cx.flag();
    b[0] = flag; b.writeUInt32BE(d >>> 0, at); b.writeUInt32BE(a >>> 0, 1); cx.op(); const before = process.memoryUsage().arrayBuffers;
    const r = await attempt(() => ask ? L.index.getPublicInput(b) : L.index.decrypt(files(k), b, k.cases.good[0])); const grew = process.memoryUsage().arrayBuffers - before;
    cx.traced(); cx.state([a, d, flag, ask]); cx.outcome((ask ? "ask " : "decrypt ") + r[0]); cx.sample(() => `lengths ${a}, ${d}, flag ${flag}: ${r[0]} ${r[1]}`);
    cx.check(!isCrash(r), "js:panic", () => r[2].rustPanic); cx.check(grew < 64 << 20, "js:memory", () => `${grew} bytes allocated`);
    const orig = a === l1 && d === l2 && flag === 1;
    if (r[0] === "ok") cx.check(ask ? orig || (flag === 1 && typeof r[1] === "object") : eq(r[1], m), "js:wrong-accepted", () => `lengths ${a}, ${d}, flag ${flag} give ${show(r[1])}`);
    if (orig) cx.check(r[0] === "ok", "js:refused", () => r[1]);
  });
  explore("js hostile values", "inputs of wrong kinds (empty, null, nested objects, text that is not a number, fractions, unknown or empty names), symbol files that are empty, binary, huge-numbered or malformed, through encap; inputs through decap: an answer or an error, no crash", 2, async (cx) => {
    const { L } = lib(), bad = [25, "25", "", null, undefined, {}, [], [25], { x: 25 }, "abc", 1.5, NaN, "0x19", " 25 ", true, "25n", "1e3", [[[]]], [null]];
    const v = cx.pick(bad), where = cx.choose(2), sym = cx.devPick([square.sym, "", "\0\x01,,,", "1,1", "1,99999999999999999999,0,main.p\n", "1,-5,0,main.p\n", "x,y,z,main.p\n", "1,1,0,main.p,extra\n", "1,1e9,0,main.p\n", square.sym.replace(/\n/g, "\r\n"), "1,4294967295,0,main.p\n1,1,0,main.q\n"]); cx.op();
    const r = where ? await attempt(() => L.index.decap(files(square), (globalThis.__c07c ??= addon("wasm_encap", square.r1cs, W.wtns([1n, 25n]))[0]), { p: v, s: 5 })) : await attempt(() => L.index.encap({ ...files(square), symContent: sym }, { p: v }));
    cx.traced(); cx.state([show(v) + String(v), where, sym]); cx.outcome((where ? "decap " : "encap ") + r[0]); cx.sample(() => `${show(v)}: ${r[0]} ${r[0] === "err" ? r[1] : ""}`);
    cx.check(!isCrash(r), "js:panic", () => `${show(v)}: ${r[2].rustPanic}`);
  });
};

// ---------------------------------------------------------------------------------------------
props.C09 = () => {
  explore("js encapsulation witness", "every circuit x public values at boundary values of the field: the witness handed to the bindings is a well-formed witness file holding 1 and the public values in wire order, read back identically by the bindings and the command line reader", 2, async (cx) => {
    const n = 1 + cx.choose(tier(4, 8)), vs = [...Array(n)].map(() => cx.devPick([7n, 0n, 1n, P - 1n, 255n, 256n, 1n << 64n, (1n << 253n) + 5n, 0xffffffffn]));
    const r1 = W.r1cs(0, n, 1, []), sym = [...Array(n + 1).keys()].map((i) => `${i + 1},${i + 1},0,main.v${i}`).join("\n"), { w, L } = lib(); let captured = []; const enc = w.shim.wasm_encap; w.shim.wasm_encap = (r, x) => { captured.push(Uint8Array.from(x)); return enc(r, x); };
    const r = await attempt(() => L.index.encap({ r1csBuffer: r1, symContent: sym }, Object.fromEntries(vs.map((v, i) => ["v" + i, v.toString()])))); cx.op(); cx.traced(); cx.state(vs); cx.outcome("encap " + r[0]);
    if (!cx.check(r[0] === "ok", "js:refused", () => `${vs}: ${r[1]}`)) return;
    const rd = readWtns(captured.at(-1)); cx.sample(() => `${show(rd)}`);
    const want = [1n, ...vs]; const holds = (vals) => vals.length >= want.length && want.every((v, i) => v === vals[i]);
    cx.check(!rd.bad && rd.prime === P && rd.n8 === 32 && holds(rd.values), "js:witness-file", () => `values ${vs}: ${show(rd)}`);
    const got = recorded(r[1].ciphertext); cx.check(got.every((v, i) => v === vs[i]) && got.length === n, "js:read-back", () => `written ${vs}, the bindings read ${got}`);
    const p = W.scratch() + "w.wtns"; fs.writeFileSync(p, captured.at(-1)); const c = await attempt(() => addon("cli_witness", p)); cx.op();
    cx.check(c[0] === "ok" && holds(c[1].map((b) => W.fromLe(b.subarray(4)))) && c[1].every((b, i) => Number(W.fromLe(b.subarray(0, 4))) === i), "js:cli-reads", () => `written ${want}, the command line reads ${c[0] === "ok" ? c[1].map((b) => W.fromLe(b.subarray(4))) : c[1]}`);
  });
  explore("witness calculator files", "witness sizes 1 to 5 x boundary values, by both calculators and calculateWitness: well-formed witness files, read back as the values computed by the strict reader, the command line reader and the bindings", 2, async (cx) => {
    const which = cx.choose(3), n = cx.choose(tier(5, 9)), vs = [...Array(n)].map(() => cx.devPick([9n, 0n, 1n, P - 1n, 1n << 32n, (1n << 224n) - 1n, 0x80000000n, P - (1n << 31n)]));
    const c = { n32: 8, prime: P, inputs: n ? [["v", n]] : [], wires: [["one"], ...vs.map((_, i) => ["in", "v", i])] }; const { L } = lib(), inputs = n ? { v: vs.map(String) } : {}; cx.op();
    const b = await attempt(async () => which === 0 ? L.witness.calculateWitness(fakeWasm(c), inputs) : which === 1 ? (await L.builder(fakeWasm(c))).calculateWTNSBin(inputs, 0) : (await W.freshJs()(fakeWasm(c))).calculateWTNSBin(inputs, 0));
    cx.traced(); cx.state([which, vs]); cx.outcome(["calculateWitness", "ts", "js"][which] + " " + b[0]); if (!cx.check(b[0] === "ok", "js:calculator-refused", () => b[1])) return;
    const rd = readWtns(b[1]), want = [1n, ...vs]; cx.sample(() => show(rd)); const same = (v) => v.length === want.length && v.every((x, i) => x === want[i]);
    cx.check(!rd.bad && rd.prime === P && rd.n8 === 32 && same(rd.values), "js:calculator-file", () => `witness ${want}: ${show(rd)}`);
    const p = W.scratch() + "w.wtns"; fs.writeFileSync(p, b[1]); const g = await attempt(() => addon("cli_witness", p));
    cx.check(g[0] === "ok" && same(g[1].map((x) => W.fromLe(x.subarray(4)))), "js:cli-reads", () => `witness ${want}: ${g[0]} ${g[0] === "ok" ? g[1].map((x) => W.fromLe(x.subarray(4))) : g[1]}`);
    const e = await attempt(() => addon("wasm_encap", W.r1cs(0, n, 0, []), b[1])); cx.op(2);
    cx.check(e[0] === "ok" && same([1n, ...recorded(e[1][0])]), "js:bindings-read", () => `witness ${want}: ${e[0]} ${e[0] === "ok" ? recorded(e[1][0]) : e[1]}`);
  });
  explore("large witnesses", "100 to 2049 (thorough: 20000) wires, public inputs through encap and circuit signals through both calculators: witness file read back value by value by the strict reader, the command line reader and the bindings", 0, async (cx) => {
    const which = cx.choose(4), n = cx.pick(tier([100, 255, 256, 257, 1000, 2049], [100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2047, 2048, 2049, 4096, 8191, 8192, 10000, 20000])); const { w, L } = lib(); cx.op();
    const vs = [...Array(n).keys()].map((i) => i % 5 === 4 ? P - BigInt(i) : (BigInt(i) << BigInt(i % 240)) + 1n), want = [1n, ...vs.map((v) => mod(v))]; const same = (v) => v.length === want.length && v.every((x, i) => x === want[i]); let b;
    if (which === 3) { const sym = vs.map((_, i) => `${i + 1},${i + 1},0,main.v[${i}]`).join("\n") + "\n"; const enc = w.shim.wasm_encap; w.shim.wasm_encap = (r, x) => { b = ["ok", Uint8Array.from(x)]; return enc(r, x); }; const r = await attempt(() => L.index.encap({ r1csBuffer: W.r1cs(0, n, 1, []), symContent: sym }, { v: vs.map(String) })); if (!cx.check(r[0] === "ok" && b, "js:refused", () => `${n} public inputs: ${r[1]}`)) return; }
    else { const c = { n32: 8, prime: P, inputs: [["v", n]], wires: [["one"], ...vs.map((_, i) => ["in", "v", i])] }, inp = { v: vs.map(String) }; b = await attempt(async () => which === 0 ? L.witness.calculateWitness(fakeWasm(c), inp) : which === 1 ? (await L.builder(fakeWasm(c))).calculateWTNSBin(inp, 0) : (await W.freshJs()(fakeWasm(c))).calculateWTNSBin(inp, 0)); if (!cx.check(b[0] === "ok", "js:calculator-refused", () => `${n} values: ${b[1]}`)) return; }
    const f = b[1], rd = readWtns(f), what = `${["calculateWitness", "ts", "js", "encap"][which]}, ${n} values`; cx.traced(); cx.state([which, n]); cx.outcome(["calculateWitness", "ts", "js", "encap"][which]); cx.sample(() => what); const head = (v) => same(which === 3 ? v.slice(0, n + 1) : v);
    cx.check(!rd.bad && rd.prime === P && rd.n8 === 32 && head(rd.values), "js:calculator-file", () => `${what}: ${rd.bad || "other values"}`);
    const p = W.scratch() + "w.wtns"; fs.writeFileSync(p, f); const g = await attempt(() => addon("cli_witness", p).map((x) => [Number(W.fromLe(x.subarray(0, 4))), W.fromLe(x.subarray(4))]).sort((x, y) => x[0] - y[0]).map((x) => x[1])); cx.check(g[0] === "ok" && head(g[1]), "js:cli-reads", () => `${what}: ${g[0] === "ok" ? "other values" : g[1]}`);
    const e = await attempt(() => addon("wasm_encap", W.r1cs(0, n, 0, []), which === 3 ? W.wtns(rd.values.slice(0, n + 1)) : f)); cx.op(2); cx.check(e[0] === "ok" && same([1n, ...recorded(e[1][0])]), "js:bindings-read", () => `${what}: ${e[0] === "ok" ? "other values" : e[1]}`);
  });
};

// ---------------------------------------------------------------------------------------------
const refSym = (t) => { const m = new Map(); for (const l of t.split(/\r?\n/)) { if (!l.trim()) continue; const p = l.split(","); const w = Number(p[1]); if (w >= 0) m.set(p[3].trim(), w); } return m; };
props.C11 = () => {
  explore("js symbol files", "all files of up to 3 (thorough: 4) lines over wires (removed, 1, 2, 2 again, largest) x names (main, array element, inner, other component) x line endings, blank lines, final newline: the TypeScript and Rust readers give the reference map, for every limit", 2, async (cx) => {
    const n = cx.choose(tier(4, 5)), names = ["main.a", "main.b[0]", "main.b[1][2]", "main.sub.x", "other.y", "main"], lines = [], used = new Set(); const { L } = lib();
    for (let i = 0; i < n; i++) { const nm = cx.pick(names.filter((x) => !used.has(x))); used.add(nm); lines.push(`${cx.devPick([i + 1, 4294967295])},${cx.pick(tier([-1, 1, 2, i + 3], [-1, 1, 2, i + 3]))},${cx.devPick([0, 7])},${nm}`); }
    const eol = cx.devPick(["\n", "\r\n"]), end = cx.devPick([eol, "", eol + eol]), t = lines.join(eol) + (lines.length ? end : ""), limit = cx.choose(4); const max = [undefined, 0, 1, 2][limit]; cx.op(2);
    const ref = refSym(t), want = [...ref].filter(([k, w]) => k.startsWith("main.") && (max === undefined || w <= max)).map(([k, w]) => `${w} ${k.slice(5)}`).sort();
    const r = await attempt(() => { const m = L.index.parseSymFile(t); return [m, L.index.getInputSignals(m, max)]; }); cx.traced(); cx.state(t + limit); cx.outcome("ts " + r[0]); cx.sample(() => JSON.stringify(t));
    if (cx.check(r[0] === "ok", "ts:sym-refused", () => `${JSON.stringify(t)}: ${r[1]}`)) {
      const got = [...r[1][0]].map(([k, w]) => `${w} ${k}`).sort(); cx.check(JSON.stringify(got) === JSON.stringify([...ref].map(([k, w]) => `${w} ${k}`).sort()), "ts:sym-map", () => `${JSON.stringify(t)} read as ${got}`);
      const g2 = [...r[1][1]].map(([k, w]) => `${w} ${k}`).sort(); cx.check(JSON.stringify(g2) === JSON.stringify(want), "ts:signals", () => `${JSON.stringify(t)} up to ${max}: ${g2}, expected ${want}`);
    }
    const c = await attempt(() => addon("sym", t, max === undefined ? "" : String(max)).map((b) => Buffer.from(b).toString()).sort());
    if (n) cx.check(c[0] === "ok" && JSON.stringify(c[1]) === JSON.stringify(want), "ts:rust-differs", () => `${JSON.stringify(t)} up to ${max}: Rust ${c[1]}, expected ${want}`);
  });
  explore("js symbol names", "files of up to 3 lines over 20 names that resemble one another (case, prefixes, nesting, indices, spaces, other scripts), every limit: the TypeScript and Rust readers give the reference map", 0, async (cx) => {
    const names = ["main.a", "main.A", "Main.a", "MAIN.a", "main.a[0]", "main.a[1]", "main.a[10]", "main.a[0][1]", "main.main.a", "main.c.main.a", "main.c.a", "mainx.y", "amain.b", "xmain.a", "main", "main_a", "main.a b", "main.測", "main._1", "main.__proto__"], { L } = lib();
    const n = cx.choose(4), i = cx.choose(names.length), j = n > 1 ? cx.choose(names.length) : 0; if (n > 1 && i === j) return; const rows = n === 0 ? [] : n === 1 ? [i] : n === 2 ? [i, j] : [i, (i + j + 1) % names.length, j]; if (new Set(rows).size !== rows.length) return;
    const w = cx.choose(3), t = rows.map((r, k) => `${k + 1},${[k + 1, rows.length - k, 3][w]},0,${names[r]}\n`).join(""), max = [undefined, 0, 1, 2][cx.choose(4)]; cx.op(2); cx.traced(); cx.state(t + max);
    const ref = refSym(t), want = [...ref].filter(([k, v]) => k.startsWith("main.") && (max === undefined || v <= max)).map(([k, v]) => `${v} ${k.slice(5)}`).sort();
    const r = await attempt(() => [...L.index.getInputSignals(L.index.parseSymFile(t), max)].map(([k, v]) => `${v} ${k}`).sort()); cx.outcome("ts " + r[0]);
    cx.check(r[0] === "ok" && JSON.stringify(r[1]) === JSON.stringify(want), "ts:signals", () => `${JSON.stringify(t)} up to ${max}: ${r[1]}, expected ${want}`);
    const c = await attempt(() => addon("sym", t, max === undefined ? "" : String(max)).map((b) => Buffer.from(b).toString()).sort()); if (n) cx.check(c[0] === "ok" && JSON.stringify(c[1]) === JSON.stringify(want), "ts:rust-differs", () => `${JSON.stringify(t)} up to ${max}: Rust ${c[1]}, expected ${want}`);
  });
  const shapes = [["x", null], ["x", [2]], ["x", [2, 2]], ["x", [1, 3]], ["x", [2, 1, 2]], ["x", [1]], ["x.y", null], ["x.y", [2]], ["x", [11]]];
  const elems = (name, dims) => { if (!dims || !dims.length) return [name]; const out = []; for (let i = 0; i < dims[0]; i++) out.push(...elems(`${name}[${i}]`, dims.slice(1))); return out; };
  const nest = (dims, vals) => { if (!dims || !dims.length) return vals.shift(); return [...Array(dims[0])].map(() => nest(dims.slice(1), vals)); };
  const put = (o, name, v) => { const p = name.split("."); let x = o; for (const k of p.slice(0, -1)) x = x[k] ??= {}; x[p.at(-1)] = v; };
  const spell = [[7n, (v) => v.toString()], [7n, (v) => Number(v)], [7n, (v) => v], [0n, () => 0], [0n, () => 0n], [0n, () => "0"], [-1n, () => -1n], [-1n, () => -1], [-1n, () => "-1"], [P, (v) => v.toString()], [P + 5n, (v) => v.toString()], [(1n << 256n) + 3n, (v) => v.toString()], [-P - 2n, (v) => v.toString()], [9007199254740991n, (v) => Number(v)], [P - 1n, (v) => v], [0n, () => -0], [-(1n << 64n), (v) => v.toString()]];
  explore("js mapping", "one or two inputs of any shape (scalar, arrays of 1 to 3 dimensions, nested objects) x wires in any order x one unrelated entry x spellings of the values: every element reaches the wire of its name and nothing else does; the recorded publics of encap, and of the command line tool for the same inputs, are the values modulo the prime", tier(2, 3), async (cx) => {
    const two = cx.flag(), [n1, d1] = cx.pick(shapes), [n2, d2] = two ? cx.pick([["z", null], ["z", [2]], ["w.q", [1, 2]]]) : ["z", null];
    let flat = [...elems(n1, d1), ...(two ? elems(n2, d2) : [])]; const wires = flat.map((_, i) => i + 1); const order = cx.choose(3); if (order === 1) wires.reverse(); if (order === 2) wires.push(wires.shift());
    const vals = [], spelled = []; const one = cx.dev(1 + flat.length), sp = cx.choose(one ? spell.length : 1); flat.forEach((_, i) => { const [v, f] = one === i + 1 ? spell[sp] : [BigInt(100 + i), (x) => x.toString()]; vals.push(v); spelled.push(f(v)); });
    const inputs = {}; const mix = spelled.slice(); const a = nest(d1, mix), b = two ? nest(d2, mix) : null; const rev = cx.dev(2); if (rev && two) { put(inputs, n2, b); put(inputs, n1, a); } else { put(inputs, n1, a); if (two) put(inputs, n2, b); }
    const extra = cx.dev(4); if (extra === 1) inputs.other = "5"; if (extra === 2) inputs["x[99]"] = "5"; if (extra === 3) inputs.unrelated = [[1, 2], [3]];
    const order2 = flat.map((n, i) => `${i + 1},${wires[i]},0,main.${n}`); if (cx.dev(2)) order2.reverse(); const sym = order2.join("\n") + "\n", { L } = lib(); cx.op(3);
    const want = []; flat.forEach((_, i) => { want[wires[i] - 1] = mod(vals[i]); }); cx.state([flat, wires, vals, extra, rev]); cx.sample(() => `${show(inputs)} with ${JSON.stringify(sym)}`); cx.traced();
    const mapped = await attempt(() => L.index.mapInputsToWires(inputs, L.index.getInputSignals(L.index.parseSymFile(sym)))); cx.outcome("map " + mapped[0]);
    if (cx.check(mapped[0] === "ok", "ts:map-refused", () => `${show(inputs)}: ${mapped[1]}`)) {
      const got = [...mapped[1]].map(([w, v]) => [w, mod(BigInt(Array.isArray(v) ? v[0] : v))]).sort((x, y) => x[0] - y[0]);
      cx.check(got.length === want.length && got.every(([w, v], i) => w === i + 1 && v === want[i]), d1 && d1.length > 1 ? "ts:map:nested-array" : "ts:map", () => `${show(inputs)} with ${JSON.stringify(sym)} mapped to ${show(got)}, expected ${show(want)}`);
    }
    const r1 = W.r1cs(0, flat.length, 1, []), r = await attempt(() => L.index.encap({ r1csBuffer: r1, symContent: sym }, inputs)); cx.outcome("encap " + r[0]);
    if (cx.check(r[0] === "ok", (d1 && d1.length > 1) || (two && d2 && d2.length > 1) ? "js:encap-refused:nested-array" : "js:encap-refused", () => `${show(inputs)}: ${r[1]}`)) {
      const got = recorded(r[1].ciphertext); cx.check(got.length === want.length && got.every((v, i) => v === want[i]), one && sp > 5 ? "js:recorded:value" : "js:recorded", () => `${show(inputs)}: recorded ${got}, expected ${want}`);
    }
    if (spelled.every((s) => typeof s !== "bigint") && (cx.choices.length + sp + flat.length) % tier(4, 1) === 0) {
      const d = W.scratch(); fs.writeFileSync(d + "c", r1); fs.writeFileSync(d + "s", sym); fs.writeFileSync(d + "i", JSON.stringify(inputs));
      const c = await attempt(() => addon("cli_encap", d + "c", d + "s", d + "i", d + "ct", d + "k")); cx.op(); cx.outcome("cli " + c[0]);
      const dotted = n1.includes(".") || (two && n2.includes(".")); // nested objects: the command line tool refuses them
      if (dotted ? c[0] === "ok" : cx.check(c[0] === "ok", "cli:encap-refused", () => `${show(inputs)}: ${c[1]}`)) { const got = recorded(fs.readFileSync(d + "ct")); cx.check(got.length === want.length && got.every((v, i) => v === want[i]), "cli:recorded", () => `${show(inputs)}: the command line tool recorded ${got}, expected ${want}`); }
    }
  });
  explore("js large arrays", "arrays of 11 to 300 elements of up to 4 dimensions (also inside nested objects, also 60 names), and 65537 and 257 x 256 elements and 65537 names, wires in order, reversed or strided, symbol lines in order or shuffled: mapping, encap and the command line tool give every element its own wire", 0, async (cx) => {
    const [nm, dims] = cx.pick([["x", [11]], ["x", [101]], ["x", [300]], ["x", [12, 12]], ["x", [2, 3, 11]], ["x", [2, 2, 2, 11]], ["x", [1, 1, 1, 20]], ["x", [13, 1, 1]], ["x.y", [12]], ["x.y.z", [3, 11]], [null, [60]], [null, [120]], ["x", [65537]], ["x", [257, 256]], [null, [65537]]]), flat = nm ? elems(nm, dims) : [...Array(dims[0]).keys()].map((i) => "v" + i), n = flat.length, order = cx.choose(4), shuffled = cx.choose(3), spelling = cx.choose(2); const { L } = lib(); cx.op(3); if (n > 60000 && (order !== 1 || spelling || shuffled === 2)) return;
    const step = [7, 11, 13, 17].find((k) => n % k && [...Array(n).keys()].map((i) => i * k % n).filter((v, i, a) => n > 1000 || a.indexOf(v) === i).length === n) ?? 1; const wire = (i) => order === 0 ? i + 1 : order === 1 ? n - i : order === 2 ? i * step % n + 1 : (i + 5) % n + 1;
    const vals = flat.map((_, i) => BigInt(1000 + i)), sp = vals.map((v) => spelling ? Number(v) : v.toString()), inputs = {}; if (nm) put(inputs, nm, nest(dims, sp.slice())); else flat.forEach((f, i) => { inputs[f] = sp[i]; });
    const lines = flat.map((f, i) => `${i + 1},${wire(i)},0,main.${f}`); if (shuffled === 1) lines.reverse(); if (shuffled === 2) lines.sort(); const sym = lines.join("\n") + "\n", want = []; flat.forEach((_, i) => { want[wire(i) - 1] = vals[i]; });
    cx.state([nm, dims, order, shuffled, spelling]); cx.traced(); cx.sample(() => `${nm} ${dims}, order ${order}, lines ${shuffled}`); const what = `${nm} of ${dims}, wire order ${order}, lines ${shuffled}`;
    const m = await attempt(() => L.index.mapInputsToWires(inputs, L.index.getInputSignals(L.index.parseSymFile(sym)))); cx.outcome("map " + m[0]); if (cx.check(m[0] === "ok", "ts:map-refused", () => `${what}: ${m[1]}`)) { const got = [...m[1]].map(([w, v]) => [w, BigInt(v)]).sort((x, y) => x[0] - y[0]); cx.check(got.length === n && got.every(([w, v], i) => w === i + 1 && v === want[i]), "ts:map", () => `${what}: mapped to ${show(got).slice(0, 300)}`); }
    const r1 = W.r1cs(0, n, 1, []), r = await attempt(() => L.index.encap({ r1csBuffer: r1, symContent: sym }, inputs)); cx.outcome("encap " + r[0]); if (cx.check(r[0] === "ok", "js:encap-refused", () => `${what}: ${r[1]}`)) { const got = recorded(r[1].ciphertext); cx.check(got.length === n && got.every((v, i) => v === want[i]), "js:recorded", () => `${what}: recorded ${String(got).slice(0, 300)}`); }
    if (nm && nm.includes(".")) return; const d = W.scratch(); fs.writeFileSync(d + "c", r1); fs.writeFileSync(d + "s", sym); fs.writeFileSync(d + "i", JSON.stringify(inputs)); const c = await attempt(() => addon("cli_encap", d + "c", d + "s", d + "i", d + "ct", d + "k")); cx.op(); cx.outcome("cli " + c[0]);
    if (cx.check(c[0] === "ok", "cli:encap-refused", () => `${what}: ${c[1]}`)) { const got = recorded(fs.readFileSync(d + "ct")); cx.check(got.length === n && got.every((v, i) => v === want[i]), "cli:recorded", () => `${what}: the command line tool recorded ${String(got).slice(0, 300)}`); }
  });
};

// ---------------------------------------------------------------------------------------------
const lens = () => tier([0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 255, 256, 4096, 65535, 65536, 70000, 1048593], [0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 65535, 65536, 65537, 70000, 1048576, 3000001]);
const body = (n) => Uint8Array.from({ length: n }, (_, i) => (i * 7 + n) & 255);
props.C12 = () => {
  explore("js cross-tool", "every producer (library, command line) x consumer (library, command line) x circuit x message length x public inputs embedded or not x satisfying inputs x kinds of buffers: the message comes back; layout as documented; embedded public inputs returned as supplied, otherwise refused", 1, async (cx) => {
    const k = cx.pick(all), by = cx.flag(), to = cx.flag(), include = cx.flag(), m = body(cx.pick(lens())), inp = cx.devPick(k.cases.good), kind = cx.dev(4), { L } = lib(), d = W.scratch(), f = files(k); cx.op(2);
    const as = (b) => kind === 1 ? Buffer.from(b) : kind === 2 ? W.cat(Buffer.alloc(7, 3), b, Buffer.alloc(9, 4)).subarray(7, 7 + b.length) : kind === 3 ? new Uint8Array(W.cat(Buffer.alloc(8), b).buffer, 0).subarray(8) : b;
    fs.writeFileSync(d + "c", k.r1cs); fs.writeFileSync(d + "s", k.sym); fs.writeFileSync(d + "i", JSON.stringify(k.cases.pub)); fs.writeFileSync(d + "m", m); fs.writeFileSync(d + "w", W.wtns(k.cases.wit));
    const ff = { r1csBuffer: as(k.r1cs), symContent: k.sym, wasmBuffer: as(k.wasm) };
    const e = await attempt(async () => by ? (addon("cli_encrypt", d + "c", d + "s", d + "i", d + "m", d + "ct", include ? "1" : "0"), new Uint8Array(fs.readFileSync(d + "ct"))) : (await L.index.encrypt(ff, k.cases.pub, as(m), ...(include ? cx.dev(2) ? [{ includePublicInput: true }] : [] : [{ includePublicInput: false }]))).ciphertext);
    cx.state([k.name, by, to, include, m.length, show(inp), kind]); cx.outcome(`${by ? "cli" : "js"} to ${to ? "cli" : "js"} ${e[0]}`); cx.traced(); cx.sample(() => `${k.name} ${m.length} bytes ${by ? "cli" : "js"} to ${to ? "cli" : "js"}`);
    if (!cx.check(e[0] === "ok", "js:encrypt-refused", () => e[1])) return;
    const s = W.split(e[1]); cx.check(s && s.flag === (include ? 1 : 0) && s.msg.length === 28 + m.length && eq(recorded(s.ct).map(String).join() ? text("x") : text("x"), text("x")) && recorded(s.ct).every((v, i) => v === k.cases.vals[i]), "js:layout", () => `layout: ${s && [s.flag, s.ct.length, s.msg.length]}`);
    if (s && s.json) cx.check(JSON.stringify(JSON.parse(s.json.toString())) === JSON.stringify(k.cases.pub), "js:embedded", () => `embedded ${s.json}`);
    const g = await attempt(() => L.index.getPublicInput(as(e[1]))); if (include) cx.check(g[0] === "ok" && JSON.stringify(g[1]) === JSON.stringify(k.cases.pub), "js:public-input", () => `returned ${show(g[1])}`); else cx.check(g[0] === "err", "js:public-input-invented", () => `returned ${show(g[1])}`);
    fs.writeFileSync(d + "ct", e[1]); const ctc = as(Uint8Array.from(e[1]));
    const r = await attempt(async () => to ? (addon("cli_decrypt", d + "c", d + "w", d + "ct", d + "o"), new Uint8Array(fs.readFileSync(d + "o"))) : L.index.decrypt(ff, ctc, inp));
    cx.check(r[0] === "ok" && eq(r[1], m), "js:message", () => `${k.name}, ${m.length} bytes, ${by ? "cli" : "js"} to ${to ? "cli" : "js"}, public inputs ${include ? "embedded" : "left out"}: ${r[0] === "ok" ? hex(r[1]).slice(0, 80) : r[1]}`);
    if (!by && !to) { const e2 = await attempt(() => L.index.encrypt(ff, k.cases.pub, m)); if (e2[0] === "ok") { const s2 = W.split(e2[1].ciphertext); const p = await attempt(() => addon("decrypt_gcm", e2[1].key, s2.msg)); cx.check(p[0] === "ok" && eq(p[1][0], m), "js:returned-key", () => "the key encrypt returns does not open the message part"); } }
  });
  explore("js embedded inputs", "public inputs of many shapes and texts (unicode, quotes, empty, deep, long, many keys, number-like names, numbers at the edges): getPublicInput returns exactly what was supplied, for ciphertexts of the library and of the command line tool", 0, async (cx) => {
    const big = Object.fromEntries([...Array(300).keys()].map((i) => ["k" + i, String(i)]));
    const odd = cx.pick([{}, { z: "\u00e9\u4e2d\ud83d\ude00" }, { "a\"b\\c\n": "q" }, { "\u0000": "\u2028" }, { 10: "1", 9: "2", b: "3" }, big, { d: { e: [{ f: [[[1]]] }] } }, { n: [0, -1, 1.5, 1e21, 9007199254740993, 1e-7] }, { t: true, u: null, v: false }, { l: "x".repeat(70000) }, { "": "" }, { toString: "1", constructor: "2" }, JSON.parse('{"__proto__":"5"}')]);
    const k = square, by = cx.flag(), pub = Object.assign(Object.create(null), odd); if (Object.hasOwn(odd, "__proto__")) Object.defineProperty(pub, "__proto__", { value: "5", enumerable: true, configurable: true, writable: true });
    const inputs = { ...odd, p: "25" }; if (Object.hasOwn(odd, "__proto__")) Object.defineProperty(inputs, "__proto__", { value: "5", enumerable: true, configurable: true, writable: true });
    const { L } = lib(), d = W.scratch(), js = JSON.stringify(inputs); fs.writeFileSync(d + "c", k.r1cs); fs.writeFileSync(d + "s", k.sym); fs.writeFileSync(d + "i", js); fs.writeFileSync(d + "m", "m"); cx.op();
    const e = await attempt(async () => by ? (addon("cli_encrypt", d + "c", d + "s", d + "i", d + "m", d + "ct", "1"), new Uint8Array(fs.readFileSync(d + "ct"))) : (await L.index.encrypt(files(k), inputs, text("m"))).ciphertext);
    cx.state([js.slice(0, 200), by]); cx.outcome((by ? "cli " : "js ") + e[0]); cx.traced(); cx.sample(() => js.slice(0, 100));
    if (e[0] === "err") { // a tool may refuse values it cannot make field elements of, but not mere names and texts it does not use
      cx.check(by, "js:encrypt-refused", () => `${js.slice(0, 200)}: ${e[1]}`); return; }
    const g = await attempt(() => L.index.getPublicInput(e[1])); cx.check(g[0] === "ok" && JSON.stringify(g[1]) === js, "js:public-input", () => `supplied ${js.slice(0, 300)}, returned ${g[0] === "ok" ? JSON.stringify(g[1]).slice(0, 300) : g[1]}`);
    const r = await attempt(() => L.index.decrypt(files(k), e[1], k.cases.good[0])); cx.check(r[0] === "ok" && eq(r[1], text("m")), "js:message", () => String(r[1]));
  });
};

props.C13 = () => {
  const base = async () => globalThis.__c13 ??= await (async () => { const { L } = lib(); const m = text("pay 100 to alice"), mk = async (k, pub, m, inc) => ({ c: (await L.index.encrypt(files(k), pub, m, { includePublicInput: inc })).ciphertext, m }); return { a: await mk(square, square.cases.pub, m, true), b: await mk(square, square.cases.pub, text("pay 999 to mallory!"), true), c: await mk(square, square.cases.pub, m, false), d: await mk(array, array.cases.pub, text("other circuit"), true) }; })();
  const judge = (cx, what, r, m) => { cx.traced(); cx.outcome(`${what.split(" ")[0]} ${r[0]}`); cx.check(r[0] === "err" || eq(r[1], m), `js:tampered:${what.split(" ")[0]}`, () => `${what}: decrypt returned ${Buffer.from(r[1]).toString("latin1")}`); cx.check(!isCrash(r), "js:panic", () => `${what}: ${r[2].rustPanic}`); };
  explore("js bit flips", "every bit of a combined ciphertext of the library, with and without public inputs, flipped; every truncation; up to 3 bytes appended; and one byte removed or doubled at every place", 0, async (cx) => {
    const { L } = lib(), B = await base(), x = cx.pick([B.a, B.c]), n = x.c.length, kind = cx.choose(4); let y, what;
    if (kind === 0) { const i = cx.choose(n), bit = cx.choose(8); y = Uint8Array.from(x.c); y[i] ^= 1 << bit; what = `flip byte ${i} bit ${bit}`; }
    if (kind === 1) { const i = cx.choose(n); y = x.c.slice(0, i); what = `cut to ${i}`; }
    if (kind === 2) { const i = 1 + cx.choose(3), v = cx.pick([0, 255]); y = W.cat(x.c, Buffer.alloc(i, v)); what = `append ${i} of ${v}`; }
    if (kind === 3) { const i = cx.choose(n), dbl = cx.flag(); y = dbl ? W.cat(x.c.slice(0, i + 1), x.c.slice(i)) : W.cat(x.c.slice(0, i), x.c.slice(i + 1)); what = `${dbl ? "double" : "drop"} byte ${i}`; }
    cx.op(); cx.state([x === B.a, what]); cx.sample(() => what); judge(cx, what, await attempt(() => L.index.decrypt(files(square), y, square.cases.good[0])), x.m);
  });
  explore("js splices", "every combination of flag, key ciphertext, public inputs and message part of four ciphertexts (two messages, another layout, another circuit), and message parts recombined from nonce, body and tag: an error or the message the key ciphertext belongs to", 0, async (cx) => {
    const { L } = lib(), B = await base(), X = [B.a, B.b, B.c, B.d], S = X.map((x) => W.split(x.c)); const i = cx.choose(4), j = cx.choose(5), l = cx.choose(4), mode = cx.choose(3); const js = j < 4 ? S[j].json || Buffer.from("") : null;
    const flag = js ? 1 : 0, msg = mode === 0 ? S[l].msg : mode === 1 ? W.cat(S[l].msg.subarray(0, 12), S[i].msg.subarray(12)) : W.cat(S[i].msg.subarray(0, S[i].msg.length - 16), S[l].msg.subarray(S[l].msg.length - 16)); const y = W.join(flag, S[i].ct, js, msg); cx.op();
    const what = `splice key ${i} publics ${j} message ${l} mode ${mode}`, k = i === 3 ? array : square; cx.state(what); cx.sample(() => what); const r = await attempt(() => L.index.decrypt(files(k), y, k.cases.good[0])); judge(cx, what, r, X[i].m); if (l === i) cx.check(r[0] === "ok", "js:refused", () => `${what}: ${r[1]}`);
  });
  explore("js symmetric", "every bit of aesGcmEncrypt output flipped, every truncation, one byte appended, and the output of another call spliced, for short messages: aesGcmDecrypt refuses or returns the original", 0, async (cx) => {
    const { L } = lib(), n = cx.pick([0, 1, 16, 17]), m = body(n), key = body(32); const c = await L.crypto.aesGcmEncrypt(key, m), c2 = await L.crypto.aesGcmEncrypt(key, body(n + 1).slice(1)), kind = cx.choose(4); let y, what; cx.op(3);
    if (kind === 0) { const i = cx.choose(c.length * 8); y = Uint8Array.from(c); y[i >> 3] ^= 1 << (i & 7); what = `flip ${i}`; } if (kind === 1) { const i = cx.choose(c.length); y = c.slice(0, i); what = `cut ${i}`; } if (kind === 2) { y = W.cat(c, Buffer.from([cx.choose(2)])); what = "append one"; } if (kind === 3) { const s = cx.pick([12, 12 + n]); y = W.cat(c.slice(0, s), c2.slice(s)); what = `splice ${s}`; }
    cx.state([n, what]); judge(cx, what, await attempt(() => L.crypto.aesGcmDecrypt(key, y)), m);
  });
};

props.C14 = () => {
  explore("js gcm", "every message length to two blocks past the boundary and some long ones x keys: nonce, ciphertext and 16-byte tag; an independent implementation and the Rust helper open it, and the helper opens theirs; with the platform's own Web Crypto too", 1, async (cx) => {
    const real = cx.flag(), n = cx.choose(tier(54, 142)), len = n < tier(48, 136) ? n : [1000, 65537, 100000, 4095, 1048597, 3145733][n % 6], m = body(len), key = cx.devPick([body(32), new Uint8Array(32), new Uint8Array(32).fill(255), Buffer.from(body(32)), W.cat(Buffer.alloc(3, 1), body(32)).subarray(3)]); const { L } = lib(); cx.op(3);
    if (real) Object.defineProperty(globalThis, "crypto", { value: W.realCrypto, configurable: true, writable: true });
    try {
      const e = await attempt(() => L.crypto.aesGcmEncrypt(key, m)); cx.state([real, len, hex(key)]); cx.traced(); cx.outcome((real ? "platform " : "controlled ") + e[0]); if (!cx.check(e[0] === "ok", "js:gcm-refused", () => e[1])) return;
      const c = Buffer.from(e[1]); cx.check(c.length === 28 + len, "js:gcm-layout", () => `${c.length} bytes for ${len}`);
      const d = W.nodeCrypto.createDecipheriv("aes-256-gcm", key, c.subarray(0, 12)); d.setAuthTag(c.subarray(c.length - 16)); const o = await attempt(() => Buffer.concat([d.update(c.subarray(12, c.length - 16)), d.final()])); cx.check(o[0] === "ok" && eq(o[1], m), "js:gcm-standard", () => `${len} bytes: ${o[1]}`);
      const rs = await attempt(() => addon("decrypt_gcm", key, c)[0]); cx.check(rs[0] === "ok" && eq(rs[1], m), "js:gcm-rust-opens", () => String(rs[1]));
      const rust = addon("encrypt_gcm", key, m)[0], b = await attempt(() => L.crypto.aesGcmDecrypt(key, rust)); cx.check(b[0] === "ok" && eq(b[1], m), "js:gcm-opens-rust", () => `${len} bytes: ${b[1]}`);
      const own = await attempt(() => L.crypto.aesGcmDecrypt(key, c)); cx.check(own[0] === "ok" && eq(own[1], m), "js:gcm-own", () => `${len} bytes: ${own[1]}`); cx.sample(() => `${len} bytes`);
      const k2 = Uint8Array.from(key); k2[len % 32] ^= 1; const w = await attempt(() => L.crypto.aesGcmDecrypt(k2, c)); cx.check(w[0] === "err", "js:gcm-other-key", () => "another key decrypts");
    } finally { if (real) W.install(); }
  });
  explore("js gcm limits", "keys of 0 to 40 (thorough 70) bytes for both directions, and inputs of 0 to 28 bytes: keys other than 32 bytes and inputs under 28 bytes are refused", 0, async (cx) => {
    const { L } = lib(), kind = cx.choose(3); cx.op(); if (kind < 2) { const n = cx.choose(tier(41, 71)); const sealed = () => { if (![16, 24].includes(n)) return addon("encrypt_gcm", body(32), body(5))[0]; const c = nodeCrypto.createCipheriv(`aes-${8 * n}-gcm`, body(n), body(12)); return W.cat(body(12), c.update(body(5)), c.final(), c.getAuthTag()); };
      const r = await attempt(() => kind ? L.crypto.aesGcmDecrypt(body(n), sealed()) : L.crypto.aesGcmEncrypt(body(n), body(5))); cx.state([kind, n]); cx.traced(); cx.outcome(`key of ${n === 32 ? "32" : "other length"} ${r[0]}`); cx.check((r[0] === "ok") === (n === 32), "js:gcm-key-length", () => `${n} bytes: ${r[0]}`); }
    else { const n = cx.choose(28), r = await attempt(() => L.crypto.aesGcmDecrypt(body(32), body(n))); cx.state([2, n]); cx.traced(); cx.outcome("short input " + r[0]); cx.check(r[0] === "err", "js:gcm-short", () => `${n} bytes accepted`); }
  });
};

export async function register(prop) {
  const extra = await import("./props2.mjs"); Object.assign(props, extra.props(props)); if (prop === "C22") Object.assign(props, (await import("./props3.mjs")).props3);
  if (!props[prop]) throw new Error("no exploration for " + prop);
  props[prop]();
}
export { files, text, show, lib, dec, isCrash, body };
