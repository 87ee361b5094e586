// The playground page of the documentation (C22).
import fs from "node:fs";
import { explore, tier } from "./mc.mjs";
import * as W from "./world.mjs";
import { Page } from "./page.mjs";
import { square, array, output, show } from "./props.mjs";
const { addon, hex, eq, nodeCrypto, recorded } = W;
const text = (s) => new TextEncoder().encode(s);

// ---- a circuit with the interface of the sudoku circuit: a given cell is the solution's, and the cells sum to 405
const N = 81, idx = [...Array(N).keys()], one = (w) => [[w, 1]];
export const fake = (() => {
  const rows = idx.map((i) => [one(1 + i), [[1 + i, 1], [1 + N + i, -1]], []]); rows.push([idx.map((i) => [1 + N + i, 1]), one(0), [[0, 405]]]);
  return { "/circuits/sudoku.r1cs": W.r1cs(0, N, N, rows), "/circuits/sudoku.sym": text(idx.map((i) => `${i + 1},${i + 1},0,main.puzzle[${i}]`).concat(idx.map((i) => `${i + 1 + N},${i + 1 + N},0,main.solution[${i}]`)).join("\n") + "\n"),
    "/circuits/sudoku.wasm": W.fakeWasm({ n32: 8, prime: W.P, inputs: [["puzzle", N], ["solution", N]], wires: [["one"], ...idx.map((i) => ["in", "puzzle", i]), ...idx.map((i) => ["in", "solution", i])], asserts: [] }) };
})();
const real = () => Object.fromEntries(["r1cs", "sym", "wasm"].filter((x) => fs.existsSync("/repo/docs/static/circuits/sudoku." + x)).map((x) => ["/circuits/sudoku." + x, new Uint8Array(fs.readFileSync("/repo/docs/static/circuits/sudoku." + x))]));
const gridA = idx.map((i) => { const r = (i / 9) | 0, c = i % 9; return ((r * 3 + ((r / 3) | 0) + c) % 9) + 1; }), gridB = gridA.map((v) => (v % 9) + 1), gridC = gridA.map((v) => 10 - v);
const puzzles = [gridA.map((v, i) => i % 3 ? v : 0), gridB.map((v, i) => i % 4 ? v : 0), gridC.map((v, i) => i % 5 ? v : 0)], solved = [gridA, gridB, gridC];
const fits = (p, s) => p.every((v, i) => !v || v === s[i]);
const satisfied = (p, s) => s.length === N && p.length === N && fits(p, s) && s.reduce((a, b) => a + b, 0) === 405;
const sudoku = () => { let n = 0; return { generator: () => puzzles[n++ % 2].map((v) => v || -1), Sudoku: class { constructor(p) { this.p = p; } getSolution() { const g = this.p.map((v) => v === -1 ? 0 : v), s = solved.find((s) => fits(g, s)); if (!s) throw new Error("no solution"); return s.slice(); } } }; };

// ---- judging bytes without the library's JavaScript
/** The message of a combined ciphertext for a witness; null when it does not open. */
function open(r1cs, wit, bytes) {
  try { const p = W.split(bytes), key = addon("wasm_decap", r1cs, W.wtns(wit), p.ct)[0], m = Buffer.from(p.msg), d = nodeCrypto.createDecipheriv("aes-256-gcm", key, m.subarray(0, 12)); d.setAuthTag(m.subarray(m.length - 16)); return Buffer.concat([d.update(m.subarray(12, m.length - 16)), d.final()]); } catch { return null; }
}
/** A combined ciphertext made without the library's JavaScript. */
function seal(r1cs, pub, json, msg) {
  const nw = 1 + pub.length, wit = [1n, ...pub.map(BigInt)]; const total = Buffer.from(r1cs).readUInt32LE(24 + 36); while (wit.length < total) wit.push(0n);
  const [ct, key] = addon("wasm_encap", r1cs, W.wtns(wit)); const iv = nodeCrypto.randomBytes(12), c = nodeCrypto.createCipheriv("aes-256-gcm", key, iv); return W.join(json ? 1 : 0, ct, json ? text(JSON.stringify(json)) : null, W.cat(iv, c.update(msg), c.final(), c.getAuthTag()));
}
const sealedSudoku = (served, k, msg, embed = true, pub = puzzles[k]) => seal(served["/circuits/sudoku.r1cs"], pub, embed ? { puzzle: pub } : null, text(msg));

// ---- a user of the page
const num = (v) => v === "" ? 0 : Number(v);
class User {
  constructor(cx, opt) { this.cx = cx; this.served = opt.served; this.custom = false; this.page = opt.page || new Page({ sudoku: sudoku(), ...opt }); this.cts = []; this.clock = 0; this.log = []; this.acts = 0; this.jobs = []; this.files = 0; }
  bad(sig, msg) { this.cx.violation(sig, `after ${this.log.join(", ")}: ${msg}`); return false; }
  async begin() { await this.page.open(); return this; }
  /** The newest ciphertext of the page, or every one of those that were under way at the same time. */
  newest() { const done = this.cts.filter((c) => c.end !== undefined && c.on === this.on); return done.filter((c) => !done.some((d) => d.start > c.end)); }
  /** Pending steps complete in any order; the next action can come before they do (each a deviation). */
  async advance(all) {
    const { steps } = this.page;
    for (let n = 0; steps.pending.length && n < 200; n++) { const p = steps.pending.length, c = all ? 0 : this.cx.dev(1 + p); if (c === p) return; await this.complete(c); }
  }
  async complete(i, error) { this.prior = [this.area(0), this.area(1)]; const kind = await this.page.steps.complete(i, error); this.cx.op(); this.clock++; this.log.push(`<${kind.replace("page:", "")}${error ? " fails" : ""}>`); await W.drain(); await W.drain(); if (kind !== "init") this.steps = (this.steps || 0) + 1;
    // an operation may call the library more than once
    if (!/read/.test(kind) && this.page.steps.pending.some((p) => p.kind === kind)) { for (const j of this.jobs.filter((j) => j.kind === kind).slice(0, 1)) j.steps++; return; }
    for (const j of this.jobs.filter((j) => j.kind === kind).slice(0, 1)) { this.jobs.splice(this.jobs.indexOf(j), 1); j.end = this.clock; j.judge?.(j.acts === this.acts && j.steps + 1 === this.steps); } }
  job(kind, judge, more) { const j = { kind, judge, start: this.clock, acts: this.acts, steps: this.steps || 0, ...more }; this.jobs.push(j); return j; }
  get on() { return this.custom ? "custom" : "sudoku"; }
  get inEncrypt() { return this.page.has(`playground.${this.on}.encrypt.step1`); }
  get inDecrypt() { return this.page.has(`playground.${this.on}.decrypt.step1`); }
  async act(name, mode) { this.acts++; this.clock++; this.log.push(name); this.cx.op(); if (mode === "encrypt" && !this.inEncrypt || mode === "decrypt" && !this.inDecrypt) await this.mode(mode); }
  async tab(name) { this.acts++; this.log.push(name + " tab"); const b = this.page.button("playground.tabs." + name); if (!(await this.page.click(b))) return this.bad("page:no-tab", `no ${name} tab`); this.custom = name === "custom"; }
  async mode(name) { this.acts++; this.log.push(name + " mode"); const b = this.page.button("playground.mode." + name); if (!(await this.page.click(b))) return this.bad("page:no-mode", `no ${name} mode`); if (!(name === "encrypt" ? this.inEncrypt : this.inDecrypt)) this.bad("page:no-mode", `${name} mode does not open`); }
  grid(n) { const g = this.page.cells()[n]; return g ? g.map((c) => num(this.page.value(c))) : []; }
  area(n) { const a = this.page.textareas()[n]; return a ? this.page.value(a) : undefined; }
  async write(n, s, what, mode) { await this.act(`${what} ${show(s)}`, mode); if (!(await this.page.type(this.page.textareas()[n], s)) || this.area(n) !== s) this.bad("page:text", `the ${what} cannot be entered: shows ${show(this.area(n))}`); }
  async give(control, bytes, ext, then, more) { const name = `f${this.files++}.${ext}`; if (!(await this.page.give(control, bytes, name, more))) return this.bad("page:no-upload", `no ${ext} upload`); return this.job("page:read " + name, then); }
  /** Click Encrypt and judge its outcome: `ok` - it must succeed, null - either way. */
  async encrypt(c, ok) {
    const { page } = this, calls = page.libCalls.length, b = page.button(`playground.${this.on}.encrypt.encryptButton`);
    if (!(await page.click(b))) { this.log.push("(not offered)"); return false; }
    if (page.libCalls.length === calls) { if (!page.errorText() && !page.steps.pending.length) this.bad("page:encrypt-silent", "Encrypt neither encrypts nor says why"); this.cx.outcome("encrypt: refused"); if (ok) this.bad("page:not-encrypted", `Encrypt does not encrypt ${show(c.msg)}: ${page.errorText()}`); return false; }
    const e = this.job("page:encrypt", (undisturbed) => {
      const err = this.inEncrypt ? page.errorText() : "", done = page.has(`playground.${this.on}.encrypt.success`);
      this.cx.outcome(err ? "encrypt: error" : "encrypt: done");
      if (undisturbed && this.inEncrypt) { if (ok && (err || !done)) this.bad("page:not-encrypted", `${show(c.msg)} is not encrypted: ${err || "no success is shown"}`); if (ok === false && !err) this.bad("page:no-error", "what cannot be encrypted gives no error"); }
    }, { ...c, on: this.on });
    if (ok) this.cts.push(e); return e;
  }
  /** Click Decrypt: `expect(c)` gives the message of a ciphertext for the inputs shown, null - refused, undefined - either. */
  async decrypt(expect) {
    const { page } = this, calls = page.libCalls.length, cands = this.newest().filter((c) => c.on === this.on), b = page.button(`playground.${this.on}.decrypt.decryptButton`), want = cands.map(expect);
    const open = this.cts.filter((c) => c.end === undefined && c.on === this.on);
    if (!(await page.click(b))) { this.log.push("(not offered)"); if (cands.length && !this.jobs.some((j) => /encrypt|decrypt/.test(j.kind)) && want.every((m) => typeof m === "string")) this.bad("page:not-decrypted", "Decrypt is not offered"); return; }
    const judge = (undisturbed) => {
      const shown = page.pre(), err = this.inDecrypt ? page.errorText() : ""; if (!undisturbed || !this.inDecrypt || open.length) return;
      this.cx.outcome(err ? "decrypt: error" : "decrypt: message"); this.cx.traced();
      const fine = want.some((m) => m === undefined || m === null && err || typeof m === "string" && !err && (shown[0] === m || m === ""));
      if (!fine && !(cands.length === 0 && err)) this.bad(want.every((m) => m === null) || !cands.length ? "page:no-error" : "page:not-decrypted", `for the inputs and ciphertext shown, Decrypt should give ${show(want)}; the page shows ${show(shown)} and the error ${show(err)}`);
    };
    if (page.libCalls.length === calls) { judge(true); return; }
    this.job("page:decrypt", judge, { });
  }
  /** The download offered now; judged against the encryption it should be. */
  async download(check) {
    await this.act("download", "encrypt"); const { page } = this, n = page.downloads.length, mine = this.newestMine(); const id = this.on === "custom" ? "playground.custom.encrypt.download" : "playground.sudoku.encrypt.downloadButton";
    if (!(await page.click(page.button(id)))) { if (mine.length) this.bad("page:no-download", "the encrypted message is not offered for download"); return null; }
    const d = page.downloads[n]; if (!d || !d.bytes) { this.bad("page:no-download", "the download gives no file"); return null; }
    if (mine.length && !this.cts.some((c) => c.end === undefined)) { const why = mine.map((c) => this.custom && this.cts.some((x) => x.bytes && eq(x.bytes, d.bytes)) ? null : check(c, d.bytes)); if (why.every((x) => x)) this.bad("page:download", why[0]); }
    return d.bytes;
  }
  /** Everything settles: no crash, nothing still loading. */
  async end() {
    await this.advance(true); const { page } = this;
    if (page.errors.length) this.bad("page:crash", page.errors.join("; "));
    if (page.steps.pending.length) this.bad("page:never-settles", "work goes on and on");
    const busy = page.all((x) => x.tag === "translate" && /\.(encrypting|decrypting|solving)$/.test(x.props.id)); if (busy.length) this.bad("page:stuck", `nothing is pending, yet the page shows ${busy[0].props.id}`);
  }
}
class Sudoku extends User {
  newestMine() { const m = this.cts.filter((c) => c.end !== undefined && c.kind === "page:encrypt" && c.on === "sudoku"); return m.slice(-1); }
  async puzzleCell(i, v, mode) { await this.act(`puzzle[${i}] = ${v}`, mode); await this.set(0, i, v); }
  async solutionCell(i, v) { await this.act(`solution[${i}] = ${v}`, "decrypt"); await this.set(1, i, v); }
  async set(g, i, v) { const before = this.grid(g); if (before.length !== N) return; const cell = this.page.cells()[g][i]; if (!(await this.page.type(cell, v ? String(v) : ""))) { this.log.push("(locked)"); return; } before[i] = v; if (String(this.grid(g)) !== String(before)) this.bad("page:cell", `typing ${v} into cell ${i} makes the grid ${this.grid(g)}`); }
  async generate() { await this.act("generate", "encrypt"); await this.page.click(this.page.button("playground.sudoku.encrypt.generateButton")); const g = this.grid(0); if (!puzzles.some((p) => String(p) === String(g))) this.bad("page:generate", `no puzzle: ${g}`); }
  async solve() {
    await this.act("solve", "decrypt"); const p = this.grid(0), s = solved.find((s) => p.length === N && fits(p, s)); if (!(await this.page.click(this.page.button("playground.sudoku.decrypt.autoSolveButton")))) { this.log.push("(not offered)"); return; }
    if (this.page.steps.pending.some((x) => x.kind === "page:timer")) await this.advance(true);
    const shown = this.grid(1), err = this.page.errorText(); if (s ? String(shown) !== String(s) : !err) this.bad("page:solve", s ? `the solution shown is ${shown} for ${p}: ${err}` : "an unsolvable puzzle gives no error");
  }
  async encryptMessage(m) { await this.write(0, m, "message", "encrypt"); await this.encryptNow(); }
  async encryptNow() { await this.act("encrypt", "encrypt"); const pub = this.grid(0), msg = this.area(0); return this.encrypt({ msg, pub, json: true }, msg !== "" && pub.length === N && this.loaded); }
  get loaded() { return !this.page.steps.pending.some((p) => /fetch|body/.test(p.kind)); }
  async uploadCt(bytes, c, more) {
    await this.act(`upload ${c.what}`, "decrypt"); const { page } = this;
    const j = await this.give(page.file(".bin"), bytes, "bin", () => { if (more || !["encrypt", "decrypt"].some((m) => page.has(`playground.sudoku.${m}.step1`))) return; if (!page.has("playground.sudoku.decrypt.step1")) this.bad("page:upload", "the page does not show the ciphertext for decryption");
      else if (c.json) { if (String(this.grid(0)) !== String(c.pub)) this.bad("page:upload", `the puzzle of the uploaded ciphertext is ${c.pub}, the page shows ${this.grid(0)}`); } }, more);
    if (j && !more) { Object.assign(j, { ...c, on: "sudoku" }); this.cts.push(j); }
  }
  async decryptNow() { await this.act("decrypt", "decrypt"); const p = this.grid(0), s = this.grid(1); await this.decrypt((c) => c.msg === null ? null : satisfied(p, s) && String(p) === String(c.pub) ? c.msg : null); }
  checkDownload = (c, bytes) => {
    const part = W.split(bytes); if (!part) return "the file is not a ciphertext"; const rec = recorded(part.ct).map(Number);
    if (String(rec) !== String(c.pub)) return `the puzzle encrypted for is ${rec}, the one shown was ${c.pub}`;
    if (!part.json || String(JSON.parse(Buffer.from(part.json)).puzzle) !== String(c.pub)) return "the file does not carry the puzzle shown";
    const s = solved.find((s) => fits(c.pub, s)); if (!s) return; const m = open(this.served["/circuits/sudoku.r1cs"], [1n, ...c.pub.map(BigInt), ...s.map(BigInt)], bytes); if (!m || m.toString() !== c.msg) return `the file opens to ${m}, the message was ${show(c.msg)}`;
  };
  /** What a user does last: encrypt, download, solve and decrypt. */
  async finale() { await this.end(); if (this.custom) await this.tab("sudoku"); await this.generate(); await this.encryptMessage("at last"); await this.advance(true); await this.download(this.checkDownload); await this.solve(); await this.decryptNow(); await this.end(); }
}
// ---- the custom tab, with s * s = p
const parse = (s) => { try { return [JSON.parse(s)]; } catch { return null; } };
const isObj = (x) => x !== null && typeof x === "object" && !Array.isArray(x);
const asField = (v) => { try { const x = Array.isArray(v) ? v.length === 1 ? v[0] : null : v; return typeof x === "number" || typeof x === "string" && /^-?\d+$/.test(x) ? W.mod(BigInt(x)) : null; } catch { return null; } };
const roots = { 25: 5n, 36: 6n, 49: 7n };
class Custom extends User {
  loadedParts = {};
  newestMine() { return this.cts.filter((c) => c.end !== undefined && c.kind === "page:encrypt" && c.on === "custom").slice(-1); }
  async begin() { await super.begin(); await this.advance(true); await this.tab("custom"); return this; }
  /** Upload circuit files; `only`: which of r1cs, sym, wasm. */
  async circuit(only, mode = "encrypt") {
    await this.act(`circuit files ${only}`, mode); const bytes = { r1cs: square.r1cs, sym: text(square.sym), wasm: square.wasm };
    for (const k of only) { const c = this.page.file("." + k); if (!c) { if (k === "sym" && mode === "decrypt") continue; this.bad("page:no-upload", `no upload of a .${k} file`); continue; } await this.give(c, bytes[k], k, () => { this.loadedParts[k] = true; }); }
  }
  async publicText(s, mode) { await this.write(0, s, "public input", mode); }
  async privateText(s) { await this.write(1, s, "private input", "decrypt"); }
  async jsonFile(which, s, mode) {
    await this.act(`${which} input file ${show(s)}`, mode); const at = which === "public" ? 0 : 1, v = parse(s);
    await this.give(this.page.file(".json", at), text(s), "json", (undisturbed) => { if (!undisturbed) return; const now = this.area(at), was = this.prior[at]; if (v ? JSON.stringify((parse(now) || [])[0]) !== JSON.stringify(v[0]) : !this.page.errorText() || now !== was) this.bad("page:json-file", `after a file with ${show(s)} the ${which} input is ${show(now)} and the error ${show(this.page.errorText())}`); });
  }
  async include(on) { await this.act(on ? "embed" : "do not embed", "encrypt"); const b = this.box(); if (!b || !(await this.page.check(b, on)) || !!this.box().props.checked !== on) this.bad("page:checkbox", "the option to embed the public input does not react"); }
  box() { return this.page.all((x) => x.tag === "input" && x.props.type === "checkbox")[0]; }
  get ready() { return this.loadedParts.r1cs && this.loadedParts.wasm && this.loadedParts.sym; }
  async encryptNow() {
    await this.act("encrypt", "encrypt"); const pub = parse(this.area(0) ?? ""), msg = this.area(1), p = pub && isObj(pub[0]) ? asField(pub[0].p) : null;
    return this.encrypt({ msg, json: this.box()?.props.checked ? pub && pub[0] : null, pub: p }, !!this.ready && msg !== "" && p !== null);
  }
  async uploadCt(p, embed, msg) {
    const c = { msg, pub: BigInt(p), json: embed ? { p: String(p) } : null, on: "custom" }; await this.act(`upload ciphertext for ${p}${embed ? "" : ", bare"}`, "decrypt"); 
    c.bytes = seal(square.r1cs, [p], c.json, text(msg)); const j = await this.give(this.page.file(".bin"), c.bytes, "bin", (undisturbed) => { if (!undisturbed) return; if (!this.inDecrypt) return this.bad("page:upload", "the page does not show the ciphertext for decryption"); const now = this.area(0), was = this.prior[0]; if (embed ? JSON.stringify((parse(now) || [])[0]) !== JSON.stringify(c.json) : now !== was) this.bad("page:upload", `the public input of the uploaded ciphertext is ${show(c.json)}, the page shows ${now} (before: ${was})`); });
    if (j) { Object.assign(j, c); this.cts.push(j); }
  }
  async decryptNow() {
    await this.act("decrypt", "decrypt"); const pubText = this.area(0), privText = this.area(1), pub = parse(pubText), priv = parse(privText); const ready = this.loadedParts.r1cs && this.loadedParts.wasm;
    const good = (x, c) => isObj(x) && Object.keys(x).sort().join() === "p,s" && asField(x.p) !== null && asField(x.s) !== null && W.mod(asField(x.s) ** 2n) === asField(x.p) && asField(x.p) === c.pub;
    await this.decrypt((c) => {
      if (!ready) return null; if (privText === "") return pub && good(pub[0], c) ? c.msg : null;
      if (!priv) return null; if (good(priv[0], c)) return pub && isObj(pub[0]) || pubText === "" ? c.msg : undefined;
      return pub && isObj(pub[0]) && isObj(priv[0]) && good({ ...pub[0], ...priv[0] }, c) ? c.msg : null;
    });
  }
  checkDownload = (c, bytes) => {
    const part = W.split(bytes); if (!part) return "the file is not a ciphertext"; const rec = recorded(part.ct);
    if (rec.length !== 1 || rec[0] !== c.pub) return `it is encrypted for ${rec}, the public input shown was ${c.pub}`;
    if (c.json ? !part.json || JSON.stringify(JSON.parse(Buffer.from(part.json))) !== JSON.stringify(c.json) : part.json) return `the file carries ${part.json}, chosen was ${show(c.json)}`;
    const s = roots[c.pub]; if (!s) return; const m = open(square.r1cs, [1n, c.pub, s], bytes); if (!m || m.toString() !== c.msg) return `the file opens to ${m}, the message was ${show(c.msg)}`;
  };
  async finale() {
    await this.end(); if (!this.custom) await this.tab("custom"); await this.circuit(["r1cs", "sym", "wasm"]); await this.advance(true); await this.publicText('{"p": "25"}', "encrypt"); await this.write(1, "at last", "message", "encrypt"); await this.include(true); await this.encryptNow(); await this.advance(true); await this.download(this.checkDownload);
    await this.privateText('{"s": 5}'); await this.decryptNow(); await this.end(); await this.privateText('{"p": 25, "s": "-5"}'); await this.decryptNow(); await this.end();
  }
}
/** What the view shows and holds. */
User.prototype.view = function () { const { page } = this; return show([page.all((x) => ["input", "textarea"].includes(x.tag) && x.props.type !== "file").map((x) => x.props.type === "checkbox" ? !!x.props.checked : page.value(x)), page.all((x) => x.tag === "translate").map((x) => [x.props.id, x.props.values]), page.pre()]); };
User.prototype.roundTrip = async function () { const was = this.view(), on = this.on; await this.tab(on === "custom" ? "sudoku" : "custom"); await this.tab(on); if (this.view() !== was) this.bad("page:lost", `switching tabs changes what the page shows from ${was.slice(0, 400)} to ${this.view().slice(0, 400)}`); };
User.prototype.otherMode = async function () { const was = this.view(), m = this.inEncrypt ? ["decrypt", "encrypt"] : ["encrypt", "decrypt"]; await this.mode(m[0]); await this.mode(m[1]); if (this.view() !== was) this.bad("page:lost", `switching modes changes what the page shows from ${was.slice(0, 400)} to ${this.view().slice(0, 400)}`); };
export const props3 = {};
const uploads = new Map();
const upload = (served, k, embed, msg) => { const key = [k, embed, msg].join(); if (!uploads.has(key)) uploads.set(key, sealedSudoku(served, k, msg, embed)); return uploads.get(key); };
props3.C22 = () => {
  explore("page: sudoku histories", `up to ${tier(3, 4)} actions from: encrypt one of two messages, generate, edit a puzzle or solution cell, solve, decrypt, upload a ciphertext (with and without its puzzle), download, switch tabs and back; the circuit files, the library's initialization, its results and file contents arriving in any order before or after later actions (up to 1 such delay); then encrypt, download, solve and decrypt: every download opens to the message shown when Encrypt was clicked, for the puzzle shown; Decrypt gives the message of the newest ciphertext exactly when the inputs shown match; nothing is stuck, lost or thrown`, 1, async (cx) => {
    const u = await new Sudoku(cx, { served: fake }).begin(), n = tier(3, 4); await u.advance();
    for (let i = 0; i < n; i++) {
      const a = cx.choose(11); if (a === 0) break;
      if (a === 1) await u.encryptMessage("first \u00e9\u{1F512}"); if (a === 2) await u.encryptMessage("second"); if (a === 3) await u.generate(); if (a === 4) await u.puzzleCell(0, u.inDecrypt ? 0 : 1, u.inDecrypt ? "decrypt" : "encrypt");
      if (a === 5) await u.solutionCell(80, 7); if (a === 6) await u.solve(); if (a === 7) { await u.solve(); await u.advance(); await u.decryptNow(); } if (a === 8) await u.uploadCt(upload(fake, 1, true, "uploaded"), { what: "ciphertext of the second puzzle", msg: "uploaded", pub: puzzles[1], json: true });
      if (a === 9) await u.uploadCt(upload(fake, 0, false, "bare"), { what: "bare ciphertext of the first puzzle", msg: "bare", pub: puzzles[0] });
      if (a === 10) { await u.roundTrip(); await u.otherMode(); }
      await u.advance();
    }
    cx.state(u.log.join()); cx.sample(() => u.log.join(", "));
    await u.advance(true); await u.download(u.checkDownload); await u.decryptNow(); await u.finale();
  });
  for (const [what, n, devs] of tier([["", 3, 0], [", delays", 2, 1]], [["", 4, 0], [", delays", 3, 1]])) explore("page: custom circuit histories" + what, `a circuit, public input and message entered, then up to ${n} actions from: encrypt, embed or not, another public input (valid, malformed, incomplete), a private input (complete, private signals only, wrong, malformed), decrypt, upload a ciphertext (with and without its public input), upload a JSON file (public, private, malformed), upload the circuit files again, switch tabs and modes and back; file contents and results arriving in any order before or after later actions (up to ${devs} such delays); then a last encryption and decryption: as for the sudoku tab, private signals merged with the public input`, devs, async (cx) => {
    const u = await new Custom(cx, { served: fake }).begin();
    await u.circuit(["r1cs", "sym", "wasm"]); await u.advance(); await u.publicText('{"p": "25"}', "encrypt"); await u.write(1, "first \u00e9", "message", "encrypt");
    for (let i = 0; i < n; i++) {
      const a = cx.choose(12); if (a === 0) break;
      if (a === 1) await u.encryptNow(); if (a === 2) await u.include(!u.box()?.props.checked); if (a === 3) await u.publicText(['{"p": 36}', '{"p": ', "{}", "null"][cx.choose(4)], "encrypt");
      if (a === 4) await u.privateText(['{"p": 25, "s": 5}', '{"s": "-5"}', '{"s": 6}', '{"s"', "[]"][cx.choose(5)]); if (a === 5) await u.decryptNow();
      if (a === 6) await u.uploadCt(49, true, "uploaded"); if (a === 7) await u.uploadCt(25, false, "bare");
      if (a === 8) await u.jsonFile("public", ['{"p":36}', "{p}"][cx.choose(2)], u.inEncrypt ? "encrypt" : "decrypt"); if (a === 9) await u.jsonFile("private", ['{"s":[5]}', '{"p":"49","s":7}', "5,"][cx.choose(3)], "decrypt");
      if (a === 10) await u.circuit(["wasm", "r1cs"], "decrypt"); if (a === 11) { await u.roundTrip(); await u.otherMode(); }
      await u.advance();
    }
    cx.state(u.log.join()); cx.sample(() => u.log.join(", "));
    await u.advance(true); await u.download(u.checkDownload); await u.decryptNow(); await u.finale();
  });
  explore("page: failing loads", "each of the requests for the circuit files refused, not found, answered by a web page, or cut off, before or after an attempt to encrypt; also two of them; and the library's initialization failing once: the page says so, loses nothing, and the custom tab (and, after a failed initialization, the same tab) works", 2, async (cx) => {
    const kinds = ["r1cs", "sym", "wasm"], how = kinds.map(() => cx.dev(5)), initFails = cx.dev(2), early = cx.flag(); const html = text("<!doctype html><html><body>Page Not Found</body></html>");
    const served = { ...fake }; kinds.forEach((k, i) => { const n = "/circuits/sudoku." + k; if (how[i] === 2) delete served[n]; if (how[i] === 3) served[n] = { status: 200, body: html }; if (how[i] === 5) served[n] = { status: 500, body: html }; });
    const u = await new Sudoku(cx, { served }).begin(), { page } = u; let broken = how.some((h) => h);
    const fetching = () => page.steps.pending.some((p) => /fetch|body/.test(p.kind));
    const settle = async () => { for (let n = 0; page.steps.pending.length && n < 50; n++) { const p = page.steps.pending[0], i = kinds.findIndex((k) => p.kind.endsWith("." + k)), h = i < 0 ? 0 : how[i]; const fails = h === 1 && /fetch/.test(p.kind) || h === 4 && /body/.test(p.kind) || initFails && p.kind === "init" && !u.initFailed; if (p.kind === "init" && fails) u.initFailed = true; await u.complete(0, fails ? new TypeError("Failed to fetch") : undefined); } };
    if (early) { await u.write(0, "early", "message", "encrypt"); await u.act("encrypt", "encrypt"); await u.encrypt({ msg: "early", pub: u.grid(0), json: true }, false); }
    await settle(); cx.traced(); cx.outcome(broken ? "broken" : initFails ? "init fails" : "whole");
    if (how.some((h) => [1, 2, 4].includes(h)) && !page.errorText() && !early) u.bad("page:load-silent", "a circuit file is missing and the page shows no error");
    const fatal = how[0] || how[1]; // the wasm file is needed to decrypt only
    await u.write(0, "then", "message", "encrypt"); await u.act("encrypt", "encrypt"); await u.encrypt({ msg: "then", pub: u.grid(0), json: true }, fatal || initFails ? false : how[2] ? null : true); await settle();
    cx.state([how, initFails, early]); cx.sample(() => u.log.join(", "));
    if (broken) { const c = new Custom(cx, { served: fake, page: u.page }); Object.assign(c, { log: u.log, clock: u.clock, acts: u.acts, steps: u.steps, cts: u.cts, jobs: u.jobs, loadedParts: {} }); await c.finale(); } else await u.finale();
  });
  explore("page: damaged files", "uploads of empty, truncated and altered ciphertexts (every header byte, some others), ciphertexts carrying every odd JSON as public input or puzzle, unreadable files, circuit files that are none, through either tab and from either mode: no crash, Decrypt gives an error for what was damaged, never another message, and the page works afterwards", 0, async (cx) => {
    const custom = cx.flag(); const u = await new (custom ? Custom : Sudoku)(cx, { served: fake }).begin(), { page } = u; await u.advance(true); if (custom) { await u.circuit(["r1cs", "sym", "wasm"]); await u.advance(true); }
    const kind = cx.choose(custom ? 4 : 3), good = custom ? seal(square.r1cs, [49], { p: "49" }, text("uploaded")) : upload(fake, 1, true, "uploaded"), n = good.length, ctl = W.split(good).ct.length;
    if (kind === 0) {
      const cuts = [0, 1, 4, 5, 6, 5 + ctl - 1, 5 + ctl, 5 + ctl + 3, 5 + ctl + 4, n - 29, n - 28, n - 16, n - 1], flips = [0, 1, 2, 3, 4, 5, 9, 12, 5 + ctl, 5 + ctl + 2, 5 + ctl + 3, 5 + ctl + 4, n - 40, n - 30, n - 20, n - 1], at = cx.choose(cuts.length + flips.length + 1); let b = good.slice(), what;
      if (at < cuts.length) { b = b.slice(0, Math.max(0, cuts[at])); what = `cut to ${b.length}`; } else if (at < cuts.length + flips.length) { const f = flips[at - cuts.length]; b[f] ^= 1; what = `byte ${f} altered`; } else { b = W.cat(b, b); what = "doubled"; }
      await u.act("upload a ciphertext " + what, "decrypt"); const j = await u.give(page.file(".bin"), b, "bin", () => {}); if (j) { Object.assign(j, { msg: null, pub: null, on: u.on }); u.cts.push(j); } await u.advance(true);
      if (custom) await u.privateText('{"p":"49","s":7}'); else await u.solve();
      // a carried copy of the public input is for convenience and not protected: what is wrong with it shows in the inputs
      const p = u.grid(0), s = u.grid(1); if (at >= cuts.length && at < cuts.length + flips.length && flips[at - cuts.length] >= 5 + ctl + 4 && flips[at - cuts.length] < n - 36 && j) { j.msg = "uploaded"; j.pub = custom ? 49n : puzzles[1]; }
      await u.decryptNow(); await u.advance(true); cx.outcome("damaged");
    } else if (kind === 1) {
      const odd = ["{}", "[]", "null", "5", "\"x\"", "{\"puzzle\":[]}", "{\"puzzle\":null}", "{\"puzzle\":\"abc\"}", "{\"puzzle\":[1,2,3]}", `{"puzzle":[${Array(81).fill("{}")}]}`, `{"puzzle":[${Array(81).fill("null")}]}`, `{"puzzle":[${Array(81).fill("[0]")}]}`, `{"puzzle":[${Array(81).fill("\"3\"")}]}`, `{"puzzle":[${Array(81).fill("1e9")}]}`, `{"puzzle":{"length":81}}`, `{"puzzle":[${Array(300).fill("1")}]}`, "{\"p\":{\"p\":{}}}", "{\"__proto__\":{\"puzzle\":[1]}}", "{\"p\":1e400}", "{", "\u0000", ""], o = cx.pick(odd), part = W.split(good);
      await u.act("upload a ciphertext with " + o.slice(0, 30), "decrypt"); const j = await u.give(page.file(".bin"), W.join(1, part.ct, text(o), part.msg), "bin", () => {}); if (j) { Object.assign(j, { msg: "?", pub: null, on: u.on, odd: true }); u.cts.push(j); } await u.advance(true);
      await u.act("decrypt", "decrypt"); await page.click(page.button(`playground.${u.on}.decrypt.decryptButton`)); await u.advance(true); if (!page.errorText()) u.bad("page:no-error", `a ciphertext carrying ${o.slice(0, 40)} and no solution gives no error`);
      if (!custom) { await u.act("solve", "decrypt"); await page.click(page.button("playground.sudoku.decrypt.autoSolveButton")); await page.click(page.button("playground.sudoku.decrypt.decryptButton")); await u.advance(true); if (page.pre().length) u.bad("page:not-decrypted", `a message from a ciphertext carrying ${o.slice(0, 40)}: ${page.pre()}`); }
      cx.outcome("odd public input");
    } else if (kind === 2) {
      const exts = custom ? [[".bin", "decrypt"], [".r1cs", "encrypt"], [".wasm", "encrypt"], [".sym", "encrypt"], [".r1cs", "decrypt"], [".wasm", "decrypt"], [".json", "encrypt"], [".json", "decrypt"]] : [[".bin", "decrypt"]], [ext, mode] = cx.pick(exts); await u.act("an unreadable " + ext, mode); const was = u.view(); await u.give(page.file(ext), new Uint8Array(9), ext.slice(1), () => {}, { unreadable: true }); await u.advance(true); if (u.view() !== was) u.bad("page:lost", `an unreadable ${ext} file changes what the page shows to ${u.view().slice(0, 300)}`); cx.outcome("unreadable");
    } else {
      const ext = cx.pick(["r1cs", "sym", "wasm"]), b = cx.pick([new Uint8Array(0), text("garbage"), square.r1cs.slice(0, 100), text("<html></html>"), W.cat(square.r1cs, square.r1cs)]); await u.publicText('{"p": "25"}', "encrypt"); await u.write(1, "with it", "message", "encrypt"); await u.act(`a .${ext} file of ${b.length} bytes`, "encrypt"); await u.give(page.file("." + ext), b, ext, () => {}); await u.advance(true); await u.act("encrypt", "encrypt"); const calls = page.libCalls.length; await page.click(page.button("playground.custom.encrypt.encryptButton")); await u.advance(true);
      if (ext !== "wasm" && !page.errorText() && !(ext === "r1cs" && b.length > square.r1cs.length)) u.bad("page:no-error", `encryption with a broken .${ext} file of ${b.length} bytes gives no error`);
      if (ext === "wasm") { await u.act("decrypt", "decrypt"); await u.privateText('{"s": 5}'); await page.click(page.button("playground.custom.decrypt.decryptButton")); await u.advance(true); if (page.pre().length) u.bad("page:no-error", `decryption with a broken .wasm file gives ${page.pre()}`); }
      cx.outcome("broken circuit");
    }
    cx.state(u.log.join()); cx.traced(); cx.sample(() => u.log.join(", ")); u.cts.length = 0; await u.finale();
  });
  explore("page: entering", "every cell of the puzzle, in either mode, and of the solution x every digit, nothing, and text that is none: the grid shows the digit (or an empty cell) and is otherwise unchanged, given cells of the solution are locked, and what is encrypted or decrypted is what is shown", 0, async (cx) => {
    const where = cx.choose(3), i = cx.choose(N), v = cx.pick([..."123456789", "", "0", "x", "-", " ", "10", "-1", "1e1", "\u0663"]), u = await new Sudoku(cx, { served: fake }).begin(), { page } = u; await u.advance(true);
    const mode = where === 0 ? "encrypt" : "decrypt", g = where === 2 ? 1 : 0; await u.act(`type ${show(v)} in cell ${i} of grid ${g}`, mode); const before = u.grid(g), given = where === 2 && u.grid(0)[i] !== 0; const took = await page.type(page.cells()[g][i], v);
    if (given && took) u.bad("page:locked", `the given cell ${i} can be changed in the solution`); const after = u.grid(g), shown = page.value(page.cells()[g][i]); cx.op(); cx.traced(); cx.state([where, i, v]); cx.outcome(given ? "locked" : "typed"); cx.sample(() => `${where} ${i} ${show(v)}: ${show(shown)}`);
    if (after.length !== N || after.some((x, k) => k !== i && x !== before[k])) u.bad("page:cell", `typing ${show(v)} in cell ${i} makes the grid ${after}`);
    if (!/^[1-9]?$/.test(shown) || took && /^[1-9]$/.test(v) && shown !== v || took && ["", "0"].includes(v) && shown !== "" || !took && shown !== (before[i] ? String(before[i]) : "")) u.bad("page:cell", `typing ${show(v)} in cell ${i} shows ${show(shown)}`);
    if (/^[1-9]$/.test(v) && took && v === "4") { if (where === 0) { await u.encryptMessage("cell"); await u.advance(true); await u.download(u.checkDownload); } else { await u.uploadCt(upload(fake, 0, false, "bare"), { what: "bare", msg: "bare", pub: puzzles[0] }); await u.advance(true); const p = u.grid(0), s = u.grid(1); if (where === 2) { for (let k = 0; k < N; k++) if (k !== i && !p[k]) await page.type(page.cells()[1][k], String(gridA[k])); } else await u.solve(); await u.decryptNow(); await u.advance(true); } }
    await u.end();
  });
  explore("page: messages", "messages of every kind (each ASCII character, other scripts, composed and decomposed marks, a byte order mark, lone surrogates replaced, line ends and separators, lengths to 3000) through either tab: what is decrypted and shown is what was typed", 0, async (cx) => {
    const k = cx.choose(128 + 20); const m = k < 128 ? (k ? String.fromCharCode(k) : "\u0000x") : ["\u00e9", "e\u0301", "\u4e2d\u6587", "\u{1F512}\u{1F511}", "\u05d0\u0627", "a\nb\n", "\r\n", " x ", "x".repeat(255), "x".repeat(256), "\u20ac".repeat(1000), "<b>&amp;</b>", "{\"a\":1}", "\uFFFD", "\uFEFFx", "x\uFEFF", "\u2028\u2029\u0085", "\u212B\uFB01\u1E9B\u0323", "\u0130\u00df\u200b\u200d", "\uFFFF\u{10FFFF}"][k - 128];
    const custom = cx.flag(), u = await new (custom ? Custom : Sudoku)(cx, { served: fake }).begin(); await u.advance(true);
    if (custom) { await u.circuit(["r1cs", "sym", "wasm"]); await u.advance(true); await u.publicText('{"p": "25"}', "encrypt"); await u.write(1, m, "message", "encrypt"); await u.encryptNow(); } else await u.encryptMessage(m);
    await u.advance(true); await u.download(u.checkDownload); if (custom) await u.privateText('{"s": 5}'); else await u.solve(); await u.decryptNow(); await u.advance(true); cx.state([k, custom]); cx.outcome("message"); cx.sample(() => show(m.slice(0, 20))); await u.end();
  });
  explore("page: sudoku circuit", "the page with the circuit files it is published with: a message encrypted for a puzzle, and for its solution, every change of one cell, every exchange of two cells of a row, column or box, every exchange of two rows or columns, every pair of cells emptied of a given and changed: Decrypt gives the message exactly for a solution by the rules of the game that keeps the given cells", 0, async (cx) => {
    const served = real(), u = await new Sudoku(cx, { served }).begin(), { page } = u; await u.advance(true);
    if (Object.keys(served).length < 3) return u.bad("page:circuit", "the circuit files are not in static/circuits");
    const k = cx.choose(tier(1, 2)); for (let i = 0; i < k; i++) await u.generate(); const p = u.grid(0), sol = solved.find((s) => fits(p, s)), s = sol.slice(), kind = cx.choose(6), free = idx.filter((i) => !p[i]);
    const row = (i) => (i / 9) | 0, col = (i) => i % 9, box = (i) => 3 * ((row(i) / 3) | 0) + ((col(i) / 3) | 0);
    if (kind === 1) { const i = cx.pick(free), v = cx.choose(8); s[i] = (s[i] + v) % 9 + 1; }
    if (kind === 2) { const ps = free.flatMap((a) => free.filter((b) => b > a && (row(a) === row(b) || col(a) === col(b) || box(a) === box(b))).map((b) => [a, b])); const [a, b] = cx.pick(tier(ps.filter((x, i) => i % 3 === 0), ps)); [s[a], s[b]] = [s[b], s[a]]; }
    if (kind === 3) { const g = idx.filter((i) => p[i]), i = cx.pick(g); s[i] = s[i] % 9 + 1; }
    if (kind === 4) { const a = cx.choose(9), b = cx.choose(9); for (let c = 0; c < 9; c++) { if (!p[9 * a + c] && !p[9 * b + c]) [s[9 * a + c], s[9 * b + c]] = [s[9 * b + c], s[9 * a + c]]; } }
    if (kind === 5) { const perm = cx.choose(9); for (const i of free) s[i] = (s[i] - 1 + perm) % 9 + 1; }
    const valid = fits(p, s) && [row, col, box].every((f) => [...Array(9).keys()].every((n) => new Set(idx.filter((i) => f(i) === n).map((i) => s[i])).size === 9)) && s.every((v) => v >= 1 && v <= 9);
    await u.encryptMessage("for the solution"); await u.advance(true); const bytes = await u.download((c, b) => { const d = W.split(b), r = recorded(d.ct).map(Number); return String(r) === String(c.pub) ? undefined : `encrypted for ${r}`; });
    if (kind === 3) { // a given cell is locked: clear it in the puzzle, change it, and put it back
      await u.solve(); const i = idx.find((i) => s[i] !== sol[i]); await u.puzzleCell(i, 0, "decrypt"); await u.set(1, i, s[i]); await u.puzzleCell(i, p[i], "decrypt"); }
    else { await u.solve(); for (const i of idx) if (s[i] !== sol[i]) await u.set(1, i, s[i]); }
    const shown = u.grid(1); if (String(shown) !== String(s)) u.bad("page:cell", `the solution entered is ${s}, shown is ${shown}`);
    await u.act("decrypt", "decrypt"); await u.decrypt((c) => valid ? c.msg : null); await u.advance(true); cx.state([k, s]); cx.outcome(valid ? "a solution" : "no solution"); cx.sample(() => u.log.join(", ")); await u.end();
    // the same bytes outside the page
    if (kind === 0 && bytes) { const L = W.fresh(), f = { r1csBuffer: served["/circuits/sudoku.r1cs"], wasmBuffer: served["/circuits/sudoku.wasm"] }, r = W.settle(L.index.decrypt(f, bytes, { puzzle: p, solution: s })); await page.rest(); const x = await r; if (x[0] !== "ok" || Buffer.from(x[1]).toString() !== "for the solution") u.bad("page:download", `the library does not decrypt the download: ${x[1]}`); }
  });
  explore("page: custom circuits", "every circuit of the other properties uploaded to the custom tab (two inputs, arrays, an output) x public input as typed x every satisfying and unsatisfying input, complete or only its private signals, through the text areas and as files: the message exactly for satisfying, matching inputs", 0, async (cx) => {
    const k = cx.pick([square, array, output]), viaFile = cx.flag(), embed = cx.flag(), partial = cx.flag(); const inputs = [...k.cases.good, ...k.cases.bad], inp = cx.pick(inputs), good = k.cases.good.includes(inp);
    const plain = (x) => JSON.stringify(x, (n, v) => typeof v === "bigint" ? v.toString() : v, 1), pubNames = k.circuit.inputs.map((i) => i[0]).filter((n) => n in k.cases.pub); const some = partial ? Object.fromEntries(Object.entries(inp).filter(([n]) => !pubNames.includes(n))) : inp;
    const u = await new Custom(cx, { served: fake }).begin(), { page } = u; await u.act("circuit " + k.name, "encrypt"); for (const [e, b] of [["r1cs", k.r1cs], ["sym", text(k.sym)], ["wasm", k.wasm]]) await u.give(page.file("." + e), b, e, () => {}); await u.advance(true);
    await u.include(embed); if (viaFile) await u.jsonFile("public", plain(k.cases.pub), "encrypt"); else await u.publicText(plain(k.cases.pub), "encrypt"); await u.advance(true); await u.write(1, "to all", "message", "encrypt");
    await u.act("encrypt", "encrypt"); await u.encrypt({ msg: "to all" }, true); await u.advance(true); const bytes = await u.download((c, b) => { const d = W.split(b); return d && String(recorded(d.ct)) === String(k.cases.vals) && !!d.json === embed ? undefined : `encrypted for ${d && recorded(d.ct)}, ${d && d.json}`; });
    const fresh = cx.flag(); let v = u; // the recipient: the same page, or another one
    if (fresh && bytes) { await u.end(); v = await new Custom(cx, { served: fake }).begin(); await v.act("circuit files", "decrypt"); for (const [e, b] of [["r1cs", k.r1cs], ["wasm", k.wasm]]) await v.give(v.page.file("." + e), b, e, () => {}); await v.advance(true); await v.act("upload", "decrypt"); Object.assign(await v.give(v.page.file(".bin"), bytes, "bin", () => {}), { msg: "to all", on: "custom" }); v.cts.push(v.jobs[v.jobs.length - 1]); await v.advance(true); v.log.unshift(...u.log, "|"); if (!embed) await v.publicText(plain(k.cases.pub), "decrypt"); }
    if (viaFile) await v.jsonFile("private", plain(some), "decrypt"); else await v.privateText(plain(some)); await v.advance(true); const merged = { ...k.cases.pub, ...some };
    // private signals alone: merged with the public input shown; with outputs among the public values the merged set is no input set
    const norm = (x) => JSON.stringify(Object.entries(x).map(([n, y]) => [n, [y].flat(9).map((z) => String(W.mod(BigInt(z))))]).sort()), fits2 = k.cases.good.some((g) => norm(g) === norm(merged));
    await v.act("decrypt", "decrypt"); await v.decrypt(() => k === output && partial ? undefined : (partial ? fits2 : good) ? "to all" : null); await v.advance(true); cx.state([k.name, viaFile, embed, partial, plain(inp), fresh]); cx.outcome(good ? "satisfying" : "not satisfying"); cx.sample(() => v.log.join(", ")); await v.end();
  });
  explore("page: two tabs at once", "an encryption or decryption under way in one tab x anything done in the other or in the same one meanwhile (typing, generating, uploading, switching), results arriving before or after: each result belongs to the inputs at its click, and nothing of the other tab changes", 0, async (cx) => {
    const u = await new Sudoku(cx, { served: fake }).begin(), { page } = u; await u.advance(true); const c = new Custom(cx, { served: fake, page }); for (const k of ["log", "cts", "jobs"]) c[k] = u[k]; c.clock = u.clock;
    const share = (from, to) => { to.acts = from.acts; to.clock = from.clock; to.steps = from.steps; };
    await u.encryptMessage("one"); await u.advance(true); await u.solve(); share(u, c); await c.tab("custom"); await c.circuit(["r1cs", "sym", "wasm"]); await c.advance(true); await c.publicText('{"p": "25"}', "encrypt"); await c.write(1, "two", "message", "encrypt"); await c.encryptNow(); await c.advance(true); await c.privateText('{"s": 5}'); share(c, u); await u.tab("sudoku"); u.custom = false;
    const first = cx.choose(4), meanwhile = cx.choose(7); // an operation ...
    if (first === 0) { await u.write(0, "three", "message", "encrypt"); await u.encryptNow(); } if (first === 1) { await u.decryptNow(); } if (first >= 2) { share(u, c); await c.tab("custom"); if (first === 2) { await c.write(1, "four", "message", "encrypt"); await c.encryptNow(); } else await c.decryptNow(); share(c, u); await c.tab("sudoku"); share(c, u); }
    u.custom = false; // ... and what comes next
    if (meanwhile === 0) await u.generate(); if (meanwhile === 1) await u.write(0, "later", "message", "encrypt"); if (meanwhile === 2) await u.solutionCell(80, 5); if (meanwhile === 3) { await u.uploadCt(upload(fake, 1, true, "uploaded"), { what: "ciphertext of the second puzzle", msg: "uploaded", pub: puzzles[1], json: true }); if (cx.flag()) await u.complete(page.steps.pending.length - 1); }
    if (meanwhile >= 4) { share(u, c); await c.tab("custom"); if (meanwhile === 4) await c.publicText('{"p": 36}', "encrypt"); if (meanwhile === 5) await c.privateText('{"s": 6}'); if (meanwhile === 6) { await c.uploadCt(49, true, "uploaded"); if (cx.flag()) await c.complete(page.steps.pending.length - 1); } share(c, u); await c.tab("sudoku"); share(c, u); u.custom = false; }
    const onU = cx.flag(); if (!onU) { share(u, c); await c.tab("custom"); share(c, u); } const v = onU ? u : c; await v.advance(true); share(v, onU ? c : u);
    cx.state([first, meanwhile, onU, u.log.length]); cx.sample(() => u.log.join(", ")); await v.download(v.checkDownload); await v.decryptNow(); await v.advance(true);
    const w = onU ? c : u; share(v, w); if (onU) await w.tab("custom"); else { await v.tab("sudoku"); share(v, w); w.custom = false; } await w.download(w.checkDownload); await w.decryptNow(); await w.advance(true); await w.finale();
  });
  explore("page: without a browser", "the page rendered as the site is built, with no browser objects, one or two times: it renders and does not load the library", 0, async (cx) => {
    const n = 1 + cx.choose(2); const page = new Page({ served: {}, sudoku: sudoku(), ssr: true }); let t, bad; for (let i = 0; i < n; i++) try { t = page.R.once(page.jsx(page.Component, {})); } catch (e) { bad = e; } await W.drain(); cx.op(); cx.state(n); cx.traced(); cx.outcome("rendered"); cx.sample(() => page.labels(t).join());
    cx.check(!bad && t && !page.lib, "page:server", () => bad ? `rendering fails: ${bad.stack}` : "the library is loaded while the site is built");
  });
};
