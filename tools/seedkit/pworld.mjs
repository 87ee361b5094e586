// Around the page: steps that complete when the demonstration says so, and a stand-in for the library.
export class Sched {
  constructor() { this.pending = []; this.log = []; }
  step(kind, run) { return new Promise((ok, no) => { this.pending.push({ kind, run, ok, no }); }); }
}
export class World { constructor() {} }
export const drain = () => new Promise((r) => setImmediate(r));
export const attempt = async (f) => { try { return ["ok", await f()]; } catch (e) { return ["err", String(e), e]; } };
export const cat = (...xs) => new Uint8Array(Buffer.concat(xs));
export const quiet = new Proxy({}, { get: () => () => {} });
const pack = (x) => new TextEncoder().encode(JSON.stringify(x)), unpack = (b) => JSON.parse(new TextDecoder().decode(b));
/** Ciphertexts that name what they are for. */
export const fresh = () => ({ index: {
  encrypt: async (f, pub, msg, { includePublicInput = true } = {}) => { if (!f.r1csBuffer.length) throw new Error("no r1cs"); return { ciphertext: pack({ pub, carried: includePublicInput, msg: Buffer.from(msg).toString("base64") }), key: new Uint8Array(32) }; },
  decrypt: async (f, ct, inputs) => { const c = unpack(ct); if (!f.wasmBuffer.length) throw new Error("no wasm"); for (const k in c.pub) if (JSON.stringify(inputs[k]) !== JSON.stringify(c.pub[k])) throw new Error("no key for these inputs"); return new Uint8Array(Buffer.from(c.msg, "base64")); },
  getPublicInput: (ct) => { const c = unpack(ct); if (!c.carried) throw new Error("not included"); return c.pub; },
} });
