TS = "packages/zkenc-js/src/"
def ts(**k):
    body = k.pop("js"); k["files"] = {"kit.mjs": open(HERE + "/seedkit/kit.mjs").read(), "demo.mjs": 'import * as K from "./kit.mjs";\nimport assert from "node:assert";\n' + body}
    k["demo"] = open(HERE + "/seedkit/demo-js.sh").read(); return k
SEEDS["ts-limit-zero"] = ts(property="C11", needs="a wire limit of zero", breaks="getInputSignals ignores a limit of 0 and returns every signal",
  edits=[(TS + "sym_parser.ts", "if (maxWireId !== undefined && wireId > maxWireId) {", "if (maxWireId && wireId > maxWireId) {")],
  js="""const L = await K.load(); const m = L.index.parseSymFile("1,1,0,main.a\\n2,2,0,main.b\\n");
assert.deepEqual([...L.index.getInputSignals(m, 1)], [["a", 1]]); assert.deepEqual([...L.index.getInputSignals(m, 0)], []);
""")
SEEDS["ts-gap-zero"] = ts(property="C03", needs="a public input missing before a later one", breaks="encap records zero for a public input the caller did not supply",
  edits=[(TS + "zkenc.ts", """      // This wire is not a public input, stop here
      break;
""", """      // Unassigned wires are zero
      witnessArray.push(0n);
""")],
  js="""const L = await K.load(); const f = { r1csBuffer: new Uint8Array(1), symContent: "1,1,0,main.a\\n2,2,0,main.b\\n" };
await L.index.encap(f, { a: 5, b: 6 }); assert.deepEqual(K.values(K.shim.encaps.pop()), [1n, 5n, 6n]);
let w; try { await L.index.encap(f, { b: 6 }); w = K.values(K.shim.encaps.pop()); } catch { }
assert(!w || w.length < 3, "a value is made up for the missing input: " + w);
""")
SEEDS["ts-init-early"] = ts(property="C16", needs="a second call while initialization is in progress", breaks="the second call uses the module before it is initialized",
  edits=[(TS + "zkenc.ts", """        await wasmInit();
        wasmInitialized = true;
""", """        wasmInitialized = true;
        await wasmInit();
""")],
  js="""const L = await K.load(); let done = false, early = 0; K.shim.init = () => new Promise((r) => setTimeout(() => { done = true; r(); }, 30));
const e = K.shim.wasm_encap; K.shim.wasm_encap = (...a) => { if (!done) early++; return e(...a); };
const f = { r1csBuffer: new Uint8Array(1), symContent: "1,1,0,main.a\\n" }; await Promise.all([L.index.encap(f, { a: 1 }), L.index.encap(f, { a: 2 })]);
assert.equal(early, 0, "used before initialization");
""")
SEEDS["ts-calculator-cache"] = ts(property="C16", needs="a compilation that fails once, then a retry with the same program buffer", breaks="the failure is remembered for the buffer, every later call with it fails",
  edits=[(TS + "witness.ts", """  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);

  // Calculate witness in binary format""", """  let pending = calculators.get(wasmBuffer);
  if (!pending) {
    pending = witnessCalculatorBuilder(wasmBuffer);
    calculators.set(wasmBuffer, pending);
  }
  const witnessCalculator = await pending;

  // Calculate witness in binary format"""), (TS + "witness.ts", """/**
 * Calculate witness from Circom WASM circuit
""", """// Calculators by program, so that a program is compiled only once
const calculators = new WeakMap<
  object,
  ReturnType<typeof witnessCalculatorBuilder>
>();

/**
 * Calculate witness from Circom WASM circuit
""")],
  js="""const L = await K.load({ error() {}, log() {} }); const c = K.circuit([["a", 1]]); K.wasm.failNext = 1;
await assert.rejects(L.witness.calculateWitness(c, { a: 1 })); const w = await L.witness.calculateWitness(c, { a: 1 }); assert.deepEqual(K.values(w), [1n, 1n]);
""")
SEEDS["ts-init-once"] = ts(property="C17", needs="a second computation on one calculator", breaks="the circuit is not reset between computations, so the second one is refused",
  edits=[(TS + "witness_calculator.ts", """    exports.init(this.sanityCheck || sanityCheck ? 1 : 0);
""", """    if (!this.started) {
      exports.init(this.sanityCheck || sanityCheck ? 1 : 0);
      this.started = true;
    }
"""), (TS + "witness_calculator.ts", "  private sanityCheck: boolean;\n", "  private sanityCheck: boolean;\n  private started = false;\n")],
  js="""const L = await K.load(); const w = await L.builder(K.circuit([["a", 2]])); assert.deepEqual(await w.calculateWitness({ a: [1, 2] }), [1n, 1n, 2n]);
assert.deepEqual(await w.calculateWitness({ a: [3, 4] }), [1n, 3n, 4n]);
""")
SEEDS["ts-width"] = ts(property="C17", needs="a circuit over a field that is not 32 bytes wide", breaks="the witness file declares a wrong length of its values",
  edits=[(TS + "witness_calculator.ts", "const idSection2length = n8 * this.witnessSize;", "const idSection2length = 32 * this.witnessSize;")],
  js="""const L = await K.load(); for (const [n32, prime] of [[8, K.BN], [2, 18446744069414584321n]]) { const w = await L.builder(K.circuit([["a", 2]], { n32, prime })); assert.deepEqual(K.values(await w.calculateWTNSBin({ a: [1, 2] })), [1n, 1n, 2n]); }
""")
SEEDS["js-hash-pad"] = ts(property="C17", needs="an input name whose hash has a leading zero digit, in the JavaScript calculator", breaks="such an input is looked up under a wrong hash and refused",
  edits=[(TS + "witness_calculator.js", "shash = '0'.repeat(n).concat(shash);", "shash = shash.concat('0'.repeat(n));")],
  js="""const b = K.loadJs(); for (const n of ["x", ...[...Array(64).keys()].map((i) => "s" + i)]) { const w = await b(K.circuit([[n, 1]])); assert.deepEqual(await w.calculateWitness({ [n]: [7] }), [1n, 7n], n); }
""")
SEEDS["ts-view-offset"] = ts(property="C12", needs="a combined ciphertext that is a view into a larger buffer", breaks="getPublicInput reads the lengths from the start of the underlying buffer",
  edits=[(TS + "zkenc.ts", """  const view = new DataView(ciphertext.buffer, ciphertext.byteOffset);
  let offset = 0;

  // Read flag
  const flag = view.getUint8(offset);
  offset += 1;

  if (flag !== 1) {""", """  const view = new DataView(ciphertext.buffer);
  let offset = 0;

  // Read flag
  const flag = ciphertext[offset];
  offset += 1;

  if (flag !== 1) {""")],
  js="""const L = await K.load(); const f = { r1csBuffer: new Uint8Array(1), symContent: "1,1,0,main.a\\n" }; const { ciphertext: c } = await L.index.encrypt(f, { a: "5" }, new Uint8Array(3));
assert.deepEqual(L.index.getPublicInput(c), { a: "5" }); const big = new Uint8Array(c.length + 9); big.set(c, 9); assert.deepEqual(L.index.getPublicInput(big.subarray(9)), { a: "5" });
""")
SEEDS["ts-nonce-counter"] = ts(property="C04", needs="the nonce's counter part, in modules loaded afresh", breaks="four of the twelve nonce bytes are a counter and do not depend on entropy",
  edits=[(TS + "crypto.ts", """  const nonce = crypto.getRandomValues(new Uint8Array(12));
""", """  const nonce = new Uint8Array(12);
  crypto.getRandomValues(nonce.subarray(0, 8));
  // The last four bytes count messages, so that nonces never repeat
  new DataView(nonce.buffer).setUint32(8, messages++, false);
"""), (TS + "crypto.ts", """/**
 * Encrypt data using AES-256-GCM
""", """let messages = 0;

/**
 * Encrypt data using AES-256-GCM
""")],
  js="""const tails = new Set(); for (let i = 0; i < 20; i++) { const L = await K.load(); const c = await L.crypto.aesGcmEncrypt(new Uint8Array(32), new Uint8Array(4)); tails.add(Buffer.from(c.slice(8, 12)).toString("hex")); }
assert(tails.size > 15, "nonce bytes repeat: " + [...tails]);
""")
SEEDS["ts-debug-key"] = ts(property="C05", needs="a message part that does not decrypt", breaks="the recovered key is printed to the console when decryption fails",
  edits=[(TS + "crypto.ts", """  } catch (error) {
    throw new Error("Decryption failed: invalid key or corrupted data");""", """  } catch (error) {
    console.debug("AES-GCM failure", error, key);
    throw new Error("Decryption failed: invalid key or corrupted data");""")],
  js="""const out = []; const L = await K.load(new Proxy({}, { get: () => (...a) => out.push(...a) })); const key = new Uint8Array(32).map((_, i) => i * 7); const c = await L.crypto.aesGcmEncrypt(key, new Uint8Array(4)); c[20] ^= 1;
await assert.rejects(L.crypto.aesGcmDecrypt(key, c)); assert(!out.some((x) => x instanceof Uint8Array && x.length === 32), "the key is printed");
""")
SEEDS["ts-trim-message"] = ts(property="C12", needs="an empty message", breaks="an encrypted empty message is refused as too short",
  edits=[(TS + "crypto.ts", "if (encrypted.length < 12 + 16) {", "if (encrypted.length <= 12 + 16) {")], more=["C14"],
  js="""const L = await K.load(); const key = new Uint8Array(32); for (const n of [1, 16, 0]) { const c = await L.crypto.aesGcmEncrypt(key, new Uint8Array(n)); assert.equal((await L.crypto.aesGcmDecrypt(key, c)).length, n); }
""")
