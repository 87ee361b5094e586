# The documentation's playground page
PG = "docs/src/components/PlaygroundClient.tsx"
def pg(**k):
    body = k.pop("js"); r = lambda n: open(HERE + "/seedkit/" + n).read()
    k["files"] = {"world.mjs": r("pworld.mjs"), "pagekit.mjs": r("pagekit.mjs"), "demo.mjs": 'import * as P from "./pagekit.mjs";\nimport assert from "node:assert";\nconst p = await P.page();\n' + body}
    k["copies"] = ["js/page.mjs"]; k["demo"] = r("demo-js.sh"); k["property"] = "C22"; return k
SEEDS["page-include-default"] = pg(needs="a custom ciphertext made with the option to embed the public input turned off", breaks="turning the option off has no effect: the library's default, true, is used",
  edits=[(PG, "{ includePublicInput }", "{ includePublicInput: includePublicInput || undefined }")],
  js="""await P.press(p, "tabs.custom"); await P.circuit(p); await P.area(p, 0, '{"a":1}'); await P.area(p, 1, "m");
for (const on of [true, false]) { await p.check(p.all((x) => x.tag === "input" && x.props.type === "checkbox")[0], on); await P.press(p, "custom.encrypt.encryptButton"); await p.rest(); await P.press(p, "custom.encrypt.download"); assert.equal(P.opened(p.downloads.pop()).carried, on); }
""")
SEEDS["page-wasm-lost"] = pg(needs="two circuit files whose contents arrive together", breaks="the handler of the .r1cs file uses the files known when it was chosen, and drops a program that arrived meanwhile",
  edits=[(PG, """      const r1csBuffer = new Uint8Array(arrayBuffer);
      setCustomCircuitFiles((prev) => ({""", """      const r1csBuffer = new Uint8Array(arrayBuffer);
      const known = customCircuitFiles;
      setCustomCircuitFiles((prev) => ({"""),
    (PG, """        wasmBuffer: prev?.wasmBuffer || new Uint8Array(),
      }));
      setError("");
    };
    reader.readAsArrayBuffer(file);""", """        wasmBuffer: known?.wasmBuffer || new Uint8Array(),
      }));
      setError("");
    };
    reader.readAsArrayBuffer(file);""")],
  js="""await P.press(p, "tabs.custom"); if (p.file(".sym")) { await P.upload(p, "sym"); await p.rest(); }
await P.upload(p, "r1cs"); await P.upload(p, "wasm"); await p.steps.complete(1); await p.rest();
await P.area(p, 0, '{"a":1}'); await P.area(p, 1, "m"); await P.press(p, "custom.encrypt.encryptButton"); await p.rest(); assert.equal(p.errorText(), "");
await P.press(p, "custom.encrypt.download"); assert.equal(P.opened(p.downloads.pop()).msg, "m");
""")
SEEDS["page-busy-json"] = pg(needs="a public input that is not JSON", breaks="the page stays busy: the text is parsed after the page is set to busy and before the try block",
  edits=[(PG, """    try {
      const publicInputs = JSON.parse(customPublicInput);
      const encoder""", """    const publicInputs = JSON.parse(customPublicInput);

    try {
      const encoder""")],
  js="""await P.press(p, "tabs.custom"); await P.circuit(p); await P.area(p, 1, "m");
await P.area(p, 0, '{"a":'); await P.press(p, "custom.encrypt.encryptButton"); await p.rest(); assert(P.idle(p), "the page stays busy"); assert(p.errorText());
await P.area(p, 0, '{"a":1}'); await P.press(p, "custom.encrypt.encryptButton"); await p.rest(); assert.equal(p.errorText(), "");
""")
SEEDS["page-puzzle-kept"] = pg(needs="an uploaded ciphertext with its puzzle after the puzzle shown has been edited", breaks="an edited puzzle is kept when a ciphertext with another puzzle is uploaded",
  edits=[(PG, """          setPuzzle(publicInputs.puzzle);
""", """          setPuzzle((shown) => (edited.current ? shown : publicInputs.puzzle));
"""), (PG, """                    setPuzzle(newValues);
""", """                    setPuzzle(newValues);
                    edited.current = true;
"""), (PG, """    setPuzzle(newPuzzle);
""", """    setPuzzle(newPuzzle);
    edited.current = false;
"""), (PG, """  // Circuit files state
""", """  // Whether the puzzle was changed by hand
  const edited = React.useRef(false);

  // Circuit files state
""")],
  js="""const shown = () => p.cells()[0].map((c) => Number(p.value(c) || 0)); await P.area(p, 0, "m"); await P.press(p, "sudoku.encrypt.encryptButton"); await p.rest(); await P.press(p, "sudoku.encrypt.downloadButton"); const file = p.downloads.pop().bytes;
for (const edit of [false, true]) { await P.press(p, "mode.encrypt"); if (edit) { await p.type(p.cells()[0][0], "7"); assert.equal(shown()[0], 7); } await P.press(p, "mode.decrypt"); await p.give(p.file(".bin"), file, "f.bin"); await p.rest(); assert.deepEqual(shown(), P.puzzle, "the puzzle of the uploaded ciphertext"); }
""")
