#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
CORE="packages/zkenc-core/src/"; CLI="packages/zkenc-cli/src/"; JS="packages/zkenc-js/src/"
p("C01","Decapsulation recovers exactly the encapsulated key",
 "Whenever a key is encapsulated to a circuit and its public inputs, decapsulating the ciphertext with any assignment that has those public inputs and satisfies the circuit returns exactly the same 32-byte key. This holds for every circuit, every public input, every satisfying witness and every value of the sampled randomness, and also after the ciphertext and key have been serialized and read back.",
 ["inputs","programs"],"all circuits, public inputs, satisfying witnesses and randomness of an encapsulation",
 "The arkworks tests cannot even be built here, and where they build they run one MiMC instance and one sudoku with one seed; an algebraic slip that cancels for particular coefficients or a wrong wire offset needs all circuits and all randomness.",
 [CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs",CORE+"data_structures.rs"],
 [("key derivation on the encapsulation side",CORE+"algorithm.rs encap"),("key recovery on the decapsulation side",CORE+"algorithm.rs decap"),("QAP evaluation",CORE+"r1cs_to_qap.rs evaluate_qap_polynomials_at_x")],
 observe=["return values of encap / decap"])
p("C02","A key is released only for a satisfying, matching assignment",
 "Decapsulation returns a key only if the supplied assignment satisfies every constraint of the circuit and its public part equals the public inputs recorded in the ciphertext; in every other case it reports an error and returns (or writes) no key. The verdict is the same through the library, the command line tool and the JavaScript bindings.",
 ["inputs","programs"],"all circuits and all assignments, satisfying or not, one or many coordinates away from a valid one",
 "Tests try one or two wrong witnesses; a constraint or a public input that is skipped (last one, one of a zero-coefficient row, one beyond a length) is only visible for assignments that violate precisely that one.",
 [CORE+"algorithm.rs",CLI+"commands.rs",CLI+"circuit.rs",JS+"lib.rs"],
 [("satisfaction check before key recovery",CORE+"algorithm.rs decap"),("public input comparison",CORE+"algorithm.rs decap")],
 observe=["return value of decap","exit status and key file of the decap command","wasm_decap"])
p("C03","The ciphertext is bound to exactly the intended public inputs",
 "A ciphertext records every public signal of the circuit (public outputs and public inputs, in wire order) with exactly the value the caller supplied for it, whichever tool produced it and in whatever order the inputs were written. If the caller's inputs do not determine every public signal, encapsulation is refused instead of producing a ciphertext for a weaker statement.",
 ["inputs","programs"],"all circuits (any number of public outputs, public inputs and private signals), all input files including incomplete, misspelled, reordered or superfluous ones",
 "The fixtures have no public outputs and complete input files; the number of public signals, missing keys and key order never vary in the tests.",
 [CLI+"commands.rs",CLI+"sym_parser.rs",CLI+"circuit.rs",JS+"zkenc.ts",JS+"lib.rs",CORE+"algorithm.rs"],
 [("selection of public wires",CLI+"commands.rs encap_command, encrypt_command"),("selection of public wires",JS+"zkenc.ts encap; "+JS+"lib.rs wasm_encap"),("public inputs taken from the synthesized instance",CORE+"algorithm.rs encap")],
 observe=["public inputs of the produced ciphertext"])
p("C04","Every encapsulation and encryption uses fresh, full randomness",
 "All secret values of an encapsulation and every nonce or IV are drawn anew for each call from the operating system's entropy, directly or through a cryptographic generator seeded from it: every published random element and every nonce byte depends on the entropy of that call, and repeated calls on identical inputs never repeat a key, a ciphertext or a nonce. If the entropy source fails, the call fails and produces no ciphertext.",
 ["histories","inputs","fault_sequences"],"all sequences of calls, all values of the entropy source, failure of the entropy source at any draw",
 "The tests compare at most two ciphertexts for inequality; reuse after many calls, a partly constant nonce, a correlated pair of secrets or a fallback on entropy failure are never observed.",
 [CORE+"algorithm.rs",CLI+"crypto.rs",CLI+"commands.rs",JS+"crypto.ts",JS+"lib.rs"],
 [("sampling of the five secrets",CORE+"algorithm.rs encap"),("nonce and IV generation",CLI+"crypto.rs; "+JS+"crypto.ts"),("seeding",JS+"lib.rs wasm_encap; "+CLI+"commands.rs")],
 observe=["published ciphertexts, nonces, IVs, keys over call histories"])
p("C05","Published data does not reveal the key or the message",
 "Nobody who holds only what is published (the circuit, the ciphertext or combined ciphertext, and what the tool prints while decrypting or encrypting) can compute the encapsulated key or read the message; a satisfying witness is required. In particular no key byte string, no plaintext and no secret exponent appears in a ciphertext, in a combined ciphertext or in console output.",
 ["inputs","programs"],"all circuits, public inputs, randomness, and all ways an attacker can combine the published group elements",
 "No test looks at what an attacker can compute; secrecy is a statement about all derivations from the published elements.",
 [CORE+"algorithm.rs",CORE+"data_structures.rs",CLI+"commands.rs",JS+"zkenc.ts"],
 [("construction of the common reference string and key",CORE+"algorithm.rs encap"),("combined format",CLI+"commands.rs; "+JS+"zkenc.ts")],
 observe=["ciphertext bytes, combined bytes, stdout"])
p("C06","Circuit files are read completely and faithfully",
 "Reading any well-formed circuit file yields exactly its header values, its prime, all constraints with all wire numbers and coefficients in order, and its wire-to-label table, for any order of the sections, any additional unknown sections, any field size and any size of the linear combinations. The Rust reader, its exported form and the JavaScript bindings' reader agree on the circuit.",
 ["inputs"],"all well-formed r1cs files",
 "The tests parse a single file and check that counts are positive; section order, unknown sections, empty or long linear combinations and other field sizes never occur.",
 [CLI+"r1cs.rs",JS+"lib.rs"],
 [("two-pass section scan",CLI+"r1cs.rs R1csFile::from_file; "+JS+"lib.rs parse_r1cs"),("export",CLI+"r1cs.rs to_serializable")],
 observe=["R1csFile fields; constraint system built from them"])
p("C07","Damaged or hostile files are rejected with an error",
 "Any truncated, corrupted, inconsistent or hostile circuit, witness, symbol, input or ciphertext file is reported as an error to the caller or read as the data it validly encodes. It never causes a crash, an endless loop, or memory use out of proportion to the file, and a binary or JSON file cut short is never accepted as if it were complete.",
 ["inputs","fault_sequences"],"all byte strings near valid files: every truncation point, every header or length field set to every boundary value, pairs of such faults",
 "No test feeds a malformed file; lengths and counts in the files are attacker-controlled 32 and 64 bit values.",
 [CLI+"r1cs.rs",CLI+"witness.rs",CLI+"commands.rs",JS+"lib.rs",JS+"zkenc.ts"],
 [("bounds and consistency checks in the readers",CLI+"r1cs.rs; "+CLI+"witness.rs; "+JS+"lib.rs")],
 observe=["result of the readers and commands, process survival, peak memory, time"])
p("C08","Exported circuits, witnesses and test cases round-trip",
 "Exporting a circuit, witness or test case to JSON or binary, in memory or through a file, and loading it again gives an equal value, for all contents including optional parts, empty collections, extreme numbers and arbitrary text. Both packages that ship this format read each other's exports, and saving over an existing file leaves exactly the new content.",
 ["inputs","histories"],"all circuits, witnesses and test cases; all save/load sequences over shared paths",
 "The tests round-trip one circuit without constraints and compare two fields.",
 [CORE+"serializable.rs",CLI+"serializable.rs",CLI+"r1cs.rs"],
 [("serde (de)serialization and file helpers",CORE+"serializable.rs; "+CLI+"serializable.rs")],observe=["loaded values, files"])
p("C09","Witness files carry the same assignment through every tool",
 "For every well-formed witness file each reader assigns to wire number i exactly the i-th stored value, for any section order and unknown sections. The witness files written by the JavaScript library (for encapsulation and by the witness calculator) are well-formed and are read back as exactly the values written, by both the JavaScript bindings and the command line tool.",
 ["inputs"],"all assignments, field values including 0, 1, p-1 and multi-word values, all section layouts",
 "Only two stored witness files exist and their tests are ignored; nothing writes a file with one tool and reads it with the other.",
 [CLI+"witness.rs",JS+"lib.rs",JS+"zkenc.ts",JS+"witness_calculator.ts"],
 [("readers",CLI+"witness.rs WitnessFile; "+JS+"lib.rs parse_witness"),("writers",JS+"zkenc.ts serializeWitnessSimple; "+JS+"witness_calculator.ts calculateWTNSBin")],observe=["parsed assignments"])
p("C10","The circuit handed to the core is the circuit in the file",
 "For every circuit file and assignment, the constraint system built from it is satisfied exactly when the assignment satisfies the file's equations over the BN254 scalar field, with wire 0 fixed to one, the public signals as public inputs in wire order and all remaining wires private. The command line tool and the JavaScript bindings build equivalent constraint systems.",
 ["inputs","programs"],"all circuits and assignments, coefficients of any byte pattern, repeated wires, empty rows, any number of public signals",
 "Tests check two counters of one circuit; a swapped matrix, a dropped factor, or an off-by-one in the public/private split is invisible to them.",
 [CLI+"circuit.rs",JS+"lib.rs"],
 [("variable allocation and constraint generation",CLI+"circuit.rs generate_constraints; "+JS+"lib.rs generate_constraints")],observe=["constraint matrices, satisfaction"])
p("C11","Named inputs reach the right wires",
 "Each value in an input object is assigned to the wire that the symbol file gives for its name, element by element for arrays of any nesting, independent of the order of keys and of unrelated entries, as the same field element (negative and oversized numbers being reduced modulo the prime). The Rust and TypeScript symbol readers and mappings agree on every well-formed symbol file and input.",
 ["inputs"],"all symbol files and input objects: scalars, nested arrays, numeric and string numbers, negatives, duplicates, blank and odd lines, any wire limit",
 "Tests map one flat array and two scalars; nesting, negative numbers, limits and disagreement between the two implementations are not exercised.",
 [CLI+"sym_parser.rs",CLI+"commands.rs",JS+"sym_parser.ts",JS+"zkenc.ts"],
 [("symbol parsing and filtering",CLI+"sym_parser.rs; "+JS+"sym_parser.ts"),("input flattening",CLI+"commands.rs parse_circuit_inputs_with_keys; "+JS+"sym_parser.ts mapInputsToWires")],observe=["wire maps, public inputs of ciphertexts"])
p("C12","Encrypted messages decrypt across tools to the original",
 "A message of any length encrypted with either tool for a circuit and public inputs is recovered byte for byte by either tool given a satisfying witness, with or without embedded public inputs. The combined ciphertext has the documented layout, and when public inputs are embedded they are returned exactly as supplied; otherwise asking for them is an error.",
 ["inputs","configurations","histories"],"all messages, circuits, input files, both settings of embedding, all producer/consumer pairs of tools, sequences of operations",
 "The Rust and JavaScript packages are never run against each other in any test, and message and input sizes do not vary.",
 [CLI+"commands.rs",CLI+"crypto.rs",JS+"zkenc.ts",JS+"crypto.ts"],
 [("combined format writer and reader",CLI+"commands.rs encrypt_command, decrypt_command; "+JS+"zkenc.ts encrypt, decrypt, getPublicInput")],observe=["combined bytes, decrypted bytes"])
p("C13","Tampering never yields a wrong plaintext",
 "Decrypting a combined or symmetric authenticated ciphertext that was modified in any way (bits flipped, truncated, extended, parts swapped with another ciphertext, length fields changed) either fails with an error or returns the original message, never different bytes. A failed decryption produces no output.",
 ["inputs","fault_sequences"],"all single mutations and truncations of ciphertexts, boundary values of every length field, splices of two ciphertexts",
 "One test decrypts with a wrong key; no test modifies a ciphertext.",
 [CLI+"commands.rs",CLI+"crypto.rs",JS+"zkenc.ts",JS+"crypto.ts"],
 [("authenticated decryption and length checks",CLI+"crypto.rs decrypt_gcm; "+CLI+"commands.rs decrypt_command; "+JS+"crypto.ts aesGcmDecrypt; "+JS+"zkenc.ts decrypt")],observe=["result and output file of decryption"])
p("C14","Symmetric encryption helpers honour their format and contract",
 "For every 32-byte key and every message the AES-256-GCM and AES-256-CTR helpers produce nonce or IV, then ciphertext (then tag) in standard form, decrypt their own and each other's output (Rust and JavaScript GCM) to the original, and match an independent implementation of the standard. Keys of any other length and inputs shorter than the fixed overhead are refused, and a different key never decrypts authenticated data.",
 ["inputs"],"all key lengths, message lengths around block and counter boundaries, IVs at counter wrap-around, short inputs",
 "Tests use one 13-byte message and one key; they never look at the layout, other lengths, counter wrap or the other implementation.",
 [CLI+"crypto.rs",JS+"crypto.ts"],
 [("GCM and CTR helpers",CLI+"crypto.rs"),("WebCrypto helpers",JS+"crypto.ts")],observe=["ciphertext bytes"])
p("C15","Commands succeed completely or leave outputs alone",
 "A command line operation reports success only if every requested output file was completely written with the right content. When it fails because any of its inputs is missing, unreadable, malformed or does not match, it reports an error and neither creates nor changes any output file, and no operation ever modifies its input files.",
 ["fault_sequences","histories"],"every combination of one or two faulty inputs, every failing file operation, outputs that exist or not, repeated operations on the same paths",
 "Tests run each command once on good files; the order of validation and writing under faults is not observed.",
 [CLI+"commands.rs",CLI+"main.rs"],
 [("validation before writing",CLI+"commands.rs")],observe=["exit status, file system before and after"])
p("C16","Concurrent JavaScript calls behave as if run one after another",
 "Any number of library calls may be in flight at once: under every interleaving of their asynchronous steps each call returns what it would return alone, the WebAssembly module is initialized once before it is used, and no call sees another call's inputs, keys or buffers. Caller-owned inputs are never modified, and a failed initialization or call does not make later calls fail.",
 ["schedules","histories","fault_sequences"],"all interleavings of the asynchronous steps of two or three concurrent calls, with failures injected at each step",
 "The tests await each call before starting the next; nothing controls completion order.",
 [JS+"zkenc.ts",JS+"crypto.ts",JS+"witness.ts",JS+"witness_calculator.ts"],
 [("memoized initialization",JS+"zkenc.ts ensureWasmInit"),("per-call buffers",JS+"zkenc.ts; "+JS+"witness_calculator.ts")],state=[dict(name="wasmInitialized / wasmInitPromise",meaning="module initialization state shared by all calls",where=JS+"zkenc.ts")],observe=["results and call traces under a controlled scheduler"])
p("C17","The witness calculator feeds and reads the circuit correctly",
 "For every circuit and input object the witness calculator sets every element of every named input signal, reduced into the field, exactly once and in row-major order, refuses unknown names and wrong element counts and missing inputs, and returns all witness values in wire order in each of its output forms. Its array, binary and file outputs agree with each other, for any field width and on repeated use of one calculator.",
 ["inputs","histories"],"all signal shapes and values (negative, oversized, nested), all sets of missing or extra inputs, field widths, call sequences on one instance",
 "The JavaScript tests need fixtures that are not in the repository and check one circuit.",
 [JS+"witness_calculator.ts",JS+"witness.ts",JS+"witness_calculator.js"],
 [("input feeding and witness extraction",JS+"witness_calculator.ts")],observe=["calls made on the circuit instance, returned witness"])
p("C18","Command line options reach the operation they name",
 "Every documented invocation of the command line tool performs exactly the named operation with each path used in the role its option names, whatever order the options are given in; public inputs are embedded unless explicitly disabled. A missing or unknown option is refused without touching any file, and failures yield a non-zero exit status.",
 ["inputs","configurations"],"all subcommands, all option subsets and orders, long and short spellings",
 "No test runs the binary.",
 [CLI+"main.rs",CLI+"commands.rs"],
 [("argument definitions and dispatch",CLI+"main.rs")],observe=["exit status, files read and written"])
p("C19","Circuit input files are flattened in order",
 "Reading an input file returns, for every top-level key, the row-major flattening of its value with every number and string kept textually exact, booleans as 1 and 0 and null as 0. Anything that is not a JSON object, and any unreadable file, is an error.",
 ["inputs"],"all JSON input files up to a nesting depth and width, all scalar kinds and number spellings",
 "One test parses one flat file and only checks that keys are present.",
 [CLI+"circom.rs"],[("flattening",CLI+"circom.rs parse_inputs, flatten_value")],observe=["returned map"])
p("C20","Ciphertext verification accepts exactly the stated public inputs",
 "Verifying a ciphertext against a list of expected public inputs succeeds if and only if the list has the same length and the same values in the same order as the public inputs recorded in the ciphertext. Serializing and reading a ciphertext or key preserves it exactly, and truncated encodings are refused.",
 ["inputs"],"all lists of public inputs and expectations, all ciphertexts, all truncations",
 "The tests verify one matching and one different single-element list.",
 [CORE+"algorithm.rs",CORE+"data_structures.rs"],
 [("element-wise comparison",CORE+"algorithm.rs verify_ciphertext"),("encodings",CORE+"data_structures.rs")],observe=["verdict, decoded values"])
p("C21","The published key material is the circuit's QAP encoding",
 "The elements published by an encapsulation are exactly the documented encoding of the circuit: for every variable in order (constant, public, private) the elements r*u_i(x), r*v_i(x) and (r*beta*u_i(x) + r*alpha*v_i(x) + r^2*w_i(x))/delta for one secret choice of alpha, beta, delta, r and x, where u_i, v_i and w_i are the polynomials that take the circuit's left, right and output coefficients of variable i at the points of the evaluation domain. This holds for every circuit, whatever its number of constraints, of variables and of terms.",
 ["inputs"],"all circuits (rows, terms, repeated wires, zero coefficients, sizes), all secrets",
 "The tests never look at the published elements.",
 [CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs"],
 [("query elements",CORE+"algorithm.rs encap"),("polynomial evaluation",CORE+"r1cs_to_qap.rs evaluate_qap_polynomials_at_x")],observe=["published group elements"])
p("C22","The playground page encrypts and decrypts what it shows",
 "Whatever a visitor of the documentation's playground page does, in whatever order and however late circuit files, uploads and results arrive: a download opens to the message shown when Encrypt was clicked, for the puzzle or public input shown then, and carries that public input when the page says so. Decrypt shows the message of the newest ciphertext exactly when the inputs shown satisfy the circuit and match it (private signals alone are merged with the public input shown), and an error otherwise. An upload fills in the public input it carries. Missing or damaged circuit files lead to an error, and no file to a crash, a page that stays busy, or the loss of what was entered, and switching tabs or modes changes nothing.",
 ["histories","schedules","inputs","fault_sequences"],"all sequences of visitor actions up to a depth, all arrival orders of files and results, failing requests and damaged uploads, all single-cell edits",
 "There are no tests of the page at all.",
 ["docs/src/components/PlaygroundClient.tsx","docs/src/pages/playground.tsx","docs/static/circuits","packages/zkenc-js/src/zkenc.ts"],
 [("handlers and state of the page","docs/src/components/PlaygroundClient.tsx")],observe=["rendered controls and texts, downloaded files"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
