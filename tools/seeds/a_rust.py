CLI = "packages/zkenc-cli/src/"; JS = "packages/zkenc-js/src/"; CORE = "packages/zkenc-core/src/"
SEEDS["verify-prefix"] = dict(property="C20", needs="a list of expected public inputs longer than the recorded one", breaks="verify_ciphertext accepts a longer list whose first values agree",
  edits=[(CORE + "algorithm.rs", "if ciphertext.public_inputs.len() != expected_public_inputs.len() {", "if ciphertext.public_inputs.len() > expected_public_inputs.len() {")],
  rust="""
fn main() {
    let w = wtns(&[f(1), f(25)]); let (ct, _) = js_encap(&square().bytes(), &w).expect("encap");
    use ark_serialize::CanonicalDeserialize; let c = zkenc_core::Ciphertext::<Bn254>::deserialize_compressed(&ct[..]).expect("read");
    assert!(zkenc_core::verify_ciphertext(&c, &[f(25)])); assert!(!zkenc_core::verify_ciphertext(&c, &[f(26)]));
    assert!(!zkenc_core::verify_ciphertext(&c, &[f(25), f(7)]), "a longer list is accepted");
}
""")
SEEDS["gcm-empty"] = dict(property="C14", needs="an empty message", breaks="the GCM encryption of an empty message cannot be decrypted", more=["C12"],
  edits=[(CLI + "crypto.rs", "if data.len() < 28 {", "if data.len() <= 28 {")],
  rust="""
fn main() {
    let key = [7u8; 32];
    for n in [0usize, 1, 16, 100] { let m = vec![9u8; n]; let c = zkenc_cli::crypto::encrypt_gcm(&key, &m).expect("encrypt"); assert_eq!(zkenc_cli::crypto::decrypt_gcm(&key, &c).expect("decrypt"), m); }
}
""")
SEEDS["save-stale-tail"] = dict(property="C08", needs="saving a test case over an existing longer file", breaks="the saved file keeps the tail of the old one and no longer loads",
  edits=[(CLI + "serializable.rs", """        let json = serde_json::to_string_pretty(self)?;
        std::fs::write(path, json)?;
""", """        // Write straight to the file instead of building the text first
        let file = std::fs::OpenOptions::new()
            .write(true)
            .create(true)
            .open(path)?;
        serde_json::to_writer_pretty(file, self)?;
""")],
  rust="""
use zkenc_cli::serializable::*;
fn main() {
    let d = Dir::new(); let p = d.p("t.json");
    let t = |n: u32| SerializableTestCase { circuit: SerializableCircuit { field_size: 32, prime_bytes: vec![1; 32], n_wires: n + 1, n_pub_out: 0, n_pub_in: 1, n_prv_in: 0, n_constraints: 0, constraints: vec![], wire_labels: None }, witness: SerializableWitness { assignments: (0..n).map(|i| (i, vec![i as u8; 32])).collect() }, name: format!("case {}", n), description: None };
    for n in [3u32, 1, 5, 0] { t(n).save_json(&p).expect("save"); let r = SerializableTestCase::load_json(&p).expect("load"); assert_eq!(r.witness.assignments, t(n).witness.assignments); assert_eq!(r.name, t(n).name); }
}
""")
SEEDS["flatten-levels"] = dict(property="C19", needs="an array that mixes values and deeper arrays", breaks="values are returned level by level, not in row-major order",
  edits=[(CLI + "circom.rs", "        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),", """        Value::Array(arr) => {
            // Leaf values first, then the nested rows
            let (rows, leaves): (Vec<&Value>, Vec<&Value>) =
                arr.iter().partition(|v| v.is_array());
            leaves
                .into_iter()
                .chain(rows)
                .flat_map(flatten_value)
                .collect()
        }""")],
  rust="""
fn main() {
    let d = Dir::new(); let p = d.put("i.json", r#"{"a":[[1,2],3,[4]],"b":[[1,2],[3,4]]}"#);
    let r = zkenc_cli::circom::parse_inputs(&p).expect("read");
    assert_eq!(r["b"], ["1", "2", "3", "4"]); assert_eq!(r["a"], ["1", "2", "3", "4"]);
}
""")
SEEDS["single-element"] = dict(property="C11", needs="an array input of length one", breaks="the only element of an array is looked up under the name of a scalar and never reaches its wire", more=["C03"],
  edits=[(CLI + "commands.rs", """            serde_json::Value::Array(arr) => {
                for (idx, item) in arr.iter().enumerate() {""", """            serde_json::Value::Array(arr) if arr.len() == 1 && !arr[0].is_array() => {
                // A single value needs no index
                flatten_value(&arr[0], key, result)?;
            }
            serde_json::Value::Array(arr) => {
                for (idx, item) in arr.iter().enumerate() {""")],
  rust="""
fn main() {
    let d = Dir::new(); let m = net(0, 2, 1, vec![]); let c = d.put("c.r1cs", m.bytes()); let s = d.put("c.sym", "1,1,0,main.a[0]\\n2,2,0,main.b\\n3,3,0,main.s\\n");
    let i = d.put("i.json", r#"{"a":[5],"b":6}"#);
    zkenc_cli::commands::encap_command(&c, &s, &i, &d.p("ct"), &d.p("k")).expect("encap"); assert_eq!(recorded(&d.get("ct").unwrap()), Some(vec![f(5), f(6)]));
}
""")
SEEDS["early-create"] = dict(property="C15", needs="a decap that fails while the key file already exists", breaks="a failing decap empties the existing key file",
  edits=[(CLI + "commands.rs", """    println!("\\n🔓 Running Decap...");
""", """    // Fail before the expensive part if the key cannot be stored
    fs::File::create(key_path).context("Failed to create key file")?;

    println!("\\n🔓 Running Decap...");
""")],
  rust="""
fn main() {
    let d = Dir::new(); let m = square(); let c = d.put("c.r1cs", m.bytes()); let s = d.put("c.sym", sym(&m)); let i = d.put("i.json", r#"{"p1":25}"#);
    zkenc_cli::commands::encap_command(&c, &s, &i, &d.p("ct"), &d.p("k")).expect("encap");
    let k = d.put("key", b"an older key"); let w = d.put("bad.wtns", wtns(&[f(1), f(25), f(6)]));
    assert!(zkenc_cli::commands::decap_command(&c, &w, &d.p("ct"), &k).is_err()); assert_eq!(d.get("key").unwrap(), b"an older key");
    let w = d.put("good.wtns", wtns(&[f(1), f(25), f(5)])); zkenc_cli::commands::decap_command(&c, &w, &d.p("ct"), &k).expect("decap"); assert_eq!(d.get("key"), d.get("k"));
}
""")
SEEDS["seed-reuse"] = dict(property="C04", needs="two encapsulations in one process", breaks="every encapsulation of a process uses the same randomness, so keys and ciphertexts repeat",
  edits=[(JS + "lib.rs", """    let mut seed = [0u8; 32];
    getrandom::getrandom(&mut seed)
        .map_err(|e| JsValue::from_str(&format!("Random generation failed: {}", e)))?;
    let mut rng = StdRng::from_seed(seed);
""", """    thread_local! {
        static SEED: std::cell::Cell<Option<[u8; 32]>> = const { std::cell::Cell::new(None) };
    }
    let seed = match SEED.with(|s| s.get()) {
        Some(seed) => seed,
        None => {
            let mut seed = [0u8; 32];
            getrandom::getrandom(&mut seed)
                .map_err(|e| JsValue::from_str(&format!("Random generation failed: {}", e)))?;
            SEED.with(|s| s.set(Some(seed)));
            seed
        }
    };
    let mut rng = StdRng::from_seed(seed);
""")],
  rust="""
fn main() {
    let (m, w) = (square().bytes(), wtns(&[f(1), f(25)])); let a = js_encap(&m, &w).expect("encap"); let b = js_encap(&m, &w).expect("encap");
    assert!(a.0 != b.0 && a.1 != b.1, "two encapsulations are equal");
    assert_eq!(js_decap(&m, &wtns(&[f(1), f(25), f(5)]), &a.0), Some(a.1));
}
""")
SEEDS["lc-last-term"] = dict(property="C10", needs="a linear combination that names one wire twice", breaks="only the last of several terms on one wire counts, so other assignments satisfy the circuit",
  edits=[(JS + "lib.rs", """    let mut lc = LinearCombination::zero();
    for (wire_id, coeff_bytes) in factors {
        if let Some(&var) = variables.get(wire_id) {
            let coeff = CircomCircuit::bytes_to_fr(coeff_bytes);
            lc = lc + (coeff, var);
        }
    }
""", """    let mut lc = LinearCombination::zero();
    // Collect the coefficients first so that every wire is looked up once
    let coeffs: std::collections::BTreeMap<u32, Fr> = factors
        .iter()
        .map(|(wire_id, bytes)| (*wire_id, CircomCircuit::bytes_to_fr(bytes)))
        .collect();
    for (wire_id, coeff) in coeffs {
        if let Some(&var) = variables.get(&wire_id) {
            lc = lc + (coeff, var);
        }
    }
""")],
  rust="""
fn main() {
    // (s2 + 2 s2) * 1 = p1
    let m = net(0, 1, 1, vec![[vec![(2, num(1)), (2, num(2))], one(0), one(1)]]).bytes(); let (ct, k) = js_encap(&m, &wtns(&[f(1), f(12)])).expect("encap");
    assert_eq!(js_decap(&m, &wtns(&[f(1), f(12), f(4)]), &ct), Some(k)); assert_eq!(js_decap(&m, &wtns(&[f(1), f(12), f(6)]), &ct), None);
}
""")
SEEDS["zero-coefficient"] = dict(property="C06", needs="a circuit file with an explicit zero coefficient", breaks="terms with coefficient zero vanish from the constraints that are read",
  edits=[(CLI + "r1cs.rs", "            factors.push((wire_id, value));", """            // Terms without weight need no space
            if value.iter().any(|byte| *byte != 0) {
                factors.push((wire_id, value));
            }""")],
  rust="""
fn main() {
    let d = Dir::new(); let m = net(0, 1, 1, vec![[vec![(2, num(1)), (1, num(0))], one(2), one(1)]]); let r = zkenc_cli::r1cs::R1csFile::from_file(d.put("c.r1cs", m.bytes())).expect("read");
    assert_eq!(r.constraints[0].a.factors, m.constraints[0][0]); assert_eq!(r.constraints[0].c.factors, m.constraints[0][2]);
}
""")
SEEDS["ctr-fallback"] = dict(property="C13", needs="a combined ciphertext whose encrypted message was modified", breaks="a message that fails authentication is decrypted without it and written out",
  edits=[(CLI + "commands.rs", """    let plaintext = crypto::decrypt_gcm(key.as_bytes(), encrypted_message)
        .context("Message decryption failed")?;
""", """    // Messages of older releases carry no tag
    let plaintext = crypto::decrypt_gcm(key.as_bytes(), encrypted_message)
        .or_else(|_| crypto::decrypt_ctr(key.as_bytes(), encrypted_message))
        .context("Message decryption failed")?;
""")],
  rust="""
fn main() {
    let d = Dir::new(); let m = square(); let c = d.put("c.r1cs", m.bytes()); let s = d.put("c.sym", sym(&m)); let i = d.put("i.json", r#"{"p1":25}"#); let msg = d.put("m", b"attack at dawn"); let w = d.put("w", wtns(&[f(1), f(25), f(5)]));
    zkenc_cli::commands::encrypt_command(&c, &s, &i, &msg, &d.p("x"), true).expect("encrypt"); zkenc_cli::commands::decrypt_command(&c, &w, &d.p("x"), &d.p("o")).expect("decrypt"); assert_eq!(d.get("o").unwrap(), b"attack at dawn");
    let mut b = d.get("x").unwrap(); let l = b.len(); b[l - 1] ^= 1; let t = d.put("y", b);
    assert!(zkenc_cli::commands::decrypt_command(&c, &w, &t, &d.p("o2")).is_err(), "a modified message is decrypted"); assert!(d.get("o2").is_none());
}
""")
SEEDS["default-output"] = dict(property="C18", needs="a decrypt without --output", breaks="a missing required option is accepted and a file is written to the working directory", also="--bins -p zkenc-cli",
  edits=[(CLI + "main.rs", """        /// Output decrypted message file
        #[arg(short, long)]
        output: String,""", """        /// Output decrypted message file
        #[arg(short, long, default_value = "decrypted.bin")]
        output: String,""")],
  rust="""
fn main() {
    let d = Dir::new(); let m = square(); let c = d.put("c.r1cs", m.bytes()); let s = d.put("c.sym", sym(&m)); let i = d.put("i.json", r#"{"p1":25}"#); let msg = d.put("m", b"hello"); let w = d.put("w", wtns(&[f(1), f(25), f(5)]));
    let mut exe = std::env::current_exe().unwrap(); exe.set_file_name("zkenc");
    let run = |a: &[&str]| std::process::Command::new(&exe).args(a).current_dir(&d.0).output().unwrap().status.success();
    assert!(run(&["encrypt", "--circuit", &c, "--sym", &s, "--input", &i, "--message", &msg, "--output", "x"])); assert!(run(&["decrypt", "--circuit", &c, "--witness", &w, "--ciphertext", "x", "--output", "o"])); assert_eq!(d.get("o").unwrap(), b"hello");
    assert!(!run(&["decrypt", "--circuit", &c, "--witness", &w, "--ciphertext", "x"]), "a decrypt without output is accepted");
}
""")
SEEDS["key-fingerprint"] = dict(property="C05", needs="reading the console output of a decrypt", breaks="half of the key is printed",
  edits=[(CLI + "commands.rs", """    println!("   ✅ Key recovered from witness");
""", """    println!(
        "   ✅ Key recovered from witness (fingerprint {})",
        hex::encode(&key.as_bytes()[..16])
    );
""")],
  rust="""
fn main() {
    if let Ok(dir) = std::env::var("DEMO_CHILD") { let p = |n: &str| format!("{}/{}", dir, n); zkenc_cli::commands::decrypt_command(&p("c"), &p("w"), &p("x"), &p("o")).expect("decrypt"); return; }
    let d = Dir::new(); let m = square(); let c = d.put("c", m.bytes()); let s = d.put("s", sym(&m)); let i = d.put("i", r#"{"p1":25}"#); let msg = d.put("m", b"hello"); let w = wtns(&[f(1), f(25), f(5)]); d.put("w", &w);
    zkenc_cli::commands::encrypt_command(&c, &s, &i, &msg, &d.p("x"), false).expect("encrypt"); let b = d.get("x").unwrap(); let l = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
    let key = js_decap(&m.bytes(), &w, &b[5..5 + l]).expect("key"); let hex: String = key.iter().map(|b| format!("{:02x}", b)).collect();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("DEMO_CHILD", &d.0).output().unwrap(); assert!(o.status.success()); let t = String::from_utf8_lossy(&o.stdout).to_lowercase() + &String::from_utf8_lossy(&o.stderr).to_lowercase();
    for n in 0..=48 { assert!(!t.contains(&hex[n..n + 16]), "part of the key is on the console"); }
}
""")
SEEDS["section-count"] = dict(property="C07", needs="a short circuit file that announces a huge number of sections", breaks="the reader reserves memory for the announced number of sections before reading any",
  edits=[(CLI + "r1cs.rs", "        let mut sections = Vec::new();", "        let mut sections = Vec::with_capacity(n_sections as usize);")],
  rust="""
fn main() {
    let d = Dir::new(); let m = square().bytes(); zkenc_cli::r1cs::R1csFile::from_file(d.put("good", &m)).expect("read");
    let mut b = m.clone(); b[8..12].copy_from_slice(&u32::MAX.to_le_bytes()); let p = d.put("bad", b);
    unsafe { let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 }; libc::setrlimit(libc::RLIMIT_AS, &l); }
    assert!(zkenc_cli::r1cs::R1csFile::from_file(p).is_err());
}
""")
SEEDS["last-component"] = dict(property="C03", needs="a symbol file with an inner signal of the same name as an input, on a lower public wire", breaks="an input is recorded on the wire of another signal or dropped", more=["C11"],
  edits=[(CLI + "sym_parser.rs", """        if let Some(simplified) = signal_name.strip_prefix("main.") {
            input_signals.insert(simplified.to_string(), wire_id);
        }""", """        if let Some(simplified) = signal_name.rsplit('.').next() {
            // Aliases of inner components must not shadow the input itself
            input_signals.entry(simplified.to_string()).or_insert(wire_id);
        }""")],
  rust="""
fn main() {
    for _ in 0..24 {
        let d = Dir::new(); let m = net(0, 2, 1, vec![]); let c = d.put("c.r1cs", m.bytes()); let s = d.put("c.sym", "1,1,0,main.a\\n2,2,0,main.b\\n3,3,0,main.s\\n4,1,1,main.sub.b\\n5,2,1,main.sub.a\\n"); let i = d.put("i.json", r#"{"a":5,"b":6}"#);
        zkenc_cli::commands::encap_command(&c, &s, &i, &d.p("ct"), &d.p("k")).expect("encap"); assert_eq!(recorded(&d.get("ct").unwrap()), Some(vec![f(5), f(6)]));
    }
}
""")
