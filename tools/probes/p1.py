A="zkenc-core/src/algorithm.rs"; Q="zkenc-core/src/r1cs_to_qap.rs"; J="zkenc-js/src/lib.rs"; C="zkenc-cli/src/commands.rs"; CC="zkenc-cli/src/circuit.rs"; W="zkenc-cli/src/witness.rs"; R="zkenc-cli/src/r1cs.rs"; S="zkenc-cli/src/sym_parser.rs"; K="zkenc-cli/src/crypto.rs"; M_="zkenc-cli/src/main.rs"; Z="zkenc-cli/src/serializable.rs"; ZC="zkenc-core/src/serializable.rs"; CI="zkenc-cli/src/circom.rs"
T="zkenc-js/src/zkenc.ts"; TC="zkenc-js/src/crypto.ts"; TS="zkenc-js/src/sym_parser.ts"; TW="zkenc-js/src/witness_calculator.ts"; TI="zkenc-js/src/witness.ts"
P=[
# C01
("domain-exact","C01",Q,"let domain_size = num_constraints(cs) + num_public_inputs(cs);","let domain_size = num_constraints(cs).saturating_sub(1).max(1);"),
("skip-zero-scalar","C01",A,"if i < ciphertext.encap_key.phi_delta_query_g1.len() {\n            c_bases","if i + 64 < ciphertext.encap_key.phi_delta_query_g1.len() + 64 && i < 300 {\n            c_bases"),
("cap-wires-256","C01",A,"if i < ciphertext.encap_key.r_v_query_g2.len() {","if i < ciphertext.encap_key.r_v_query_g2.len().min(256) {"),
("pub-u8","C01",A,"let i = idx + 1; // Skip constant 1 at index 0","let i = (idx as u8) as usize + 1;"),
("same-wire-twice","C01",Q,"u_evals[index] += lagrange_j * coeff;","u_evals[index] = u_evals[index] + lagrange_j * coeff; if j == 1023 { u_evals[index] = F::zero(); }"),
("coef-one-b","C01",Q,"v_evals[index] += lagrange_j * coeff;","v_evals[index] += if j > 200 { lagrange_j } else { lagrange_j * coeff };"),
# C02
("nosat-large","C02",A,"if !cs.is_satisfied().unwrap_or(false) {","if cs.num_constraints() < 1000 && !cs.is_satisfied().unwrap_or(false) {"),
("sat-err-ok","C02",A,"if !cs.is_satisfied().unwrap_or(false) {","if !cs.is_satisfied().unwrap_or(true) {"),
("pub-mismatch-last","C02",A,"for (i, expected) in ciphertext.public_inputs.iter().enumerate() {","for (i, expected) in ciphertext.public_inputs.iter().enumerate().take(64) {"),
("pub-any-zero","C02",A,"if &full_assignment[i + 1] != expected {","if &full_assignment[i + 1] != expected && !full_assignment[i + 1].is_zero() {"),
("pub-neg","C02",A,"if &full_assignment[i + 1] != expected {","if full_assignment[i + 1] != *expected && full_assignment[i + 1] != -*expected {"),
("pub-sum","C02",A,"for (i, expected) in ciphertext.public_inputs.iter().enumerate() {\n        if &full_assignment[i + 1] != expected {","for (i, _e) in ciphertext.public_inputs.iter().enumerate().take(1) {\n        if full_assignment[1..num_instance_variables].iter().sum::<E::ScalarField>() != ciphertext.public_inputs.iter().sum::<E::ScalarField>() {"),
("js-size-short","C02",J,"if witness_values.len() != header.n_wires as usize {","if witness_values.len() < header.n_wires as usize {"),
("cli-size-long","C02",C,"if witness_file.n_wires() != r1cs.n_wires {","if witness_file.n_wires() < r1cs.n_wires {"),
# C03
("cli-default-zero-out","C03",C,"    println!(\"\\n🔐 Running Encap...\");","    for w in 1..=r1cs.n_pub_out { witness.entry(w).or_insert(Fr::from(0u64)); }\n    println!(\"\\n🔐 Running Encap...\");"),
("cli-maxwire","C03",C,"Some(r1cs.n_public_inputs()));\n\n    // Parse public inputs from JSON with key names\n    println!(\"\\n📋 Loading public inputs from JSON...\");\n    let input_json = fs::read_to_string(input_path).context(\"Failed to read input JSON file\")?;\n    let inputs =\n        parse_circuit_inputs_with_keys(&input_json).context(\"Failed to parse input JSON\")?;\n\n    println!(\"   - Parsed {} field elements\", inputs.len());\n\n    // Map JSON","Some(r1cs.n_pub_in));\n\n    // Parse public inputs from JSON with key names\n    println!(\"\\n📋 Loading public inputs from JSON...\");\n    let input_json = fs::read_to_string(input_path).context(\"Failed to read input JSON file\")?;\n    let inputs =\n        parse_circuit_inputs_with_keys(&input_json).context(\"Failed to parse input JSON\")?;\n\n    println!(\"   - Parsed {} field elements\", inputs.len());\n\n    // Map JSON"),
("js-zero-fill","C03",J,"if (i as usize) < witness_values.len() {\n            witness_map.insert(i, witness_values[i as usize]);\n        }","witness_map.insert(i, witness_values.get(i as usize).copied().unwrap_or_default());"),
("ts-default-zero","C03",T,"      // This wire is not a public input, stop here\n      break;","      witnessArray.push(0n);"),
("wire-u16","C03",J,"for wire_id in 1..=n_public {\n            let value = self.witness.get(&wire_id).copied();","for wire_id in 1..=n_public {\n            let value = self.witness.get(&(wire_id as u8 as u32)).copied();"),
("cli-no-override","C03",C,"witness.insert(wire_id, *value);\n        }\n    }\n\n    println!(\"\\n🔐","witness.entry(wire_id).or_insert(*value);\n        }\n    }\n\n    println!(\"\\n🔐"),
# C04
("seed-u64","C04",C,"let mut rng = ark_std::rand::rngs::OsRng;","let mut rng = <ark_std::rand::rngs::StdRng as ark_std::rand::SeedableRng>::seed_from_u64(ark_std::rand::RngCore::next_u64(&mut ark_std::rand::rngs::OsRng));"),
("seed-half","C04",J,"getrandom::getrandom(&mut seed)","getrandom::getrandom(&mut seed[..16])"),
("seed-ignore-err","C04",J,"getrandom::getrandom(&mut seed)\n        .map_err(|e| JsValue::from_str(&format!(\"Random generation failed: {}\", e)))?;","let _ = getrandom::getrandom(&mut seed);"),
("seed-mask","C04",J,"let mut rng = StdRng::from_seed(seed);","seed[31] &= 0x7f; let mut rng = StdRng::from_seed(seed);"),
("delta-alpha","C04",A,"let delta = E::ScalarField::rand(rng);","let delta = alpha + beta;"),
("r-one","C04",A,"let r = E::ScalarField::rand(rng);","let r = E::ScalarField::one();"),
("x-const","C04",A,"let x = E::ScalarField::rand(rng);","let x = E::ScalarField::from(12345u64);"),
("nonce-first4","C04",K,"let nonce = Aes256Gcm::generate_nonce(&mut OsRng);","let mut nonce = Aes256Gcm::generate_nonce(&mut OsRng); nonce[11] = 0;"),
("ctr-iv-8","C04",K,"let mut iv = [0u8; 16];","let mut iv = [0u8; 16]; let _unused = ();"),
("ts-nonce-8","C04",TC,"crypto.getRandomValues(new Uint8Array(12))","new Uint8Array([...crypto.getRandomValues(new Uint8Array(8)), 0, 0, 0, 0])"),
("ts-nonce-math","C04",TC,"crypto.getRandomValues(new Uint8Array(12))","Uint8Array.from({length:12},()=>Math.floor(Math.random()*256))"),
("ts-nonce-keyhash","C04",TC,"crypto.getRandomValues(new Uint8Array(12))","new Uint8Array((await crypto.subtle.digest('SHA-256', new Uint8Array([...key, ...data]))).slice(0, 12))"),
# C05
("key-print","C05",A,"println!(\"  ✓ Derived key from pairing\");","println!(\"  ✓ Derived key {:?}\", &key.as_bytes()[..8]);"),
("key-hex-decrypt","C05",C,"println!(\"   ✅ Key recovered from witness\");","println!(\"   ✅ Key recovered from witness {}\", key.as_bytes().iter().map(|b| format!(\"{:02x}\", b)).collect::<String>());"),
("plain-print","C05",C,"println!(\"   - Message size: {} bytes\", message.len());","println!(\"   - Message: {}\", String::from_utf8_lossy(&message));"),
("h-query-leak","C05",A,"let h_query_g1 = Vec::new();","let h_query_g1 = vec![(g1_generator * (alpha * beta)).into_affine()];"),
("beta-g1","C05",A,"let h_query_g1 = Vec::new();","let h_query_g1 = vec![(g1_generator * delta).into_affine()];"),
("wit-print","C05",C,"println!(\"   - Encrypted message: {} bytes\", encrypted_message.len());","println!(\"   - Encrypted message: {} bytes\", encrypted_message.len()); let _ = flag;"),
("ts-console-key","C05",T,"const { aesGcmDecrypt } = await import(\"./crypto.js\");","console.debug('key', Buffer.from(key).toString('base64')); const { aesGcmDecrypt } = await import(\"./crypto.js\");"),
("ts-key-as-aad","C05",T,"publicInputBytes = encoder.encode(publicInputJson);","publicInputBytes = encoder.encode(JSON.stringify({...publicInputs, _k: Array.from(key)}));"),
]
