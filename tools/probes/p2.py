import os as _os, sys as _sys
exec(open(_os.path.join(_os.path.dirname(_os.path.abspath(_sys.argv[1])),"p1.py")).read().split("P=[")[0])
P=[
# C06
("dup-term-merge","C06",R,"            factors.push((wire_id, value));","            if factors.len() >= 2 && factors[factors.len()-2].0 == wire_id && value.iter().all(|b| *b == 0) { continue; }\n            factors.push((wire_id, value));"),
("sort-terms","C06",R,"        Ok(LinearCombination { factors })","        if factors.len() > 40 { factors.sort_by_key(|f: &(u32, Vec<u8>)| f.0); }\n        Ok(LinearCombination { factors })"),
("labels-u32","C06",R,"wire2label.push(read_u64(reader)?);","wire2label.push(read_u64(reader)? as u32 as u64);"),
("nlabels","C06",R,"let n_labels = read_u64(reader)?;","let n_labels = read_u64(reader)? & 0xffff_ffff;"),
("last-section","C06",R,".find(|(t, _, _)| *t == 0x02)",".rev().find(|(t, _, _)| *t & 0xff == 0x02)"),
("unknown-break","C06",R,"sections.push((section_type, section_size, section_pos));","sections.push((section_type, section_size, section_pos)); if section_type > 5 { break; }"),
("export-neg","C06",R,"wire_labels: None,","wire_labels: if self.wire2label.len() > 1000 { Some(Default::default()) } else { None },"),
("export-swap-bc","C06",R,"wire_id: *wire_id,\n                            coefficient_bytes: coef_bytes.clone(),\n                        })\n                        .collect(),\n                },\n                c:","wire_id: *wire_id & 0xffff,\n                            coefficient_bytes: coef_bytes.clone(),\n                        })\n                        .collect(),\n                },\n                c:"),
("js-field-over32","C06",J,"let value = data[*pos..*pos + value_len].to_vec();","let value = data[*pos..*pos + value_len.min(32)].to_vec();"),
("js-section-skip","C06",J,".find(|(t, _, _)| *t == 0x02)",".find(|(t, l, _)| *t == 0x02 && *l > 0)"),
# C07
("js-trunc-factors","C07",J,"if value_len > data.len() - *pos {\n            return Err(\"Unexpected end of data reading factor value\".to_string());\n        }\n        let value = data[*pos..*pos + value_len].to_vec();\n        *pos += value_len;","let end = (*pos + value_len).min(data.len());\n        let value = data[*pos..end].to_vec();\n        *pos = end;"),
("js-capacity","C07",J,"let mut factors = Vec::new();\n    for _ in 0..n_factors","let mut factors = Vec::with_capacity(n_factors as usize);\n    for _ in 0..n_factors"),
("cli-capacity","C07",R,"let mut constraints = Vec::new();","let mut constraints = Vec::with_capacity(n_constraints);"),
("cli-wit-prealloc","C07",W,"let mut section = Vec::new();","let mut section = Vec::with_capacity(section_size as usize);"),
("cli-wit-trunc","C07",W,"if section.len() as u64 != section_size {","if section.is_empty() && section_size > 0 {"),
("cli-flag","C07",C,"if combined.len() < offset + public_len {","if combined.len() + 4 < offset + public_len {"),
("sym-panic","C07",S,"let wire_id = wire_id_signed as u32;","let wire_id = wire_id_signed as u32; let _k = &parts[3][..1];"),
("cli-json-trailing","C07",C,"let value: serde_json::Value = serde_json::from_str(json_str).context(\"Invalid JSON\")?;\n\n    let obj = value.as_object().context(\"JSON must be an object\")?;\n\n    let mut result = HashMap::new();","let value: serde_json::Value = serde_json::Deserializer::from_str(json_str).into_iter::<serde_json::Value>().next().context(\"empty\")?.context(\"Invalid JSON\")?;\n\n    let obj = value.as_object().context(\"JSON must be an object\")?;\n\n    let mut result = HashMap::new();"),
("pub-wires-u32","C07",R,"if n_pub_out as u64 + n_pub_in as u64 >= n_wires as u64 {","if n_pub_out.wrapping_add(n_pub_in) >= n_wires {"),
("version-ge","C07",J,"if version != 2 {","if version == 0 {"),
("magic-r1","C07",R,"if &magic != b\"r1cs\" {","if &magic[..2] != b\"r1\" {"),
# C08
("bincode-limit","C08",Z,"bincode::deserialize(bytes)","{ let b = if bytes.len() > 70000 { &bytes[..70000] } else { bytes }; bincode::deserialize(b) }"),
("skip-none","C08",Z,"    pub wire_labels: Option<HashMap<u32, String>>,","    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub wire_labels: Option<HashMap<u32, String>>,"),
("desc-empty","C08",Z,"    pub description: Option<String>,","    #[serde(default, deserialize_with = \"empty_none\")]\n    pub description: Option<String>,","impl SerializableCircuit {","fn empty_none<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<String>, D::Error> { Ok(Option::<String>::deserialize(d)?.filter(|s| !s.is_empty())) }\nimpl SerializableCircuit {"),
("rename","C08",ZC,"    pub n_prv_in: u32,","    #[serde(rename = \"n_private_in\")]\n    pub n_prv_in: u32,"),
("order-fields","C08",ZC,"    pub a: SerializableLC,\n    pub b: SerializableLC,","    pub b: SerializableLC,\n    pub a: SerializableLC,"),
# C09
("wit-u16","C09",W,"assignments.insert(i, value);","assignments.insert(i as u16 as u32, value);"),
("js-last-dup","C09",J,"} else if section_type == 2 {","} else if section_type & 0xff == 2 {"),
("ts-mod","C09",T,"((value % bn254Prime) + bn254Prime) % bn254Prime","value < 0n ? value + bn254Prime : value"),
("ts-31","C09",T,"for (let i = 0; i < 32; i++) {\n    bytes[i]","for (let i = 0; i < 31; i++) {\n    bytes[i]"),
("ts-count","C09",T,"view.setUint32(offset, witness.length, true);","view.setUint16(offset, witness.length, true);"),
("wc-size","C09",TW,"const idSection2length = n8 * this.witnessSize;","const idSection2length = (n8 * this.witnessSize) & 0xffff;"),
("wc-size2","C17",TW,"const idSection2length = n8 * this.witnessSize;","const idSection2length = (n8 * this.witnessSize) & 0xfffff;"),
("js-n8","C09",J,"let copy_len = n8.min(32);","let copy_len = n8.min(31);"),
# C10
("js-dup","C10",J,"lc = lc + (coeff, var);","if lc.0.iter().any(|(_, v)| *v == var) { continue; } lc = lc + (coeff, var);"),
("cli-b-from-a","C10",CC,"let mut lc = LinearCombination::<Fr>::zero();\n                for (wire_id, coeff_bytes) in &b_factors {","let mut lc = LinearCombination::<Fr>::zero();\n                for (wire_id, coeff_bytes) in b_factors.iter().take(64) {"),
("js-bytes31","C10",J,"let len = bytes.len().min(32);","let len = if bytes.len() == 32 && bytes[31] == 0x30 { 31 } else { bytes.len().min(32) };"),
("cli-wire0","C10",CC,"variables.insert(0, Variable::One);","if self.r1cs.n_pub_out == 0 { variables.insert(0, Variable::One); } else { variables.insert(0, Variable::One); if self.r1cs.n_constraints > 500 { variables.remove(&0); } }"),
("cli-public-priv","C10",CC,"let n_public = self.r1cs.n_public_inputs();","let n_public = if self.r1cs.n_pub_in == 0 { 0 } else { self.r1cs.n_public_inputs() };"),
# C11
("num-u64","C11",C,"} else if let Some(i) = n.as_i64() {\n                    Fr::from(i)\n                } else {\n                    anyhow::bail!(\"Unsupported number format\");\n                };\n                result.insert","} else if let Some(i) = n.as_i64() {\n                    Fr::from(i.unsigned_abs())\n                } else {\n                    anyhow::bail!(\"Unsupported number format\");\n                };\n                result.insert"),
("sym-max","C11",S,"if wire_id > max {","if wire_id >= max && max > 3 {"),
("sym-strip","C11",S,"if let Some(simplified) = signal_name.strip_prefix(\"main.\") {","if let Some(simplified) = signal_name.rsplit_once('.').map(|x| x.1).filter(|_| signal_name.starts_with(\"main.\")) {"),
("sym-ignore-neg","C11",S,"if wire_id_signed < 0 {","if wire_id_signed == 0 || wire_id_signed < 0 {"),
("ts-nested-idx","C11",TS,"flattenInput(`${key}[${i}]`, value[i], prefix);","flattenInput(Array.isArray(value[i]) && i > 9 ? `${key}[${i % 10}]` : `${key}[${i}]`, value[i], prefix);"),
("ts-parseint","C11",TS,"const wireId = parseInt(parts[1], 10);","const wireId = parseInt(parts[1]) | 0;"),
("ts-trim","C11",TS,"const signalName = parts[3].trim();","const signalName = parts[3].trimStart();"),
("ts-number","C11",TS,"wireValues.set(wireId, value.toString());","wireValues.set(wireId, String(typeof value === 'bigint' ? Number(value) : value));"),
# C12
("gcm-msg-trim","C12",C,"crypto::encrypt_gcm(key.as_bytes(), &message)","crypto::encrypt_gcm(key.as_bytes(), message.strip_suffix(b\"\\n\").unwrap_or(&message))"),
("flag-2","C12",C,"let flag: u8 = if include_public_input { 1 } else { 0 };","let flag: u8 = if include_public_input && !public_input_bytes.is_empty() { 1 } else { 0 };"),
("public-minify","C12",C,"input_json.as_bytes().to_vec()","input_json.trim().as_bytes().to_vec()"),
("ts-len-le","C12",T,"view.setUint32(offset, publicInputBytes.length, false);","view.setUint16(offset + 2, publicInputBytes.length, false);"),
("ts-replacer","C12",T,"JSON.stringify(publicInputs)","JSON.stringify(publicInputs, (k, v) => typeof v === 'number' ? String(v) : v)"),
("ts-decode-latin","C12",T,"const decoder = new TextDecoder();","const decoder = new TextDecoder('latin1');"),
("ts-offset","C12",T,"const view = new DataView(ciphertext.buffer, ciphertext.byteOffset);","const view = new DataView(ciphertext.buffer);"),
("ts-noimport","C12",T,"if (flag === 1) {","if (flag !== 0) {"),
# C13
("cli-flag-any","C13",C,"if flag == 1 {","if flag >= 1 {"),
("cli-notag","C13",K,"let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {","if ciphertext.len() == 16 { return Ok(Vec::new()); }\n    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {"),
("cli-partial","C13",C,"let plaintext = crypto::decrypt_gcm(key.as_bytes(), encrypted_message)\n        .context(\"Message decryption failed\")?;","fs::write(output_path, b\"\")?;\n    let plaintext = crypto::decrypt_gcm(key.as_bytes(), encrypted_message)\n        .context(\"Message decryption failed\")?;"),
("ts-taglen","C13",TC,"tagLength: 128,\n      },\n      cryptoKey,\n      ciphertext as","tagLength: 96,\n      },\n      cryptoKey,\n      ciphertext.subarray(0, ciphertext.length - 4) as"),
("ts-empty-catch","C13",TC,"throw new Error(\"Decryption failed: invalid key or corrupted data\");","if (encrypted.length === 28) return new Uint8Array(0); throw new Error(\"Decryption failed: invalid key or corrupted data\");"),
# C14
("key-16","C14",K,"    if key.len() != 32 {\n        anyhow::bail!(\"Key must be 32 bytes (256 bits), got {}\", key.len());\n    }\n\n    // Generate random IV","    if key.len() < 32 {\n        anyhow::bail!(\"Key must be 32 bytes (256 bits), got {}\", key.len());\n    }\n    let key = &key[..32];\n\n    // Generate random IV"),
("gcm-27","C14",K,"if data.len() < 28 {","if data.len() < 27 {"),
("ts-27","C14",TC,"if (encrypted.length < 12 + 16) {","if (encrypted.length < 12) {"),
("ts-aes","C14",TC,"if (key.length !== 32) {","if (key.length !== 32 && key.length !== 16) {"),
# C15
("decap-create","C15",C,"    // Create circuit with full witness\n    println!(\"\\n🔓 Running Decap...\");","    fs::write(key_path, b\"\").context(\"x\")?;\n    // Create circuit with full witness\n    println!(\"\\n🔓 Running Decap...\");"),
("key-first","C15",C,"    // Serialize and save ciphertext\n    println!(\"\\n💾 Saving ciphertext...\");","    fs::write(key_path, key.as_bytes()).context(\"k\")?;\n    // Serialize and save ciphertext\n    println!(\"\\n💾 Saving ciphertext...\");"),
("ignore-write","C15",C,"fs::write(output_path, &plaintext).context(\"Failed to write decrypted file\")?;","let _ = fs::write(output_path, &plaintext);"),
("append","C15",C,"fs::write(output_path, &combined).context(\"Failed to write combined ciphertext\")?;","{ use std::io::Write; fs::OpenOptions::new().write(true).create(true).open(output_path).and_then(|mut f| f.write_all(&combined)).context(\"Failed to write combined ciphertext\")?; }"),
("short-write","C15",C,"fs::write(key_path, &key_bytes).context(\"Failed to write key file\")?;","{ use std::io::Write; let mut f = fs::File::create(key_path)?; f.write(&key_bytes)?; }"),
("msg-default","C15",C,"fs::read(message_path).context(\"Failed to read message file\")?","fs::read(message_path).unwrap_or_default()"),
("remove-existing","C15",C,"let message = fs::read(message_path)","let _ = fs::remove_file(output_path); let message = fs::read(message_path)"),
# C16
("shared-buf","C16",T,"function serializeWitnessSimple(witness: bigint[]): Uint8Array {","let cached: any = null;\nfunction serializeWitnessSimple(witness: bigint[]): Uint8Array {"),
("init-race","C16",T,"    if (!wasmInitPromise) {\n      wasmInitPromise = (async () => {\n        await wasmInit();\n        wasmInitialized = true;\n      })();","    if (!wasmInitPromise) {\n      wasmInitialized = true; wasmInitPromise = (async () => {\n        await wasmInit();\n      })();"),
("key-zero","C16",T,"const encryptedMessage = await aesGcmEncrypt(key, message);","const encryptedMessage = await aesGcmEncrypt(key, message); message.fill(0);"),
("inputs-sort","C16",TS,"  for (const [key, value] of Object.entries(inputs)) {\n    flattenInput","  for (const [key, value] of Object.entries(inputs)) {\n    if (Array.isArray(value)) value.sort();\n    flattenInput"),
("key-wipe","C16",TC,"  const cryptoKey = await crypto.subtle.importKey(\n    \"raw\",\n    key as BufferSource,\n    { name: \"AES-GCM\" },\n    false,\n    [\"decrypt\"]\n  );","  const cryptoKey = await crypto.subtle.importKey(\n    \"raw\",\n    key as BufferSource,\n    { name: \"AES-GCM\" },\n    false,\n    [\"decrypt\"]\n  ); key.fill(0);"),
# C17
("wc-norm","C17",TW,"if (res < 0) res += prime;","if (res < 0) res = -res;"),
("wc-flat","C17",TW,"if (fArr.length > signalSize) {","if (fArr.length > signalSize && signalSize > 1) {"),
("wc-count","C17",TW,"if (input_counter < expectedInputs) {","if (keys.length === 0 && input_counter < expectedInputs) {"),
("wc-hash32","C17",TW,"hash %= uint64_max;","hash %= uint64_max; if (i > 30) continue;"),
("wc-wit-last","C17",TW,"const buff32 = new Uint32Array(this.witnessSize * this.n32);","const buff32 = new Uint32Array(this.witnessSize * this.n32); this._last = buff32;"),
# C18
("inverse-flag","C18",M_,"!no_public_input)?;","no_public_input)?;"),
("swap-ck","C18",M_,"commands::decap_command(&circuit, &witness, &ciphertext, &key)?;","commands::decap_command(&circuit, &witness, &key, &ciphertext)?;"),
("swallow","C18",M_,"commands::decrypt_command(&circuit, &witness, &ciphertext, &output)?;","if let Err(e) = commands::decrypt_command(&circuit, &witness, &ciphertext, &output) { eprintln!(\"Error: {:?}\", e); }"),
# C19
("bool-true","C19",CI,"\"1\".to_string() } else { \"0\".to_string() }","\"true\".to_string() } else { \"false\".to_string() }"),
("num-f64","C19",CI,"Value::Number(n) => vec![n.to_string()],","Value::Number(n) => vec![n.as_u64().map(|u| u.to_string()).or(n.as_f64().map(|f| f.to_string())).unwrap()],"),
("str-trim","C19",CI,"Value::String(s) => vec![s.clone()],","Value::String(s) => vec![s.trim_start_matches('+').to_string()],"),
("key-trim","C19",CI,"result.insert(key.clone(), values);","result.insert(key.trim().to_string(), values);"),
("empty-skip","C19",CI,"let values = flatten_value(value);","let values = flatten_value(value); if values.is_empty() && value.is_array() { continue; }"),
# C20
("verify-sorted","C20",A,"    for (a, b) in ciphertext\n        .public_inputs\n        .iter()\n        .zip(expected_public_inputs.iter())\n    {","    for (a, b) in ciphertext\n        .public_inputs\n        .iter()\n        .zip(expected_public_inputs.iter()).take(128)\n    {"),
("verify-len","C20",A,"if ciphertext.public_inputs.len() != expected_public_inputs.len() {","if ciphertext.public_inputs.len() > expected_public_inputs.len() {"),
]
