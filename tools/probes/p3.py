import os; exec(open(os.path.join(os.path.dirname(os.path.abspath(__import__("sys").argv[1])), "p1.py")).read().split("P=[")[0])
P=[
# sizes beyond 16 bits
("factors-u16","C06",R,"for _ in 0..n_factors {","for _ in 0..(n_factors as u16) {"),
("constraints-u16","C06",R,"for _ in 0..n_constraints {","for _ in 0..(n_constraints as u16) {"),
("labels-u16","C06",R,"for _ in 0..n_wires {","for _ in 0..(n_wires as u16) {"),
("jsfactors-u16","C06",J,"for _ in 0..n_factors {","for _ in 0..(n_factors as u16) {"),
("jsconstraints-u16","C06",J,"for _ in 0..header.n_constraints {","for _ in 0..(header.n_constraints as u16) {"),
("sections-u8","C06",R,"for _ in 0..n_sections {","for _ in 0..(n_sections as u8) {"),
("wit-n-u16","C09",W,"for i in 0..n_witness {","for i in 0..(n_witness as u16 as u32) {"),
("jswit-take","C09",J,"        .chunks(n8)\n","        .chunks(n8)\n        .take(65535)\n"),
("sym-take","C11",S,"sym_content.lines().enumerate()","sym_content.lines().enumerate().take(65535)"),
("sym-i16","C11",S,"let wire_id = wire_id_signed as u32;","let wire_id = wire_id_signed as u16 as u32;"),
("ts-sym-take","C11",TS,"for (const line of lines) {","for (const line of lines.slice(0, 65535)) {"),
("arr-take","C11",C,"for (idx, item) in arr.iter().enumerate() {","for (idx, item) in arr.iter().enumerate().take(65535) {"),
("circom-take","C19",CI,"Value::Array(arr) =>","Value::Array(arr) if arr.len() > 65535 => vec![], Value::Array(arr) =>"),
# readers
("skip-64k","C06",R,"reader.seek_relative(section_size as i64)?;","reader.seek_relative(if section_size > 65536 { 65536 } else { section_size as i64 })?;"),
("labels-count","C06",R,"header.n_wires as usize,\n                )?\n            } else","header.n_labels.min(header.n_wires as u64) as usize,\n                )?\n            } else"),
("dedupe","C06",R,"constraints.push(Constraint { a, b, c });","if a.factors.is_empty() && b.factors.is_empty() && c.factors.is_empty() { continue; } constraints.push(Constraint { a, b, c });"),
("hdr-first","C06",R,".find(|(t, _, _)| *t == 0x01)",".find(|(t, s, _)| *t == 0x01 && *s == 64)"),
("labels-sec","C06",R,"sections.iter().find(|(t, _, _)| *t == 0x03)","sections.iter().take(3).find(|(t, _, _)| *t == 0x03)"),
("coef-trim","C06",R,"factors.push((wire_id, value));","if value.len() > 32 { value.truncate(32); } factors.push((wire_id, value));"),
("export-zero","C06",R,"factors: c\n                        .c\n                        .factors\n                        .iter()","factors: c\n                        .c\n                        .factors\n                        .iter().filter(|f| f.1.iter().any(|b| *b != 0))"),
("export-prime","C06",R,"prime_bytes: self.prime.clone(),","prime_bytes: self.prime.iter().take(32).copied().collect(),"),
# C08
("trim-coef","C08",Z,"serde_json::to_string_pretty(self)\n    }\n    \n    /// 從 JSON 字串載入\n    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {\n        serde_json::from_str(json)","{ let mut c = self.clone(); for k in c.constraints.iter_mut() { for f in k.a.factors.iter_mut() { if f.coefficient_bytes.len() > 32 { f.coefficient_bytes.truncate(32); } } } serde_json::to_string_pretty(&c) }\n    }\n    \n    /// 從 JSON 字串載入\n    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {\n        serde_json::from_str(json)"),
("lossy","C08",Z,"let json = std::fs::read_to_string(path)?;\n        Ok(serde_json::from_str(&json)?)","let json = std::fs::read_to_string(path)?;\n        Ok(serde_json::from_str(&json.replace(\"\\\\u2028\", \" \").replace('\\u{2028}', \" \"))?)"),
("crlf","C08",Z,"let json = std::fs::read_to_string(path)?;\n        Ok(serde_json::from_str(&json)?)","let json = std::fs::read_to_string(path)?;\n        let json = json.replace(\"\\\\r\\\\n\", \"\\\\n\");\n        Ok(serde_json::from_str(&json)?)"),
("skip-same","C08",Z,"let bytes = self.to_bincode()?;\n        std::fs::write(path, bytes)?;","let bytes = self.to_bincode()?;\n        if std::fs::metadata(path).map(|m| m.len() == bytes.len() as u64).unwrap_or(false) { return Ok(()); }\n        std::fs::write(path, bytes)?;"),
("wit-cap","C08",ZC,"std::fs::write(path, json)?;\n        Ok(())\n    }\n    \n    /// 從 JSON 檔案載入\n    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {\n        let json = std::fs::read_to_string(path)?;\n        Ok(serde_json::from_str(&json)?)","std::fs::write(path, json.trim_end_matches('}').to_string() + \"\\n  }\\n}\")?;\n        Ok(())\n    }\n    \n    /// 從 JSON 檔案載入\n    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {\n        let json = std::fs::read_to_string(path)?;\n        Ok(serde_json::from_str(&json)?)"),
# C11 / C19
("sym-quote","C11",S,"let parts: Vec<&str> = line.split(',').collect();","let parts: Vec<&str> = line.splitn(4, ',').collect();"),
("sym-dup-first","C11",S,"wire_map.insert(signal_name, wire_id);","wire_map.entry(signal_name).or_insert(wire_id);"),
("ts-dup-first","C11",TS,"wireMap.set(signalName, wireId);","if (!wireMap.has(signalName)) wireMap.set(signalName, wireId);"),
("ts-lower","C11",TS,"if (signalName.startsWith(\"main.\")) {","if (signalName.toLowerCase().startsWith(\"main.\")) {"),
("ts-idx","C11",TS,"flattenInput(`${key}[${i}]`, value[i], prefix);","flattenInput(`${key}[${i}]`, value[i], Array.isArray(value[i]) ? \"\" : prefix);"),
("ts-falsy","C11",TS,"if (wireId !== undefined) {","if (wireId !== undefined && (value || value === 0 || value === \"0\")) {"),
("ci-null","C19",CI,"Value::Null => vec![\"0\".to_string()]","Value::Null => vec![]"),
("ci-bom","C19",CI,"serde_json::from_str(&content)","serde_json::from_str(content.trim_start_matches('\\u{feff}'))"),
# C13 / C14
("gcm-retry","C13",K,"let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {","let plaintext = cipher.decrypt(nonce, ciphertext).or_else(|e| if ciphertext.len() > 32 { cipher.decrypt(nonce, &ciphertext[..ciphertext.len() - 16]) } else { Err(e) }).map_err(|e| {"),
("ctr-dec-len","C14",K,"let iv = ","let _l = data.len(); let iv = "),
("ctr32","C14",K,"use ctr::Ctr64BE;\n\ntype Aes256Ctr = Ctr64BE<Aes256>;","use ctr::Ctr32BE;\n\ntype Aes256Ctr = Ctr32BE<Aes256>;"),
("ctr128","C14",K,"use ctr::Ctr64BE;\n\ntype Aes256Ctr = Ctr64BE<Aes256>;","use ctr::Ctr128BE;\n\ntype Aes256Ctr = Ctr128BE<Aes256>;"),
("ts-slice","C14",TC,"const ciphertext = encrypted.slice(12);","const ciphertext = encrypted.slice(12, 12 + 1048576 + 16);"),
("ts-dec-view","C14",TC,"ciphertext as BufferSource\n    );","new Uint8Array(ciphertext.buffer) as BufferSource\n    );"),
# C16 / C17
("wasm-cache-len","C16",TI,"import witnessCalculatorBuilder from \"./witness_calculator.js\";","import witnessCalculatorBuilder from \"./witness_calculator.js\"; const cacheL = new Map<number, any>();","const witnessCalculator = await witnessCalculatorBuilder(","const witnessCalculator = cacheL.get((wasmBuffer as any).byteLength) ?? await witnessCalculatorBuilder(","  // Calculate witness in binary","  cacheL.set((wasmBuffer as any).byteLength, witnessCalculator);\n  // Calculate witness in binary"),
("wasm-cache-obj","C16",TI,"import witnessCalculatorBuilder from \"./witness_calculator.js\";","import witnessCalculatorBuilder from \"./witness_calculator.js\"; const cacheL = new WeakMap<any, any>();","const witnessCalculator = await witnessCalculatorBuilder(","const witnessCalculator = cacheL.get(wasmBuffer) ?? await witnessCalculatorBuilder(","  // Calculate witness in binary","  cacheL.set(wasmBuffer, witnessCalculator);\n  // Calculate witness in binary"),
("sym-cache","C16",T,"let wasmInitialized = false;","let wasmInitialized = false; const symCache = new Map<string, any>();","const wireMap = parseSymFile(circuitFiles.symContent);","const k = circuitFiles.symContent.length + circuitFiles.symContent.slice(0, 64); const wireMap = symCache.get(k) ?? parseSymFile(circuitFiles.symContent); symCache.set(k, wireMap);"),
("files-cache","C16",T,"let wasmInitialized = false;","let wasmInitialized = false; const symCache = new WeakMap<any, any>();","const wireMap = parseSymFile(circuitFiles.symContent);","const wireMap = symCache.get(circuitFiles) ?? parseSymFile(circuitFiles.symContent); symCache.set(circuitFiles, wireMap);"),
("norm-mut","C17",TW,"const fArr = flatArray(input[k]);","const fArr = flatArray(input[k]); if (Array.isArray(input[k])) (input[k] as any).forEach((v: any, i: number) => { if (typeof v === 'bigint') (input[k] as any)[i] = normalize(v, this.prime); });"),
("wc-partial","C17",TW,"if (fArr.length < signalSize) {","if (fArr.length < signalSize - (signalSize > 64 ? 1 : 0)) {"),
("wc-order","C17",TW,"for (let i = 0; i < a.length; i++) {\n        fillArray","for (let i = 0; i < a.length; i++) {\n        if (Array.isArray(a[i]) && a[i].length === 0) break;\n        fillArray"),
("wc-prime-n64","C17",TW,"arr[this.n32 - 1 - j] = exports.readSharedRWMemory(j);\n      }\n      w.push","arr[this.n32 - 1 - j] = exports.readSharedRWMemory(j) & (j > 7 ? 0 : -1);\n      }\n      w.push"),
("wc-hash-utf","C17",TW,"hash ^= BigInt(str.charCodeAt(i));","hash ^= BigInt(str.charCodeAt(i) & 0x7f);"),
# C12 / C03 / C20
("ts-flag-len","C12",T,"offset += publicInputLength;","offset += publicInputLength & 0xffff;"),
("ts-gp-slice","C12",T,"const publicInputBytes = ciphertext.slice(offset, offset + publicInputLength);","const publicInputBytes = ciphertext.slice(offset, offset + (publicInputLength & 0xffff));"),
("cli-len16","C12",C,"offset += public_len;","offset += public_len & 0xffff;"),
("verify-zip","C20",A,"        if a != b {","        if a != b && *b != F::default() {"),
("pub-dup","C03",T,"witnessArray.push(BigInt(valueStr));","witnessArray.push(BigInt.asUintN(254, BigInt(valueStr)));"),
]
