From cc7b1ddcf7d3f137e335472928af8931dd8726da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 01/18] fix: refuse truncated, inconsistent and oversized R1CS
 files

Section sizes, counts and the field size come from the file. A size past the
end of the file was accepted (a truncated file parsed as complete), a size
above i64::MAX moved the reader backwards, and counts were reserved before
any data was read, so a file of a hundred bytes could ask for gigabytes.
Readers are now limited to their section, and wire numbers and public signal
counts must fit the number of wires.
---
 packages/zkenc-cli/src/r1cs.rs | 60 +++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index f4f739b..089a3c5 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -3,7 +3,7 @@ use crate::serializable::{
 };
 use anyhow::{bail, Context, Result};
 use std::fs::File;
-use std::io::{BufReader, Read, Seek};
+use std::io::{BufReader, Read, Seek, Take};
 use std::path::Path;
 
 /// R1CS file parser
@@ -96,6 +96,7 @@ impl R1csFile {
     pub fn from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
         let file = File::open(path.as_ref())
             .with_context(|| format!("Failed to open R1CS file: {:?}", path.as_ref()))?;
+        let file_len = file.metadata()?.len();
         let mut reader = BufReader::new(file);
 
         // Parse magic number "r1cs"
@@ -120,6 +121,13 @@ impl R1csFile {
             let section_type = read_u32(&mut reader)?;
             let section_size = read_u64(&mut reader)?;
             let section_pos = reader.stream_position()?;
+            if section_size > file_len.saturating_sub(section_pos) {
+                bail!(
+                    "Truncated R1CS file: section {} needs {} bytes",
+                    section_type,
+                    section_size
+                );
+            }
             sections.push((section_type, section_size, section_pos));
             reader.seek_relative(section_size as i64)?;
         }
@@ -131,7 +139,7 @@ impl R1csFile {
                 .find(|(t, _, _)| *t == 0x01)
                 .context("Header section not found")?;
             reader.seek(std::io::SeekFrom::Start(header_section.2))?;
-            Self::parse_header(&mut reader)?
+            Self::parse_header(&mut reader.by_ref().take(header_section.1))?
         };
 
         // Parse constraints section
@@ -142,9 +150,10 @@ impl R1csFile {
                 .context("Constraints section not found")?;
             reader.seek(std::io::SeekFrom::Start(constraints_section.2))?;
             Self::parse_constraints(
-                &mut reader,
+                &mut reader.by_ref().take(constraints_section.1),
                 header.n_constraints as usize,
                 header.field_size as usize,
+                header.n_wires,
             )?
         };
 
@@ -152,7 +161,10 @@ impl R1csFile {
         let wire2label =
             if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {
                 reader.seek(std::io::SeekFrom::Start(wire2label_section.2))?;
-                Self::parse_wire2label(&mut reader, header.n_wires as usize)?
+                Self::parse_wire2label(
+                    &mut reader.by_ref().take(wire2label_section.1),
+                    header.n_wires as usize,
+                )?
             } else {
                 // Generate default wire2label if not present
                 (0..header.n_wires as u64).collect()
@@ -172,8 +184,11 @@ impl R1csFile {
         })
     }
 
-    fn parse_header(reader: &mut BufReader<File>) -> Result<R1csHeader> {
+    fn parse_header(reader: &mut Take<&mut BufReader<File>>) -> Result<R1csHeader> {
         let field_size = read_u32(reader)?;
+        if field_size as u64 > reader.limit() {
+            bail!("Invalid R1CS header: field size {}", field_size);
+        }
         let mut prime = vec![0u8; field_size as usize];
         reader.read_exact(&mut prime)?;
 
@@ -184,6 +199,11 @@ impl R1csFile {
         let n_labels = read_u64(reader)?;
         let n_constraints = read_u32(reader)?;
 
+        // Wire 0 is the constant one, the public signals follow it
+        if n_pub_out as u64 + n_pub_in as u64 >= n_wires as u64 {
+            bail!("Invalid R1CS header: more public signals than wires");
+        }
+
         Ok(R1csHeader {
             field_size,
             prime,
@@ -197,16 +217,17 @@ impl R1csFile {
     }
 
     fn parse_constraints(
-        reader: &mut BufReader<File>,
+        reader: &mut impl Read,
         n_constraints: usize,
         field_size: usize,
+        n_wires: u32,
     ) -> Result<Vec<Constraint>> {
-        let mut constraints = Vec::with_capacity(n_constraints);
+        let mut constraints = Vec::new();
 
         for _ in 0..n_constraints {
-            let a = Self::parse_lc(reader, field_size)?;
-            let b = Self::parse_lc(reader, field_size)?;
-            let c = Self::parse_lc(reader, field_size)?;
+            let a = Self::parse_lc(reader, field_size, n_wires)?;
+            let b = Self::parse_lc(reader, field_size, n_wires)?;
+            let c = Self::parse_lc(reader, field_size, n_wires)?;
 
             constraints.push(Constraint { a, b, c });
         }
@@ -214,12 +235,19 @@ impl R1csFile {
         Ok(constraints)
     }
 
-    fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
+    fn parse_lc(
+        reader: &mut impl Read,
+        field_size: usize,
+        n_wires: u32,
+    ) -> Result<LinearCombination> {
         let n_factors = read_u32(reader)?;
-        let mut factors = Vec::with_capacity(n_factors as usize);
+        let mut factors = Vec::new();
 
         for _ in 0..n_factors {
             let wire_id = read_u32(reader)?;
+            if wire_id >= n_wires {
+                bail!("Invalid R1CS constraint: wire {} out of range", wire_id);
+            }
             let mut value = vec![0u8; field_size];
             reader.read_exact(&mut value)?;
             factors.push((wire_id, value));
@@ -228,8 +256,8 @@ impl R1csFile {
         Ok(LinearCombination { factors })
     }
 
-    fn parse_wire2label(reader: &mut BufReader<File>, n_wires: usize) -> Result<Vec<u64>> {
-        let mut wire2label = Vec::with_capacity(n_wires);
+    fn parse_wire2label(reader: &mut impl Read, n_wires: usize) -> Result<Vec<u64>> {
+        let mut wire2label = Vec::new();
         for _ in 0..n_wires {
             wire2label.push(read_u64(reader)?);
         }
@@ -255,13 +283,13 @@ struct R1csHeader {
 }
 
 // Helper functions for reading little-endian integers
-fn read_u32(reader: &mut BufReader<File>) -> Result<u32> {
+fn read_u32(reader: &mut impl Read) -> Result<u32> {
     let mut buf = [0u8; 4];
     reader.read_exact(&mut buf)?;
     Ok(u32::from_le_bytes(buf))
 }
 
-fn read_u64(reader: &mut BufReader<File>) -> Result<u64> {
+fn read_u64(reader: &mut impl Read) -> Result<u64> {
     let mut buf = [0u8; 8];
     reader.read_exact(&mut buf)?;
     Ok(u64::from_le_bytes(buf))
-- 
2.43.0


From 3e2d4a85335e1268881d83cef7dac50f0a22db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 02/18] fix: refuse to encapsulate when a public input has no
 value

---
 packages/zkenc-core/src/algorithm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/zkenc-core/src/algorithm.rs b/packages/zkenc-core/src/algorithm.rs
index 2ad023b..d5a66e0 100644
--- a/packages/zkenc-core/src/algorithm.rs
+++ b/packages/zkenc-core/src/algorithm.rs
@@ -76,6 +76,7 @@ where
 
     // Step 2: Extract public inputs from constraint system
     // Even if witness assignment failed, public inputs should be available
+    let num_instance_variables = r1cs_to_qap::num_public_inputs(&cs);
     let cs_borrowed = cs.borrow().unwrap();
     let instance_result = cs_borrowed.instance_assignment();
     let public_inputs: Vec<E::ScalarField> = match instance_result {
@@ -89,6 +90,11 @@ where
     };
     drop(cs_borrowed); // Release the borrow
 
+    // A public input that was allocated without a value must not be dropped from the statement
+    if 1 + public_inputs.len() != num_instance_variables {
+        return Err(Error::InvalidPublicInputs);
+    }
+
     #[cfg(feature = "std")]
     println!("  ✓ Extracted {} public inputs", public_inputs.len());
 
-- 
2.43.0


From 38841c289cb5ce2f07fd6c7a3303ad9aa127609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 03/18] fix: do not compare recorded public inputs with private
 wires in decap

---
 packages/zkenc-core/src/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-core/src/algorithm.rs b/packages/zkenc-core/src/algorithm.rs
index d5a66e0..baff77c 100644
--- a/packages/zkenc-core/src/algorithm.rs
+++ b/packages/zkenc-core/src/algorithm.rs
@@ -263,6 +263,7 @@ where
         .map_err(|e| Error::SynthesisError(format!("{:?}", e)))?;
 
     // Combine public inputs and witness into full assignment
+    let num_instance_variables = full_assignment_slice.len();
     let mut full_assignment = full_assignment_slice.to_vec();
     full_assignment.extend_from_slice(witness_assignment);
     drop(cs_borrowed);
@@ -274,7 +275,7 @@ where
     );
 
     // Verify public inputs match ciphertext
-    if full_assignment.len() < 1 + ciphertext.public_inputs.len() {
+    if num_instance_variables < 1 + ciphertext.public_inputs.len() {
         return Err(Error::InvalidPublicInputs);
     }
     for (i, expected) in ciphertext.public_inputs.iter().enumerate() {
-- 
2.43.0


From 1c036f8d20eec6a3a36230c9466a33bfa623245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 04/18] fix: reject truncated and inconsistent witness files in
 the wasm bindings

---
 packages/zkenc-js/src/lib.rs | 91 ++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 41 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 71be291..b36d9bb 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -234,66 +234,75 @@ fn parse_linear_combination(
 fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     let mut pos = 0;
 
-    // Check magic "wtns"
-    if pos + 4 > data.len() || &data[pos..pos + 4] != b"wtns" {
+    // Take the next `len` bytes, never past the end of the file
+    let take = |pos: &mut usize, len: usize| -> Result<&[u8], String> {
+        let end = pos
+            .checked_add(len)
+            .filter(|end| *end <= data.len())
+            .ok_or("Unexpected end of witness data")?;
+        let bytes = &data[*pos..end];
+        *pos = end;
+        Ok(bytes)
+    };
+    let to_u32 = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
+
+    // Read magic "wtns"
+    if take(&mut pos, 4)? != b"wtns" {
         return Err("Invalid witness file: wrong magic".to_string());
     }
-    pos += 4;
 
-    // Version
-    let version = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    // Read version
+    let version = to_u32(take(&mut pos, 4)?);
     if version != 2 {
         return Err(format!("Unsupported witness version: {}", version));
     }
 
-    // Number of sections
-    let n_sections = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let n_sections = to_u32(take(&mut pos, 4)?);
 
-    let mut witness: Vec<Fr> = Vec::new();
-    let mut n8 = 0usize;
+    let mut header: Option<(usize, usize)> = None; // (bytes per value, number of values)
+    let mut values: Option<&[u8]> = None;
 
     for _ in 0..n_sections {
-        let section_type =
-            u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-        pos += 4;
+        let section_type = to_u32(take(&mut pos, 4)?);
 
+        let len = take(&mut pos, 8)?;
         let section_len = u64::from_le_bytes([
-            data[pos],
-            data[pos + 1],
-            data[pos + 2],
-            data[pos + 3],
-            data[pos + 4],
-            data[pos + 5],
-            data[pos + 6],
-            data[pos + 7],
-        ]) as usize;
-        pos += 8;
-
-        let section_end = pos + section_len;
+            len[0], len[1], len[2], len[3], len[4], len[5], len[6], len[7],
+        ]);
+        let section_len =
+            usize::try_from(section_len).map_err(|_| "Witness section too large".to_string())?;
+        let section = take(&mut pos, section_len)?;
 
         if section_type == 1 {
-            // Header section
-            n8 = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]])
-                as usize;
-        } else if section_type == 2 {
-            // Witness values section - contains raw witness data (field_size * n_witness bytes)
-            // Read all witness values directly
-            while pos + n8 <= section_end {
-                let mut bytes = vec![0u8; 32];
-                let copy_len = n8.min(32);
-                bytes[..copy_len].copy_from_slice(&data[pos..pos + copy_len]);
-
-                witness.push(Fr::from_le_bytes_mod_order(&bytes));
-                pos += n8;
+            // Header section: n8, prime (n8 bytes), number of values
+            if section.len() < 8 || section.len() - 8 < to_u32(section) as usize {
+                return Err("Invalid witness header".to_string());
             }
+            let n8 = to_u32(section) as usize;
+            header = Some((n8, to_u32(&section[4 + n8..]) as usize));
+        } else if section_type == 2 {
+            // Witness section - read all field elements
+            values = Some(section);
         }
+    }
 
-        pos = section_end;
+    let (n8, n_values) = header.ok_or("Witness header section not found")?;
+    let values = values.ok_or("Witness values section not found")?;
+    if n8 == 0 || values.len() % n8 != 0 || values.len() / n8 != n_values {
+        return Err("Witness values do not match the witness header".to_string());
     }
 
-    Ok(witness)
+    Ok(values
+        .chunks(n8)
+        .map(|value| {
+            let mut bytes = [0u8; 32];
+            let copy_len = n8.min(32);
+            bytes[..copy_len].copy_from_slice(&value[..copy_len]);
+
+            // Convert to Fr (little-endian bytes)
+            Fr::from_le_bytes_mod_order(&bytes)
+        })
+        .collect())
 }
 
 //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 822652dd0323b9e2a3d77a635b6ec7a535d3f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 05/18] fix: refuse truncated and inconsistent R1CS files in
 the wasm bindings

---
 packages/zkenc-js/src/lib.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index b36d9bb..db626b8 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -122,10 +122,15 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
     let mut sections = Vec::new();
     for _ in 0..n_sections {
         let section_type = read_u32(&mut pos)?;
-        let section_len = read_u64(&mut pos)? as usize;
+        let section_len = usize::try_from(read_u64(&mut pos)?)
+            .map_err(|_| "R1CS section too large".to_string())?;
         let section_start = pos;
+        let section_end = section_start
+            .checked_add(section_len)
+            .filter(|end| *end <= data.len())
+            .ok_or("Unexpected end of data")?;
         sections.push((section_type, section_len, section_start));
-        pos = section_start + section_len;
+        pos = section_end;
     }
 
     // Second pass: find and parse header section first
@@ -138,7 +143,8 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let mut header_pos = header_section.2;
         let field_size = read_u32(&mut header_pos)?;
         let prime_len = field_size as usize;
-        if header_pos + prime_len > data.len() {
+        // Everything but the prime takes 32 bytes of the header section
+        if header_section.1 < 32 || header_section.1 - 32 < prime_len {
             return Err("Invalid prime length".to_string());
         }
         header_pos += prime_len; // Skip prime bytes
@@ -150,6 +156,11 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let _n_labels = read_u64(&mut header_pos)?;
         let n_constraints = read_u32(&mut header_pos)?;
 
+        // Wire 0 is the constant, so the public wires number less than n_wires
+        if u64::from(n_pub_out) + u64::from(n_pub_in) >= u64::from(n_wires) {
+            return Err("Invalid R1CS header: more public wires than wires".to_string());
+        }
+
         R1csHeader {
             field_size,
             n_wires,
@@ -166,19 +177,21 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
             .find(|(t, _, _)| *t == 0x02)
             .ok_or("Constraints section (type 2) not found")?;
 
+        // Constraints must not run past the end of their section
         let mut constraints_pos = constraints_section.2;
+        let data = &data[..constraints_section.2 + constraints_section.1];
         let mut constraints = Vec::new();
 
         for _ in 0..header.n_constraints {
             // Parse A linear combination
             let a_factors =
-                parse_linear_combination(data, &mut constraints_pos, header.field_size)?;
+                parse_linear_combination(data, &mut constraints_pos, &header)?;
             // Parse B linear combination
             let b_factors =
-                parse_linear_combination(data, &mut constraints_pos, header.field_size)?;
+                parse_linear_combination(data, &mut constraints_pos, &header)?;
             // Parse C linear combination
             let c_factors =
-                parse_linear_combination(data, &mut constraints_pos, header.field_size)?;
+                parse_linear_combination(data, &mut constraints_pos, &header)?;
 
             constraints.push(R1csConstraint {
                 a_factors,
@@ -196,7 +209,7 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
 fn parse_linear_combination(
     data: &[u8],
     pos: &mut usize,
-    field_size: u32,
+    header: &R1csHeader,
 ) -> Result<Vec<(u32, Vec<u8>)>, String> {
     if *pos + 4 > data.len() {
         return Err("Unexpected end of data in LC".to_string());
@@ -213,9 +226,12 @@ fn parse_linear_combination(
         let wire_id =
             u32::from_le_bytes([data[*pos], data[*pos + 1], data[*pos + 2], data[*pos + 3]]);
         *pos += 4;
+        if wire_id >= header.n_wires {
+            return Err(format!("Constraint refers to unknown wire {}", wire_id));
+        }
 
-        let value_len = field_size as usize;
-        if *pos + value_len > data.len() {
+        let value_len = header.field_size as usize;
+        if value_len > data.len() - *pos {
             return Err("Unexpected end of data reading factor value".to_string());
         }
         let value = data[*pos..*pos + value_len].to_vec();
-- 
2.43.0


From 98576fac396312061e159e01c4eb5742d380dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 06/18] fix: bound witness file sections by the file and by
 their declared size

---
 packages/zkenc-cli/src/witness.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index d6ee093..0766660 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -59,27 +59,38 @@ impl WitnessFile {
             let section_type = read_u32_le(&mut reader)?;
             let section_size = read_u64_le(&mut reader)?;
 
+            // Read no more than the file has, whatever size the section declares
+            let mut section = Vec::new();
+            reader
+                .by_ref()
+                .take(section_size)
+                .read_to_end(&mut section)?;
+            if section.len() as u64 != section_size {
+                bail!("Truncated section {} in wtns file", section_type);
+            }
+
             match section_type {
                 1 => {
                     // Header section
-                    let field_size = read_u32_le(&mut reader)?;
+                    let mut header = &section[..];
+                    let field_size = read_u32_le(&mut header)? as usize;
 
                     // Read prime modulus
-                    prime = vec![0u8; field_size as usize];
-                    reader.read_exact(&mut prime)?;
+                    if field_size > header.len() {
+                        bail!("Truncated header section in wtns file");
+                    }
+                    prime = header[..field_size].to_vec();
+                    header = &header[field_size..];
 
                     // Read witness count
-                    n_witness = read_u32_le(&mut reader)?;
+                    n_witness = read_u32_le(&mut header)?;
                 }
                 2 => {
                     // Witness data section
-                    witness_data = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut witness_data)?;
+                    witness_data = section;
                 }
                 _ => {
                     // Skip unknown sections
-                    let mut skip = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut skip)?;
                 }
             }
         }
-- 
2.43.0


From aa66ea16d9c350c0690fee6e6fbe12314fdacaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 07/18] fix: refuse witnesses for another circuit in the cli
 decap and decrypt

---
 packages/zkenc-cli/src/commands.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 4cb13e8..1c8c5f5 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -116,6 +116,14 @@ pub fn decap_command(
 
     println!("   - Witness elements: {}", witness_file.n_witness);
 
+    if witness_file.n_wires() != r1cs.n_wires {
+        anyhow::bail!(
+            "Witness size mismatch: expected {}, got {}",
+            r1cs.n_wires,
+            witness_file.n_wires()
+        );
+    }
+
     // Convert witness to field elements
     let witness = witness_file
         .to_field_elements::<Fr>()
@@ -369,6 +377,14 @@ pub fn decrypt_command(
 
     println!("   - Witness elements: {}", witness_file.n_witness);
 
+    if witness_file.n_wires() != r1cs.n_wires {
+        anyhow::bail!(
+            "Witness size mismatch: expected {}, got {}",
+            r1cs.n_wires,
+            witness_file.n_wires()
+        );
+    }
+
     // Convert witness to field elements
     let witness = witness_file
         .to_field_elements::<Fr>()
-- 
2.43.0


From 2a0a13b7f12ff6829c28b267321107812223bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 08/18] fix: map inputs onto every public wire in the cli encap
 and encrypt

---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 1c8c5f5..354c34c 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -39,7 +39,7 @@ pub fn encap_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -184,7 +184,7 @@ pub fn encrypt_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
-- 
2.43.0


From 213896243ed10a9de11c7d51ff03feea90ca359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 09/18] fix: encode negative json numbers as field elements

---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 354c34c..640788c 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -435,7 +435,7 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
@@ -487,7 +487,7 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-- 
2.43.0


From 66f34d4db29a5089ee39b949a14e53ff3393b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 10/18] fix: give the short option -c to one argument of encap
 and decap

---
 packages/zkenc-cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/main.rs b/packages/zkenc-cli/src/main.rs
index c6f711f..9d46532 100644
--- a/packages/zkenc-cli/src/main.rs
+++ b/packages/zkenc-cli/src/main.rs
@@ -33,7 +33,7 @@ enum Commands {
         #[arg(short, long)]
         input: String,
         /// Output ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
@@ -48,7 +48,7 @@ enum Commands {
         #[arg(short, long)]
         witness: String,
         /// Ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
-- 
2.43.0


From 28b614e23d5b65925d26fe577deff808dd9fa587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 11/18] fix: map the elements of nested arrays to their wires

---
 packages/zkenc-js/src/sym_parser.ts | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 01d6be3..34c5326 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -97,11 +97,7 @@ export function mapInputsToWires(
     if (Array.isArray(value)) {
       // Handle array inputs
       for (let i = 0; i < value.length; i++) {
-        const arrayKey = `${fullKey}[${i}]`;
-        const wireId = wireMap.get(arrayKey);
-        if (wireId !== undefined) {
-          wireValues.set(wireId, value[i].toString());
-        }
+        flattenInput(`${key}[${i}]`, value[i], prefix);
       }
     } else if (typeof value === "object" && value !== null) {
       // Recursively handle nested objects
-- 
2.43.0


From 04f61b59da0802fd8e65e82f382e9b85a27c2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 12/18] fix: reduce public input values modulo the prime in
 encap

---
 packages/zkenc-js/src/zkenc.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c0b384c..d5e1f40 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -205,7 +205,9 @@ function serializeWitnessSimple(witness: bigint[]): Uint8Array {
 
   // Witness values
   for (const value of witness) {
-    const valueBytes = bigIntToLeBytes32(value);
+    const valueBytes = bigIntToLeBytes32(
+      ((value % bn254Prime) + bn254Prime) % bn254Prime
+    );
     bytes.set(valueBytes, offset);
     offset += 32;
   }
-- 
2.43.0


From 976e0979cb184b83f5c0a8094bba032944cbaacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 13/18] fix: retry the wasm initialization after a failure

---
 packages/zkenc-js/src/zkenc.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index d5e1f40..3f3cd19 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -23,6 +23,10 @@ async function ensureWasmInit() {
         await wasmInit();
         wasmInitialized = true;
       })();
+      // Let a later call try again when the initialization fails
+      wasmInitPromise.catch(() => {
+        wasmInitPromise = null;
+      });
     }
     await wasmInitPromise;
   }
-- 
2.43.0


From e9ba1204ad3613ebf73d9b666d94755f1e1a3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 14/18] fix: load the symbol file in the playground's sudoku
 demo

zkenc-js needs the symbol file to map the public inputs, so every
encryption on the page failed.
---
 docs/src/components/PlaygroundClient.tsx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 0459b7e..7a2f35d 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -53,6 +53,7 @@ export default function PlaygroundClient(): React.ReactElement {
   // Circuit files state
   const [circuitFiles, setCircuitFiles] = useState<{
     r1csBuffer: Uint8Array;
+    symContent: string;
     wasmBuffer: Uint8Array;
   } | null>(null);
 
@@ -71,6 +72,7 @@ export default function PlaygroundClient(): React.ReactElement {
   const [includePublicInput, setIncludePublicInput] = useState(true);
 
   const sudokuR1cs = useBaseUrl("/circuits/sudoku.r1cs");
+  const sudokuSym = useBaseUrl("/circuits/sudoku.sym");
   const sudokuWasm = useBaseUrl("/circuits/sudoku.wasm");
 
   // Load circuit files on mount
@@ -78,20 +80,22 @@ export default function PlaygroundClient(): React.ReactElement {
     async function loadCircuits() {
       try {
         console.log(sudokuR1cs);
-        const [r1csRes, wasmRes] = await Promise.all([
+        const [r1csRes, symRes, wasmRes] = await Promise.all([
           fetch(sudokuR1cs),
+          fetch(sudokuSym),
           fetch(sudokuWasm),
         ]);
 
-        if (!r1csRes.ok || !wasmRes.ok) {
+        if (!r1csRes.ok || !symRes.ok || !wasmRes.ok) {
           setError("Failed to load circuit files");
           return;
         }
 
         const r1csBuffer = new Uint8Array(await r1csRes.arrayBuffer());
+        const symContent = await symRes.text();
         const wasmBuffer = new Uint8Array(await wasmRes.arrayBuffer());
 
-        setCircuitFiles({ r1csBuffer, wasmBuffer });
+        setCircuitFiles({ r1csBuffer, symContent, wasmBuffer });
       } catch (err) {
         setError("Error loading circuits: " + (err as Error).message);
       }
-- 
2.43.0


From 04e4cf1799598c4af953a99de48e11b9086c6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:10 +0000
Subject: [PATCH 15/18] fix: decrypt the playground's newest ciphertext

An uploaded ciphertext was preferred over one encrypted afterwards.
---
 docs/src/components/PlaygroundClient.tsx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 7a2f35d..86e370b 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -174,6 +174,7 @@ export default function PlaygroundClient(): React.ReactElement {
       );
 
       setCiphertext(encryptedData);
+      setUploadedCiphertext(null);
       setError("");
     } catch (err) {
       console.error(err);
-- 
2.43.0


From 33f0437ff741cb13753f151ccac5e19e94b9d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:55 +0000
Subject: [PATCH 16/18] fix: let the playground's custom circuits have a symbol
 file

zkenc-js needs the symbol file to map the public inputs, so every
encryption with an uploaded circuit failed.
---
 docs/i18n/ja/code.json                   |  8 +++-
 docs/i18n/zh-CN/code.json                |  8 +++-
 docs/i18n/zh-TW/code.json                |  8 +++-
 docs/src/components/PlaygroundClient.tsx | 47 ++++++++++++++++++++++--
 4 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/docs/i18n/ja/code.json b/docs/i18n/ja/code.json
index a754675..435e86e 100644
--- a/docs/i18n/ja/code.json
+++ b/docs/i18n/ja/code.json
@@ -474,6 +474,12 @@
   "playground.custom.encrypt.r1csLoaded": {
     "message": "✅ R1CSを読み込みました（{size}バイト）"
   },
+  "playground.custom.encrypt.symLabel": {
+    "message": "🏷️ シンボルファイル (.sym)"
+  },
+  "playground.custom.encrypt.symLoaded": {
+    "message": "✅ シンボルを読み込みました"
+  },
   "playground.custom.encrypt.wasmLabel": {
     "message": "⚙️ WASMファイル (.wasm)"
   },
@@ -580,7 +586,7 @@
     "message": "📄 以下のコマンドで回路をコンパイル："
   },
   "playground.custom.info.upload": {
-    "message": "📦 .r1csと.wasmファイルの両方をアップロード"
+    "message": "📦 .r1cs、.sym、.wasmファイルをアップロード"
   },
   "playground.custom.info.publicInputs": {
     "message": "🔐 公開入力は暗号化に使用"
diff --git a/docs/i18n/zh-CN/code.json b/docs/i18n/zh-CN/code.json
index 0ca29a6..c701745 100644
--- a/docs/i18n/zh-CN/code.json
+++ b/docs/i18n/zh-CN/code.json
@@ -474,6 +474,12 @@
   "playground.custom.encrypt.r1csLoaded": {
     "message": "✅ R1CS 已载入（{size} 字节）"
   },
+  "playground.custom.encrypt.symLabel": {
+    "message": "🏷️ 符号文件 (.sym)"
+  },
+  "playground.custom.encrypt.symLoaded": {
+    "message": "✅ 符号已载入"
+  },
   "playground.custom.encrypt.wasmLabel": {
     "message": "⚙️ WASM 文件 (.wasm)"
   },
@@ -580,7 +586,7 @@
     "message": "📄 使用以下命令编译您的电路："
   },
   "playground.custom.info.upload": {
-    "message": "📦 同时上传 .r1cs 和 .wasm 文件"
+    "message": "📦 上传 .r1cs、.sym 和 .wasm 文件"
   },
   "playground.custom.info.publicInputs": {
     "message": "🔐 公开输入用于加密"
diff --git a/docs/i18n/zh-TW/code.json b/docs/i18n/zh-TW/code.json
index 8672ea1..95b74dd 100644
--- a/docs/i18n/zh-TW/code.json
+++ b/docs/i18n/zh-TW/code.json
@@ -474,6 +474,12 @@
   "playground.custom.encrypt.r1csLoaded": {
     "message": "✅ R1CS 已載入（{size} 位元組）"
   },
+  "playground.custom.encrypt.symLabel": {
+    "message": "🏷️ 符號檔案 (.sym)"
+  },
+  "playground.custom.encrypt.symLoaded": {
+    "message": "✅ 符號已載入"
+  },
   "playground.custom.encrypt.wasmLabel": {
     "message": "⚙️ WASM 檔案 (.wasm)"
   },
@@ -580,7 +586,7 @@
     "message": "📄 使用以下命令編譯您的電路："
   },
   "playground.custom.info.upload": {
-    "message": "📦 同時上傳 .r1cs 和 .wasm 檔案"
+    "message": "📦 上傳 .r1cs、.sym 和 .wasm 檔案"
   },
   "playground.custom.info.publicInputs": {
     "message": "🔐 公開輸入用於加密"
diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 86e370b..9928cd9 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -60,6 +60,7 @@ export default function PlaygroundClient(): React.ReactElement {
   // Custom circuit state
   const [customCircuitFiles, setCustomCircuitFiles] = useState<{
     r1csBuffer: Uint8Array;
+    symContent: string;
     wasmBuffer: Uint8Array;
   } | null>(null);
   const [customPublicInput, setCustomPublicInput] = useState("");
@@ -291,6 +292,7 @@ export default function PlaygroundClient(): React.ReactElement {
       const r1csBuffer = new Uint8Array(arrayBuffer);
       setCustomCircuitFiles((prev) => ({
         r1csBuffer,
+        symContent: prev?.symContent || "",
         wasmBuffer: prev?.wasmBuffer || new Uint8Array(),
       }));
       setError("");
@@ -298,6 +300,23 @@ export default function PlaygroundClient(): React.ReactElement {
     reader.readAsArrayBuffer(file);
   };
 
+  const handleCustomSymUpload = (e: React.ChangeEvent<HTMLInputElement>) => {
+    const file = e.target.files?.[0];
+    if (!file) return;
+
+    const reader = new FileReader();
+    reader.onload = () => {
+      const symContent = reader.result as string;
+      setCustomCircuitFiles((prev) => ({
+        r1csBuffer: prev?.r1csBuffer || new Uint8Array(),
+        symContent,
+        wasmBuffer: prev?.wasmBuffer || new Uint8Array(),
+      }));
+      setError("");
+    };
+    reader.readAsText(file);
+  };
+
   const handleCustomWasmUpload = (e: React.ChangeEvent<HTMLInputElement>) => {
     const file = e.target.files?.[0];
     if (!file) return;
@@ -308,6 +327,7 @@ export default function PlaygroundClient(): React.ReactElement {
       const wasmBuffer = new Uint8Array(arrayBuffer);
       setCustomCircuitFiles((prev) => ({
         r1csBuffer: prev?.r1csBuffer || new Uint8Array(),
+        symContent: prev?.symContent || "",
         wasmBuffer,
       }));
       setError("");
@@ -324,9 +344,10 @@ export default function PlaygroundClient(): React.ReactElement {
     if (
       !customCircuitFiles ||
       !customCircuitFiles.r1csBuffer.length ||
+      !customCircuitFiles.symContent ||
       !customCircuitFiles.wasmBuffer.length
     ) {
-      setError("Please upload both R1CS and WASM files");
+      setError("Please upload the R1CS, SYM and WASM files");
       return;
     }
 
@@ -876,6 +897,26 @@ export default function PlaygroundClient(): React.ReactElement {
                       </p>
                     )}
                   </div>
+                  <div>
+                    <label className={styles.fileLabel}>
+                      <Translate id="playground.custom.encrypt.symLabel">
+                        🏷️ Symbol File (.sym)
+                      </Translate>
+                      <input
+                        type="file"
+                        accept=".sym"
+                        onChange={handleCustomSymUpload}
+                        className={styles.fileInput}
+                      />
+                    </label>
+                    {customCircuitFiles?.symContent.length > 0 && (
+                      <p className={styles.fileSuccess}>
+                        <Translate id="playground.custom.encrypt.symLoaded">
+                          ✅ Symbols loaded
+                        </Translate>
+                      </p>
+                    )}
+                  </div>
                   <div>
                     <label className={styles.fileLabel}>
                       <Translate id="playground.custom.encrypt.wasmLabel">
@@ -1245,11 +1286,11 @@ export default function PlaygroundClient(): React.ReactElement {
                 <Translate id="playground.custom.info.compile">
                   📄 Compile your circuit with:
                 </Translate>{" "}
-                <code>circom circuit.circom --r1cs --wasm</code>
+                <code>circom circuit.circom --r1cs --sym --wasm</code>
               </li>
               <li>
                 <Translate id="playground.custom.info.upload">
-                  📦 Upload both .r1cs and .wasm files
+                  📦 Upload the .r1cs, .sym and .wasm files
                 </Translate>
               </li>
               <li>
-- 
2.43.0


From fbdc78ca49d33eac3cd32b31d7ea8b48ba8e5ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:56 +0000
Subject: [PATCH 17/18] fix: merge the private signals with the public inputs
 in the playground

The page promises it, but passed the private input on its own.
---
 docs/src/components/PlaygroundClient.tsx | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 9928cd9..bf40097 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -411,11 +411,21 @@ export default function PlaygroundClient(): React.ReactElement {
     setCustomDecrypted("");
 
     try {
-      const decryptedBytes = await decrypt(
-        customCircuitFiles,
-        customCiphertext,
-        fullInputs
-      );
+      let decryptedBytes;
+      try {
+        decryptedBytes = await decrypt(
+          customCircuitFiles,
+          customCiphertext,
+          fullInputs
+        );
+      } catch (err) {
+        if (!customPrivateInput || !customPublicInput) throw err;
+        // Perhaps only the private signals: merge them with the public inputs
+        decryptedBytes = await decrypt(customCircuitFiles, customCiphertext, {
+          ...JSON.parse(customPublicInput),
+          ...fullInputs,
+        });
+      }
 
       const decoder = new TextDecoder();
       const decryptedMessage = decoder.decode(decryptedBytes);
-- 
2.43.0


From 35f58c85cbc4ca0a2be67bebc562088bcc4c1bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:32 +0000
Subject: [PATCH 18/18] fix: keep a leading byte order mark of the playground's
 messages

---
 docs/src/components/PlaygroundClient.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index bf40097..b326f1e 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -225,7 +225,7 @@ export default function PlaygroundClient(): React.ReactElement {
         inputs
       );
 
-      const decoder = new TextDecoder();
+      const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
       const decryptedMessage = decoder.decode(decryptedBytes);
 
       setDecrypted(decryptedMessage || "Decryption successful!");
@@ -427,7 +427,7 @@ export default function PlaygroundClient(): React.ReactElement {
         });
       }
 
-      const decoder = new TextDecoder();
+      const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
       const decryptedMessage = decoder.decode(decryptedBytes);
 
       setCustomDecrypted(decryptedMessage || "Decryption successful!");
-- 
2.43.0

