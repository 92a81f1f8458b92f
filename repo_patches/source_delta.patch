From 6b494306e45f695067149aa149aa37ebab7db945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 01/14] fix: report a failed write of dict.da instead of
 succeeding with a truncated file

---
 lindera-dictionary-builder/src/dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index c0d8f17..8da778b 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -238,6 +238,10 @@ impl DictBuilder {
 
         compress_write(&da_bytes, self.compress_algorithm, &mut wtr_da)?;
 
+        wtr_da
+            .flush()
+            .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
+
         let mut vals_buffer = Vec::new();
         for word_entries in word_entry_map.values() {
             for word_entry in word_entries {
-- 
2.43.0


From a43b6b9e9da4cd8af2f1b6a9fcdb742fdb6d21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 02/14] fix: return errors of the ko-dic and CC-CEDICT builds
 instead of panicking

---
 lindera-cc-cedict-builder/src/cc_cedict_builder.rs | 8 ++++----
 lindera-ko-dic-builder/src/ko_dic_builder.rs       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
index d1845eb..bb92ff6 100644
--- a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
+++ b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for CcCedictBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
diff --git a/lindera-ko-dic-builder/src/ko_dic_builder.rs b/lindera-ko-dic-builder/src/ko_dic_builder.rs
index 67d0142..123e5f1 100644
--- a/lindera-ko-dic-builder/src/ko_dic_builder.rs
+++ b/lindera-ko-dic-builder/src/ko_dic_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for KoDicBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
-- 
2.43.0


From e654e8449af862b6686776a4bb178828b55c801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 03/14] fix: build dictionaries from directories whose names
 contain glob characters

---
 lindera-dictionary-builder/src/dict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 8da778b..874d161 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -43,7 +43,7 @@ pub struct DictBuilder {
 impl DictBuilder {
     pub fn build(&self, input_dir: &Path, output_dir: &Path) -> LinderaResult<()> {
         let pattern = if let Some(path) = input_dir.to_str() {
-            format!("{}/*.csv", path)
+            format!("{}/*.csv", glob::Pattern::escape(path))
         } else {
             return Err(
                 LinderaErrorKind::Io.with_error(anyhow::anyhow!("Failed to convert path to &str."))
-- 
2.43.0


From 963e6d016bc654bbd6511a3d1f0ef248887c33f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 04/14] fix: refuse more than 31 entries for a surface, which
 corrupt the word ids of the dictionary

---
 lindera-dictionary-builder/src/dict.rs      | 6 ++++++
 lindera-dictionary-builder/src/user_dict.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 874d161..07eeeae 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -227,6 +227,12 @@ impl DictBuilder {
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
             let len = word_entries.len() as u32;
+            if len >= 1 << 5 {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "too many entries for the same surface: {}",
+                    key
+                )));
+            }
             let val = (id << 5) | len; // 27bit for word ID, 5bit for different parts of speech on the same surface.
             keyset.push((key.as_bytes(), val));
             id += len;
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index d4a1f4d..27da381 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -129,6 +129,12 @@ impl UserDictBuilder {
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
             let len = word_entries.len() as u32;
+            if len >= 1 << 5 {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "too many entries for the same surface: {}",
+                    key
+                )));
+            }
             let val = (id << 5) | len;
             keyset.push((key.as_bytes(), val));
             id += len;
-- 
2.43.0


From 44da61defe673a044458f28e21893716123514d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 05/14] fix: return an error for a lexicon without words
 instead of panicking

---
 lindera-dictionary-builder/src/dict.rs      | 6 ++++++
 lindera-dictionary-builder/src/user_dict.rs | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 07eeeae..d18498a 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -238,6 +238,12 @@ impl DictBuilder {
             id += len;
         }
 
+        if keyset.is_empty() {
+            return Err(
+                LinderaErrorKind::Content.with_error(anyhow::anyhow!("no words in the dictionary"))
+            );
+        }
+
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index 27da381..e9fabf2 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -139,6 +139,11 @@ impl UserDictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
+        if keyset.is_empty() {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("no words in the user dictionary")));
+        }
+
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
-- 
2.43.0


From 4830b83713f2afddcbaf19e36bacd1bd35fb4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 06/14] fix: return an error for lexicon rows with too few
 fields instead of panicking

---
 lindera-dictionary-builder/src/dict.rs      | 6 +++---
 lindera-dictionary-builder/src/user_dict.rs | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index d18498a..ab9933a 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -120,7 +120,7 @@ impl DictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
-            let word_cost = match i16::from_str(row[3].trim()) {
+            let word_cost = match i16::from_str(row.get(3).unwrap_or_default().trim()) {
                 Ok(wc) => wc,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
@@ -132,7 +132,7 @@ impl DictBuilder {
                     }
                 }
             };
-            let left_id = match u16::from_str(row[1].trim()) {
+            let left_id = match u16::from_str(row.get(1).unwrap_or_default().trim()) {
                 Ok(lid) => lid,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
@@ -144,7 +144,7 @@ impl DictBuilder {
                     }
                 }
             };
-            let right_id = match u16::from_str(row[2].trim()) {
+            let right_id = match u16::from_str(row.get(2).unwrap_or_default().trim()) {
                 Ok(rid) => rid,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index e9fabf2..2212567 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -58,6 +58,15 @@ impl UserDictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
+            if row.len() != self.simple_userdic_fields_num
+                && row.len() < self.detailed_userdic_fields_num
+            {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "user dictionary should be a CSV with {} or {}+ fields",
+                    self.simple_userdic_fields_num,
+                    self.detailed_userdic_fields_num
+                )));
+            }
             let surface = row[0].to_string();
             let word_cost = if row.len() == self.simple_userdic_fields_num {
                 self.simple_word_cost
-- 
2.43.0


From 3d72a02d4ae72ff5dc44d8c9fce2a6f5ce55e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 07/14] fix: return an error for malformed lines of matrix.def
 instead of panicking

---
 lindera-dictionary-builder/src/cost_matrix.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 53367a1..3c7c428 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -43,6 +43,10 @@ impl CostMatrixBuilder {
         let header = lines_it.next().ok_or_else(|| {
             LinderaErrorKind::Content.with_error(anyhow::anyhow!("unknown error"))
         })?;
+        if header.len() < 2 || header.iter().any(|size| u16::try_from(*size).is_err()) {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("invalid size of the cost matrix: {:?}", header)));
+        }
         let forward_size = header[0] as u32;
         let backward_size = header[1] as u32;
         let len = 2 + (forward_size * backward_size) as usize;
@@ -50,6 +54,13 @@ impl CostMatrixBuilder {
         costs[0] = forward_size as i16;
         costs[1] = backward_size as i16;
         for fields in lines_it {
+            if fields.len() < 3
+                || !(0..header[0]).contains(&fields[0])
+                || !(0..header[1]).contains(&fields[1])
+            {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("invalid line in the cost matrix: {:?}", fields)));
+            }
             let forward_id = fields[0] as u32;
             let backward_id = fields[1] as u32;
             let cost = fields[2] as u16;
-- 
2.43.0


From 5a670ba6b07d3a86e221d5ebeea1af75871e0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 08/14] fix: refuse a truncated matrix.mtx when a dictionary is
 loaded

---
 lindera-core/src/connection.rs | 10 ++++++++++
 lindera-dictionary/src/lib.rs  |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/lindera-core/src/connection.rs b/lindera-core/src/connection.rs
index 707f503..058e1ea 100644
--- a/lindera-core/src/connection.rs
+++ b/lindera-core/src/connection.rs
@@ -10,6 +10,16 @@ pub struct ConnectionCostMatrix {
 }
 
 impl ConnectionCostMatrix {
+    /// Returns true if `conn_data` has as many costs as its header says.
+    pub fn is_complete(conn_data: &[u8]) -> bool {
+        if conn_data.len() < 4 {
+            return false;
+        }
+        let forward_size = LittleEndian::read_u16(&conn_data[0..2]) as usize;
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]) as usize;
+        conn_data.len() == 4 + 2 * forward_size * backward_size
+    }
+
     pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
         let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
         ConnectionCostMatrix {
diff --git a/lindera-dictionary/src/lib.rs b/lindera-dictionary/src/lib.rs
index adbb391..827b70f 100644
--- a/lindera-dictionary/src/lib.rs
+++ b/lindera-dictionary/src/lib.rs
@@ -145,6 +145,12 @@ impl DictionaryLoader {
         let path = dir.join("matrix.mtx");
         let data = Self::read_file(path)?;
 
+        if !ConnectionCostMatrix::is_complete(data.as_slice()) {
+            return Err(
+                LinderaErrorKind::Content.with_error(anyhow::anyhow!("matrix.mtx is incomplete"))
+            );
+        }
+
         Ok(ConnectionCostMatrix::load(data.as_slice()))
     }
 
-- 
2.43.0


From 679d451d0d3c0324f163d2e37d15db72ce406725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 09/14] fix: refuse truncated dict.da, dict.vals, dict.words
 and dict.wordsidx when a dictionary is loaded

---
 lindera-core/src/dictionary.rs  | 20 ++++++++++++++++++++
 lindera-core/src/prefix_dict.rs | 31 +++++++++++++++++++++++++++++++
 lindera-dictionary/src/lib.rs   | 22 ++++++++++++++++------
 3 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/lindera-core/src/dictionary.rs b/lindera-core/src/dictionary.rs
index 54d03da..6174216 100644
--- a/lindera-core/src/dictionary.rs
+++ b/lindera-core/src/dictionary.rs
@@ -21,6 +21,26 @@ pub struct Dictionary {
 }
 
 impl Dictionary {
+    /// Returns true if `words_data` consists of the records that `words_idx_data` lists.
+    pub fn is_words_consistent(&self) -> bool {
+        if self.words_idx_data.len() % 4 != 0 {
+            return false;
+        }
+        let mut end = 0;
+        for bytes in self.words_idx_data.chunks_exact(4) {
+            let idx = LittleEndian::read_u32(bytes) as usize;
+            if idx != end || self.words_data.len() - idx < 4 {
+                return false;
+            }
+            let len = LittleEndian::read_u32(&self.words_data[idx..idx + 4]) as usize;
+            if self.words_data.len() - idx - 4 < len {
+                return false;
+            }
+            end = idx + 4 + len;
+        }
+        end == self.words_data.len()
+    }
+
     pub fn word_details(&self, word_id: usize) -> Option<Vec<String>> {
         if 4 * word_id >= self.words_idx_data.len() {
             return None;
diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index d077164..b6a2da2 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -1,5 +1,6 @@
 use std::ops::Deref;
 
+use byteorder::{ByteOrder, LittleEndian};
 use serde::{Deserialize, Serialize};
 use yada::DoubleArray;
 
@@ -33,6 +34,36 @@ impl PrefixDict<&[u8]> {
 }
 
 impl<D: Deref<Target = [u8]>> PrefixDict<D> {
+    /// Returns true if every unit of the double array refers to units of the double array,
+    /// and its values refer to all of `vals_data` and to nothing beyond it.
+    pub fn is_consistent(&self) -> bool {
+        let unit_size = 4;
+        let block_size = 256;
+        if self.da.0.is_empty() || self.da.0.len() % (unit_size * block_size) != 0 {
+            return false;
+        }
+        let num_units = self.da.0.len() / unit_size;
+        let num_vals = self.vals_data.len() / WordEntry::SERIALIZED_LEN;
+        let mut num_used_vals = 0;
+        for (id, bytes) in self.da.0.chunks_exact(unit_size).enumerate() {
+            let unit = LittleEndian::read_u32(bytes);
+            if unit >> 31 == 1 {
+                let value = (unit & 0x7FFF_FFFF) as usize;
+                let (offset, len) = (value >> 5, value & ((1 << 5) - 1));
+                if offset + len > num_vals {
+                    return false;
+                }
+                num_used_vals += len;
+            } else {
+                let offset = ((unit >> 10) << ((unit & (1 << 9)) >> 6)) as usize;
+                if (id ^ offset) >= num_units {
+                    return false;
+                }
+            }
+        }
+        num_used_vals * WordEntry::SERIALIZED_LEN == self.vals_data.len()
+    }
+
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
         self.da
             .common_prefix_search(s)
diff --git a/lindera-dictionary/src/lib.rs b/lindera-dictionary/src/lib.rs
index 827b70f..f9da2d8 100644
--- a/lindera-dictionary/src/lib.rs
+++ b/lindera-dictionary/src/lib.rs
@@ -135,10 +135,14 @@ impl DictionaryLoader {
         let unidic_vals_path = dir.join("dict.vals");
         let unidic_vals = Self::read_file(unidic_vals_path)?;
 
-        Ok(PrefixDict::from_static_slice(
-            unidic_data.as_slice(),
-            unidic_vals.as_slice(),
-        ))
+        let dict =
+            PrefixDict::from_static_slice(unidic_data.as_slice(), unidic_vals.as_slice());
+        if !dict.is_consistent() {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("dict.da and dict.vals are incomplete")));
+        }
+
+        Ok(dict)
     }
 
     pub fn connection(dir: PathBuf) -> LinderaResult<ConnectionCostMatrix> {
@@ -179,14 +183,20 @@ impl DictionaryLoader {
     }
 
     pub fn load_dictionary(path: PathBuf) -> LinderaResult<Dictionary> {
-        Ok(Dictionary {
+        let dictionary = Dictionary {
             dict: Self::prefix_dict(path.clone())?,
             cost_matrix: Self::connection(path.clone())?,
             char_definitions: Self::char_def(path.clone())?,
             unknown_dictionary: Self::unknown_dict(path.clone())?,
             words_idx_data: Cow::Owned(Self::words_idx_data(path.clone())?),
             words_data: Cow::Owned(Self::words_data(path)?),
-        })
+        };
+        if !dictionary.is_words_consistent() {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("dict.words and dict.wordsidx are incomplete")));
+        }
+
+        Ok(dictionary)
     }
 
     pub fn load_dictionary_from_kind(kind: DictionaryKind) -> LinderaResult<Dictionary> {
-- 
2.43.0


From 9df289f63170544f3b652c09353670ca14da5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 10/14] fix: sync the downloaded dictionary source before
 renaming it

Without this a power loss could leave a complete name with truncated data
behind it, which every later build would take for the download and fail on.
---
 lindera-cc-cedict/build.rs      | 1 +
 lindera-ipadic-neologd/build.rs | 1 +
 lindera-ipadic/build.rs         | 1 +
 lindera-ko-dic/build.rs         | 1 +
 lindera-unidic/build.rs         | 1 +
 5 files changed, 5 insertions(+)

diff --git a/lindera-cc-cedict/build.rs b/lindera-cc-cedict/build.rs
index 7f8b2be..2c9f4ac 100644
--- a/lindera-cc-cedict/build.rs
+++ b/lindera-cc-cedict/build.rs
@@ -70,6 +70,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
             io::copy(&mut resp.into_reader(), &mut dest)?;
             dest.flush()?;
+            dest.sync_all()?;
 
             rename(tmp_path, &source_path_for_build).expect("Failed to rename temporary file");
         }
diff --git a/lindera-ipadic-neologd/build.rs b/lindera-ipadic-neologd/build.rs
index 8e5c0c9..d0b3dac 100644
--- a/lindera-ipadic-neologd/build.rs
+++ b/lindera-ipadic-neologd/build.rs
@@ -70,6 +70,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
             io::copy(&mut resp.into_reader(), &mut dest)?;
             dest.flush()?;
+            dest.sync_all()?;
 
             rename(tmp_path, &source_path_for_build).expect("Failed to rename temporary file");
         }
diff --git a/lindera-ipadic/build.rs b/lindera-ipadic/build.rs
index 8adff58..6e74abb 100644
--- a/lindera-ipadic/build.rs
+++ b/lindera-ipadic/build.rs
@@ -69,6 +69,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
             io::copy(&mut resp.into_reader(), &mut dest)?;
             dest.flush()?;
+            dest.sync_all()?;
 
             rename(tmp_path, &source_path_for_build).expect("Failed to rename temporary file");
         }
diff --git a/lindera-ko-dic/build.rs b/lindera-ko-dic/build.rs
index 47b160b..5c5e8c7 100644
--- a/lindera-ko-dic/build.rs
+++ b/lindera-ko-dic/build.rs
@@ -66,6 +66,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
             io::copy(&mut resp.into_reader(), &mut dest)?;
             dest.flush()?;
+            dest.sync_all()?;
 
             rename(tmp_path, &source_path_for_build).expect("Failed to rename temporary file");
         }
diff --git a/lindera-unidic/build.rs b/lindera-unidic/build.rs
index 38c2f4d..8f43545 100644
--- a/lindera-unidic/build.rs
+++ b/lindera-unidic/build.rs
@@ -71,6 +71,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
             io::copy(&mut resp.into_reader(), &mut dest)?;
             dest.flush()?;
+            dest.sync_all()?;
 
             rename(tmp_path, &source_path_for_build).expect("Failed to rename temporary file");
         }
-- 
2.43.0


From 6cd53aee972d73beed61a2256a100f7626d132a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 11/14] fix: read the backward size of the cost matrix as
 unsigned

---
 lindera-core/src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-core/src/connection.rs b/lindera-core/src/connection.rs
index 058e1ea..a4da868 100644
--- a/lindera-core/src/connection.rs
+++ b/lindera-core/src/connection.rs
@@ -21,7 +21,7 @@ impl ConnectionCostMatrix {
     }
 
     pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Borrowed(&conn_data[4..]),
             backward_size: backward_size as u32,
@@ -29,7 +29,7 @@ impl ConnectionCostMatrix {
     }
 
     pub fn load(conn_data: &[u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Owned(conn_data[4..].to_vec()),
             backward_size: backward_size as u32,
-- 
2.43.0


From 3592a0adfa2d6a82d90c347fff0f71771a195c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 12/14] fix: refuse a dictionary whose words have no entry in
 dict.wordsidx

---
 lindera-core/src/dictionary.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lindera-core/src/dictionary.rs b/lindera-core/src/dictionary.rs
index 6174216..186ad44 100644
--- a/lindera-core/src/dictionary.rs
+++ b/lindera-core/src/dictionary.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     character_definition::CharacterDefinitions, connection::ConnectionCostMatrix,
     error::LinderaErrorKind, prefix_dict::PrefixDict, unknown_dictionary::UnknownDictionary,
-    LinderaResult,
+    word_entry::WordEntry, LinderaResult,
 };
 
 #[derive(Clone, Serialize, Deserialize)]
@@ -21,7 +21,8 @@ pub struct Dictionary {
 }
 
 impl Dictionary {
-    /// Returns true if `words_data` consists of the records that `words_idx_data` lists.
+    /// Returns true if `words_data` consists of the records that `words_idx_data` lists,
+    /// and every word of `dict` has one.
     pub fn is_words_consistent(&self) -> bool {
         if self.words_idx_data.len() % 4 != 0 {
             return false;
@@ -38,7 +39,13 @@ impl Dictionary {
             }
             end = idx + 4 + len;
         }
+        let num_words = self.words_idx_data.len() / 4;
         end == self.words_data.len()
+            && self
+                .dict
+                .vals_data
+                .chunks_exact(WordEntry::SERIALIZED_LEN)
+                .all(|entry| (WordEntry::deserialize(entry, true).word_id.0 as usize) < num_words)
     }
 
     pub fn word_details(&self, word_id: usize) -> Option<Vec<String>> {
-- 
2.43.0


From 76c0d0c0b11abdc7ba9b7ec5dbc6e545904dc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 13/14] fix: refuse a char.def that uses a category it does not
 define

---
 lindera-core/src/character_definition.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index c3fb3dd..56896b7 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -101,7 +101,7 @@ impl CharacterDefinitions {
 
 #[derive(Default)]
 pub struct CharacterDefinitionsBuilder {
-    category_definition: Vec<CategoryData>,
+    category_definition: Vec<Option<CategoryData>>,
     category_index: HashMap<String, CategoryId>,
     char_ranges: Vec<(u32, u32, Vec<CategoryId>)>,
 }
@@ -161,6 +161,12 @@ impl CharacterDefinitionsBuilder {
                 self.parse_category(line_str)?;
             }
         }
+        for (category_name, category_id) in &self.category_index {
+            if !matches!(self.category_definition.get(category_id.0), Some(Some(_))) {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("undefined category: {}", category_name)));
+            }
+        }
         Ok(())
     }
 
@@ -222,8 +228,11 @@ impl CharacterDefinitionsBuilder {
             length,
         };
         // force a category_id allocation
-        self.category_id(fields[0]);
-        self.category_definition.push(category_data);
+        let category_id = self.category_id(fields[0]);
+        if self.category_definition.len() <= category_id.0 {
+            self.category_definition.resize(category_id.0 + 1, None);
+        }
+        self.category_definition[category_id.0] = Some(category_data);
 
         Ok(())
     }
@@ -237,7 +246,7 @@ impl CharacterDefinitionsBuilder {
         }
         let mapping = self.build_lookup_table();
         CharacterDefinitions {
-            category_definitions: self.category_definition,
+            category_definitions: self.category_definition.into_iter().flatten().collect(),
             category_names,
             mapping,
         }
-- 
2.43.0


From 522a2207702ff490c3352e20343e6d56bbd7c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 14/14] fix: refuse a matrix.def without costs

---
 lindera-dictionary-builder/src/cost_matrix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 3c7c428..c68b9b1 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -49,6 +49,10 @@ impl CostMatrixBuilder {
         }
         let forward_size = header[0] as u32;
         let backward_size = header[1] as u32;
+        if lines_it.len() == 0 && forward_size * backward_size > 0 {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("the cost matrix has no costs")));
+        }
         let len = 2 + (forward_size * backward_size) as usize;
         let mut costs = vec![i16::MAX; len];
         costs[0] = forward_size as i16;
-- 
2.43.0

