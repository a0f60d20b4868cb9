From 34eae89dfbda935ca2ec5783ec1098bf78b11716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 01/21] fix: load special tokens that need JSON escapes

The special tokens were deserialized as borrowed strings, so a saved
tokenizer whose special tokens contain a quote, backslash or control
character could not be loaded back.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 198eee8..81a576e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -393,7 +393,7 @@ impl<'de> Visitor<'de> for TokenizerVisitor {
         A: serde::de::MapAccess<'de>,
     {
         let mut version: Option<String> = None;
-        let mut special_tokens: Vec<&str> = Vec::new();
+        let mut special_tokens: Vec<String> = Vec::new();
         let mut vocab: Vec<ScoredToken> = Vec::new();
         let mut processors: Vec<ProcessorWrapper> = Vec::new();
 
-- 
2.43.0


From 0e0f5150dcee409780e2334a86c41f96f21c0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 02/21] fix: do not loop forever on an empty special token

An empty special token matched at every position without advancing the
cursor, so encode never returned.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 81a576e..d20799d 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -326,7 +326,7 @@ impl<'a> Iterator for SpecialTokenSplitter<'a> {
             let suffix = &input[i..];
 
             for special_token in self.special_tokens {
-                if suffix.starts_with(special_token) {
+                if !special_token.is_empty() && suffix.starts_with(special_token) {
                     if i > 0 {
                         self.cursor += i;
                         return Some((&input[..i], false));
-- 
2.43.0


From e01a98286c593f550789c9583618cd5c99a44367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 03/21] fix: let viterbi skip positions that cannot be reached

A token beginning at a position no other token ends at made viterbi
return no segmentation at all, even when one exists.
---
 src/lattice.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 4252a66..368606e 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -120,6 +120,11 @@ impl<'a> Lattice<'a> {
                 let mut best_node = None;
 
                 for &lnode_idx in &self.end_nodes[pos] {
+                    // Skip nodes that cannot be reached from the start.
+                    if lnode_idx != self.bos_idx && self.nodes[lnode_idx].prev.is_none() {
+                        continue;
+                    }
+
                     let score = self.nodes[lnode_idx].backtrack_score + self.nodes[rnode_idx].score;
 
                     if best_node.is_none() || score > best_score {
@@ -128,10 +133,6 @@ impl<'a> Lattice<'a> {
                     }
                 }
 
-                if best_node.is_none() {
-                    return vec![];
-                }
-
                 self.nodes[rnode_idx].prev = best_node;
                 self.nodes[rnode_idx].backtrack_score = best_score;
             }
-- 
2.43.0


From 63785b21fe1fb46ec50b3ad4c0754f05faf18101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 04/21] fix: do not return the end-of-sentence node from
 viterbi

viterbi (and nbest(1)) ended its segmentation with the EOS marker, whose
token ID is u32::MAX; nbest(n) does not.
---
 src/lattice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 368606e..5e8c2f0 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -139,7 +139,10 @@ impl<'a> Lattice<'a> {
         }
 
         let mut results = Vec::with_capacity(sentence_len / 4);
-        let mut node_idx = self.begin_nodes[sentence_len][0];
+        let mut node_idx = match self.nodes[self.eos_idx].prev {
+            Some(prev_node_idx) => prev_node_idx,
+            None => return vec![],
+        };
         while let Some(prev_node_idx) = self.nodes[node_idx].prev {
             let node = self.nodes[node_idx].clone();
             results.push(node.clone());
-- 
2.43.0


From 96cfad690dc47d5e1fcdeab851205c4d71191fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 05/21] fix: give unreachable lattice nodes no probability mass

Nodes that no segmentation goes through started with probability one, so
they took expected counts from the tokens that can be used.
---
 src/lattice.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 5e8c2f0..ee2e2c6 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -256,8 +256,10 @@ impl<'a> Lattice<'a> {
         // (beta) of the lattice.
         // - alpha[i] is the log probability of reaching node i from the bos
         // - beta[i] is the log probability of reaching the eos from node i
-        let mut alpha = vec![0.0; num_nodes];
-        let mut beta = vec![0.0; num_nodes];
+        let mut alpha = vec![f64::NEG_INFINITY; num_nodes];
+        let mut beta = vec![f64::NEG_INFINITY; num_nodes];
+        alpha[self.bos_idx] = 0.0;
+        beta[self.eos_idx] = 0.0;
 
         // Calculate forward probabilities (alpha)
         for pos in 0..=len {
@@ -328,7 +330,7 @@ fn log_sum_exp(x: f64, y: f64, init_mode: bool) -> f64 {
     } else {
         let (vmin, vmax) = if x > y { (y, x) } else { (x, y) };
         let k_minus_log_epsilon = 50.0;
-        if vmax > vmin + k_minus_log_epsilon {
+        if vmin == f64::NEG_INFINITY || vmax > vmin + k_minus_log_epsilon {
             vmax
         } else {
             vmax + ((vmin - vmax).exp() + 1.0).ln()
-- 
2.43.0


From 49b69028c20e0f2d8c954ebc7d104bde7e57f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 06/21] fix: stop merging when no merge is possible

The check compared against the step size, so with fewer merges left than
the step size (the default for small runs) the loop never ended.
---
 src/merge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/merge.rs b/src/merge.rs
index 22ebcaa..9bbf7a1 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -83,10 +83,11 @@ impl ModelVocabularyMerger {
 
             pairs.sort_unstable_by(|a, b| b.1.cmp(&a.1));
 
-            let mut merges = std::cmp::min(
+            let max_merges = std::cmp::min(
                 self.step,
                 self.num_merges - (model.vocab_size() - start_vocab_size),
             );
+            let mut merges = max_merges;
             for ((a, b), freq) in pairs.iter().copied() {
                 if merges == 0 {
                     break;
@@ -125,7 +126,7 @@ impl ModelVocabularyMerger {
                 log::info!("Merged a={} b={} freq={} into={}", a, b, freq, token);
             }
 
-            if merges == self.step {
+            if merges == max_merges {
                 log::warn!(
                     "No more merges possible after {} merges, consider increasing the number of merges",
                     model.vocab_size() - start_vocab_size
-- 
2.43.0


From 6e1f962ad28f7e76a292c9a0292c67738e444a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 07/21] fix: do not merge into a token the vocabulary already
 has

Two pairs can concatenate to the same bytes. Adding the second one
duplicated the token under a new ID and left the first ID unreachable.
---
 src/merge.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/merge.rs b/src/merge.rs
index 9bbf7a1..0aae820 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -104,6 +104,7 @@ impl ModelVocabularyMerger {
                 let token = ScoredToken::new(value, score, false);
 
                 if token.len() > self.max_token_length
+                    || model.token_to_id(&token.value).is_some()
                     || !self.allow.is_match(&String::from_utf8_lossy(&token.value))
                 {
                     if !ignore.contains(&pair) {
-- 
2.43.0


From d6ee53356dc8918276022b0e66e831618ca87101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 08/21] fix: stop pruning when the vocabulary no longer shrinks

Tokens that are kept or have no alternative are never removed, so asking
for a smaller vocabulary than those, or a shrink factor of one, looped
forever.
---
 src/prune.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/prune.rs b/src/prune.rs
index 4013caf..295be37 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -22,6 +22,8 @@ impl ModelVocabularyPruner {
 
     pub fn prune(&self, model: &mut Model, samples: &[&str]) -> Result<()> {
         while model.vocab_size() > self.vocab_size {
+            let previous_vocab_size = model.vocab_size();
+
             for subiter in 0..self.em_subiters {
                 log::info!("EM subiter {}/{}", subiter + 1, self.em_subiters);
 
@@ -51,6 +53,14 @@ impl ModelVocabularyPruner {
             // Prune the vocabulary.
             let vocab = self.prune_vocab(model, samples)?;
             *model = Model::from(vocab);
+
+            if model.vocab_size() >= previous_vocab_size {
+                log::warn!(
+                    "The vocabulary cannot be pruned further than {} tokens",
+                    model.vocab_size()
+                );
+                break;
+            }
         }
 
         Ok(())
-- 
2.43.0


From 3f3f3f64c3b50604e6da67f1ad4932cad10d2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 09/21] fix: include byte 255 in generated vocabularies

---
 src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.rs b/src/generate.rs
index 5761095..072f2e5 100644
--- a/src/generate.rs
+++ b/src/generate.rs
@@ -161,7 +161,7 @@ impl VocabularyGenerator {
             .map(|(_, freq)| *freq)
             .copied()
             .unwrap_or(1);
-        let mut vocab: Vec<ScoredToken> = (0..255_u8)
+        let mut vocab: Vec<ScoredToken> = (0..=255_u8)
             .map(|b| {
                 seen.insert(vec![b]);
                 ScoredToken::from_u8(b, highest_freq as f64, true)
-- 
2.43.0


From 403782aa0d1603e625f15798714ed79fd16ccadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 10/21] fix: filter only removes tokens scored below the
 minimum

The flag and the documentation say "lower than"; a token whose score
equals the minimum was removed too.
---
 src/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.rs b/src/filter.rs
index 2e7d487..a8548c6 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -33,7 +33,7 @@ impl VocabularyFilter {
         for token in vocab.iter() {
             let should_keep = num_tokens_removed >= num_tokens_to_remove
                 || (token.keep && !self.force)
-                || token.score > self.min_score.unwrap_or(f64::NEG_INFINITY);
+                || token.score >= self.min_score.unwrap_or(f64::NEG_INFINITY);
 
             if should_keep {
                 new_vocab.push(token.clone());
-- 
2.43.0


From 77c3c473ed69a7012fbeb76e1ec52b05533cf389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 11/21] fix: reject unknown processor types that carry a form

Any object with a "form" was loaded as a Unicode processor, whatever its
type.
---
 src/processor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/processor.rs b/src/processor.rs
index 997c27b..4dad628 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -180,6 +180,15 @@ impl<'de> serde::Deserialize<'de> for UnicodeProcessor {
 
                 while let Some(key) = map.next_key::<&str>()? {
                     match key {
+                        "type" => {
+                            let value = map.next_value::<String>()?;
+                            if value != "unicode" {
+                                return Err(serde::de::Error::unknown_variant(
+                                    &value,
+                                    &["unicode"],
+                                ));
+                            }
+                        }
                         "form" => {
                             form = Some(map.next_value::<String>()?);
                         }
-- 
2.43.0


From 1c3ee6353d60384d048b69d396d25616b3b62bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 12/21] fix: raise when the Python binding cannot save

The error was set and fetched again at once, so save never raised and a
failed write went unnoticed.
---
 bindings/python/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 6c38d90..de145a9 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,17 +148,10 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) {
-        match self.tokenizer.save(filename) {
-            Ok(_) => {}
-            Err(e) => {
-                Python::with_gil(|py| {
-                    PyIOError::new_err(e.to_string()).restore(py);
-                    assert!(PyErr::occurred(py));
-                    drop(PyErr::fetch(py));
-                });
-            }
-        }
+    fn save(&self, filename: &str) -> PyResult<()> {
+        self.tokenizer
+            .save(filename)
+            .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
     fn common_prefix_search(&self, text: &str) -> Vec<TokenID> {
-- 
2.43.0


From 532c53ce175479d1d8d5c5f8c6fa4ae7cc4e31fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 13/21] fix: export TokenGeeXError from the Python module

The stub documents it, but the module did not have it, so it could not be
imported or caught by name.
---
 bindings/python/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index de145a9..b80bac1 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -218,9 +218,10 @@ impl PyTokenizer {
 
 #[pymodule]
 #[pyo3(name = "tokengeex")]
-fn tokengeex_module(_: Python, m: &PyModule) -> PyResult<()> {
+fn tokengeex_module(py: Python, m: &PyModule) -> PyResult<()> {
     // Module: TokenGeeX
     m.add_class::<PyTokenizer>()?;
+    m.add("TokenGeeXError", py.get_type::<TokenGeeXError>())?;
 
     Ok(())
 }
-- 
2.43.0


From d08ca8dd1d118142bcbf2272f72c3aa13f43bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 14/21] fix: make the Python tokenizer picklable

Unpickling calls the constructor before __setstate__, and there was none.
---
 bindings/python/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index b80bac1..2474ec5 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -38,6 +38,17 @@ impl From<PyTokenGeeXError> for PyErr {
 
 #[pymethods]
 impl PyTokenizer {
+    /// An empty tokenizer. Needed for unpickling, which creates the object
+    /// before it calls `__setstate__`.
+    #[new]
+    fn new() -> Self {
+        PyTokenizer::from(tokengeex::Tokenizer::new(
+            tokengeex::Model::default(),
+            Vec::<tokengeex::ProcessorWrapper>::new(),
+            Vec::<String>::new(),
+        ))
+    }
+
     fn encode(&self, text: &str, dropout: f64) -> Result<Vec<TokenID>, PyTokenGeeXError> {
         self.tokenizer.encode(text, dropout).map_err(|e| e.into())
     }
-- 
2.43.0


From 66c45da26fbe7c3bb83a2a8cb3c8bbffb8eca641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 15/21] fix: name the parameters in the Python stub as the
 binding does

Calls with the keyword the stub gives failed with a TypeError.
---
 bindings/python/tokengeex.pyi | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/tokengeex.pyi b/bindings/python/tokengeex.pyi
index 78ac178..0198290 100644
--- a/bindings/python/tokengeex.pyi
+++ b/bindings/python/tokengeex.pyi
@@ -201,12 +201,12 @@ class Tokenizer:
         """
         pass
 
-    def save(self, filepath: str) -> None:
+    def save(self, filename: str) -> None:
         """
         Saves the tokenizer to a file.
 
         Args:
-            filepath: The path to the tokenizer file.
+            filename: The path to the tokenizer file.
         """
         pass
 
@@ -239,12 +239,12 @@ class Tokenizer:
         pass
 
     @staticmethod
-    def from_str(s: str) -> Tokenizer:
+    def from_str(json: str) -> Tokenizer:
         """
         Loads a tokenizer from a string.
 
         Args:
-            s: The tokenizer string.
+            json: The tokenizer string.
 
         Returns:
             The tokenizer.
-- 
2.43.0


From a03f6161fb13ba0cdc22b7d030b57fe027c0bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 16/21] fix: open both splits of the Chinese Markdown dataset

---
 scripts/datagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/datagen.py b/scripts/datagen.py
index 1e1574a..3639ed3 100644
--- a/scripts/datagen.py
+++ b/scripts/datagen.py
@@ -179,12 +179,12 @@ def generate_chinese_markdown(args):
         "rojas-diego/chinese-markdown", split="train", streaming=True
     )
 
-    for split in ["train" "test"]:
+    for split in ["train", "test"]:
         os.makedirs(f"{args.output}/{split}", exist_ok=True)
 
     files = {
         split: open(f"{args.output}/{split}/chinese-markdown.bin", "wb")
-        for split in ["train" "test"]
+        for split in ["train", "test"]
     }
 
     written = 0
-- 
2.43.0


From d96397c50d1cfd0985c53f38491097ff4745c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 17/21] fix: skip the samples the line filter counts as
 rejected

---
 scripts/datagen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/datagen.py b/scripts/datagen.py
index 3639ed3..74ae0dc 100644
--- a/scripts/datagen.py
+++ b/scripts/datagen.py
@@ -109,6 +109,7 @@ def generate_the_stack(args, lang, quota):
                 continue
         elif num_lines > 4096:
             num_lines_filter += 1
+            continue
 
         # Suspicious line lengths
         if avg_line_length > 100 or avg_line_length < 10 or max_line_length > 1000:
-- 
2.43.0


From 6dc909a0e864257fc1898aa2baf9b9da681f71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 18/21] fix: read the proportion option trainbpe declares

---
 scripts/trainbpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/trainbpe.py b/scripts/trainbpe.py
index 74eb814..264c017 100644
--- a/scripts/trainbpe.py
+++ b/scripts/trainbpe.py
@@ -106,7 +106,7 @@ if __name__ == "__main__":
 
     args = parser.parse_args()
 
-    lib, input, output, vocab_size, proportion = args.l, args.i, args.o, args.v, args.s
+    lib, input, output, vocab_size, proportion = args.l, args.i, args.o, args.v, args.p
 
     print(
         f"Training {lib} BPE model with {vocab_size} vocabulary size from {input}. Writing to {output}."
-- 
2.43.0


From 17ac7a3b748f5fb0796a044c615528c24daa10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 19/21] fix: drop an example space-punct-space does not match

The pattern is one punctuation character, as in data/exact.regex.
---
 src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regex.rs b/src/regex.rs
index 3d215a6..51591dc 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -362,7 +362,7 @@ pub const PATTERNS: &[(&str, RegexFnPtr, &[&str], &[&str])] = &[
     (
         "space-punct-space",
         constexpr_regex!(SPACE_PUNCT_SPACE),
-        &[" # ", " ( ", " ) ", " { ", " } ", " != ", ", "],
+        &[" # ", " ( ", " ) ", " { ", " } ", ", "],
         &[],
     ),
     (
-- 
2.43.0


From 48d7832b7c3ce12e5b84376b2391fd0643c35dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 20/21] fix: declare is_base and to_string in the type stub

---
 bindings/python/tokengeex.pyi | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bindings/python/tokengeex.pyi b/bindings/python/tokengeex.pyi
index 0198290..04f53d9 100644
--- a/bindings/python/tokengeex.pyi
+++ b/bindings/python/tokengeex.pyi
@@ -180,6 +180,14 @@ class Tokenizer:
         """
         pass
 
+    def is_base(self, id: int) -> bool:
+        """
+        Returns:
+            True if the token ID is a base token. False otherwise or if the
+            token ID is out of bounds.
+        """
+        pass
+
     def vocab_size(self) -> int:
         """
         Returns:
@@ -253,3 +261,12 @@ class Tokenizer:
             TokenGeeXError: If the string is not a valid tokenizer.
         """
         pass
+
+    def to_string(self) -> str:
+        """
+        Serializes the tokenizer to the string `from_str` accepts.
+
+        Returns:
+            The tokenizer string.
+        """
+        pass
-- 
2.43.0


From 269aa86e8174e97adafb9dcb8b6ace419b9d4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 21/21] fix: load and call the tokenizer through the exported
 interface in benchmark.py

---
 scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/benchmark.py b/scripts/benchmark.py
index 24cda2f..63a2f9a 100644
--- a/scripts/benchmark.py
+++ b/scripts/benchmark.py
@@ -44,10 +44,10 @@ def benchmark_batch(documents: list[str]) -> None:
 
     import tokengeex
 
-    tokenizer = tokengeex.load("./data/unigram-65k.json")
+    tokenizer = tokengeex.Tokenizer.from_file("./data/unigram-65k.json")
 
     start = time.perf_counter_ns()
-    tokenizer.encode_batch(documents)
+    tokenizer.encode_batch(documents, 0.0)
     end = time.perf_counter_ns()
     print(
         f"TokenGeex    {bytes_to_mb(int(num_bytes / (end-start) * 1e9)):>5} MB/s {round((end - start) / 1e9, 2):>5}s ({'single thread' if num_threads < 2 else '{} threads'.format(num_threads)})"
-- 
2.43.0

