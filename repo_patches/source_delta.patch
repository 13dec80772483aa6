From 16cf1f26d74f4897e79fab2f874ab8a366e8942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 1/6] fix: strip every Arabic diacritic and tatweel, not only
 the first

js/lunr.ar.js removes them with a global replace; Regex::replace only
removes the first match, so a token with two or more diacritics kept the
rest and could not be found by its undiacritised spelling.
---
 src/lang/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/ar.rs b/src/lang/ar.rs
index 2fa0074..34702ad 100644
--- a/src/lang/ar.rs
+++ b/src/lang/ar.rs
@@ -58,7 +58,7 @@ impl PipelineFn for Stemmer {
 
     fn filter(&self, token: String) -> Option<String> {
         // remove diacritics and elongating character
-        let result = self.diacritics.replace(&token, "");
+        let result = self.diacritics.replace_all(&token, "");
         // replace all variations of alef (آأإٱى) to a plain alef (ا)
         let result = self.alefs.replace(&result, "\u{0627}");
         if result.is_empty() {
-- 
2.43.0


From 04d416d9530747549c96f899ee6db5a798ddefdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 2/6] fix: remove a document's field lengths together with the
 document

DocumentStore::remove_doc left the document's entry in doc_info, so the
serialized store kept describing a removed document and re-adding it
brought stale field lengths back. elasticlunr.js deletes docInfo as well.
---
 src/document_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document_store.rs b/src/document_store.rs
index 8adc722..1794d40 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -61,6 +61,7 @@ impl DocumentStore {
         }
 
         self.docs.remove(doc_ref);
+        self.doc_info.remove(doc_ref);
     }
 
     pub fn add_field_length(&mut self, doc_ref: &str, field: &str, length: usize) {
-- 
2.43.0


From af9912cdd7ced7e752bcea5b25a6281020b1f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 3/6] fix: stem "ies", "sses" and "eed" like elasticlunr.js

The step 1 suffix rules of elasticlunr.js only apply when something
precedes the suffix, so the bare words stem to "ie", "sse" and "e".
---
 src/lang/en.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 388f3e4..699224e 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -273,15 +273,16 @@ impl PorterStemmer {
     /// ~~~~
     fn step1ab(&mut self) {
         if self.b[self.k - 1] == b's' {
-            if self.ends("sses") {
+            // As in elasticlunr.js, the suffix must leave a non-empty stem.
+            if self.ends("sses") && self.j > 0 {
                 self.k -= 2;
-            } else if self.ends("ies") {
+            } else if self.ends("ies") && self.j > 0 {
                 self.set_to("i");
             } else if self.b[self.k - 2] != b's' {
                 self.k -= 1;
             }
         }
-        if self.ends("eed") {
+        if self.ends("eed") && self.j > 0 {
             if self.measure() > 0 {
                 self.k -= 1
             }
-- 
2.43.0


From 63033559cec27fda3ab99414fac82134323ca7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 4/6] fix: do not collapse a doubled "y" in the English stemmer

elasticlunr.js undoubles with ([^aeiouylsz])\1$, which excludes "y", so
"byyed" stems to "byi" rather than "by".
---
 src/lang/en.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 699224e..e786673 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -297,7 +297,7 @@ impl PorterStemmer {
             } else if self.double_consonant(self.k - 1) {
                 self.k -= 1;
                 match self.b[self.k - 1] {
-                    b'l' | b's' | b'z' => self.k += 1,
+                    b'l' | b's' | b'z' | b'y' => self.k += 1,
                     _ => (),
                 }
             } else if self.measure() == 1 && self.cvc(self.k - 1) {
-- 
2.43.0


From 1b635d7d3b262d6dce1c8b16fea1b029044c178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 5/6] fix: stem words with non-ASCII letters like
 elasticlunr.js
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The stemmer worked on UTF-8 bytes, so a non-ASCII letter counted as two or
more letters and the consonant-vowel-consonant and length rules disagreed
with elasticlunr.js, which sees UTF-16 code units: "große" stemmed to
"groß" while a search for it looks up "große".
---
 src/lang/en.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index e786673..a44efcb 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -101,17 +101,28 @@ impl Stemmer {
 ///
 /// Note that only lower case sequences are stemmed. get(...) automatically
 /// lowercases the string before processing.
+///
+/// As elasticlunr.js does, the word is taken as UTF-16 code units, each of which is one letter. `b`
+/// has one byte for each; those which are not ASCII are `NON_ASCII` there, and are found in `units`.
 struct PorterStemmer {
     b: Vec<u8>,
+    units: Vec<u16>,
     k: usize,
     j: usize,
 }
 
+/// Stands for a code unit that is not ASCII: a consonant which no rule mentions.
+const NON_ASCII: u8 = 0x80;
+
 impl PorterStemmer {
     fn new(word: &str) -> Result<PorterStemmer, &'static str> {
-        let b = word.to_ascii_lowercase().into_bytes();
+        let units: Vec<u16> = word.encode_utf16().collect();
+        let b: Vec<u8> = units
+            .iter()
+            .map(|&u| if u < 0x80 { (u as u8).to_ascii_lowercase() } else { NON_ASCII })
+            .collect();
         let k = b.len();
-        Ok(PorterStemmer { b, k, j: 0 })
+        Ok(PorterStemmer { b, units, k, j: 0 })
     }
 
     /// stem.is_consonant(i) is true <=> stem[i] is a consonant
@@ -192,13 +203,14 @@ impl PorterStemmer {
 
     /// stem.double_consonant(i) is TRUE <=> i,(i-1) contain a double consonant.
     ///
-    /// `b` holds arbitrary UTF-8, so restrict this to ASCII: two equal non-ASCII
-    /// bytes are usually the trailing continuation bytes of one multi-byte
-    /// character (e.g. `त` is `E0 A4 A4`), and step1ab would then chop `k` into
-    /// the middle of that character, leaving `b[..k]` invalid UTF-8.
+    /// Units which are not ASCII are all the same in `b`, so compare `units`. The
+    /// two surrogates of one character differ, so step1ab cannot split a character.
     #[inline]
     fn double_consonant(&self, i: usize) -> bool {
-        i >= 1 && self.b[i] == self.b[i - 1] && self.b[i].is_ascii() && self.is_consonant(i)
+        i >= 1
+            && self.b[i] == self.b[i - 1]
+            && (self.b[i].is_ascii() || self.units[i] == self.units[i - 1])
+            && self.is_consonant(i)
     }
 
     /// cvc(z, i) is TRUE <=> i-2,i-1,i has the form consonant - vowel - consonant
@@ -533,12 +545,17 @@ impl PorterStemmer {
 
     #[inline]
     fn get(&self) -> String {
-        String::from_utf8(self.b[..self.k].to_vec()).unwrap()
+        let units: Vec<u16> = self.b[..self.k]
+            .iter()
+            .zip(&self.units)
+            .map(|(&b, &u)| if b.is_ascii() { b.into() } else { u })
+            .collect();
+        String::from_utf16(&units).unwrap()
     }
 }
 
 fn get(word: &str) -> Result<String, &str> {
-    if word.len() > 2 {
+    if word.encode_utf16().count() > 2 {
         match PorterStemmer::new(word) {
             Ok(w) => {
                 let mut mw = w;
-- 
2.43.0


From 392b1eeb55a49d9c0aeebcb00faa260d4727f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 6/6] fix: removing an absent document changes nothing

elasticlunr.js returns early when the document is not in the store.
---
 src/document_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document_store.rs b/src/document_store.rs
index 1794d40..fe8598d 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -58,10 +58,10 @@ impl DocumentStore {
     pub fn remove_doc(&mut self, doc_ref: &str) {
         if self.has_doc(doc_ref) {
             self.length -= 1;
+            self.doc_info.remove(doc_ref);
         }
 
         self.docs.remove(doc_ref);
-        self.doc_info.remove(doc_ref);
     }
 
     pub fn add_field_length(&mut self, doc_ref: &str, field: &str, length: usize) {
-- 
2.43.0

