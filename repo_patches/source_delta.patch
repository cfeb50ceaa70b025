From 38a88377648a9f2015c68cc25f9a7e8572d45d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 01/13] fix: do not overflow when writing the smallest integer

Registering i32::MIN in the limits computed its absolute value, which panics
with overflow checks and stores a negative limit without them.
---
 src/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index f6f69f0..b389ba3 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -192,7 +192,7 @@ impl Limits {
     }
 
     pub(crate) fn register_int(&mut self, val: i32) {
-        self.int = self.int.max(val.abs());
+        self.int = self.int.max(val.saturating_abs());
     }
 
     pub(crate) fn register_real(&mut self, val: f32) {
-- 
2.43.0


From 26fd41d1e2f5458cba61a9fe1dc0cb35730c553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 02/13] fix: make xref stream fields wide enough for the free
 list

The second field of free entries holds object numbers, which were cut off if
the largest one needed more bytes than the offset of the xref stream.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffa495e..d4ea700 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -379,7 +379,11 @@ impl Pdf {
         // Include the reference of the xref stream in the offsets as well!
         let xref_offset = buf.len();
         offsets.push((xref_id, xref_offset));
-        let field_width = determine_field_width(xref_offset);
+
+        // The fields must be able to hold all offsets as well as the object
+        // numbers that make up the free list.
+        let max_id = offsets.iter().map(|&(id, _)| id.get()).max().unwrap_or(0);
+        let field_width = determine_field_width(xref_offset.max(max_id as usize));
 
         let mut writer = XRefStreamWriter::new(field_width);
         let xref_len = write_offsets(offsets, &mut writer);
-- 
2.43.0


From 4f1de83769434af72481ec4229e9980f6a4e6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 03/13] fix: pad tokens that follow an empty name in compact
 mode

---
 src/object.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a16146f..78fb1c3 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -379,9 +379,12 @@ fn is_regular_character(byte: u8) -> bool {
     )
 }
 
+/// Whether no padding is needed after this byte. This holds for all delimiter
+/// characters except for `/`: If that's the last byte, we've just written an
+/// empty name, which would swallow a directly following regular character.
 #[inline]
 pub(crate) fn is_delimiter_character(byte: u8) -> bool {
-    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%')
+    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'%')
 }
 
 /// The null object.
-- 
2.43.0


From e533d2d25b479e92dfc7f667c0df83a7504d7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 04/13] fix: report the true length of re-encoded strings and
 dates in the limits

Non-ASCII text strings are written as UTF-16BE, but their UTF-8 length was
registered, and dates were not registered at all.
---
 src/object.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 78fb1c3..80a3db3 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -167,18 +167,18 @@ impl Sealed for TextStr<'_> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.limits.register_str_len(self.0.len());
-
         // ASCII and PDFDocEncoding match for 32 up to 126.
         if self.0.bytes().all(|b| matches!(b, 32..=126)) {
             Str(self.0.as_bytes()).write(buf);
         } else {
             buf.reserve(6 + 4 * self.0.len());
+            let start = buf.len();
             write_utf16be_text_str_header(buf);
             for value in self.0.encode_utf16() {
                 buf.push_hex_u16(value);
             }
             write_utf16be_text_str_footer(buf);
+            register_hex_str_len(buf, start);
         }
     }
 }
@@ -256,24 +256,19 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        let mut len = 0;
         let mut buf_len = 6;
 
         for (lang, text) in self.0 {
-            // Each language tag is enclosed in two escape characters, plus the
-            // two-letter language code and optional two-letter region code.
-            len += text.len() + lang.len() + 2;
             // Each hexadecimal character is four bytes long, plus four bytes
             // for the escape sequence. The language tag is encoded in
             // hexadecimal, so each byte becomes two hexadecimal characters.
             buf_len += 4 * text.len() + lang.len() * 2 + 4;
         }
 
-        buf.limits.register_str_len(len);
-
         // Escape sequences for languages may only appear in Unicode-encoded
         // text strings, see clause 7.9.2.2 of ISO 32000-1:2008.
         buf.reserve(buf_len);
+        let start = buf.len();
         write_utf16be_text_str_header(buf);
 
         for (lang, text) in self.0 {
@@ -284,6 +279,7 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
         }
 
         write_utf16be_text_str_footer(buf);
+        register_hex_str_len(buf, start);
     }
 }
 
@@ -299,6 +295,13 @@ fn write_utf16be_text_str_footer(buf: &mut Buf) {
     buf.push(b'>');
 }
 
+/// Register the length of the string that was written in hexadecimal form (two
+/// digits per byte plus the angle brackets) since `start`.
+fn register_hex_str_len(buf: &mut Buf, start: usize) {
+    let len = (buf.len() - start - 2) / 2;
+    buf.limits.register_str_len(len);
+}
+
 fn write_utf16be_lang_code(lang: LanguageIdentifier, buf: &mut Buf) {
     // The escape character U+001B encloses the language tag. It must not
     // otherwise appear in a text string and the spec offers no opportunity to
@@ -607,6 +610,7 @@ impl Sealed for Date {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
+        let start = buf.len();
         buf.extend(b"(D:");
 
         (|| {
@@ -631,6 +635,10 @@ impl Sealed for Date {
         })();
 
         buf.push(b')');
+
+        // Dates are strings, too. They don't contain anything to escape.
+        let len = buf.len() - start - 2;
+        buf.limits.register_str_len(len);
     }
 }
 
-- 
2.43.0


From e2db2af42c073ab83d88afa58dac7823be89b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 05/13] fix: write `/PC` for the page close action of
 annotations

---
 src/actions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.rs b/src/actions.rs
index 470e26e..769be02 100644
--- a/src/actions.rs
+++ b/src/actions.rs
@@ -339,7 +339,7 @@ impl AdditionalActions<'_> {
     /// shall be performed when the page containing the annotation is closed.
     /// Only permissible for annotations. PDF 1.5+.
     pub fn annot_page_close(&mut self) -> Action<'_> {
-        self.insert(Name(b"PV")).start()
+        self.insert(Name(b"PC")).start()
     }
 
     /// Start writing the `/PV` dictionary. This sets the action action that
-- 
2.43.0


From 68fa95b910faebc57b153fdc9ff27fa937a82906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 06/13] fix: write `/B` for the opaque attribute of fly
 transitions

---
 src/transitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transitions.rs b/src/transitions.rs
index 83d3b65..885eb08 100644
--- a/src/transitions.rs
+++ b/src/transitions.rs
@@ -57,7 +57,7 @@ impl Transition<'_> {
 
     /// Write the `/B` attribute for the `Fly` transition. PDF 1.5+.
     pub fn opaque(&mut self, opaque: f32) -> &mut Self {
-        self.pair(Name(b"F"), opaque);
+        self.pair(Name(b"B"), opaque);
         self
     }
 }
-- 
2.43.0


From 89fa95bbf3e70102912db518c2cb97fbacec0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 07/13] fix: write `/AppearanceFilter` in signature seed values

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index 6726fc7..e3357a4 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -726,7 +726,7 @@ impl SignatureSeedValue<'_> {
     /// the appearance must be available and used to sign the document.
     /// PDF 2.0+.
     pub fn appearance_filter(&mut self, signature_appearance: TextStr<'_>) -> &mut Self {
-        self.pair(Name(b"LockDocument"), signature_appearance);
+        self.pair(Name(b"AppearanceFilter"), signature_appearance);
         self
     }
 }
-- 
2.43.0


From e908940d300a79f4a83969952ffdb9685c5a6b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 08/13] fix: write `/SignaturePolicyCommitmentType` in
 certificate seed values

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index e3357a4..64b876a 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -998,7 +998,7 @@ impl CertificateSeedValue<'_> {
         &mut self,
         commitment_types: impl IntoIterator<Item = Str<'b>>,
     ) -> &mut Self {
-        self.insert(Name(b"SignaturePolicyHashAlgorithm"))
+        self.insert(Name(b"SignaturePolicyCommitmentType"))
             .array()
             .items(commitment_types);
         self
-- 
2.43.0


From 92202e35951afcd2778c3ce1f5059a274cd6e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 09/13] fix: keep the `RP` role when converting to PDF 2.0

---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 535eb44..85992fc 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -973,7 +973,7 @@ impl StructRole {
             Self::Warichu => Some(StructRole2::Warichu),
             Self::RB => Some(StructRole2::RB),
             Self::RT => Some(StructRole2::RT),
-            Self::RP => Some(StructRole2::WP),
+            Self::RP => Some(StructRole2::RP),
             Self::WT => Some(StructRole2::WT),
             Self::WP => Some(StructRole2::WP),
             Self::Figure => Some(StructRole2::Figure),
-- 
2.43.0


From f84209e65de98451cb45bd71c69351284ad4270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 10/13] fix: keep the decimal point of large real numbers in
 PostScript functions

---
 src/functions.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index bb4d218..371f7ae 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -359,7 +359,16 @@ impl PostScriptOp<'_> {
 
     fn write(&self, buf: &mut Buf) {
         match *self {
-            Self::Real(r) => buf.push_decimal(r),
+            Self::Real(r) => {
+                let start = buf.len();
+                buf.push_decimal(r);
+
+                // Large numbers are written without a fractional part, but must
+                // not turn into integers.
+                if !buf[start..].contains(&b'.') {
+                    buf.extend(b".0");
+                }
+            }
             Self::Integer(i) => buf.push_val(i),
             Self::If(ops) => {
                 Self::write_slice(ops, buf);
-- 
2.43.0


From c134f1dd27cf6a3c6520e8f2e02de2954e02ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 11/13] fix: use the namespace names that ISO 32000-2 and
 MathML define

---
 src/structure.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 85992fc..00d2394 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -764,7 +764,7 @@ deref!('a, ClassMap<'a> => Dict<'a>, dict);
 /// Role the structure element fulfills in the document for PDF 1.7 and below.
 ///
 /// These are the predefined standard roles in PDF 1.7 and below, matching the
-/// `https://www.iso.org/pdf/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf/ssn` namespace. The writer may write their own
 /// roles and then provide a mapping with [`StructTreeRoot::role_map`], or, if
 /// writing PDF 2.0, with [`Namespace::role_map_ns`]. PDF 1.4+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
@@ -1089,7 +1089,7 @@ impl TryFrom<StructRole> for StructRole2 {
 /// PDF 2.0 roles the structure element fulfills in the document.
 ///
 /// These are the predefined standard roles in PDF 2.0, matching the
-/// `https://www.iso.org/pdf2/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf2/ssn` namespace. The writer may write their own
 /// types and then provide a mapping using [`Namespace::role_map_ns`]. PDF 2.0+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
 pub enum StructRole2 {
@@ -1546,18 +1546,18 @@ impl Namespace<'_> {
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 2.0_.
     pub fn pdf_2_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf2/ssn"));
+        self.ns(TextStr("http://iso.org/pdf2/ssn"));
     }
 
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 1.7_.
     pub fn pdf_1_7_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf/ssn"));
+        self.ns(TextStr("http://iso.org/pdf/ssn"));
     }
 
     /// Write the namespace dictionary for MathML 3.0.
     pub fn mathml_3_0_ns(mut self) {
-        self.ns(TextStr("https://www.w3.org/1998/Math/MathML"));
+        self.ns(TextStr("http://www.w3.org/1998/Math/MathML"));
     }
 }
 
-- 
2.43.0


From f5bdc1e4a481e4d0cc87f0a8497e5a16bd0192f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 12/13] fix: write the limits of name tree nodes as strings,
 like the keys

---
 src/object.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 80a3db3..a09b392 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1478,7 +1478,8 @@ impl<T> NameTree<'_, T> {
     /// Write the `/Limits` array to set the range of names in this node. This
     /// is required for every node except the root node.
     pub fn limits(&mut self, min: Name, max: Name) -> &mut Self {
-        self.dict.insert(Name(b"Limits")).array().typed().items([min, max]);
+        let limits = [Str(min.0), Str(max.0)];
+        self.dict.insert(Name(b"Limits")).array().typed().items(limits);
         self
     }
 }
-- 
2.43.0


From 4ea18b277ab920f68d3036a347ab28fb2364e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 13/13] fix: keep line breaks in names from ending the comments
 of character maps

---
 src/font.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/font.rs b/src/font.rs
index 4adc32f..9ff8f90 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -879,14 +879,14 @@ where
 
         // Dynamic header.
         buf.extend(b"%%BeginResource: CMap ");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b'\n');
         buf.extend(b"%%Title: (");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b' ');
-        buf.extend(info.registry.0);
+        push_comment(&mut buf, info.registry.0);
         buf.push(b' ');
-        buf.extend(info.ordering.0);
+        push_comment(&mut buf, info.ordering.0);
         buf.push(b' ');
         buf.push_int(info.supplement);
         buf.extend(b")\n");
@@ -993,6 +993,14 @@ where
     }
 }
 
+/// Write bytes into a comment, with spaces in place of the characters that
+/// would end it.
+fn push_comment(buf: &mut Buf, bytes: &[u8]) {
+    for &byte in bytes {
+        buf.push(if matches!(byte, b'\n' | b'\r' | b'\x0c') { b' ' } else { byte });
+    }
+}
+
 /// Type3 fonts require (in Acrobat at least) IDs in CMaps to be encoded with
 /// one byte only, whereas other font types use two bytes.
 ///
-- 
2.43.0

