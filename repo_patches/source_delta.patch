From d6af0c181309ea7c196cd61c0279262b005b1f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 01/20] fix: only accept chunks of the same type in indefinite
 bytes and text

The state machine accepted any simple value, and text in bytes (and the
reverse), inside an indefinite bytes or text, so that the validator and the
element slicing of the reader let through data that is not CBOR.
---
 src/state.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 24c5886..0941637 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -17,7 +17,7 @@
 pub use super::header::{HeaderValue, HeaderValueStream};
 use std::fmt;
 
-#[derive(Debug, Clone, Copy)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum StreamType {
     Array,
     Map,
@@ -218,8 +218,15 @@ impl State {
                 self.push_stream(new_stream)?;
                 Ok(())
             }
-            // A regular text or bytes, we can just call item_simple
+            // A regular text or bytes, in an indefinite text or bytes it need to be
+            // a chunk of the same type, otherwise it's just a simple item
             Some(_b) => {
+                match self.ctx.last() {
+                    Some(StructTy::Stream(s)) if s.composite_scalar() && *s != new_stream => {
+                        return Err(StateError::InvalidTypeInChunk);
+                    }
+                    _ => (),
+                };
                 self.advance()?;
                 self.check_reduce()
             }
@@ -261,6 +268,13 @@ impl State {
     ///
     /// All values except text, bytes, array, map, tag
     pub fn simple(&mut self) -> Result<(), StateError> {
+        // in a bytes/texts stream we can't add a simple value, only bytes/text
+        match self.ctx.last() {
+            Some(StructTy::Stream(s)) if s.composite_scalar() => {
+                return Err(StateError::InvalidTypeInChunk);
+            }
+            _ => (),
+        };
         self.advance()?;
         self.check_reduce()
     }
-- 
2.43.0


From 46def9ab954dc81b9571b786bc47e7827a47abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 02/20] fix: reject a break after a key without value in an
 indefinite map

The state machine didn't track keys and values of indefinite maps, and a
nested indefinite map with an odd number of items was accepted as valid.
---
 src/state.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 0941637..75a08cc 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -20,7 +20,7 @@ use std::fmt;
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum StreamType {
     Array,
-    Map,
+    Map { exp_val: bool },
     Bytes,
     Text,
 }
@@ -28,7 +28,7 @@ enum StreamType {
 impl StreamType {
     pub fn composite_scalar(self) -> bool {
         match self {
-            StreamType::Array | StreamType::Map => false,
+            StreamType::Array | StreamType::Map { .. } => false,
             StreamType::Bytes | StreamType::Text => true,
         }
     }
@@ -155,6 +155,10 @@ impl State {
                     *finished = true;
                     Ok(())
                 }
+                StructTy::Stream(StreamType::Map { exp_val }) => {
+                    *exp_val = !*exp_val;
+                    Ok(())
+                }
                 StructTy::Stream(_sty) => Ok(()),
             },
         }
@@ -302,7 +306,7 @@ impl State {
 
     /// Add a new Map into the context
     pub fn map(&mut self, v: HeaderValueStream) -> Result<(), StateError> {
-        self.struct_start(v, StreamType::Map, |nz| StructTy::Map {
+        self.struct_start(v, StreamType::Map { exp_val: false }, |nz| StructTy::Map {
             exp_val: false,
             elements: nz,
         })
@@ -311,6 +315,10 @@ impl State {
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
         match self.ctx.pop() {
+            // a key without its value
+            Some(StructTy::Stream(StreamType::Map { exp_val: true })) => {
+                return Err(StateError::StructureNotFinished);
+            }
             Some(StructTy::Stream(_sty)) => (),
             Some(_sty) => {
                 return Err(StateError::BreakInNonStreamable);
-- 
2.43.0


From 8875e3efad263e51381e2a13e58803031edc87bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 03/20] fix: don't overflow on bytes and text with a huge
 declared length

The end of the slice was computed before the check that the data is
available, which overflows when the length is close to 2^64.
---
 src/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 83bdfa8..12655e2 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -56,8 +56,6 @@ impl<'a> CborDataReader<'a> {
             });
         }
         let offseted_rem = rem - offset;
-        let start = self.index + offset;
-        let end = start + n;
         if n > offseted_rem {
             Err(CborDataMissing {
                 expecting_bytes: n,
@@ -65,6 +63,8 @@ impl<'a> CborDataReader<'a> {
                 context,
             })
         } else {
+            let start = self.index + offset;
+            let end = start + n;
             Ok(&self.data[start..end])
         }
     }
-- 
2.43.0


From 3915f23016011e6197532be60a9607237f19a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 04/20] fix: null and undefined readers only accept their own
 constant

They accepted any of the constants (e.g. true when reading a null).
---
 src/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d0b43e7..4db591f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -289,14 +289,26 @@ impl<'a> Reader<'a> {
 
     pub fn null(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Null, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Null) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Null,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
 
     pub fn undefined(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Undefined, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Undefined) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Undefined,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
-- 
2.43.0


From 9473c90166db0005a008bcac3efb0863139683f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 05/20] fix: canonical Byte of 20 to 23 use the 1 byte extended
 form

The immediate values 20 to 23 are the CBOR constants and not bytes, and
writing such a Byte was panicking.
---
 src/lowlevel/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index dc2cf8d..12288ca 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -184,16 +184,17 @@ impl HeaderValue8 {
 
     pub fn canonical(v: u8) -> Self {
         match v {
-            _ if v < 24 => Self::Imm(v as u8),
+            // 20 to 23 are the constants (false, true, null, undefined)
+            _ if v < 20 => Self::Imm(v as u8),
             _ => Self::U8(v),
         }
     }
 
     pub fn is_canonical(&self) -> bool {
         match self {
-            // don't check if imm is < 24, as it shouldn't be allowed
+            // don't check if imm is < 20, as it shouldn't be allowed
             HeaderValue8::Imm(_) => true,
-            HeaderValue8::U8(v) => *v >= 24,
+            HeaderValue8::U8(v) => *v >= 20,
         }
     }
 }
-- 
2.43.0


From 408c691b4789c4724ca0cd3be0a530befc27543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 06/20] fix: decode rational numbers with a negative bignum
 numerator

Reading a tagged type with another tag consumed the tagged element, so the
negative bignum alternative of the numerator was always tried on an empty
reader. Check the tag value before consuming it.
---
 src/reader.rs | 6 ++++++
 src/tagged.rs | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4db591f..949f5f9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -514,6 +514,12 @@ impl<'a> Reader<'a> {
         }
     }
 
+    /// Peek at the value of the tag, without consuming anything
+    pub(crate) fn peek_tag(&self) -> Result<TagValue, ReaderError> {
+        let (hdr, _) = self.header()?;
+        Ok(TagValue(matches_type!(hdr, Type::Tag, Header::Tag)?))
+    }
+
     pub fn tag(&mut self) -> Result<Tag<'a>, ReaderError> {
         let (hdr, advance) = self.header()?;
         let tag_val = TagValue(matches_type!(hdr, Type::Tag, Header::Tag)?);
diff --git a/src/tagged.rs b/src/tagged.rs
index 224ce16..2627f4f 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -43,14 +43,14 @@ pub enum RationalDenominator {
 
 macro_rules! matches_tag {
     ($reader:ident, $value:literal) => {{
-        let tag = $reader.tag()?;
-        if tag.value() != $value {
+        let tag_val = $reader.peek_tag()?;
+        if tag_val.to_u64() != $value {
             return Err(ReaderError::WrongExpectedTag {
                 expected: $value,
-                got: tag.value(),
+                got: tag_val.to_u64(),
             });
         }
-        tag
+        $reader.tag()?
     }};
 }
 
-- 
2.43.0


From 530bba0959342454da2326b9753202a5bdf899d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 07/20] fix: CborData::validate_as rejects trailing data

like CborSlice::validate_as already does.
---
 src/prim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 838f168..1437e51 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -71,6 +71,12 @@ impl CborData {
             Ok(_) => (),
             Err(e) => return Err(e),
         };
+        if !r.is_finished() {
+            return Err(DecodeErrorKind::ReaderNotTerminated {
+                remaining_bytes: r.remaining_bytes(),
+            }
+            .context::<Self>());
+        }
         Ok(CborDataOf(PhantomData, self.0.clone()))
     }
 
-- 
2.43.0


From 7e32b9e20b6237eaf43a815fc25ce8ec97db0312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 08/20] fix: empty data is reported as missing data instead of
 a panic

Reader::new and Validator::new asserted that the data is not empty, so
that decode_from_bytes and reading the content of an empty encoded CBOR
panicked on external input instead of returning the data missing error.
---
 src/reader.rs   | 1 -
 src/validate.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 949f5f9..c5469c5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -153,7 +153,6 @@ impl<'a> Reader<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self { reader }
     }
diff --git a/src/validate.rs b/src/validate.rs
index 0ea6726..a637bed 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -63,7 +63,6 @@ impl<'a> Validator<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self {
             reader,
-- 
2.43.0


From ae75273e86664f124d6ee68befd7b325fe57c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 09/20] fix: derived mapint decoding takes map_starts_at into
 account

The keys are written starting at map_starts_at, but were read starting at 0.
---
 cbored-derive/src/product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 527986c..2159ed8 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -509,7 +509,7 @@ pub(crate) fn derive_struct_de(
                     let mut keyfields = Vec::new();
                     let mut mandatory_keys = Vec::new();
 
-                    let mut rel_index = 0;
+                    let mut rel_index = attrs.starts_at as u64;
 
                     for field in fields.iter() {
                         let Field {
-- 
2.43.0


From d2682590ba4fbedc562b962ead85e5fbccce1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 10/20] fix: derived mapint decoding handles keys of 32 and
 over

The duplicated key check was shifting an i32 by the key, overflowing with
such keys (panic, or wrongly reported as duplicated).
---
 cbored-derive/src/product.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 2159ed8..d623dab 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -535,6 +535,9 @@ pub(crate) fn derive_struct_de(
                         };
                         let keyfield = quote! {
                             #abs_index => {
+                                if #field_name.is_some() {
+                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
@@ -563,16 +566,9 @@ pub(crate) fn derive_struct_de(
 
                         #( #keydefs )*
 
-                        let mut found_keys = 0;
                         for (mut k, mut v) in map.iter() {
                             let key: u64 = k.decode().map_err(|e| e.push::<Self>())?;
 
-                            if (found_keys & (1 << key)) != 0 {
-                                return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
-                            } else {
-                                found_keys |= 1 << key;
-                            }
-
                             match key {
                                 #( #keyfields )*
                                 // handle unknown keys
-- 
2.43.0


From 37d2492ffbf2cf0167bf8036427528008244be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 11/20] fix: derived flat structure with a tag read the tag

The tag was written, but not read back.
---
 cbored-derive/src/product.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index d623dab..4c33fc4 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -387,7 +387,18 @@ pub(crate) fn derive_struct_de(
     // * output:
     //   * 'array' which is CBOR Array if StructureType::Array
     let (prelude_sty_de, structure) = match attrs.structure_type {
-        StructureType::Flat => (quote! {}, DeStructure::Flat),
+        StructureType::Flat => {
+            let r = if tag_structure {
+                quote! {
+                    #tag_wrapper
+                    let mut tag_reader = tag.reader();
+                    let reader = &mut tag_reader;
+                }
+            } else {
+                quote! {}
+            };
+            (r, DeStructure::Flat)
+        }
         StructureType::Array | StructureType::ArrayLastOpt => {
             let r = if tag_structure {
                 quote! {
-- 
2.43.0


From 346f756185f83e216a424c78a1200e21d8cc0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 12/20] fix: derived enumtype with a null variant compiles

It was using a non existent Writer method and an unqualified type, and
ignored the result of reading the null.
---
 cbored-derive/src/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2ec151a..5ffccd5 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -158,7 +158,7 @@ pub(crate) fn derive_enum_se(
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.null(); }),
+                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -339,7 +339,7 @@ pub(crate) fn derive_enum_de(
                         (
                             quote! {},
                             quote! {
-                                reader.null().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>());
+                                reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
-- 
2.43.0


From 69b1979c1cb4888f16103684e89638b5043b97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 13/20] fix: derived enums number their variants from
 variant_starts_at

The start is already part of the enumerated index (since skipkey), and was
added twice.
---
 cbored-derive/src/sum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 5ffccd5..84d03d1 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -183,7 +183,7 @@ pub(crate) fn derive_enum_se(
             let variant_def = variant_field(&attrs, &variant);
             let variant_type = &variant_def.ty;
 
-            let variant_number = attrs.variant_starts_at + variant_index;
+            let variant_number = *variant_index;
 
             let (parameters, se_fields) = {
                 match &variant_type {
@@ -286,7 +286,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -388,7 +388,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let nb_items = variant.fields.len();
 
-- 
2.43.0


From fc977da6c9299a28a1b59836b1c4f0feff5cbe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 14/20] fix: derived types accept any field name (no clash with
 generated local variables)

---
 cbored-derive/src/product.rs | 35 ++++++++++++++++++++++++-----------
 cbored-derive/src/sum.rs     | 31 ++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 4c33fc4..a6c74c3 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -67,6 +67,12 @@ impl StructOutput {
     }
 }
 
+/// Name of the variable holding the value of a named field in the generated code,
+/// so that it doesn't clash with any other variable of the generated code
+pub(crate) fn field_variable(name: &Ident) -> Ident {
+    quote::format_ident!("field_{}", name)
+}
+
 pub(crate) fn get_struct_naming(fields: &Fields) -> StructOutput {
     fn attrs(attrs: &Vec<syn::Attribute>) -> FieldAttrs {
         get_my_attributes(attrs)
@@ -464,6 +470,10 @@ pub(crate) fn derive_struct_de(
                 .iter()
                 .map(|x| x.name.clone())
                 .collect::<Vec<Ident>>();
+            let field_vars = field_names
+                .iter()
+                .map(field_variable)
+                .collect::<Vec<Ident>>();
             match structure {
                 DeStructure::Array { last_optional } => {
                     // deserialize each named field
@@ -476,9 +486,10 @@ pub(crate) fn derive_struct_de(
                         } = &field;
                         let field_index = *field_index;
                         let field_name_str = format!("{}", field_name);
+                        let field_var = field_variable(field_name);
                         let de_body = if field_attrs.variant_type == FieldVariantType::Vec {
                             quote! {
-                                let #field_name = {
+                                let #field_var = {
                                     let mut r = array[#field_index].reader();
                                     let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.push::<Self>())?
                                         .iter()
@@ -490,7 +501,7 @@ pub(crate) fn derive_struct_de(
                         } else {
                             if last_optional && field_index == fields.len() - 1 {
                                 quote! {
-                                    let #field_name = if array.len() == #field_index + 1 {
+                                    let #field_var = if array.len() == #field_index + 1 {
                                         Some(array[#field_index].decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?)
                                     } else {
                                         None
@@ -498,7 +509,7 @@ pub(crate) fn derive_struct_de(
                                 }
                             } else {
                                 quote! {
-                                    let #field_name = array[#field_index].decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
+                                    let #field_var = array[#field_index].decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                                 }
                             }
                         };
@@ -508,7 +519,7 @@ pub(crate) fn derive_struct_de(
                     quote! {
                         #prelude_deser
                         #( #de_bodies )*
-                        Ok(#name { #(#field_names),* })
+                        Ok(#name { #(#field_names: #field_vars),* })
                     }
                 }
                 DeStructure::MapInt => {
@@ -541,15 +552,16 @@ pub(crate) fn derive_struct_de(
                         }
                         let abs_index = field_index as u64 + rel_index;
                         let field_name_str = format!("{}", field_name);
+                        let field_var = field_variable(field_name);
                         let keydef = quote! {
-                            let mut #field_name = None;
+                            let mut #field_var = None;
                         };
                         let keyfield = quote! {
                             #abs_index => {
-                                if #field_name.is_some() {
+                                if #field_var.is_some() {
                                     return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
                                 }
-                                #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
+                                #field_var = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
                         keydefs.push(keydef);
@@ -559,7 +571,7 @@ pub(crate) fn derive_struct_de(
 
                         if key_mandatory {
                             let mandatory_key = quote! {
-                                let #field_name = match #field_name {
+                                let #field_var = match #field_var {
                                     None => {
                                         return Err(cbored::DecodeErrorKind::Custom(format!("missing {}", #field_name_str)).context::<Self>());
                                     }
@@ -594,7 +606,7 @@ pub(crate) fn derive_struct_de(
 
                         #( #mandatory_keys )*
 
-                        Ok(#name { #(#field_names),*})
+                        Ok(#name { #(#field_names: #field_vars),*})
                     }
                 }
                 DeStructure::Flat => {
@@ -607,8 +619,9 @@ pub(crate) fn derive_struct_de(
                             is_vec: _,
                         } = &field;
                         let field_name_str = format!("{}", field_name);
+                        let field_var = field_variable(field_name);
                         let de_body = quote! {
-                            let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str))?;
+                            let #field_var = reader.decode().map_err(|e| e.push_str(#field_name_str))?;
                         };
                         de_bodies.push(de_body);
                     }
@@ -616,7 +629,7 @@ pub(crate) fn derive_struct_de(
                     quote! {
                         #prelude_deser
                         #( #de_bodies )*
-                        Ok(#name { #(#field_names),* })
+                        Ok(#name { #(#field_names: #field_vars),* })
                     }
                 }
             }
diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 84d03d1..46c62d1 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -3,6 +3,7 @@ use proc_macro::TokenStream;
 use quote::quote;
 use syn::{DataEnum, Ident, Meta, Variant};
 
+use crate::product::field_variable;
 use crate::product::get_struct_naming;
 use crate::product::StructOutput;
 
@@ -137,11 +138,12 @@ pub(crate) fn derive_enum_se(
                             panic!("cannot have enumtype with more than 1 argument")
                         }
                         let field_name = &field_names[0].name;
+                        let field_var = field_variable(field_name);
                         (
                             quote! {
-                                { #field_name }
+                                { #field_name: #field_var }
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { #field_var.encode(writer); },
                         )
                     }
                     Some(StructOutput::Unnamed(field_names)) => {
@@ -190,14 +192,14 @@ pub(crate) fn derive_enum_se(
                     Some(StructOutput::Named(field_names)) => {
                         let de_field_names = field_names
                             .iter()
-                            .map(|field| &field.name)
-                            .map(|ident| quote! { #ident })
+                            .map(|field| (&field.name, field_variable(&field.name)))
+                            .map(|(ident, var)| quote! { #ident: #var })
                             .collect::<Vec<_>>();
                         let se_fields = field_names
                             .iter()
-                            .map(|field| &field.name)
-                            .map(|ident| {
-                                quote! { writer.encode(#ident); }
+                            .map(|field| field_variable(&field.name))
+                            .map(|var| {
+                                quote! { writer.encode(#var); }
                             })
                             .collect::<Vec<_>>();
                         let parameters = quote! { { #( #de_field_names ),* } };
@@ -362,12 +364,13 @@ pub(crate) fn derive_enum_de(
                             panic!("cannot have enumtype with more than 1 argument")
                         }
                         let field_name = &field_names[0].name;
+                        let field_var = field_variable(field_name);
                         (
                             quote! {
-                                { #field_name }
+                                { #field_name: #field_var }
                             },
                             quote! {
-                                let #field_name = reader.decode().map_err(|e| e.push_str(#variant_name).push::<Self>())?;
+                                let #field_var = reader.decode().map_err(|e| e.push_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
@@ -414,16 +417,18 @@ pub(crate) fn derive_enum_de(
                         Some(StructOutput::Named(field_names)) => {
                             let de_field_names = field_names
                                 .iter()
-                                .map(|field| &field.name)
-                                .map(|ident| quote! { #ident })
+                                .map(|field| (&field.name, field_variable(&field.name)))
+                                .map(|(ident, var)| quote! { #ident: #var })
                                 .collect::<Vec<_>>();
-                            let de_fields = de_field_names
+                            let de_fields = field_names
                                 .iter()
+                                .map(|field| &field.name)
                                 .enumerate()
                                 .map(|(fidx, fname)| {
                                     let fname_str = format!("{}", fname);
+                                    let fvar = field_variable(fname);
                                     quote! {
-                                        let #fname = array[#fidx + 1].decode().map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?;
+                                        let #fvar = array[#fidx + 1].decode().map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?;
                                     }
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From 65b3c2390c651de8db26f1593ca75822e7d87b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 15/20] fix: derived decode errors name the element, field,
 variant and type they come from

---
 cbored-derive/src/product.rs |  6 +++---
 cbored-derive/src/sum.rs     | 22 +++++++++-------------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index a6c74c3..5a5feed 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -621,7 +621,7 @@ pub(crate) fn derive_struct_de(
                         let field_name_str = format!("{}", field_name);
                         let field_var = field_variable(field_name);
                         let de_body = quote! {
-                            let #field_var = reader.decode().map_err(|e| e.push_str(#field_name_str))?;
+                            let #field_var = reader.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                         };
                         de_bodies.push(de_body);
                     }
@@ -648,13 +648,13 @@ pub(crate) fn derive_struct_de(
                 let field_name_str = format!("{}", field_name);
                 let de_body = match structure {
                     DeStructure::Array { last_optional: _ } => quote! {
-                        let #field_name = array[#field_index].decode().map_err(|e| e.push_str(#field_name_str))?;
+                        let #field_name = array[#field_index].decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                     },
                     DeStructure::MapInt => {
                         todo!()
                     }
                     DeStructure::Flat => quote! {
-                        let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str))?;
+                        let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                     },
                 };
                 de_bodies.push(de_body);
diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 46c62d1..ede9836 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -350,12 +350,13 @@ pub(crate) fn derive_enum_de(
                             panic!("cannot have enumtype with more than 1 argument")
                         }
                         let field_name = &field_names[0].name;
+                        let field_name_str = format!("{}", field_name);
                         (
                             quote! {
                                 ( #field_name )
                             },
                             quote! {
-                                let #field_name = reader.decode().map_err(|e| e.push_str(#variant_name).push::<Self>())?;
+                                let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str).push_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
@@ -364,13 +365,14 @@ pub(crate) fn derive_enum_de(
                             panic!("cannot have enumtype with more than 1 argument")
                         }
                         let field_name = &field_names[0].name;
+                        let field_name_str = format!("{}", field_name);
                         let field_var = field_variable(field_name);
                         (
                             quote! {
                                 { #field_name: #field_var }
                             },
                             quote! {
-                                let #field_var = reader.decode().map_err(|e| e.push_str(#variant_name).push::<Self>())?;
+                                let #field_var = reader.decode().map_err(|e| e.push_str(#field_name_str).push_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
@@ -446,19 +448,13 @@ pub(crate) fn derive_enum_de(
                                 .map(|field| {
                                     let fidx = field.index;
                                     let ident = &field.name;
+                                    let fname_str = format!("{}", ident);
                                     if field.is_vec || field.attrs.variant_type == FieldVariantType::Vec {
                                         quote! {
-                                            let #ident = {
-                                                let mut r = array[#fidx + 1].reader();
-                                                let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?
-                                                    .iter()
-                                                    .map(|mut r| r.decode())
-                                                    .collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;
-                                                vec
-                                            };
+                                            let #ident = ::cbored::decode_vec(&mut array[#fidx + 1].reader())
+                                                .map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?;
                                         }
                                     } else {
-                                        let fname_str = format!("{}", ident);
                                         quote! {
                                             let #ident = array[#fidx + 1].decode().map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?;
                                         }
@@ -492,7 +488,7 @@ pub(crate) fn derive_enum_de(
 
     let body = match attrs.enumtype {
         EnumType::EnumInt => quote! {
-            let variant: u64 = reader.decode()?;
+            let variant: u64 = reader.decode().map_err(|e| e.push::<Self>())?;
             let variant: usize = variant as usize;
             match variant {
                 #( #field_matches )*
@@ -521,7 +517,7 @@ pub(crate) fn derive_enum_de(
                     }
                     _ => {}
                 };
-                let variant: u64 = array[0].decode()?;
+                let variant: u64 = array[0].decode().map_err(|e| e.push::<Self>())?;
                 let variant: usize = variant as usize;
                 match variant {
                     #( #field_matches )*
-- 
2.43.0


From d32ef5e85111664fed4e21ec5123102ac9cd79a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 16/20] fix: sizes over the pointer width are not truncated on
 32-bit platforms

---
 src/lowlevel/header.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index 12288ca..eb2854f 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -17,14 +17,10 @@ pub enum HeaderValue8 {
 }
 
 impl HeaderValue {
+    /// The value as a size; values that don't fit in a usize on this platform saturate,
+    /// since no data of this size can exist
     pub fn to_size(self) -> usize {
-        match self {
-            HeaderValue::Imm(u) => u as usize,
-            HeaderValue::U8(u) => u as usize,
-            HeaderValue::U16(u) => u as usize,
-            HeaderValue::U32(u) => u as usize,
-            HeaderValue::U64(u) => u as usize,
-        }
+        usize::try_from(self.to_u64()).unwrap_or(usize::MAX)
     }
 
     pub fn to_u64(self) -> u64 {
-- 
2.43.0


From 31a44499b49d1363cbd535e2b634c51b366d84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 17/20] fix: derived decoders name Result and the crate by
 absolute paths

A type alias called Result (as in type Result<T> = ...) or a module
called cbored next to the derived type made the generated code fail to
compile.
---
 cbored-derive/src/common.rs  | 2 +-
 cbored-derive/src/product.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbored-derive/src/common.rs b/cbored-derive/src/common.rs
index 394f987..940141a 100644
--- a/cbored-derive/src/common.rs
+++ b/cbored-derive/src/common.rs
@@ -5,7 +5,7 @@ use syn::Ident;
 pub(crate) fn token_impl_deserializer(class_name: &Ident, body: TokenStream) -> TokenStream {
     quote! {
         impl ::cbored::Decode for #class_name {
-            fn decode<'a>(reader: &mut ::cbored::Reader<'a>) -> Result<Self, ::cbored::DecodeError> {
+            fn decode<'a>(reader: &mut ::cbored::Reader<'a>) -> ::core::result::Result<Self, ::cbored::DecodeError> {
                 #body
             }
         }
diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 5a5feed..0046817 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -559,7 +559,7 @@ pub(crate) fn derive_struct_de(
                         let keyfield = quote! {
                             #abs_index => {
                                 if #field_var.is_some() {
-                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                    return Err(::cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
                                 }
                                 #field_var = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
@@ -573,7 +573,7 @@ pub(crate) fn derive_struct_de(
                             let mandatory_key = quote! {
                                 let #field_var = match #field_var {
                                     None => {
-                                        return Err(cbored::DecodeErrorKind::Custom(format!("missing {}", #field_name_str)).context::<Self>());
+                                        return Err(::cbored::DecodeErrorKind::Custom(format!("missing {}", #field_name_str)).context::<Self>());
                                     }
                                     Some(value) => {
                                         value
@@ -596,7 +596,7 @@ pub(crate) fn derive_struct_de(
                                 #( #keyfields )*
                                 // handle unknown keys
                                 _ => {
-                                    return Err(cbored::DecodeErrorKind::Custom(format!(
+                                    return Err(::cbored::DecodeErrorKind::Custom(format!(
                                             "unknown key {}",
                                             key
                                         )).context::<Self>());
-- 
2.43.0


From eeaa67c3642126e0e784f118433cf8ad4c4415b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 18/20] fix: variant numbers over 32 bits are not truncated on
 32-bit platforms

---
 cbored-derive/src/sum.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index ede9836..dbe7def 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -185,7 +185,7 @@ pub(crate) fn derive_enum_se(
             let variant_def = variant_field(&attrs, &variant);
             let variant_type = &variant_def.ty;
 
-            let variant_number = *variant_index;
+            let variant_number = *variant_index as u64;
 
             let (parameters, se_fields) = {
                 match &variant_type {
@@ -288,7 +288,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = *variant_index;
+                let variant_number = *variant_index as u64;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -393,7 +393,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = *variant_index;
+                let variant_number = *variant_index as u64;
 
                 let nb_items = variant.fields.len();
 
@@ -489,7 +489,6 @@ pub(crate) fn derive_enum_de(
     let body = match attrs.enumtype {
         EnumType::EnumInt => quote! {
             let variant: u64 = reader.decode().map_err(|e| e.push::<Self>())?;
-            let variant: usize = variant as usize;
             match variant {
                 #( #field_matches )*
                 _ => {
@@ -518,7 +517,6 @@ pub(crate) fn derive_enum_de(
                     _ => {}
                 };
                 let variant: u64 = array[0].decode().map_err(|e| e.push::<Self>())?;
-                let variant: usize = variant as usize;
                 match variant {
                     #( #field_matches )*
                     _ => {
-- 
2.43.0


From ec71c0d07a84d42b473b8b98bf2b56a4cf5c1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 19/20] fix: a rational whose positive bignum numerator is not
 bytes is refused for its type, not as missing data

---
 src/tagged.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tagged.rs b/src/tagged.rs
index 2627f4f..bb10de6 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -164,12 +164,12 @@ impl RationalNumber {
                 let res = match inner_reader.peek_type()? {
                     Type::Positive => inner_reader.positive().map(RationalNumerator::Positive),
                     Type::Negative => inner_reader.negative().map(RationalNumerator::Negative),
-                    Type::Tag => PositiveBignum::read(&mut inner_reader)
-                        .map(RationalNumerator::PositiveBignum)
-                        .or_else(|_| {
-                            NegativeBignum::read(&mut inner_reader)
-                                .map(RationalNumerator::NegativeBignum)
-                        }),
+                    Type::Tag if inner_reader.peek_tag()?.to_u64() == 2 => {
+                        PositiveBignum::read(&mut inner_reader)
+                            .map(RationalNumerator::PositiveBignum)
+                    }
+                    Type::Tag => NegativeBignum::read(&mut inner_reader)
+                        .map(RationalNumerator::NegativeBignum),
                     ty => Err(ReaderError::WrongExpectedTypes {
                         expected: &[Type::Positive, Type::Negative, Type::Tag],
                         got: ty,
-- 
2.43.0


From 47770c88ca0140019daa082a3d3f9dba1ae16926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:10 +0000
Subject: [PATCH 20/20] fix: an enum's last variant can have the number 2^64-1

---
 cbored-derive/src/sum.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index dbe7def..f44a9c7 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -106,7 +106,10 @@ pub fn enumerate_variant_indices<'a, T: Clone, I: Iterator<Item = T>>(
             index += 1;
         }
         indices.push(index);
-        index += 1;
+        // the last variant can have the highest number
+        if indices.len() < elements.len() {
+            index += 1;
+        }
     }
 
     assert_eq!(elements.len(), indices.len());
-- 
2.43.0

