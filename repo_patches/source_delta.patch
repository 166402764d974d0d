From 528fe8ee45871bb327508d1fa7abb9dc7b57f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 1/6] fix: do not append an empty element to an object path

ObjectPath::append("") turned "/a" into "/a/", which is not a valid
object path: it could be encoded but not decoded again.
---
 src/value/object_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 7e19c4a..56abda2 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -164,7 +164,8 @@ impl ObjectPath {
     /// Append an element to the object path.
     ///
     /// Returns `true` if the new element could be appended, otherwise `false`.
-    /// An element cannot be appended if the element contain a character, which is not allowed.
+    /// An element cannot be appended if the element is empty or contain a character, which is not
+    /// allowed.
     ///
     /// # Example
     /// ```
@@ -179,6 +180,9 @@ impl ObjectPath {
     /// assert_eq!(&object_path, "/object/path");
     /// ```
     pub fn append(&mut self, element: &str) -> bool {
+        if element.is_empty() {
+            return false;
+        }
         for c in element.as_bytes() {
             if !c.is_ascii_alphanumeric() && *c != b'_' {
                 return false;
-- 
2.43.0


From 60e4d6234ac5b4973341fe2a6b56f9c19abdbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 2/6] fix: let the root path namespace match every path

path_namespace='/' and argNpath='/' only matched '/' itself, because the
rest of the path after the prefix does not start with '/' any more.
---
 src/match_rule/matching.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index feb6aae..92a1b1d 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -6,7 +6,8 @@ use crate::{
 
 fn match_namespace<const P: char>(namespace: &str, value: &str) -> bool {
     if let Some(value) = value.strip_prefix(namespace) {
-        value.starts_with(P) || value.is_empty()
+        // The root path `/` is the only namespace, which ends with the separator.
+        value.starts_with(P) || value.is_empty() || namespace.ends_with(P)
     } else {
         false
     }
-- 
2.43.0


From a047ab01647b8ec44602ab3fb6798b8b84d5bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 3/6] fix: do not encode a stale signature for an empty body

A header obtained with Message::split contains the signature of its body.
Used for a message without a body, the signature was encoded nevertheless
and the message could not be decoded (BodyLengthZero).
---
 src/encode/message/header.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 98fe489..e0508bb 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -46,6 +46,8 @@ impl Encoder {
             fields.signature = Some(body_signature);
             body_length
         } else {
+            // A header taken from another message can still contain its signature.
+            fields.signature = None;
             0
         };
 
-- 
2.43.0


From c600dfcdfa792e2562f31d59fb6b2dc63f51b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 4/6] fix: do not encode the signature of an empty struct

The signature "()" is invalid and is rejected by the decoder, but a
signature value or the signature of a variant could contain it.
---
 src/value/type_enum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index d7129b4..948a7c8 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -243,6 +243,10 @@ impl Type {
                 type_.try_to_string(type_string, array_depth + 1, struct_depth, dict_depth)?;
             }
             Type::Struct(signature) => {
+                if signature.is_empty() {
+                    // An empty struct is not allowed, see `next_type`
+                    return Err(TypeError::InvalidChar(b')'));
+                }
                 type_string.push('(');
                 for type_ in signature {
                     type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;
-- 
2.43.0


From a75984682b6d7bb9db1110af78931390fcb13ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 5/6] fix: do not keep a stale signature when splitting a
 message without a body

A header can carry the signature of another body. For an empty body split
left it in place.
---
 src/message/message_struct.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/message/message_struct.rs b/src/message/message_struct.rs
index bfae08a..2a14b95 100644
--- a/src/message/message_struct.rs
+++ b/src/message/message_struct.rs
@@ -370,9 +370,12 @@ impl Message {
     /// Split the [`Message`] object into the header and the body.
     pub fn split(mut self) -> Result<(Header, Vec<Value>), TypeError> {
         let signature = self.get_signature()?;
-        if !signature.is_empty() {
-            self.header.fields.signature = Some(signature);
-        }
+        // The header can contain the signature of another body.
+        self.header.fields.signature = if signature.is_empty() {
+            None
+        } else {
+            Some(signature)
+        };
         Ok((self.header, self.body))
     }
 }
-- 
2.43.0


From c11e3061f076421e446b3d54cb53865d2d1775a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 6/6] fix: error texts state what was found (empty, wrong
 subject, untrue comparison)

---
 src/match_rule/mod.rs        | 2 +-
 src/message/header/fields.rs | 4 ++--
 src/value/object_path.rs     | 2 +-
 src/value/type_enum.rs       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/match_rule/mod.rs b/src/match_rule/mod.rs
index ff330ba..0c6bac6 100644
--- a/src/match_rule/mod.rs
+++ b/src/match_rule/mod.rs
@@ -63,7 +63,7 @@ pub enum MatchRuleError {
     PathErrorNamespace(ObjectPathError),
     #[error("Could not decode destination: {0}")]
     DestinationError(#[from] UniqueConnectionNameError),
-    #[error("The index of the argument is too big: {0} < {MAXIMUM_ARG_INDEX}")]
+    #[error("The index of the argument is too big: {MAXIMUM_ARG_INDEX} <= {0}")]
     ArgIndexTooBig(usize),
     #[error("Could not decode arg path: {0}")]
     ArgPathError(ObjectPathError),
diff --git a/src/message/header/fields.rs b/src/message/header/fields.rs
index d1a6c9f..25d94ee 100644
--- a/src/message/header/fields.rs
+++ b/src/message/header/fields.rs
@@ -62,7 +62,7 @@ pub enum FieldsError {
     ErrorError(#[from] ErrorError),
     #[error("Variant does not contain a Uint32: {0:?}")]
     ReplySerial(Value),
-    #[error("")]
+    #[error("String could not be converted to a Bus: {0}")]
     BusError(#[from] BusError),
     #[error("Variant does not contain a String: {0:?}")]
     Destination(Value),
@@ -87,7 +87,7 @@ pub enum FieldsError {
     MultipleReplySerial(Value),
     #[error("The destination is defined mutlple times: {0:?}")]
     MultipleDestination(Value),
-    #[error("The destination is defined mutlple times: {0:?}")]
+    #[error("The sender is defined mutlple times: {0:?}")]
     MultipleSender(Value),
     #[error("The signature is defined mutlple times: {0:?}")]
     MultipleSignature(Value),
diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 56abda2..9098fba 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -90,7 +90,7 @@ pub struct ObjectPath(String);
 pub enum ObjectPathError {
     #[error("ObjectPath must not begin with an alphanumeric or with a '_' or with a '-'")]
     BeginAlphanumericAndUnderscoreAndHyphen,
-    #[error("ObjectPath must not end with '.'")]
+    #[error("ObjectPath must not end with '/'")]
     EndSlash,
     #[error("ObjectPath must not be empty")]
     Empty,
diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index 948a7c8..d68f043 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -17,7 +17,7 @@ pub enum TypeError {
     StructDepth(u8),
     #[error("Dict depth is too big: {MAXIMUM_DICT_DEPTH} < {0}")]
     DictDepth(u8),
-    #[error("Signature is too big: {MAXIMUM_SIGNATURE_LENGTH} < {0}")]
+    #[error("Signature is too short: {0} <= {1}")]
     TooShort(usize, usize),
     #[error("The closing curly bracket is missing for the dict at {0} got {1}")]
     ClosingCurlyBracket(usize, u8),
-- 
2.43.0

