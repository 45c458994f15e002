From ae584a7866bcc03fe4d994bdece11a758a0bfafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 01/50] fix: parser compiles against quick-xml 0.34

trim_text moved to Reader::config_mut, processing instructions arrive as
BytesPI, and attribute unescaping takes a Decoder; the default feature set
did not build. Processing instruction data is not entity-decoded any more,
it has no references in XML.
---
 src/parser/mod.rs | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d4e04be..9711080 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,9 @@ use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
-use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesStart, BytesText, Event};
+use quick_xml::events::{
+    BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event,
+};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
 use std::io::BufRead;
@@ -90,7 +92,7 @@ impl<T> From<Error> for Result<T> {
 // ------------------------------------------------------------------------------------------------
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-    let _safe_to_ignore = reader.trim_text(true);
+    reader.config_mut().trim_text(true);
 
     let mut event_buffer: Vec<u8> = Vec::new();
 
@@ -259,7 +261,7 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.unwrap();
-        let value = attribute.decode_and_unescape_value(reader)?;
+        let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -328,34 +330,21 @@ fn handle_cdata<T: BufRead>(
 }
 
 fn handle_pi<T: BufRead>(
-    _reader: &mut Reader<T>,
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
-    ev: BytesText<'_>,
+    ev: BytesPI<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = ev.unescape()?;
-    let parts = text.splitn(2, ' ').collect::<Vec<&str>>();
-    let (target, data) = match parts.len() {
-        1 => (parts[0].to_string(), None),
-        2 => {
-            let data = parts[1].trim();
-            if data.is_empty() {
-                (parts[0].to_string(), None)
-            } else {
-                (parts[0].to_string(), Some(data.to_string()))
-            }
-        }
-        _ => return Error::Malformed.into(),
-    };
-    let new_node = match data {
-        None => mut_document
-            .create_processing_instruction(&target, None)
-            .unwrap(),
-        Some(s) => mut_document
-            .create_processing_instruction(&target, Some(s.as_str()))
-            .unwrap(),
+    let target = reader.decoder().decode(ev.target())?;
+    let data = reader.decoder().decode(ev.content())?;
+    let data = match data.trim() {
+        "" => None,
+        data => Some(data),
     };
+    let new_node = mut_document
+        .create_processing_instruction(&target, data)
+        .unwrap();
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
-- 
2.43.0


From d20f473cb22adef4319f88c214c4f3fa7fd1eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 02/50] fix: parser reports errors found inside the root
 element

The result of parsing the root element's content was discarded, so an I/O
error, truncated input or malformed content inside the root produced an Ok
result holding a partial document.
---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9711080..0eccdd8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -148,7 +148,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
             Ok(Event::Start(ev)) => {
                 let mut new_element = handle_start(reader, &mut document, None, ev)?;
                 let _safe_to_ignore =
-                    element(reader, event_buffer, &mut document, &mut new_element);
+                    element(reader, event_buffer, &mut document, &mut new_element)?;
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, &mut document, None, ev)?;
-- 
2.43.0


From b3f1097e0fa18906d8d11005204715b7e456bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 03/50] fix: parser rejects input without a root element

Empty input, or input cut off in the prolog, was accepted as a document.
---
 src/parser/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0eccdd8..6cf8270 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -173,7 +173,17 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
             //     }
             //     prolog_pre_nodes.push(make_doc_type(reader, ev)?);
             // }
-            Ok(Event::Eof) => return Ok(document),
+            Ok(Event::Eof) => {
+                if !document
+                    .child_nodes()
+                    .iter()
+                    .any(|child| child.node_type() == NodeType::Element)
+                {
+                    error!("no root element before the end of the input");
+                    return Error::Malformed.into();
+                }
+                return Ok(document);
+            }
             Ok(ev) => {
                 error!("Unexpected parser event: {:?}", ev);
                 return Error::Malformed.into();
-- 
2.43.0


From 0934025eb24f7c59dc05fcec6d3f9cfa2e3b19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 04/50] fix: parser returns errors instead of panicking on
 malformed input

Invalid names, duplicate or unquoted attributes, reserved processing
instruction targets, unknown XML versions, bad encoding names and undecodable
declarations all hit an unwrap or a panic inside the parser.
---
 src/level2/ext/decl.rs |  2 +-
 src/parser/mod.rs      | 39 ++++++++++++++++++++-------------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/level2/ext/decl.rs b/src/level2/ext/decl.rs
index b64e5d3..26094ba 100644
--- a/src/level2/ext/decl.rs
+++ b/src/level2/ext/decl.rs
@@ -68,7 +68,7 @@ fn is_encoding_sub_string(s: &str) -> bool {
     s.chars().all(is_encoding_rest_char)
 }
 
-fn is_encoding(s: &str) -> bool {
+pub(crate) fn is_encoding(s: &str) -> bool {
     !s.is_empty()
         && s.starts_with(is_encoding_start_char)
         && s[1..].split(ENCODING_SEP_CHAR).all(is_encoding_sub_string)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6cf8270..fddb644 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -19,6 +19,7 @@ assert!(dom.is_ok());
 */
 
 use crate::level2::convert::as_document_mut;
+use crate::level2::ext::decl::is_encoding;
 use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
@@ -137,11 +138,13 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                         return Error::Malformed.into();
                     } else {
                         let (version, encoding, standalone) = make_decl(reader, ev)?;
-                        *i_xml_declaration = Some(XmlDecl::new(
-                            XmlVersion::from_str(&version).unwrap(),
-                            encoding,
-                            standalone,
-                        ));
+                        let version =
+                            XmlVersion::from_str(&version).map_err(|_| Error::Malformed)?;
+                        if !encoding.as_deref().map_or(true, is_encoding) {
+                            error!("XML encoding declaration value is not valid");
+                            return Error::Malformed.into();
+                        }
+                        *i_xml_declaration = Some(XmlDecl::new(version, encoding, standalone));
                     }
                 }
             }
@@ -261,7 +264,7 @@ fn handle_start<T: BufRead>(
     let mut element = {
         let mut_document = as_document_mut(document).unwrap();
         let name = reader.decoder().decode(ev.name().into_inner())?;
-        let new_node = mut_document.create_element(&name).unwrap();
+        let new_node = mut_document.create_element(&name)?;
         let mut actual_parent = match parent_node {
             None => document.clone(),
             Some(actual) => actual.clone(),
@@ -270,7 +273,7 @@ fn handle_start<T: BufRead>(
     };
 
     for attribute in ev.attributes() {
-        let attribute = attribute.unwrap();
+        let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
@@ -331,7 +334,7 @@ fn handle_cdata<T: BufRead>(
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
     let text = make_cdata(reader, ev)?;
-    let new_node = mut_document.create_cdata_section(text.as_ref()).unwrap();
+    let new_node = mut_document.create_cdata_section(text.as_ref())?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -352,9 +355,7 @@ fn handle_pi<T: BufRead>(
         "" => None,
         data => Some(data),
     };
-    let new_node = mut_document
-        .create_processing_instruction(&target, data)
-        .unwrap();
+    let new_node = mut_document.create_processing_instruction(&target, data)?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -378,22 +379,22 @@ fn make_decl<T: BufRead>(
     reader: &mut Reader<T>,
     ev: BytesDecl<'_>,
 ) -> Result<(String, Option<String>, Option<bool>)> {
-    let version = ev.version().unwrap();
+    let version = ev.version()?;
     let version = version.borrow();
-    let version = reader.decoder().decode(version).unwrap();
+    let version = reader.decoder().decode(version)?;
     let version = unquote(version.to_string())?;
     let encoding = if let Some(ev_value) = ev.encoding() {
-        let encoding = ev_value.unwrap();
+        let encoding = ev_value.map_err(quick_xml::Error::from)?;
         let encoding = encoding.borrow();
-        let encoding = reader.decoder().decode(encoding).unwrap();
+        let encoding = reader.decoder().decode(encoding)?;
         Some(encoding.to_string())
     } else {
         None
     };
     let standalone = if let Some(ev_value) = ev.standalone() {
-        let standalone = ev_value.unwrap();
+        let standalone = ev_value.map_err(quick_xml::Error::from)?;
         let standalone = standalone.borrow();
-        let standalone = reader.decoder().decode(standalone).unwrap();
+        let standalone = reader.decoder().decode(standalone)?;
         Some(standalone == "yes")
     } else {
         None
@@ -403,9 +404,9 @@ fn make_decl<T: BufRead>(
 
 #[allow(clippy::if_same_then_else)]
 fn unquote(s: String) -> Result<String> {
-    if s.starts_with('"') && s.ends_with('"') {
+    if s.len() > 1 && s.starts_with('"') && s.ends_with('"') {
         Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('\'') && s.ends_with('\'') {
+    } else if s.len() > 1 && s.starts_with('\'') && s.ends_with('\'') {
         Ok(s[1..s.len() - 1].to_string())
     } else if s.starts_with('"') || s.starts_with('\'') {
         Error::InvalidCharacter.into()
-- 
2.43.0


From 977537e343300a63a3ac269da071d8f4c6380ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 05/50] fix: attribute values read from a file keep escaped
 ampersands

The parser stored the unescaped value, which the attribute then parsed for
references a second time: a="&amp;lt;" panicked when the value was read and
a="&amp;#65;" turned into "A".
---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index fddb644..57faec7 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -24,6 +24,7 @@ use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
+use crate::shared::text::escape;
 use quick_xml::events::{
     BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event,
 };
@@ -276,7 +277,10 @@ fn handle_start<T: BufRead>(
         let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
-        let attribute_node = document.create_attribute_with(&name, &value)?;
+        //
+        // An attribute holds its value unparsed, references are replaced when it is read.
+        //
+        let attribute_node = document.create_attribute_with(&name, &escape(value))?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
     }
 
-- 
2.43.0


From a93d3717d36644d5af937953e7bf424dd6d8eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 06/50] fix: names starting with a multi-byte character do not
 panic
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

is_xml_name sliced at byte 1, which is inside the first character of names
such as "été".
---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 4eddaed..f274a36 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -389,7 +389,7 @@ pub(crate) fn is_xml_name_char(c: char) -> bool {
 ///
 pub(crate) fn is_xml_name(s: impl AsRef<str>) -> bool {
     let s = s.as_ref();
-    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s[1..].chars().all(is_xml_name_char)
+    s.starts_with(is_xml_name_start_char) && s.chars().all(is_xml_name_char)
 }
 
 ///
-- 
2.43.0


From 2b3943d4e8f0763793fd6378f00b49d8d9dce0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 07/50] fix: out-of-range character references do not panic

Reading an attribute value such as "&#x110000;" or "&#xD800;" panicked; a
reference which names no character is now left as it stands.
---
 src/shared/text.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index f274a36..ee9837e 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -222,13 +222,18 @@ fn char_from_entity(entity: impl AsRef<str>) -> String {
     assert!(entity.ends_with(';'));
     let code_point = if &entity[2..3] == "x" {
         let code_point = &entity[3..entity.len() - 1];
-        u32::from_str_radix(code_point, 16).unwrap()
+        u32::from_str_radix(code_point, 16).ok()
     } else {
         let code_point = &entity[2..entity.len() - 1];
-        code_point.parse::<u32>().unwrap()
+        code_point.parse::<u32>().ok()
     };
-    let character = char::try_from(code_point).unwrap();
-    character.to_string()
+    match code_point.and_then(char::from_u32) {
+        None => {
+            warn!("'{}' does not refer to a character", entity);
+            entity.to_string()
+        }
+        Some(character) => character.to_string(),
+    }
 }
 
 ///
-- 
2.43.0


From 86d7aa7523427336374c61144538247bf953364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 08/50] fix: attribute values may refer to the predefined
 entities

Reading an attribute set to "a &lt; b" panicked with an unknown entity.
---
 src/level2/entity_resolver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/level2/entity_resolver.rs b/src/level2/entity_resolver.rs
index 3f633d4..e56537b 100644
--- a/src/level2/entity_resolver.rs
+++ b/src/level2/entity_resolver.rs
@@ -13,6 +13,17 @@ use std::str::FromStr;
 
 impl EntityResolver for RefNode {
     fn resolve(&self, entity: &str) -> Option<String> {
+        //
+        // These are declared in every document, see XML 1.1 §4.6 Predefined Entities.
+        //
+        match entity {
+            "&amp;" => return Some("&#38;".to_string()),
+            "&apos;" => return Some("&#39;".to_string()),
+            "&gt;" => return Some("&#62;".to_string()),
+            "&lt;" => return Some("&#60;".to_string()),
+            "&quot;" => return Some("&#34;".to_string()),
+            _ => (),
+        }
         let doc_type = match self.node_type() {
             NodeType::DocumentType => Some(self.clone()),
             NodeType::Document => {
-- 
2.43.0


From 8b5f902f2be025dc8f2860cde5502a4194064b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 09/50] fix: insert_before puts a moved sibling where it was
 asked to

The position of ref_child was taken before new_child was removed from the same
parent, so moving a node forwards among its siblings placed it one position too
far (or panicked at the end of the list), and a node inserted before itself
ended up after its next sibling.
---
 src/level2/trait_impls.rs | 44 +++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 23d0927..0ed733a 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -947,27 +947,22 @@ impl Node for RefNode {
             return Error::HierarchyRequest.into();
         }
 
-        //
-        // Find the index in `child_nodes` of the `ref_child`.
-        //
-        let insert_position = match ref_child {
-            None => None,
-            Some(ref_child) => match self
-                .borrow()
-                .i_child_nodes
-                .iter()
-                .position(|child| child == &ref_child)
-            {
-                None => {
-                    warn!("insert_before: ref_child not found in `child_nodes`");
-                    return Error::NotFound.into();
-                }
-                position => position,
-            },
-        };
+        if let Some(ref_child) = &ref_child {
+            if !self.borrow().i_child_nodes.contains(ref_child) {
+                warn!("insert_before: ref_child not found in `child_nodes`");
+                return Error::NotFound.into();
+            }
+        }
 
         check_same_document(self, &new_child)?;
 
+        //
+        // A node inserted before itself is already where it should be.
+        //
+        if ref_child.as_ref() == Some(&new_child) {
+            return Ok(new_child);
+        }
+
         //
         // Remove from it's current parent
         //
@@ -978,6 +973,19 @@ impl Node for RefNode {
             }
         }
 
+        //
+        // Find the index in `child_nodes` of the `ref_child`, this has to follow the removal above
+        // as that moves `ref_child` if both are children of this node.
+        //
+        let insert_position = match ref_child {
+            None => None,
+            Some(ref_child) => self
+                .borrow()
+                .i_child_nodes
+                .iter()
+                .position(|child| child == &ref_child),
+        };
+
         //
         // update new child with references from self
         //
-- 
2.43.0


From cf015ff12a053e8a90c04bf708a26773d08a7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 10/50] fix: a node cannot be inserted below itself

Nothing checked that the new child is not the parent or one of its ancestors:
appending a node to itself panicked on the RefCell, and appending an ancestor
made a cycle which leaked and overflowed the stack when displayed.
---
 src/level2/trait_impls.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 0ed733a..41a61dc 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -487,6 +487,11 @@ impl Element for RefNode {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
 
+            if is_self_or_ancestor(&new_attribute, self) {
+                warn!("The attribute you tried to set contains this element.");
+                return Err(Error::HierarchyRequest);
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -933,6 +938,11 @@ impl Node for RefNode {
             return Err(Error::HierarchyRequest);
         }
 
+        if is_self_or_ancestor(&new_child, self) {
+            warn!("The child you tried to add is this node, or one of its ancestors.");
+            return Err(Error::HierarchyRequest);
+        }
+
         //
         // Special case for Document only.
         //
@@ -1213,6 +1223,25 @@ fn namespaced_name_match(
     }
 }
 
+//
+// Is `candidate` either `node` itself, or one of the nodes that contain it. For this purpose an
+// attribute is contained by its owner element.
+//
+fn is_self_or_ancestor(candidate: &RefNode, node: &RefNode) -> bool {
+    let mut current = Some(node.clone());
+    while let Some(node) = current {
+        if candidate == &node {
+            return true;
+        }
+        current = if is_attribute(&node) {
+            node.owner_element()
+        } else {
+            node.parent_node()
+        };
+    }
+    false
+}
+
 //
 // CHECK: Raise `Error::WrongDocument` if `newChild` was created from a different
 // document than the one that created this node.
-- 
2.43.0


From 1fdca95cadbb441a284011db59736c7c0ce45807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 11/50] fix: replace_child changes nothing when the new child
 is refused

The old child was removed before all checks on the new child were made, so a
failing call lost it. The check for a second root element now also leaves out
the node being moved or replaced: re-inserting or replacing a document's root
element was refused.
---
 src/level2/trait_impls.rs | 64 +++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 41a61dc..c5495b1 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -933,29 +933,7 @@ impl Node for RefNode {
             }
         }
 
-        if !is_child_allowed(self, &new_child) {
-            warn!("The child you tried to add is not valid for this parent.");
-            return Err(Error::HierarchyRequest);
-        }
-
-        if is_self_or_ancestor(&new_child, self) {
-            warn!("The child you tried to add is this node, or one of its ancestors.");
-            return Err(Error::HierarchyRequest);
-        }
-
-        //
-        // Special case for Document only.
-        //
-        if is_document(self)
-            && is_element(&new_child)
-            && self
-                .child_nodes()
-                .iter()
-                .any(|n| n.node_type() == NodeType::Element)
-        {
-            warn!("cannot add more than one element to a document");
-            return Error::HierarchyRequest.into();
-        }
+        check_child_allowed(self, &new_child, None)?;
 
         if let Some(ref_child) = &ref_child {
             if !self.borrow().i_child_nodes.contains(ref_child) {
@@ -1030,9 +1008,8 @@ impl Node for RefNode {
     }
 
     fn replace_child(&mut self, new_child: RefNode, old_child: RefNode) -> Result<RefNode> {
-        if !is_child_allowed(self, &new_child) {
-            return Err(Error::HierarchyRequest);
-        }
+        check_child_allowed(self, &new_child, Some(&old_child))?;
+        check_same_document(self, &new_child)?;
         let exists = {
             let ref_self = self.borrow();
             ref_self.i_child_nodes.contains(&old_child.clone())
@@ -1242,6 +1219,41 @@ fn is_self_or_ancestor(candidate: &RefNode, node: &RefNode) -> bool {
     false
 }
 
+//
+// CHECK: Raise `Error::HierarchyRequest` if `new_child` may not be added to the node `parent`, in
+// the place of `replaced` if present.
+//
+fn check_child_allowed(
+    parent: &RefNode,
+    new_child: &RefNode,
+    replaced: Option<&RefNode>,
+) -> Result<()> {
+    if !is_child_allowed(parent, new_child) {
+        warn!("The child you tried to add is not valid for this parent.");
+        return Err(Error::HierarchyRequest);
+    }
+
+    if is_self_or_ancestor(new_child, parent) {
+        warn!("The child you tried to add is this node, or one of its ancestors.");
+        return Err(Error::HierarchyRequest);
+    }
+
+    //
+    // Special case for Document only.
+    //
+    if is_document(parent)
+        && is_element(new_child)
+        && parent
+            .child_nodes()
+            .iter()
+            .any(|n| is_element(n) && n != new_child && Some(n) != replaced)
+    {
+        warn!("cannot add more than one element to a document");
+        return Error::HierarchyRequest.into();
+    }
+    Ok(())
+}
+
 //
 // CHECK: Raise `Error::WrongDocument` if `newChild` was created from a different
 // document than the one that created this node.
-- 
2.43.0


From c0b065ae55aa8b965ac5bb6ca8892ad75c59ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 12/50] fix: nodes stay usable after their document or parent
 is dropped

Comparing owner documents, setting an attribute or its value, and resolving
namespaces all unwrapped weak references, and panicked for nodes which outlive
their document or parent.
---
 src/level2/ext/namespaced.rs | 24 ++++++++++++++----------
 src/level2/trait_impls.rs    | 33 +++++++++++++++------------------
 src/shared/rc_cell.rs        |  9 +++++++++
 3 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 48b1fef..bdc8479 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -144,11 +144,13 @@ impl Namespaced for RefNode {
                 let ref_self = self.borrow();
                 match &ref_self.i_parent_node {
                     None => None,
-                    Some(parent) => {
-                        let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_namespace(prefix)
-                    }
+                    Some(parent) => match parent.clone().upgrade() {
+                        None => {
+                            warn!("{}", MSG_WEAK_REF);
+                            None
+                        }
+                        Some(parent_node) => parent_node.resolve_namespace(prefix),
+                    },
                 }
             }
             found => found,
@@ -192,11 +194,13 @@ impl Namespaced for RefNode {
                 let ref_self = self.borrow();
                 match &ref_self.i_parent_node {
                     None => NamespacePrefix::None,
-                    Some(parent) => {
-                        let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_prefix(namespace_uri)
-                    }
+                    Some(parent) => match parent.clone().upgrade() {
+                        None => {
+                            warn!("{}", MSG_WEAK_REF);
+                            NamespacePrefix::None
+                        }
+                        Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
+                    },
                 }
             }
             found => found,
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c5495b1..5d1d885 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -103,9 +103,14 @@ impl Attribute for RefNode {
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
         self.unset_value()?;
-        let document_node = self.owner_document().unwrap();
-        let document = as_document(&document_node).unwrap();
-        let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
+        let text_node = {
+            let ref_self = self.borrow();
+            match &ref_self.i_owner_document {
+                None => return Err(Error::InvalidState),
+                Some(document) => NodeImpl::new_text(document.clone(), value),
+            }
+        };
+        let _safe_to_ignore = self.append_child(RefNode::new(text_node))?;
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
@@ -526,12 +531,11 @@ impl Element for RefNode {
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
                 let _safe_to_ignore =
                     i_attributes.insert(new_attribute.node_name(), new_attribute.clone());
-                {
-                    //
-                    // Add to the owning document's id_map hash
-                    //
-                    let attribute = as_attribute(&new_attribute).unwrap();
-                    let document = attribute.owner_document().unwrap();
+                //
+                // Add to the owning document's id_map hash, if there still is a document.
+                //
+                let attribute = as_attribute(&new_attribute).unwrap();
+                if let Some(document) = attribute.owner_document() {
                     let mut mut_document = document.borrow_mut();
                     let lax =
                         if let Extension::Document { i_options, .. } = &mut_document.i_extension {
@@ -1264,10 +1268,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
             let child_document = &new_child.borrow().i_owner_document;
             if !match child_document {
                 None => true,
-                Some(child_document) => {
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_node == &child_document
-                }
+                Some(child_document) => &self_node.clone().downgrade() == child_document,
             } {
                 warn!("Error::WrongDocument: child could not be added to the document node.");
                 return Err(Error::WrongDocument);
@@ -1279,11 +1280,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (None, None) => true,
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
-                (Some(self_document), Some(child_document)) => {
-                    let self_document = self_document.clone().upgrade().unwrap();
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_document == child_document
-                }
+                (Some(self_document), Some(child_document)) => self_document == child_document,
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
                 return Err(Error::WrongDocument);
diff --git a/src/shared/rc_cell.rs b/src/shared/rc_cell.rs
index f4097b8..7d73591 100644
--- a/src/shared/rc_cell.rs
+++ b/src/shared/rc_cell.rs
@@ -83,6 +83,15 @@ impl<T> Clone for WeakRefCell<T> {
 
 // ------------------------------------------------------------------------------------------------
 
+impl<T> PartialEq for WeakRefCell<T> {
+    fn eq(&self, other: &Self) -> bool {
+        // As for RcRefCell, this does not require that the value is still alive.
+        Weak::ptr_eq(&self.inner, &other.inner)
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+
 impl<T> WeakRefCell<T> {
     pub fn as_inner(&self) -> &Weak<RefCell<T>> {
         &self.inner
-- 
2.43.0


From e455518e3cf1c7877262de2358729c639bc0e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 13/50] fix: xmlns:p attributes map the prefix p

The mapping was stored under the attribute's own prefix, so declaring any
prefix only ever mapped "xmlns", each declaration replacing the last.
---
 src/level2/trait_impls.rs | 4 +++-
 src/parser/mod.rs         | 4 +---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 5d1d885..54adf1a 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -523,7 +523,9 @@ impl Element for RefNode {
                 let as_namespaced = as_element_namespaced_mut(self).unwrap();
                 let _ignore = match &name.prefix() {
                     None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(prefix) => as_namespaced.insert_mapping(Some(prefix), &namespace_uri),
+                    Some(_) => {
+                        as_namespaced.insert_mapping(Some(name.local_name()), &namespace_uri)
+                    }
                 }?;
             }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 57faec7..91267a6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -25,9 +25,7 @@ use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
 use crate::shared::text::escape;
-use quick_xml::events::{
-    BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event,
-};
+use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
 use std::io::BufRead;
-- 
2.43.0


From 0db5a8aa2de7c4952a0b3e2837d633ab44dc174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 14/50] fix: remove_attribute_node only removes the node it is
 given, completely

It removed whatever attribute had the same name and succeeded for attributes
the element does not have, left the owner element set, and left the namespace
mapping and the document's ID map pointing at the removed attribute.
---
 src/level2/trait_impls.rs | 84 +++++++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 12 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 54adf1a..31ab60e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -577,19 +577,39 @@ impl Element for RefNode {
 
     fn remove_attribute_node(&mut self, old_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) {
-            let mut mut_self = self.borrow_mut();
-            if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
-                let mut_old = old_attribute.clone();
-                let mut mut_old = mut_old.borrow_mut();
-                mut_old.i_parent_node = None;
-                // TODO: remove from Element::namespaces
-                // TODO: remove from Document::id_map
-                Ok(old_attribute)
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::Syntax)
+            let name = old_attribute.node_name();
+            {
+                let mut mut_self = self.borrow_mut();
+                if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
+                    if i_attributes.get(&name) != Some(&old_attribute) {
+                        warn!("remove_attribute_node: not an attribute of this element");
+                        return Err(Error::NotFound);
+                    }
+                    let _safe_to_ignore = i_attributes.remove(&name);
+                } else {
+                    warn!("{}", MSG_INVALID_EXTENSION);
+                    return Err(Error::Syntax);
+                }
+            }
+            if let Extension::Attribute { i_owner_element } =
+                &mut old_attribute.borrow_mut().i_extension
+            {
+                *i_owner_element = None;
+            }
+            if name.is_namespace_attribute() {
+                //
+                // Remove from the element's namespace mapping hash
+                //
+                let as_namespaced = as_element_namespaced_mut(self).unwrap();
+                let _safe_to_ignore = match name.prefix() {
+                    None => as_namespaced.remove_mapping(None),
+                    Some(_) => as_namespaced.remove_mapping(Some(name.local_name())),
+                }?;
+            }
+            if is_id_attribute(&old_attribute) {
+                remove_stale_ids(self);
             }
+            Ok(old_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
             Err(Error::InvalidState)
@@ -1206,6 +1226,46 @@ fn namespaced_name_match(
     }
 }
 
+//
+// Is this an ID attribute, given the options of the document that owns it.
+//
+fn is_id_attribute(attribute: &RefNode) -> bool {
+    if let Some(document) = attribute.owner_document() {
+        if let Extension::Document { i_options, .. } = &document.borrow().i_extension {
+            return attribute
+                .node_name()
+                .is_id_attribute(i_options.has_assume_ids());
+        }
+    }
+    false
+}
+
+//
+// The values of all ID attributes of `element`.
+//
+fn element_ids(element: &RefNode) -> Vec<String> {
+    element
+        .attributes()
+        .values()
+        .filter(|attribute| is_id_attribute(attribute))
+        .filter_map(|attribute| attribute.value())
+        .collect()
+}
+
+//
+// Remove any ID from the document's id_map hash which `element` does not have any more.
+//
+fn remove_stale_ids(element: &RefNode) {
+    if let Some(document) = element.owner_document() {
+        let ids = element_ids(element);
+        let element = element.clone().downgrade();
+        let mut mut_document = document.borrow_mut();
+        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
+            i_id_map.retain(|id, weak_ref| weak_ref != &element || ids.contains(id));
+        }
+    }
+}
+
 //
 // Is `candidate` either `node` itself, or one of the nodes that contain it. For this purpose an
 // attribute is contained by its owner element.
-- 
2.43.0


From 0aa40a780af7f77e8eab723f8690eb3ff32dedea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 15/50] fix: setting an ID attribute is all or nothing

A refused duplicate ID left the attribute on the element anyway, and an ID was
taken for a duplicate when the element holding it had been dropped, had given
it up, or was the same element. An ID or xmlns attribute without a value
panicked. Lookup by ID does not return an element which has changed its ID.
---
 src/level2/trait_impls.rs | 127 ++++++++++++++++++++------------------
 1 file changed, 66 insertions(+), 61 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 31ab60e..29da9b7 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -326,21 +326,27 @@ impl Document for RefNode {
     }
 
     fn get_element_by_id(&self, id: &str) -> Option<RefNode> {
-        let ref_self = self.borrow();
-        if let Extension::Document { i_id_map, .. } = &ref_self.i_extension {
-            match i_id_map.get(&id.to_string()) {
-                None => None,
-                Some(weak_ref) => match weak_ref.clone().upgrade() {
-                    None => {
-                        warn!("{}", MSG_WEAK_REF);
-                        None
-                    }
-                    Some(ref_element) => Some(ref_element),
-                },
+        let weak_ref = {
+            let ref_self = self.borrow();
+            if let Extension::Document { i_id_map, .. } = &ref_self.i_extension {
+                i_id_map.get(id).cloned()
+            } else {
+                warn!("{}", MSG_INVALID_EXTENSION);
+                None
             }
-        } else {
-            warn!("{}", MSG_INVALID_EXTENSION);
-            None
+        };
+        match weak_ref?.upgrade() {
+            None => {
+                warn!("{}", MSG_WEAK_REF);
+                None
+            }
+            //
+            // The value of the attribute may have been changed since the mapping was made.
+            //
+            Some(ref_element) if element_ids(&ref_element).iter().any(|i| i == id) => {
+                Some(ref_element)
+            }
+            Some(_) => None,
         }
     }
 
@@ -497,6 +503,24 @@ impl Element for RefNode {
                 return Err(Error::HierarchyRequest);
             }
 
+            //
+            // Make sure any ID is unique before anything is changed.
+            //
+            let id_value = if is_id_attribute(&new_attribute) {
+                new_attribute.value()
+            } else {
+                None
+            };
+            if let (Some(document), Some(id_value)) = (self.owner_document(), &id_value) {
+                match document.get_element_by_id(id_value) {
+                    Some(other) if &other != self => {
+                        warn!("{}", MSG_DUPLICATE_ID);
+                        return Err(Error::Syntax);
+                    }
+                    _ => (),
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -517,58 +541,39 @@ impl Element for RefNode {
                 //
                 // Add to the element's namespace mapping hash
                 //
-                let attribute = as_attribute(&new_attribute).unwrap();
-                let namespace_uri = attribute.value().unwrap();
+                if let Some(namespace_uri) = new_attribute.value() {
+                    let as_namespaced = as_element_namespaced_mut(self).unwrap();
+                    let _ignore = match &name.prefix() {
+                        None => as_namespaced.insert_mapping(None, &namespace_uri),
+                        Some(_) => {
+                            as_namespaced.insert_mapping(Some(name.local_name()), &namespace_uri)
+                        }
+                    }?;
+                }
+            }
 
-                let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                let _ignore = match &name.prefix() {
-                    None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(_) => {
-                        as_namespaced.insert_mapping(Some(name.local_name()), &namespace_uri)
-                    }
-                }?;
+            {
+                let mut mut_self = self.borrow_mut();
+                if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
+                    let _safe_to_ignore = i_attributes.insert(name, new_attribute.clone());
+                } else {
+                    warn!("{}", MSG_INVALID_EXTENSION);
+                    return Err(Error::Syntax);
+                }
             }
 
-            let mut mut_self = self.borrow_mut();
-            if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore =
-                    i_attributes.insert(new_attribute.node_name(), new_attribute.clone());
-                //
-                // Add to the owning document's id_map hash, if there still is a document.
-                //
-                let attribute = as_attribute(&new_attribute).unwrap();
-                if let Some(document) = attribute.owner_document() {
-                    let mut mut_document = document.borrow_mut();
-                    let lax =
-                        if let Extension::Document { i_options, .. } = &mut_document.i_extension {
-                            i_options.has_assume_ids()
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                            false
-                        };
-                    if name.is_id_attribute(lax) {
-                        //
-                        // Update the document ID mapping
-                        //
-                        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension
-                        {
-                            let id_value = attribute.value().unwrap();
-                            if i_id_map.contains_key(&id_value) {
-                                warn!("{}", MSG_DUPLICATE_ID);
-                                return Err(Error::Syntax);
-                            }
-                            let _safe_to_ignore =
-                                i_id_map.insert(id_value, self.clone().downgrade());
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                        }
-                    }
+            //
+            // Add to the owning document's id_map hash, if there still is a document.
+            //
+            if let (Some(document), Some(id_value)) = (self.owner_document(), id_value) {
+                let mut mut_document = document.borrow_mut();
+                if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
+                    let _safe_to_ignore = i_id_map.insert(id_value, self.clone().downgrade());
+                } else {
+                    warn!("{}", MSG_INVALID_EXTENSION);
                 }
-                Ok(new_attribute)
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::Syntax)
             }
+            Ok(new_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
             Err(Error::InvalidState)
-- 
2.43.0


From a50579a4f2480b7d852b8792129de74d6500ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 16/50] fix: an element has one attribute per name, and an
 attribute one element

An attribute in use by another element was accepted and then shared by both.
The same qualified name with and without a namespace, or the same namespace and
local name with another prefix, gave two attributes, and reading one of them
depended on the hash seed. A replaced attribute kept its owner element,
namespace mapping and ID.
---
 src/level2/trait_impls.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 29da9b7..5ef0765 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -503,6 +503,15 @@ impl Element for RefNode {
                 return Err(Error::HierarchyRequest);
             }
 
+            match new_attribute.owner_element() {
+                None => (),
+                Some(owner) if &owner == self => return Ok(new_attribute),
+                Some(_) => {
+                    warn!("The attribute you tried to set belongs to another element.");
+                    return Err(Error::InUseAttribute);
+                }
+            }
+
             //
             // Make sure any ID is unique before anything is changed.
             //
@@ -521,6 +530,16 @@ impl Element for RefNode {
                 }
             }
 
+            //
+            // Remove any attribute this one replaces.
+            //
+            let name: Name = new_attribute.node_name();
+            for old_attribute in self.attributes().values() {
+                if is_same_attribute(&old_attribute.node_name(), &name) {
+                    let _safe_to_ignore = self.remove_attribute_node(old_attribute.clone())?;
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -536,7 +555,6 @@ impl Element for RefNode {
                 }
             }
 
-            let name: Name = new_attribute.node_name();
             if name.is_namespace_attribute() {
                 //
                 // Add to the element's namespace mapping hash
@@ -1231,6 +1249,17 @@ fn namespaced_name_match(
     }
 }
 
+//
+// An element may only have one attribute with some qualified name, and only one with some namespace
+// and local name.
+//
+fn is_same_attribute(a: &Name, b: &Name) -> bool {
+    (a.prefix() == b.prefix() && a.local_name() == b.local_name())
+        || (a.namespace_uri().is_some()
+            && a.namespace_uri() == b.namespace_uri()
+            && a.local_name() == b.local_name())
+}
+
 //
 // Is this an ID attribute, given the options of the document that owns it.
 //
-- 
2.43.0


From 0bb61e8343b5d26c215e197020db4c369121b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 17/50] fix: text nodes of attributes know whether they have a
 parent

The text node an attribute is created with had no parent, so moving it into an
element left it in the attribute as well, and text nodes dropped from an
attribute by unset_value or set_value still reported it as their parent.
---
 src/level2/trait_impls.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 5ef0765..c64ad8d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -115,7 +115,9 @@ impl Attribute for RefNode {
     }
     fn unset_value(&mut self) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_child_nodes.clear();
+        for child_node in mut_self.i_child_nodes.drain(..) {
+            child_node.borrow_mut().i_parent_node = None;
+        }
         Ok(())
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
@@ -263,7 +265,7 @@ impl Document for RefNode {
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
         let name = Name::from_str(name)?;
         let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, Some(value));
-        Ok(RefNode::new(node_impl))
+        Ok(new_attribute_node(node_impl))
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
@@ -457,7 +459,8 @@ impl Element for RefNode {
             let document = ref_self.i_owner_document.as_ref().unwrap();
             NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(new_attribute_node(attr_node))
+            .map(|_| ())
     }
 
     fn remove_attribute(&mut self, name: &str) -> Result<()> {
@@ -684,7 +687,8 @@ impl Element for RefNode {
             let document = ref_self.i_owner_document.as_ref().unwrap();
             NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(new_attribute_node(attr_node))
+            .map(|_| ())
     }
 
     fn remove_attribute_ns(&mut self, namespace_uri: &str, local_name: &str) -> Result<()> {
@@ -1249,6 +1253,17 @@ fn namespaced_name_match(
     }
 }
 
+//
+// Make a new attribute the parent of the text node holding its value.
+//
+fn new_attribute_node(node_impl: NodeImpl) -> RefNode {
+    let attribute = RefNode::new(node_impl);
+    for child_node in attribute.child_nodes() {
+        child_node.borrow_mut().i_parent_node = Some(attribute.clone().downgrade());
+    }
+    attribute
+}
+
 //
 // An element may only have one attribute with some qualified name, and only one with some namespace
 // and local name.
-- 
2.43.0


From b7d4c08963aa1e2cefd849f15f32da5359ce1acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 18/50] fix: changing an attribute's value updates what depends
 on it

Setting or unsetting the value of an xmlns or ID attribute through the
attribute node left the element's namespace mapping and the document's ID map
with the old value.
---
 src/level2/trait_impls.rs | 140 +++++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 55 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c64ad8d..e5e8e4c 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -102,7 +102,6 @@ impl Attribute for RefNode {
         }
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
-        self.unset_value()?;
         let text_node = {
             let ref_self = self.borrow();
             match &ref_self.i_owner_document {
@@ -110,13 +109,29 @@ impl Attribute for RefNode {
                 Some(document) => NodeImpl::new_text(document.clone(), value),
             }
         };
+        let owner_element = self.owner_element();
+        if let Some(owner_element) = &owner_element {
+            if is_id_attribute(self) {
+                let value = text::normalize_attribute_value(value, self, false);
+                check_unique_id(owner_element, &text::escape(value))?;
+            }
+        }
+        self.unset_value()?;
         let _safe_to_ignore = self.append_child(RefNode::new(text_node))?;
+        if let Some(mut owner_element) = owner_element {
+            index_attribute(&mut owner_element, self)?;
+        }
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
-        let mut mut_self = self.borrow_mut();
-        for child_node in mut_self.i_child_nodes.drain(..) {
-            child_node.borrow_mut().i_parent_node = None;
+        {
+            let mut mut_self = self.borrow_mut();
+            for child_node in mut_self.i_child_nodes.drain(..) {
+                child_node.borrow_mut().i_parent_node = None;
+            }
+        }
+        if let Some(mut owner_element) = self.owner_element() {
+            unindex_attribute(&mut owner_element, self)?;
         }
         Ok(())
     }
@@ -518,18 +533,9 @@ impl Element for RefNode {
             //
             // Make sure any ID is unique before anything is changed.
             //
-            let id_value = if is_id_attribute(&new_attribute) {
-                new_attribute.value()
-            } else {
-                None
-            };
-            if let (Some(document), Some(id_value)) = (self.owner_document(), &id_value) {
-                match document.get_element_by_id(id_value) {
-                    Some(other) if &other != self => {
-                        warn!("{}", MSG_DUPLICATE_ID);
-                        return Err(Error::Syntax);
-                    }
-                    _ => (),
+            if is_id_attribute(&new_attribute) {
+                if let Some(id_value) = new_attribute.value() {
+                    check_unique_id(self, &id_value)?;
                 }
             }
 
@@ -558,21 +564,6 @@ impl Element for RefNode {
                 }
             }
 
-            if name.is_namespace_attribute() {
-                //
-                // Add to the element's namespace mapping hash
-                //
-                if let Some(namespace_uri) = new_attribute.value() {
-                    let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                    let _ignore = match &name.prefix() {
-                        None => as_namespaced.insert_mapping(None, &namespace_uri),
-                        Some(_) => {
-                            as_namespaced.insert_mapping(Some(name.local_name()), &namespace_uri)
-                        }
-                    }?;
-                }
-            }
-
             {
                 let mut mut_self = self.borrow_mut();
                 if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
@@ -583,17 +574,7 @@ impl Element for RefNode {
                 }
             }
 
-            //
-            // Add to the owning document's id_map hash, if there still is a document.
-            //
-            if let (Some(document), Some(id_value)) = (self.owner_document(), id_value) {
-                let mut mut_document = document.borrow_mut();
-                if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
-                    let _safe_to_ignore = i_id_map.insert(id_value, self.clone().downgrade());
-                } else {
-                    warn!("{}", MSG_INVALID_EXTENSION);
-                }
-            }
+            index_attribute(self, &new_attribute)?;
             Ok(new_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
@@ -622,19 +603,7 @@ impl Element for RefNode {
             {
                 *i_owner_element = None;
             }
-            if name.is_namespace_attribute() {
-                //
-                // Remove from the element's namespace mapping hash
-                //
-                let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                let _safe_to_ignore = match name.prefix() {
-                    None => as_namespaced.remove_mapping(None),
-                    Some(_) => as_namespaced.remove_mapping(Some(name.local_name())),
-                }?;
-            }
-            if is_id_attribute(&old_attribute) {
-                remove_stale_ids(self);
-            }
+            unindex_attribute(self, &old_attribute)?;
             Ok(old_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
@@ -1301,6 +1270,67 @@ fn element_ids(element: &RefNode) -> Vec<String> {
         .collect()
 }
 
+//
+// CHECK: Raise `Error::Syntax` if another element than `element` has this ID.
+//
+fn check_unique_id(element: &RefNode, id: &str) -> Result<()> {
+    match element.owner_document().map(|d| d.get_element_by_id(id)) {
+        Some(Some(other)) if &other != element => {
+            warn!("{}", MSG_DUPLICATE_ID);
+            Err(Error::Syntax)
+        }
+        _ => Ok(()),
+    }
+}
+
+//
+// Add an attribute of `element` to the element's namespace mapping hash, if it is a namespace
+// attribute, and to the owning document's id_map hash, if it is an ID attribute and there still is
+// a document.
+//
+fn index_attribute(element: &mut RefNode, attribute: &RefNode) -> Result<()> {
+    let name = attribute.node_name();
+    if name.is_namespace_attribute() {
+        if let Some(namespace_uri) = attribute.value() {
+            let as_namespaced = as_element_namespaced_mut(element).unwrap();
+            let _ignore = match &name.prefix() {
+                None => as_namespaced.insert_mapping(None, &namespace_uri),
+                Some(_) => as_namespaced.insert_mapping(Some(name.local_name()), &namespace_uri),
+            }?;
+        }
+    }
+    if is_id_attribute(attribute) {
+        if let (Some(document), Some(id)) = (element.owner_document(), attribute.value()) {
+            let mut mut_document = document.borrow_mut();
+            if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
+                let _safe_to_ignore = i_id_map.insert(id, element.clone().downgrade());
+            } else {
+                warn!("{}", MSG_INVALID_EXTENSION);
+            }
+        }
+    }
+    Ok(())
+}
+
+//
+// The inverse of `index_attribute`, for an attribute which is not any more an attribute of
+// `element`, or has no value any more.
+//
+fn unindex_attribute(element: &mut RefNode, attribute: &RefNode) -> Result<()> {
+    let name = attribute.node_name();
+    if name.is_namespace_attribute() {
+        let as_namespaced = as_element_namespaced_mut(element).unwrap();
+        let _safe_to_ignore = match name.prefix() {
+            None => as_namespaced.remove_mapping(None),
+            Some(_) => as_namespaced.remove_mapping(Some(name.local_name())),
+        }?;
+    }
+    if is_id_attribute(attribute) {
+        remove_stale_ids(element);
+    }
+    Ok(())
+}
+
 //
 // Remove any ID from the document's id_map hash which `element` does not have any more.
 //
-- 
2.43.0


From d73601dab794952ed5502840a2884c6cbcb908d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 19/50] fix: clones share nothing with the original and are
 linked up

A cloned element shared its attribute nodes with the original, so changing an
attribute of one changed the other; a cloned attribute still named the
original's owner element; and the children of a deep clone had no parent.
---
 src/level2/node_impl.rs   | 25 +++++++++----------------
 src/level2/trait_impls.rs | 27 ++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 1346e7a..3df053c 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -304,12 +304,15 @@ impl NodeImpl {
             },
         }
     }
+    ///
+    /// Clone this node only, without child nodes or attributes.
+    ///
     #[allow(suspicious_double_ref_op)]
-    pub(crate) fn clone_node(&self, deep: bool) -> Self {
+    pub(crate) fn clone_node(&self) -> Self {
         let extension = match &self.i_extension {
             Extension::None => Extension::None,
-            Extension::Attribute { i_owner_element } => Extension::Attribute {
-                i_owner_element: i_owner_element.clone(),
+            Extension::Attribute { .. } => Extension::Attribute {
+                i_owner_element: None,
             },
             Extension::Document {
                 i_implementation,
@@ -337,11 +340,8 @@ impl NodeImpl {
                 i_system_id: i_system_id.clone(),
                 i_internal_subset: i_internal_subset.clone(),
             },
-            Extension::Element {
-                i_attributes,
-                i_namespaces,
-            } => Extension::Element {
-                i_attributes: i_attributes.clone(),
+            Extension::Element { i_namespaces, .. } => Extension::Element {
+                i_attributes: Default::default(),
                 i_namespaces: i_namespaces.clone(),
             },
             entity @ Extension::Entity { .. } => entity.clone(),
@@ -353,14 +353,7 @@ impl NodeImpl {
             i_value: self.i_value.clone(),
             i_parent_node: None,
             i_owner_document: self.i_owner_document.clone(),
-            i_child_nodes: if deep {
-                self.i_child_nodes
-                    .iter()
-                    .map(|node| node.clone_node(deep).unwrap())
-                    .collect()
-            } else {
-                vec![]
-            },
+            i_child_nodes: vec![],
             i_extension: extension,
         }
     }
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index e5e8e4c..941402a 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1081,9 +1081,30 @@ impl Node for RefNode {
     }
 
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
-        let ref_self = self.borrow();
-        let new_node = ref_self.clone_node(deep);
-        Some(RefNode::new(new_node))
+        let new_node = RefNode::new(self.borrow().clone_node());
+        if is_element(self) {
+            for (name, attribute) in self.attributes() {
+                let new_attribute = attribute.clone_node(true)?;
+                if let Extension::Attribute { i_owner_element } =
+                    &mut new_attribute.borrow_mut().i_extension
+                {
+                    *i_owner_element = Some(new_node.clone().downgrade());
+                }
+                if let Extension::Element { i_attributes, .. } =
+                    &mut new_node.borrow_mut().i_extension
+                {
+                    let _safe_to_ignore = i_attributes.insert(name, new_attribute);
+                }
+            }
+        }
+        if deep {
+            for child_node in self.child_nodes() {
+                let new_child = child_node.clone_node(deep)?;
+                new_child.borrow_mut().i_parent_node = Some(new_node.clone().downgrade());
+                new_node.borrow_mut().i_child_nodes.push(new_child);
+            }
+        }
+        Some(new_node)
     }
 
     fn normalize(&mut self) {
-- 
2.43.0


From 2558a3eff4368f39564b443ddbac6da83ed29ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 20/50] fix: document_element is the root element, not the
 first child

With a comment or processing instruction ahead of the root element,
document_element returned that node, and tag name queries on the document
found nothing.
---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 941402a..6445e50 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -256,7 +256,7 @@ impl Document for RefNode {
     }
 
     fn document_element(&self) -> Option<RefNode> {
-        self.child_nodes().first().cloned()
+        self.child_nodes().into_iter().find(is_element)
     }
 
     fn implementation(&self) -> &dyn DOMImplementation<NodeRef = RefNode> {
-- 
2.43.0


From 55775697ef0f753daf5954b561ca6cc39a92e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 21/50] fix: character data offsets inside a character or out
 of range are errors, not panics

---
 src/level2/trait_impls.rs | 50 +++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 6445e50..eb994d5 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -11,6 +11,7 @@ use crate::shared::{display, text};
 use std::collections::hash_map::RandomState;
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::ops::Range;
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -164,7 +165,7 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(String::new());
         }
         let ref_self = self.borrow();
@@ -173,16 +174,7 @@ impl CharacterData for RefNode {
                 warn!("{}", MSG_INDEX_ERROR);
                 Err(Error::IndexSize)
             }
-            Some(data) => {
-                if offset >= data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else if offset + count >= data.len() {
-                    Ok(data[offset..].to_string())
-                } else {
-                    Ok(data[offset..offset + count].to_string())
-                }
-            }
+            Some(data) => data_range(data, offset, count).map(|range| data[range].to_string()),
         }
     }
 
@@ -206,7 +198,7 @@ impl CharacterData for RefNode {
     }
 
     fn delete_data(&mut self, offset: usize, count: usize) -> Result<()> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(());
         }
         const NOTHING: &str = "";
@@ -217,7 +209,7 @@ impl CharacterData for RefNode {
         let mut mut_self = self.borrow_mut();
         match &mut_self.i_value {
             None => {
-                if offset + count != 0 {
+                if offset != 0 || count != 0 {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
                 } else {
@@ -226,19 +218,11 @@ impl CharacterData for RefNode {
                 }
             }
             Some(old_data) => {
-                if offset >= old_data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    let mut new_data = old_data.clone();
-                    if offset + count >= old_data.len() {
-                        new_data.replace_range(offset.., replace_data);
-                    } else {
-                        new_data.replace_range(offset..offset + count, replace_data);
-                    }
-                    mut_self.i_value = Some(new_data);
-                    Ok(())
-                }
+                let range = data_range(old_data, offset, count)?;
+                let mut new_data = old_data.clone();
+                new_data.replace_range(range, replace_data);
+                mut_self.i_value = Some(new_data);
+                Ok(())
             }
         }
     }
@@ -1243,6 +1227,20 @@ fn namespaced_name_match(
     }
 }
 
+//
+// CHECK: Raise `Error::IndexSize` if `offset` is not within `data`, or if either end of the range
+// is not on a character boundary. The range ends with the end of the data if `count` is too large.
+//
+fn data_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
+    let end = offset.saturating_add(count).min(data.len());
+    if offset >= data.len() || !data.is_char_boundary(offset) || !data.is_char_boundary(end) {
+        warn!("{}", MSG_INDEX_ERROR);
+        Err(Error::IndexSize)
+    } else {
+        Ok(offset..end)
+    }
+}
+
 //
 // Make a new attribute the parent of the text node holding its value.
 //
-- 
2.43.0


From baf7691e3773d14f5267a2133488e50c33ad3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 22/50] fix: character data can be inserted at the end

---
 src/level2/trait_impls.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index eb994d5..633005c 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1228,12 +1228,13 @@ fn namespaced_name_match(
 }
 
 //
-// CHECK: Raise `Error::IndexSize` if `offset` is not within `data`, or if either end of the range
-// is not on a character boundary. The range ends with the end of the data if `count` is too large.
+// CHECK: Raise `Error::IndexSize` if `offset` is past the end of `data`, or if either end of the
+// range is not on a character boundary. The range ends with the end of the data if `count` is too
+// large.
 //
 fn data_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
     let end = offset.saturating_add(count).min(data.len());
-    if offset >= data.len() || !data.is_char_boundary(offset) || !data.is_char_boundary(end) {
+    if offset > data.len() || !data.is_char_boundary(offset) || !data.is_char_boundary(end) {
         warn!("{}", MSG_INDEX_ERROR);
         Err(Error::IndexSize)
     } else {
-- 
2.43.0


From 2fbbbc47be0940fb9e0440b8d26c7f74956a22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 23/50] fix: split does not depend on the escaped length of the
 text

---
 src/level2/trait_impls.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 633005c..c7603e5 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1146,16 +1146,9 @@ impl ProcessingInstruction for RefNode {}
 impl Text for RefNode {
     fn split(&mut self, offset: usize) -> Result<RefNode> {
         let new_data = {
-            let text = as_character_data_mut(self)?;
-            let length = text.length();
-            if offset >= length {
-                String::new()
-            } else {
-                let count = length - offset;
-                let new_data = text.substring_data(offset, count)?;
-                text.delete_data(offset, count)?;
-                new_data
-            }
+            let data = self.node_value().unwrap_or_default();
+            let range = data_range(&data, offset.min(data.len()), usize::MAX)?;
+            data[range].to_string()
         };
 
         let new_node = {
@@ -1179,6 +1172,8 @@ impl Text for RefNode {
             }?
         };
 
+        self.delete_data(offset, new_data.len())?;
+
         let new_node = RefNode::new(new_node);
         if let Some(mut parent) = self.parent_node() {
             let _safe_to_ignore = parent.insert_before(new_node.clone(), self.next_sibling())?;
-- 
2.43.0


From c8229cf34df56aff7936bbf50ad9bb6b0f7a1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 24/50] fix: normalize works on the full depth of the sub-tree

---
 src/level2/trait_impls.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c7603e5..cbbc840 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1092,7 +1092,7 @@ impl Node for RefNode {
     }
 
     fn normalize(&mut self) {
-        for child_node in self.child_nodes() {
+        for mut child_node in self.child_nodes() {
             if is_text(&child_node) {
                 if CharacterData::length(&child_node) == 0 {
                     if self.remove_child(child_node).is_err() {
@@ -1112,6 +1112,13 @@ impl Node for RefNode {
                         }
                     }
                 }
+            } else {
+                child_node.normalize();
+            }
+        }
+        if is_element(self) {
+            for mut attribute in self.attributes().into_values() {
+                attribute.normalize();
             }
         }
     }
-- 
2.43.0


From c1b0ac94afe5cac04f49fb6b75230b7550f1eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 25/50] fix: a document type is owned by the document it is
 used with

---
 src/level2/trait_impls.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index cbbc840..9647197 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1535,7 +1535,13 @@ pub(crate) fn create_document_with_options(
     doc_type: Option<RefNode>,
     options: ProcessingOptions,
 ) -> Result<RefNode> {
-    let node_impl = NodeImpl::new_document(doc_type, options);
+    if let Some(doc_type) = &doc_type {
+        if doc_type.borrow().i_owner_document.is_some() {
+            warn!("The document type has already been used with a different document.");
+            return Err(Error::WrongDocument);
+        }
+    }
+    let node_impl = NodeImpl::new_document(doc_type.clone(), options);
     let mut document_node = RefNode::new(node_impl);
 
     //
@@ -1561,5 +1567,9 @@ pub(crate) fn create_document_with_options(
         let _safe_to_ignore = document.append_child(element_node)?;
     }
 
+    if let Some(doc_type) = doc_type {
+        doc_type.borrow_mut().i_owner_document = Some(document_node.clone().downgrade());
+    }
+
     Ok(document_node)
 }
-- 
2.43.0


From 1e2de47149a15aae1481bfa454eaaa0348d6c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:33 +0000
Subject: [PATCH 26/50] fix: resolve_prefix does not return a prefix mapped to
 another namespace

---
 src/level2/ext/namespaced.rs | 37 +++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index bdc8479..a439459 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -97,6 +97,17 @@ fn add_namespaces(element_node: &RefNode) -> bool {
     false
 }
 
+fn mapped_prefixes(node: &RefNode, namespace_uri: &str) -> Vec<Option<String>> {
+    match &node.borrow().i_extension {
+        Extension::Element { i_namespaces, .. } => i_namespaces
+            .iter()
+            .filter(|(_, mapped_uri)| mapped_uri.as_str() == namespace_uri)
+            .map(|(prefix, _)| prefix.clone())
+            .collect(),
+        _ => Vec::default(),
+    }
+}
+
 impl Namespaced for RefNode {
     fn contains_mapping(&self, prefix: Option<&str>) -> bool {
         if !add_namespaces(self) {
@@ -189,22 +200,22 @@ impl Namespaced for RefNode {
         if !add_namespaces(self) {
             return NamespacePrefix::None;
         }
-        match self.get_prefix(namespace_uri) {
-            NamespacePrefix::None => {
-                let ref_self = self.borrow();
-                match &ref_self.i_parent_node {
-                    None => NamespacePrefix::None,
-                    Some(parent) => match parent.clone().upgrade() {
-                        None => {
-                            warn!("{}", MSG_WEAK_REF);
-                            NamespacePrefix::None
-                        }
-                        Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
-                    },
+        let mut current = Some(self.clone());
+        while let Some(node) = current {
+            //
+            // A prefix may be mapped to another namespace between the node found and this one.
+            //
+            for prefix in mapped_prefixes(&node, namespace_uri) {
+                if self.resolve_namespace(prefix.as_deref()).as_deref() == Some(namespace_uri) {
+                    return match prefix {
+                        None => NamespacePrefix::Default,
+                        Some(prefix) => NamespacePrefix::Some(prefix),
+                    };
                 }
             }
-            found => found,
+            current = node.parent_node();
         }
+        NamespacePrefix::None
     }
 }
 
-- 
2.43.0


From 3702fb1c77fb9e8de0c7d602cbd097ec94fd56ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 27/50] fix: the prefix found for a namespace does not depend
 on hash order

---
 src/level2/ext/namespaced.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index a439459..a90d093 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -98,14 +98,16 @@ fn add_namespaces(element_node: &RefNode) -> bool {
 }
 
 fn mapped_prefixes(node: &RefNode, namespace_uri: &str) -> Vec<Option<String>> {
-    match &node.borrow().i_extension {
+    let mut prefixes: Vec<Option<String>> = match &node.borrow().i_extension {
         Extension::Element { i_namespaces, .. } => i_namespaces
             .iter()
             .filter(|(_, mapped_uri)| mapped_uri.as_str() == namespace_uri)
             .map(|(prefix, _)| prefix.clone())
             .collect(),
         _ => Vec::default(),
-    }
+    };
+    prefixes.sort();
+    prefixes
 }
 
 impl Namespaced for RefNode {
@@ -180,7 +182,10 @@ impl Namespaced for RefNode {
         if ref_self.i_node_type == NodeType::Element {
             if let Extension::Element { i_namespaces, .. } = &ref_self.i_extension {
                 let ns = namespace_uri.to_string();
-                let value = i_namespaces.iter().find(|(_, v)| **v == ns);
+                //
+                // More than one prefix may be mapped, do not depend on the order of the map.
+                //
+                let value = i_namespaces.iter().filter(|(_, v)| **v == ns).min();
                 match value {
                     None => NamespacePrefix::None,
                     Some((Some(k), _)) => NamespacePrefix::Some(k.clone()),
-- 
2.43.0


From ec475e8333e8d0542862589bfdb70894e163a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 28/50] fix: a percent sign in an attribute value is not a
 reference

---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index ee9837e..7f69132 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -73,7 +73,7 @@ pub(crate) fn normalize_attribute_value(
     } else {
         static FIND: OnceLock<regex::Regex> = OnceLock::new();
         let find = FIND.get_or_init(|| {regex::Regex::new(
-            r"(?P<entity_ref>[&%][\pL_][\pL\.\d_\-]*;)|(?P<char>&#\d+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])",
+            r"(?P<entity_ref>&[\pL_][\pL\.\d_\-]*;)|(?P<char>&#\d+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])",
         )
         .unwrap()});
         let mut step_2 = String::new();
-- 
2.43.0


From 15d539fb024954d36e63815f6029aa9ed8d8b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 29/50] fix: element queries find the elements inside entity
 references

---
 src/level2/trait_impls.rs | 41 +++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 9647197..a3d7b97 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -603,13 +603,8 @@ impl Element for RefNode {
             if tag_name_match(&ref_self.i_name.to_string(), &tag_name) {
                 results.push(self.clone());
             }
-            for child_node in &ref_self.i_child_nodes {
-                match as_element(child_node) {
-                    Ok(ref_child) => results.extend(ref_child.get_elements_by_tag_name(&tag_name)),
-                    Err(_) => {
-                        warn!("{}", MSG_INVALID_NODE_TYPE);
-                    }
-                }
+            for child_node in child_elements(self) {
+                results.extend(Element::get_elements_by_tag_name(&child_node, &tag_name));
             }
         }
         results
@@ -703,14 +698,12 @@ impl Element for RefNode {
             ) {
                 results.push(self.clone());
             }
-            for child_node in &ref_self.i_child_nodes {
-                match as_element(child_node) {
-                    Ok(ref_child) => results
-                        .extend(ref_child.get_elements_by_tag_name_ns(&namespace_uri, &local_name)),
-                    Err(_) => {
-                        warn!("{}", MSG_INVALID_NODE_TYPE);
-                    }
-                }
+            for child_node in child_elements(self) {
+                results.extend(Element::get_elements_by_tag_name_ns(
+                    &child_node,
+                    &namespace_uri,
+                    &local_name,
+                ));
             }
         }
         results
@@ -1229,6 +1222,24 @@ fn namespaced_name_match(
     }
 }
 
+//
+// The element children of `node`, where an entity reference stands for the nodes it contains.
+//
+fn child_elements(node: &RefNode) -> Vec<RefNode> {
+    node.child_nodes()
+        .into_iter()
+        .flat_map(|child_node| {
+            if is_element(&child_node) {
+                vec![child_node]
+            } else if is_entity_reference(&child_node) {
+                child_elements(&child_node)
+            } else {
+                Vec::default()
+            }
+        })
+        .collect()
+}
+
 //
 // CHECK: Raise `Error::IndexSize` if `offset` is past the end of `data`, or if either end of the
 // range is not on a character boundary. The range ends with the end of the data if `count` is too
-- 
2.43.0


From b1ccb24d452a3e8174cb25caa186347aa1b17e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 30/50] fix: changing an attribute value is all-or-nothing

The owner element is found, which may report a diagnostic, before the old value is taken away.
---
 src/level2/trait_impls.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index a3d7b97..028a534 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -117,21 +117,19 @@ impl Attribute for RefNode {
                 check_unique_id(owner_element, &text::escape(value))?;
             }
         }
-        self.unset_value()?;
-        let _safe_to_ignore = self.append_child(RefNode::new(text_node))?;
+        let text_node = RefNode::new(text_node);
+        text_node.borrow_mut().i_parent_node = Some(self.clone().downgrade());
+        replace_value_nodes(self, vec![text_node]);
         if let Some(mut owner_element) = owner_element {
+            unindex_attribute(&mut owner_element, self)?;
             index_attribute(&mut owner_element, self)?;
         }
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
-        {
-            let mut mut_self = self.borrow_mut();
-            for child_node in mut_self.i_child_nodes.drain(..) {
-                child_node.borrow_mut().i_parent_node = None;
-            }
-        }
-        if let Some(mut owner_element) = self.owner_element() {
+        let owner_element = self.owner_element();
+        replace_value_nodes(self, Vec::default());
+        if let Some(mut owner_element) = owner_element {
             unindex_attribute(&mut owner_element, self)?;
         }
         Ok(())
@@ -1266,6 +1264,16 @@ fn new_attribute_node(node_impl: NodeImpl) -> RefNode {
     attribute
 }
 
+//
+// Exchange the nodes that make up the value of an attribute, all at once.
+//
+fn replace_value_nodes(attribute: &RefNode, value_nodes: Vec<RefNode>) {
+    let old_nodes = std::mem::replace(&mut attribute.borrow_mut().i_child_nodes, value_nodes);
+    for old_node in old_nodes {
+        old_node.borrow_mut().i_parent_node = None;
+    }
+}
+
 //
 // An element may only have one attribute with some qualified name, and only one with some namespace
 // and local name.
-- 
2.43.0


From ad2760fd2e32b6b678b9f2aa64700d3df49d32eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 31/50] fix: splitting a node is all-or-nothing

---
 src/level2/trait_impls.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 028a534..95df8de 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1170,12 +1170,14 @@ impl Text for RefNode {
             }?
         };
 
-        self.delete_data(offset, new_data.len())?;
-
+        //
+        // Shorten this node last, if the new node cannot be inserted nothing is lost.
+        //
         let new_node = RefNode::new(new_node);
         if let Some(mut parent) = self.parent_node() {
             let _safe_to_ignore = parent.insert_before(new_node.clone(), self.next_sibling())?;
         }
+        self.delete_data(offset, new_data.len())?;
         Ok(new_node)
     }
 }
-- 
2.43.0


From 5399096308a17afe039e3233a781c3a5aecd648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 32/50] fix: replacing a child is all-or-nothing if a
 diagnostic unwinds

---
 src/level2/trait_impls.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 95df8de..f9caa6e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1012,10 +1012,21 @@ impl Node for RefNode {
             ref_self.i_child_nodes.contains(&old_child.clone())
         };
         if exists {
-            let next_node = old_child.next_sibling();
-            let removed = self.remove_child(old_child)?;
-            let _safe_to_ignore = self.insert_before(new_child, next_node)?;
-            Ok(removed)
+            //
+            // Except for the root of a document, which may not have two of them, the old child is
+            // removed last so that nothing is lost if the new one cannot be inserted.
+            //
+            if is_document(self) {
+                let next_node = old_child.next_sibling();
+                let removed = self.remove_child(old_child)?;
+                let _safe_to_ignore = self.insert_before(new_child, next_node)?;
+                Ok(removed)
+            } else if new_child == old_child {
+                Ok(old_child)
+            } else {
+                let _safe_to_ignore = self.insert_before(new_child, Some(old_child.clone()))?;
+                self.remove_child(old_child)
+            }
         } else {
             warn!("replace_child: old_child not found in `child_nodes`");
             Err(Error::NotFound)
-- 
2.43.0


From de5f141f8b6d1071ca8a564afaffb0a23e45a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 33/50] fix: reading from a reader does not depend on how the
 input arrives

---
 src/parser/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 91267a6..210ad61 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -77,7 +77,14 @@ pub fn read_xml(xml: impl AsRef<str>) -> Result<RefNode> {
 /// Parse the provided string into a DOM structure; if the result is OK, the result returned
 /// can be safely assumed to be a `Document` node.
 ///
-pub fn read_reader<B: BufRead>(reader: B) -> Result<RefNode> {
+pub fn read_reader<B: BufRead>(mut reader: B) -> Result<RefNode> {
+    // quick-xml loses text that ends exactly where the reader's buffer does, so it must not
+    // depend on how the input is delivered.
+    let mut xml: Vec<u8> = Vec::new();
+    let _safe_to_ignore = reader
+        .read_to_end(&mut xml)
+        .map_err(quick_xml::Error::from)?;
+    let reader = xml.as_slice();
     inner_read(&mut Reader::from_reader(reader))
 }
 
-- 
2.43.0


From a3cf0195ef91c68b506bdb6b4d992e6dce405d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:31 +0000
Subject: [PATCH 34/50] fix: setting the value of a node without a value has no
 effect

---
 src/level2/trait_impls.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f9caa6e..bef0530 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -795,8 +795,10 @@ impl Node for RefNode {
     }
 
     fn set_node_value(&mut self, value: &str) -> Result<()> {
-        let mut mut_self = self.borrow_mut();
-        mut_self.i_value = Some(value.to_string());
+        if has_node_value(self) {
+            let mut mut_self = self.borrow_mut();
+            mut_self.i_value = Some(value.to_string());
+        }
         Ok(())
     }
 
@@ -1233,6 +1235,21 @@ fn namespaced_name_match(
     }
 }
 
+//
+// `false` for the kinds of node that are defined to have no value; setting one has no effect.
+//
+fn has_node_value(node: &RefNode) -> bool {
+    !matches!(
+        node.node_type(),
+        NodeType::Element
+            | NodeType::EntityReference
+            | NodeType::Document
+            | NodeType::DocumentType
+            | NodeType::DocumentFragment
+            | NodeType::Notation
+    )
+}
+
 //
 // The element children of `node`, where an entity reference stands for the nodes it contains.
 //
-- 
2.43.0


From 11b762df7b2b94d1246ae7a83cc2408f9740d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 35/50] fix: comments may contain ampersands that start no
 reference

---
 src/parser/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 210ad61..b852a26 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -166,7 +166,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                 let _safe_to_ignore = handle_end(reader, &mut document, None, ev)?;
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(&mut document, None, ev)?;
+                let _safe_to_ignore = handle_comment(reader, &mut document, None, ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, &mut document, None, ev)?;
@@ -236,7 +236,7 @@ fn element<T: BufRead>(
                 return Ok(parent_element.clone());
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(document, Some(parent_element), ev)?;
+                let _safe_to_ignore = handle_comment(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, document, Some(parent_element), ev)?;
@@ -305,13 +305,18 @@ fn handle_end<T: BufRead>(
     .clone())
 }
 
-fn handle_comment(
+fn handle_comment<T: BufRead>(
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
     ev: BytesText<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = make_text(ev)?;
+    //
+    // Comments are written like text is, but in a comment an ampersand need not start a reference.
+    //
+    let as_written = reader.decoder().decode(&ev)?.to_string();
+    let text = make_text(ev).unwrap_or(as_written);
     let new_node = mut_document.create_comment(&text);
     let actual_parent = match parent_node {
         None => document,
-- 
2.43.0


From 20c1b5f630cca94a7a274ebb9df4799649d308c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:08 +0000
Subject: [PATCH 36/50] fix: an XML declaration after comments, instructions or
 the root element was accepted

---
 src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b852a26..b99986e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -134,6 +134,10 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
     loop {
         match reader.read_event_into(event_buffer) {
             Ok(Event::Decl(ev)) => {
+                if document.has_child_nodes() {
+                    error!("XML declaration must be first");
+                    return Error::Malformed.into();
+                }
                 let mut mut_document = document.borrow_mut();
                 if let Extension::Document {
                     i_xml_declaration, ..
-- 
2.43.0


From bc73222151cf9fb3c77518bf4a159041fc68c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 37/50] fix: a standalone declaration that is neither yes nor
 no was read as no

---
 src/parser/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b99986e..b9fbe0c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -413,7 +413,14 @@ fn make_decl<T: BufRead>(
         let standalone = ev_value.map_err(quick_xml::Error::from)?;
         let standalone = standalone.borrow();
         let standalone = reader.decoder().decode(standalone)?;
-        Some(standalone == "yes")
+        match standalone.as_ref() {
+            "yes" => Some(true),
+            "no" => Some(false),
+            _ => {
+                error!("XML standalone declaration value is not valid");
+                return Error::Malformed.into();
+            }
+        }
     } else {
         None
     };
-- 
2.43.0


From 530d756e3e40f4dd7003eda1e50950a9c3301382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:47 +0000
Subject: [PATCH 38/50] fix: nodes of a cloned document belonged to the
 original document

Cloning a document left its nodes owned by the original, shared the
document type, and looked IDs up among the nodes of the original.
---
 src/level2/node_impl.rs   |  8 +++++---
 src/level2/trait_impls.rs | 27 +++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 3df053c..6767fb3 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -318,13 +318,15 @@ impl NodeImpl {
                 i_implementation,
                 i_xml_declaration,
                 i_document_type,
-                i_id_map,
                 i_options,
+                ..
             } => Extension::Document {
                 i_implementation: i_implementation.clone(),
                 i_xml_declaration: i_xml_declaration.clone(),
-                i_document_type: i_document_type.clone(),
-                i_id_map: i_id_map.clone(),
+                i_document_type: i_document_type
+                    .as_ref()
+                    .map(|doc_type| RefNode::new(doc_type.borrow().clone_node())),
+                i_id_map: Default::default(),
                 i_options: i_options.clone(),
             },
             Extension::DocumentType {
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index bef0530..1ef400d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1092,6 +1092,9 @@ impl Node for RefNode {
                 new_node.borrow_mut().i_child_nodes.push(new_child);
             }
         }
+        if is_document(&new_node) {
+            adopt_nodes(&new_node);
+        }
         Some(new_node)
     }
 
@@ -1416,6 +1419,30 @@ fn remove_stale_ids(element: &RefNode) {
     }
 }
 
+//
+// Make everything below `document`, which is a clone, nodes of this document and not of the original.
+//
+fn adopt_nodes(document: &RefNode) {
+    let mut nodes = document.child_nodes();
+    nodes.extend(document.doc_type());
+    while let Some(node) = nodes.pop() {
+        node.borrow_mut().i_owner_document = Some(document.clone().downgrade());
+        nodes.extend(node.child_nodes());
+        if is_element(&node) {
+            for attribute in node.attributes().values() {
+                attribute.borrow_mut().i_owner_document = Some(document.clone().downgrade());
+                nodes.extend(attribute.child_nodes());
+            }
+            let ids = element_ids(&node);
+            if let Extension::Document { i_id_map, .. } = &mut document.borrow_mut().i_extension {
+                for id in ids {
+                    let _safe_to_ignore = i_id_map.insert(id, node.clone().downgrade());
+                }
+            }
+        }
+    }
+}
+
 //
 // Is `candidate` either `node` itself, or one of the nodes that contain it. For this purpose an
 // attribute is contained by its owner element.
-- 
2.43.0


From 58e51ccf4380a8e6b998272d7fcfb77a8e6a9ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 39/50] fix: diagnostics while reading a value could interrupt
 the edit that changed it

---
 src/shared/text.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 7f69132..f007baf 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -228,10 +228,7 @@ fn char_from_entity(entity: impl AsRef<str>) -> String {
         code_point.parse::<u32>().ok()
     };
     match code_point.and_then(char::from_u32) {
-        None => {
-            warn!("'{}' does not refer to a character", entity);
-            entity.to_string()
-        }
+        None => entity.to_string(),
         Some(character) => character.to_string(),
     }
 }
-- 
2.43.0


From f9f0c4652f782b9c1d08bc5c0f877c16073ff70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:24 +0000
Subject: [PATCH 40/50] fix: a CDATA section containing ]]> was written as
 markup that ends early

---
 src/shared/display.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/shared/display.rs b/src/shared/display.rs
index e4cd63f..afe3e7c 100644
--- a/src/shared/display.rs
+++ b/src/shared/display.rs
@@ -45,10 +45,25 @@ pub(crate) fn fmt_text(character_data: RefCharacterData<'_>, f: &mut Formatter<'
 pub(crate) fn fmt_cdata(character_data: RefCharacterData<'_>, f: &mut Formatter<'_>) -> FmtResult {
     match character_data.data() {
         None => Ok(()),
-        Some(data) => write!(f, "{} {} {}", XML_CDATA_START, data, XML_CDATA_END),
+        Some(data) => write!(
+            f,
+            "{} {} {}",
+            XML_CDATA_START,
+            split_cdata_ends(&data),
+            XML_CDATA_END
+        ),
     }
 }
 
+//
+// The end of a section cannot be part of its data, it has to be divided between two sections.
+//
+fn split_cdata_ends(data: &str) -> String {
+    let (start, end) = XML_CDATA_END.split_at(XML_CDATA_END.len() - 1);
+    let divided = format!("{}{}{}{}", start, XML_CDATA_END, XML_CDATA_START, end);
+    data.replace(XML_CDATA_END, &divided)
+}
+
 pub(crate) fn fmt_processing_instruction(
     pi: RefProcessingInstruction<'_>,
     f: &mut Formatter<'_>,
-- 
2.43.0


From da199774b617ba6b26d64eaf8c75e72c605ec2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:38 +0000
Subject: [PATCH 41/50] fix: a comment containing or ending with hyphens was
 written as markup that ends early or is not well-formed

---
 src/shared/display.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/shared/display.rs b/src/shared/display.rs
index afe3e7c..9488cc8 100644
--- a/src/shared/display.rs
+++ b/src/shared/display.rs
@@ -2,6 +2,7 @@ use crate::level2::convert::*;
 use crate::level2::ext::convert::{as_document_decl, RefDocumentDecl};
 use crate::level2::*;
 use crate::shared::syntax::*;
+use crate::shared::text::to_entity;
 use std::fmt::{Formatter, Result as FmtResult};
 
 // ------------------------------------------------------------------------------------------------
@@ -80,8 +81,26 @@ pub(crate) fn fmt_comment(
 ) -> FmtResult {
     match character_data.data() {
         None => Ok(()),
-        Some(data) => write!(f, "{}{}{}", XML_COMMENT_START, data, XML_COMMENT_END),
+        Some(data) => write!(
+            f,
+            "{}{}{}",
+            XML_COMMENT_START,
+            escape_hyphens(&data),
+            XML_COMMENT_END
+        ),
+    }
+}
+
+//
+// A comment must neither contain two hyphens in a row nor end with one.
+//
+fn escape_hyphens(data: &str) -> String {
+    let mut result = data.replace("--", &format!("-{}", to_entity('-')));
+    if result.ends_with('-') {
+        let _hyphen = result.pop();
+        result.push_str(&to_entity('-'));
     }
+    result
 }
 
 pub(crate) fn fmt_document(document: RefDocumentDecl<'_>, f: &mut Formatter<'_>) -> FmtResult {
-- 
2.43.0


From 06f1e9da6eaead6c0a0628d3266e1f7a6b1a073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 42/50] fix: malformed XML declarations with repeated, unknown
 or misplaced items were accepted

---
 src/parser/mod.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b9fbe0c..c1d0523 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -24,12 +24,15 @@ use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
+use crate::shared::syntax::{XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_VERSION};
 use crate::shared::text::escape;
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
+use regex::Regex;
 use std::borrow::Borrow;
 use std::io::BufRead;
 use std::str::FromStr;
+use std::sync::OnceLock;
 
 use thiserror::Error as E;
 
@@ -147,6 +150,10 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                         error!("XML declaration must be first");
                         return Error::Malformed.into();
                     } else {
+                        if !is_well_formed_decl(&reader.decoder().decode(&ev)?) {
+                            error!("XML declaration is not well-formed");
+                            return Error::Malformed.into();
+                        }
                         let (version, encoding, standalone) = make_decl(reader, ev)?;
                         let version =
                             XmlVersion::from_str(&version).map_err(|_| Error::Malformed)?;
@@ -393,6 +400,29 @@ fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<
     Ok(decoded_string.to_string())
 }
 
+///
+/// The version comes first, encoding and standalone may follow in this order, and nothing else does.
+///
+fn is_well_formed_decl(decl: &str) -> bool {
+    static DECL: OnceLock<Regex> = OnceLock::new();
+    let decl_regex = DECL.get_or_init(|| {
+        let item = |name| {
+            format!(
+                r#"[ \t\r\n]+{}[ \t\r\n]*=[ \t\r\n]*("[^"']*"|'[^"']*')"#,
+                name
+            )
+        };
+        Regex::new(&format!(
+            r"^xml{}({})?({})?[ \t\r\n]*$",
+            item(XML_DECL_VERSION),
+            item(XML_DECL_ENCODING),
+            item(XML_DECL_STANDALONE)
+        ))
+        .unwrap()
+    });
+    decl_regex.is_match(decl)
+}
+
 fn make_decl<T: BufRead>(
     reader: &mut Reader<T>,
     ev: BytesDecl<'_>,
-- 
2.43.0


From 89fb660e838a3ba5b10e421266b07b56eb4a85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:36 +0000
Subject: [PATCH 43/50] fix: attributes without white space before them, or
 with < in their value, were accepted when reading

---
 src/parser/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c1d0523..b85907d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -289,6 +289,10 @@ fn handle_start<T: BufRead>(
         actual_parent.append_child(new_node)?
     };
 
+    if !is_well_formed_attributes(&reader.decoder().decode(ev.attributes_raw())?) {
+        error!("attributes are not well-formed");
+        return Error::Malformed.into();
+    }
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
@@ -400,6 +404,20 @@ fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<
     Ok(decoded_string.to_string())
 }
 
+///
+/// White space comes before each attribute, and no value contains a left angle bracket.
+///
+fn is_well_formed_attributes(attributes: &str) -> bool {
+    static ATTRIBUTES: OnceLock<Regex> = OnceLock::new();
+    let attributes_regex = ATTRIBUTES.get_or_init(|| {
+        Regex::new(
+            r#"^([ \t\r\n]+[^ \t\r\n=]+[ \t\r\n]*=[ \t\r\n]*("[^"<]*"|'[^'<]*'))*[ \t\r\n]*$"#,
+        )
+        .unwrap()
+    });
+    attributes_regex.is_match(attributes)
+}
+
 ///
 /// The version comes first, encoding and standalone may follow in this order, and nothing else does.
 ///
-- 
2.43.0


From 00529c01bcba9eecc9fd9e3349a51de226ebc6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:38 +0000
Subject: [PATCH 44/50] fix: text containing ]]> was accepted when reading

---
 src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b85907d..727b5c9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -346,6 +346,10 @@ fn handle_text(
     ev: BytesText<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
+    if ev.windows(3).any(|end| end == b"]]>") {
+        error!("the end of a CDATA section must not be in text");
+        return Error::Malformed.into();
+    }
     let text = make_text(ev)?;
     let new_node = mut_document.create_text_node(&text);
     let actual_parent = match parent_node {
-- 
2.43.0


From 9b16ba872f166847bbe84ae7348a35e42822077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 45/50] fix: comments containing -- were accepted when reading

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 727b5c9..60a0b64 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -103,6 +103,7 @@ impl<T> From<Error> for Result<T> {
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
     reader.config_mut().trim_text(true);
+    reader.config_mut().check_comments = true;
 
     let mut event_buffer: Vec<u8> = Vec::new();
 
-- 
2.43.0


From 81c375f38b8b4cd3c8a2803c8dc7a2c52d107fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:12 +0000
Subject: [PATCH 46/50] fix: a namespace whose name contains markup characters
 was mapped in its escaped form and could not be found

---
 src/level2/trait_impls.rs |  2 +-
 src/shared/text.rs        | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 1ef400d..71f7caa 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1365,7 +1365,7 @@ fn check_unique_id(element: &RefNode, id: &str) -> Result<()> {
 fn index_attribute(element: &mut RefNode, attribute: &RefNode) -> Result<()> {
     let name = attribute.node_name();
     if name.is_namespace_attribute() {
-        if let Some(namespace_uri) = attribute.value() {
+        if let Some(namespace_uri) = attribute.value().map(text::unescape) {
             let as_namespaced = as_element_namespaced_mut(element).unwrap();
             let _ignore = match &name.prefix() {
                 None => as_namespaced.insert_mapping(None, &namespace_uri),
diff --git a/src/shared/text.rs b/src/shared/text.rs
index f007baf..05e967c 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -201,6 +201,24 @@ pub(crate) fn escape(input: impl AsRef<str>) -> String {
     result
 }
 
+///
+/// The inverse of [`escape`].
+///
+pub(crate) fn unescape(input: impl AsRef<str>) -> String {
+    // The ampersand has to be the last, all others start with one.
+    [
+        XML_ESC_APOS_CHAR,
+        XML_ESC_GT_CHAR,
+        XML_ESC_LT_CHAR,
+        XML_ESC_QUOT_CHAR,
+        XML_ESC_AMP_CHAR,
+    ]
+    .iter()
+    .fold(input.as_ref().to_string(), |text, c| {
+        text.replace(&to_entity(*c), &c.to_string())
+    })
+}
+
 pub(crate) fn to_entity(c: char) -> String {
     format!(
         "{}{}{}",
-- 
2.43.0


From 4be014d67ff09820b25bfad23dde46c61c667759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:22 +0000
Subject: [PATCH 47/50] fix: an element in a namespace named * was found in
 every namespace

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 71f7caa..dc7b69a 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1230,7 +1230,7 @@ fn namespaced_name_match(
                     || against_local == WILD_CARD)
         }
         Some(test_ns) => {
-            ((test_ns == against_ns) || test_ns == WILD_CARD || against_ns == WILD_CARD)
+            ((test_ns == against_ns) || against_ns == WILD_CARD)
                 && ((test_local == against_local)
                     || test_local == WILD_CARD
                     || against_local == WILD_CARD)
-- 
2.43.0


From 18880ef2e03a4a4d396320e0cfe5ba2c4e68e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:13 +0000
Subject: [PATCH 48/50] fix: the node value of an attribute was not its value

---
 src/level2/trait_impls.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index dc7b69a..3f97317 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -790,11 +790,17 @@ impl Node for RefNode {
     }
 
     fn node_value(&self) -> Option<String> {
+        if is_attribute(self) {
+            return Attribute::value(self);
+        }
         let ref_self = self.borrow();
         ref_self.i_value.clone()
     }
 
     fn set_node_value(&mut self, value: &str) -> Result<()> {
+        if is_attribute(self) {
+            return Attribute::set_value(self, value);
+        }
         if has_node_value(self) {
             let mut mut_self = self.borrow_mut();
             mut_self.i_value = Some(value.to_string());
@@ -803,6 +809,9 @@ impl Node for RefNode {
     }
 
     fn unset_node_value(&mut self) -> Result<()> {
+        if is_attribute(self) {
+            return Attribute::unset_value(self);
+        }
         let mut mut_self = self.borrow_mut();
         mut_self.i_value = None;
         Ok(())
-- 
2.43.0


From 5a96152ae3031c5f775c6d19ee2a308b8d96ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:14 +0000
Subject: [PATCH 49/50] fix: looking for the descendants of an element found
 the element itself

---
 src/level2/trait_impls.rs | 49 +++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 3f97317..6378f97 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -354,7 +354,11 @@ impl Document for RefNode {
         // Delegate this call to the document element
         //
         if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name(&root_element, tag_name)
+            let mut results = Element::get_elements_by_tag_name(&root_element, tag_name);
+            if has_tag_name(&root_element, tag_name) {
+                results.insert(0, root_element);
+            }
+            results
         } else {
             Vec::default()
         }
@@ -365,7 +369,12 @@ impl Document for RefNode {
         // Delegate this call to the document element
         //
         if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name_ns(&root_element, namespace_uri, local_name)
+            let mut results =
+                Element::get_elements_by_tag_name_ns(&root_element, namespace_uri, local_name);
+            if has_namespaced_name(&root_element, namespace_uri, local_name) {
+                results.insert(0, root_element);
+            }
+            results
         } else {
             Vec::default()
         }
@@ -597,11 +606,10 @@ impl Element for RefNode {
         let mut results = Vec::default();
         if is_element(self) {
             let tag_name = tag_name.to_string();
-            let ref_self = self.borrow();
-            if tag_name_match(&ref_self.i_name.to_string(), &tag_name) {
-                results.push(self.clone());
-            }
             for child_node in child_elements(self) {
+                if has_tag_name(&child_node, &tag_name) {
+                    results.push(child_node.clone());
+                }
                 results.extend(Element::get_elements_by_tag_name(&child_node, &tag_name));
             }
         }
@@ -684,19 +692,10 @@ impl Element for RefNode {
         if is_element(self) {
             let namespace_uri = namespace_uri.to_string();
             let local_name = local_name.to_string();
-            let ref_self = self.borrow();
-            if namespaced_name_match(
-                match ref_self.i_name.namespace_uri() {
-                    None => None,
-                    Some(s) => Some(s.as_str()),
-                },
-                ref_self.i_name.local_name(),
-                &namespace_uri,
-                &local_name,
-            ) {
-                results.push(self.clone());
-            }
             for child_node in child_elements(self) {
+                if has_namespaced_name(&child_node, &namespace_uri, &local_name) {
+                    results.push(child_node.clone());
+                }
                 results.extend(Element::get_elements_by_tag_name_ns(
                     &child_node,
                     &namespace_uri,
@@ -1280,6 +1279,20 @@ fn child_elements(node: &RefNode) -> Vec<RefNode> {
         .collect()
 }
 
+fn has_tag_name(node: &RefNode, tag_name: &str) -> bool {
+    tag_name_match(&node.node_name().to_string(), tag_name)
+}
+
+fn has_namespaced_name(node: &RefNode, namespace_uri: &str, local_name: &str) -> bool {
+    let name = node.node_name();
+    namespaced_name_match(
+        name.namespace_uri().as_deref(),
+        name.local_name(),
+        namespace_uri,
+        local_name,
+    )
+}
+
 //
 // CHECK: Raise `Error::IndexSize` if `offset` is past the end of `data`, or if either end of the
 // range is not on a character boundary. The range ends with the end of the data if `count` is too
-- 
2.43.0


From 6a9e5a468e7c884d95ba234b562c8e3e84668ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:14 +0000
Subject: [PATCH 50/50] fix: reading cut white space off the data of an
 instruction

---
 src/parser/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 60a0b64..78f0021 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -25,7 +25,7 @@ use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
 use crate::shared::syntax::{XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_VERSION};
-use crate::shared::text::escape;
+use crate::shared::text::{escape, is_xml_space};
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use regex::Regex;
@@ -385,7 +385,10 @@ fn handle_pi<T: BufRead>(
     let mut_document = as_document_mut(document).unwrap();
     let target = reader.decoder().decode(ev.target())?;
     let data = reader.decoder().decode(ev.content())?;
-    let data = match data.trim() {
+    //
+    // The data starts with the first character that is not white space and ends with the `?>`.
+    //
+    let data = match data.trim_start_matches(is_xml_space) {
         "" => None,
         data => Some(data),
     };
-- 
2.43.0

