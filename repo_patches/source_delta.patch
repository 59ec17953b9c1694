From 11f7fdf36c49ff23ed0a96569aabec808bcff948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 01/51] fix: deleting a document also discards its open handle

An empty relationship part stayed registered as open, so a sheet could not be
opened again after its handle was dropped, and a deleted sheet's part was
written back when its handle was flushed.
---
 rs/src/files/office_document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 85c2dbb..3ba7225 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -54,6 +54,8 @@ impl OfficeDocument {
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
         self.archive_collection.remove(file_name);
+        // An open handle of the deleted document should not be written back or block re-opening
+        self.xml_document_collection.remove(file_name);
     }
 
     pub(crate) fn get_xml_document_ref(
-- 
2.43.0


From 7d182cd5462997022abd49c0014f5b9bca14d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 02/51] fix: read a part whose root element is self-closing

Such parts (written by the library itself for empty tables) failed to load with
'Parent Element Not Found'.
---
 rs/src/files/xml/xml_serialize.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index d3c8ede..7aa4bca 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -75,11 +75,21 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
-                    xml_document
-                        .append_child_mut(&tag, Some(&active_xml_element_id))
-                        .context("Insert XML Child Failed.")?
-                        .set_attribute_mut(attributes)
-                        .context("Parser Attribute Validation Failed")?;
+                    if root_loaded {
+                        xml_document
+                            .append_child_mut(&tag, Some(&active_xml_element_id))
+                            .context("Insert XML Child Failed.")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                    } else {
+                        // The whole document is a single self-closing root element
+                        xml_document
+                            .create_root_mut(&tag)
+                            .context("Create XML Root Element Failed")?
+                            .set_attribute_mut(attributes)
+                            .context("Attribute Update Error")?;
+                        root_loaded = true
+                    }
                 }
 
                 // Read text content
-- 
2.43.0


From 4baf94b73461e6be2c26bc52f8d732bd02cc4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/51] fix: unescape attribute values on reading

Values were kept escaped and escaped again on writing, so every open and save
turned '&amp;' into '&amp;amp;' (sheet names, relationship targets, number
formats, ...). Line breaks and tabs given as character references are kept.
---
 rs/src/files/xml/xml_deserialize.rs | 20 +++++++++++++++++---
 rs/src/files/xml/xml_serialize.rs   |  9 ++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 3b6c24a..2f55de1 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -131,9 +131,9 @@ impl XmlDeSerializer {
                             .iter()
                             .map(|(key, value)| {
                                 if key == "<Default>" {
-                                    format!("xmlns=\"{}\"", value)
+                                    format!("xmlns=\"{}\"", Self::escape_attribute(value))
                                 } else {
-                                    format!("xmlns:{}=\"{}\"", key, value)
+                                    format!("xmlns:{}=\"{}\"", key, Self::escape_attribute(value))
                                 }
                             })
                             .collect::<Vec<String>>()
@@ -150,7 +150,13 @@ impl XmlDeSerializer {
                 format!(
                     " {}",
                     keys.iter()
-                        .map(|key| format!("{}=\"{}\"", key, escape(attributes.get(key).unwrap())))
+                        .map(|key| {
+                            format!(
+                                "{}=\"{}\"",
+                                key,
+                                Self::escape_attribute(attributes.get(key).unwrap())
+                            )
+                        })
                         .collect::<Vec<String>>()
                         .join(" ")
                 )
@@ -165,6 +171,14 @@ impl XmlDeSerializer {
         element_tag
     }
 
+    /// Escape attribute value, white space other than space would be normalized on reading
+    fn escape_attribute(value: &str) -> String {
+        escape(value)
+            .replace('\r', "&#13;")
+            .replace('\n', "&#10;")
+            .replace('\t', "&#9;")
+    }
+
     fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
         format!("{}</{}>", escape(value), xml_element.get_tag())
     }
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 7aa4bca..c0b06d6 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -1,6 +1,7 @@
 use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
+use quick_xml::escape::unescape;
 use quick_xml::events::BytesStart;
 use quick_xml::{
     events::{
@@ -135,7 +136,13 @@ impl XmlSerializer {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
                 let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = String::from_utf8_lossy(&attribute.value).to_string();
+                // Attribute value normalization : literal white space is a space
+                let raw_value: String = String::from_utf8_lossy(&attribute.value)
+                    .replace("\r\n", " ")
+                    .replace(['\r', '\n', '\t'], " ");
+                let value: String = unescape(&raw_value)
+                    .context("Failed to unescape attribute value")?
+                    .to_string();
                 Ok((key, value))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
-- 
2.43.0


From 0a61a0fca6384e0662f126e5fc0ae91d28e4de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 04/51] fix: keep text content exactly as given

Leading, trailing and white-space-only text was trimmed, text after a comment
replaced the text before it, CDATA sections were dropped and a literal carriage
return was written unescaped.
---
 rs/src/files/xml/xml_deserialize.rs |  7 ++++-
 rs/src/files/xml/xml_serialize.rs   | 44 ++++++++++++++++++++++++-----
 rs/src/files/xml/xml_tree.rs        | 20 +++++++++++++
 3 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 2f55de1..8f1491a 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -180,6 +180,11 @@ impl XmlDeSerializer {
     }
 
     fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
-        format!("{}</{}>", escape(value), xml_element.get_tag())
+        // Literal carriage return would be normalized on reading
+        format!(
+            "{}</{}>",
+            escape(value).replace('\r', "&#13;"),
+            xml_element.get_tag()
+        )
     }
 }
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index c0b06d6..17e5797 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -21,7 +21,6 @@ impl XmlSerializer {
     ) -> AnyResult<XmlDocument, AnyError> {
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
-        reader.config_mut().trim_text(true);
         log_elapsed!(
             || {
                 Self::xml_element_parser(&mut reader, &mut xml_document)
@@ -39,6 +38,7 @@ impl XmlSerializer {
         let mut temp_buffer: Vec<u8> = Vec::new();
         let mut root_loaded = false;
         let mut active_xml_element_id: usize = 0;
+        let mut depth: usize = 0;
         loop {
             match reader.read_event_into(&mut temp_buffer) {
                 // Handle errors
@@ -50,6 +50,7 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
+                    depth += 1;
                     // Update tree structure
                     if root_loaded {
                         // Add child to parent
@@ -95,12 +96,19 @@ impl XmlSerializer {
 
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
-                    let text = byte_text.unescape().context("XML Text parsing error")?;
-                    xml_document
-                        .get_element_mut(&active_xml_element_id)
-                        .ok_or(anyhow!("Converting Option to Result Failed"))
-                        .context("Getting Target Element Failed")?
-                        .set_value_mut(text.to_string());
+                    let raw_text: String = String::from_utf8_lossy(&byte_text)
+                        .replace("\r\n", "\n")
+                        .replace('\r', "\n");
+                    let text = unescape(&raw_text).context("XML Text parsing error")?;
+                    Self::append_text(xml_document, &active_xml_element_id, depth, &text)?;
+                }
+
+                // Read CDATA content
+                Result::Ok(Event::CData(byte_data)) => {
+                    let text: String = String::from_utf8_lossy(&byte_data)
+                        .replace("\r\n", "\n")
+                        .replace('\r', "\n");
+                    Self::append_text(xml_document, &active_xml_element_id, depth, &text)?;
                 }
 
                 // Handle end tag
@@ -113,6 +121,7 @@ impl XmlSerializer {
                         .ok_or(anyhow!("Converting Option to Result Failed"))
                         .context("Getting Target Element Failed")?;
                     if element.get_tag() == tag {
+                        depth = depth.saturating_sub(1);
                         active_xml_element_id = element.get_parent_id()
                     } else {
                         break Err(anyhow!("Invalid XML Tree Parsing Failed."));
@@ -129,6 +138,27 @@ impl XmlSerializer {
         }
     }
 
+    /// Append text to the active element. White space between elements is not content
+    fn append_text(
+        xml_document: &mut XmlDocument,
+        element_id: &usize,
+        depth: usize,
+        text: &str,
+    ) -> AnyResult<(), AnyError> {
+        let is_white_space = text.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n'));
+        if depth == 0 && is_white_space {
+            return Ok(());
+        }
+        let element = xml_document
+            .get_element_mut(element_id)
+            .ok_or(anyhow!("Converting Option to Result Failed"))
+            .context("Getting Target Element Failed")?;
+        if !text.is_empty() && !(is_white_space && element.get_child_count() > 0) {
+            element.append_value_mut(text);
+        }
+        Ok(())
+    }
+
     fn get_attributes_string(element: BytesStart) -> AnyResult<HashMap<String, String>, AnyError> {
         element
             .attributes()
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c23d203..5c7bbf9 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -533,7 +533,24 @@ impl XmlElement {
         self
     }
 
+    pub(crate) fn append_value_mut(&mut self, text: &str) -> &mut Self {
+        self.value
+            .get_or_insert_with(|| String::new())
+            .push_str(text);
+        self
+    }
+
+    /// White space before the first child is formatting and not the value of the element
+    fn clear_white_space_value_mut(&mut self) {
+        if let Some(value) = &self.value {
+            if value.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) {
+                self.value = None;
+            }
+        }
+    }
+
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
+        self.clear_white_space_value_mut();
         self.children
             .try_borrow_mut()
             .context("Failed to Pull children handle")?
@@ -545,6 +562,7 @@ impl XmlElement {
     }
 
     fn insert_children_before_tag_mut(&mut self, child_id: usize, tag: &str, find_tag: &str) {
+        self.clear_white_space_value_mut();
         let mut children = self.children.borrow_mut();
         if let Some(index) = children.iter().position(|item| item.tag == find_tag) {
             children.insert(
@@ -566,6 +584,7 @@ impl XmlElement {
     }
 
     fn insert_children_after_tag_mut(&mut self, child_id: usize, tag: &str, find_tag: &str) {
+        self.clear_white_space_value_mut();
         let mut children = self.children.borrow_mut();
         if let Some(index) = children.iter().rposition(|item| item.tag == find_tag) {
             children.insert(
@@ -584,6 +603,7 @@ impl XmlElement {
     }
 
     fn insert_children_at_mut(&mut self, child_id: usize, position: usize, tag: &str) {
+        self.clear_white_space_value_mut();
         self.children.borrow_mut().insert(
             position,
             XmlElementChild {
-- 
2.43.0


From 795c0038c82e50a97058d42efe929e59bf4d62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 05/51] fix: refuse incomplete XML parts instead of panicking
 or truncating

A part without root element made core property access panic, and a part cut off
in the middle was accepted and written back shortened.
---
 rs/src/files/xml/xml_serialize.rs | 7 ++++++-
 rs/src/files/xml/xml_tree.rs      | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 17e5797..006a51e 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -129,7 +129,12 @@ impl XmlSerializer {
                 }
 
                 // End of file
-                Result::Ok(Event::Eof) => break Ok(()),
+                Result::Ok(Event::Eof) => {
+                    if !root_loaded || depth > 0 {
+                        break Err(anyhow!("Incomplete XML document"));
+                    }
+                    break Ok(());
+                }
 
                 // Default case for other events
                 _ => {}
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 5c7bbf9..185bec6 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -246,7 +246,10 @@ impl XmlDocument {
         let mut is_found = false;
         loop {
             if let Some(find_tag) = element_tree.pop() {
-                let element = self.xml_element_collection.get(&current_id).unwrap();
+                let element = self
+                    .xml_element_collection
+                    .get(&current_id)
+                    .ok_or(anyhow!("Element Not Found"))?;
                 if element.get_tag() == find_tag && current_id == 0 {
                     // Skip the root element
                     if element_tree.len() == 0 {
-- 
2.43.0


From 159e4fa91de8153e79eb7a3c5c761a6144ffcbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 06/51] fix: keep namespace declarations on the element that
 makes them

All declarations were moved to the root: a default namespace declared on a
nested element replaced the one of the whole part, and a prefix bound twice lost
its second meaning.
---
 rs/src/files/xml/xml_tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 185bec6..956dea6 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -501,7 +501,8 @@ impl XmlElement {
             .filter(|item| item.starts_with("xmlns"))
             .clone()
             .collect::<Vec<String>>();
-        if !ns_keys.is_empty() {
+        // Declarations below the root stay on their element, hoisting would change their scope
+        if !ns_keys.is_empty() && self.id == 0 {
             if let Some(ns_collection) = self.namespace_collection_ref.upgrade() {
                 let mut namespace_collection = ns_collection
                     .try_borrow_mut()
@@ -524,7 +525,9 @@ impl XmlElement {
                 }
             }
         }
-        attributes.retain(|key, _| !ns_keys.contains(key));
+        if self.id == 0 {
+            attributes.retain(|key, _| !ns_keys.contains(key));
+        }
         self.validate_namespace(&attributes)
             .context("Attribute NameSpace Validation Failed")?;
         self.attributes = Some(attributes);
-- 
2.43.0


From a6ffc01bb44fd3c6159f35a2e6819adc7a87a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 07/51] fix: declare exactly one content type for every part

An empty Default was written for parts without a matching extension, two
defaults could be written for one extension, extensions differing in case lost
their type, directory entries became parts, and an Override without type
panicked.
---
 rs/src/files/office_document.rs               | 29 +++++++++++++------
 .../global/global_2007/parts/content_types.rs |  5 +++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 3ba7225..f5cc209 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -6,7 +6,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     fs::{metadata, remove_file, File},
     io::{Cursor, Read, Write},
     rc::{Rc, Weak},
@@ -196,9 +196,22 @@ impl OfficeDocument {
                 ),
             ) in self.archive_collection.to_owned()
             {
-                extensions.push((file_extension, extension_type));
+                // Only one default is allowed per extension
+                let is_default_type = if file_extension.is_empty() {
+                    false
+                } else if let Some((_, default_type)) = extensions
+                    .iter()
+                    .find(|item| item.0.eq_ignore_ascii_case(&file_extension))
+                {
+                    *default_type == extension_type
+                } else {
+                    extensions.push((file_extension, extension_type.clone()));
+                    true
+                };
                 if let Some(content_type) = content_type {
                     overrides.push((format!("/{}", file_name), content_type));
+                } else if !is_default_type && !extension_type.is_empty() {
+                    overrides.push((format!("/{}", file_name), extension_type));
                 }
                 zip_writer
                     .start_file(file_name, zip_option)
@@ -217,11 +230,7 @@ impl OfficeDocument {
             .start_file("[Content_Types].xml", zip_option)
             .context("Zip File Write Start Fail")?;
         let content_type_file = ContentTypesPart::create_xml_file(
-            extensions
-                .into_iter()
-                .collect::<HashSet<_>>()
-                .into_iter()
-                .collect::<Vec<_>>(),
+            extensions,
             overrides,
         )
         .context("Creating Content Type XML Failed")?;
@@ -262,7 +271,7 @@ impl OfficeDocument {
             .context("Failed to uncompress [Content_Types].xml")?;
         let file_names = zip_read
             .file_names()
-            .filter(|name| "[Content_Types].xml" != *name)
+            .filter(|name| "[Content_Types].xml" != *name && !name.ends_with("/"))
             .map(|item| item.to_string())
             .collect::<Vec<_>>();
         let mut content_types_part =
@@ -278,7 +287,9 @@ impl OfficeDocument {
             let f_extension = file_name.rsplit(".").next();
             if let Some(f_extension) = f_extension {
                 if let Some(extensions) = extension_collection.clone() {
-                    let item = extensions.iter().find(|item| item.0 == f_extension);
+                    let item = extensions
+                        .iter()
+                        .find(|item| item.0.eq_ignore_ascii_case(f_extension));
                     if let Some(extension) = item {
                         file_extension = extension.0.to_string();
                         extension_type = extension.1.to_string();
diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 707cb4a..3d4af61 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -55,7 +55,10 @@ impl ContentTypesPart {
             if let Some(id) = find_ids.pop() {
                 if let Some(element) = self.xml_document.pop_element_mut(&id) {
                     if let Some(attributes) = element.get_attribute() {
-                        let res = attributes.get("ContentType").unwrap().to_string();
+                        let res = attributes
+                            .get("ContentType")
+                            .ok_or(anyhow!("content type override attribute missing"))?
+                            .to_string();
                         return Ok(Some(res));
                     }
                 }
-- 
2.43.0


From c336879e82df105b3d19ae30af8078d9523a1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 08/51] fix: a failing save no longer destroys the file it
 should replace

The target was removed before the new content was written, so a full disk or a
write error lost the previous document. The content is now written to a
temporary file in the same directory, which then replaces the target.
---
 rs/src/files/office_document.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index f5cc209..76f7827 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,10 +7,12 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::HashMap,
-    fs::{metadata, remove_file, File},
+    fs::{remove_file, rename, File},
     io::{Cursor, Read, Write},
+    path::Path,
     rc::{Rc, Weak},
 };
+use uuid::Uuid;
 use zip::{write::SimpleFileOptions, ZipArchive, ZipWriter};
 
 #[derive(Debug)]
@@ -166,12 +168,16 @@ impl OfficeDocument {
         let file_content: Vec<u8> = self
             .save_database_into_archive()
             .context("Save Archive Data into Database")?;
-        if metadata(file_path).is_ok() {
-            remove_file(file_path).map_err(|e| anyhow!("Remove Save File Target Failed. {}", e))?;
+        // Write beside the target and replace it only when the content is complete
+        let target_path = Path::new(file_path);
+        let temp_path = target_path.with_file_name(format!(".{}.tmp", Uuid::new_v4()));
+        let result = File::create(&temp_path)
+            .and_then(|mut file| file.write_all(&file_content))
+            .and_then(|_| rename(&temp_path, target_path));
+        if result.is_err() {
+            let _ = remove_file(&temp_path);
         }
-        let mut file = File::create(file_path).context("Create Save File Failed")?;
-        file.write_all(&file_content)
-            .context("Save File Write Failed")
+        result.context("Save File Write Failed")
     }
 
     /// Save the database content into file archive
-- 
2.43.0


From 24e1af7eb2c0bdb45eab7f1fc0b0c45175c65187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 09/51] fix: remove relationships with relative targets too

Only absolute targets were matched, so deleting a sheet (or an unused string
table) of a file written by Excel left a dangling relationship.
---
 rs/src/global/global_2007/parts/relations.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index dfc4258..1c99387 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -272,13 +272,14 @@ impl RelationsPart {
 
     /// Delete the target file path
     pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) {
+        let relative_path = self.get_relative_path().unwrap_or_default();
+        let file_path = file_path.strip_prefix("/").unwrap_or(file_path);
         self.relationships.retain(|item| {
-            item.1
-                != if file_path.starts_with("/") {
-                    file_path.to_string()
-                } else {
-                    format!("/{}", file_path)
-                }
+            // Target can be absolute or relative to the source part
+            match item.1.strip_prefix("/") {
+                Some(target) => target != file_path,
+                None => format!("{}{}", relative_path, item.1) != file_path,
+            }
         })
     }
 }
-- 
2.43.0


From 7642138652940d5e348ac820785eaf6444451ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 10/51] fix: deleting a sheet removes its list entry and
 relationship part

A handle obtained before the sheet was renamed left the sheet listed without a
part, and the deleted sheet's own relationship part stayed behind.
---
 rs/src/global/global_2007/parts/relations.rs  |  4 ++
 .../spreadsheet_2007/parts/worksheet.rs       | 37 +++++++++++++------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 1c99387..670303f 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -126,6 +126,10 @@ impl RelationsPart {
         Ok(relationships)
     }
 
+    pub(crate) fn get_file_path(&self) -> &str {
+        &self.file_path
+    }
+
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0836483..a6244f9 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1358,23 +1358,36 @@ impl WorkSheet {
 
     /// Delete Current sheet and all its components
     pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
-        if let Some(sheet_collection) = self.sheet_collection.upgrade() {
-            sheet_collection
-                .try_borrow_mut()
-                .context("Failed to pull Sheets Collection")?
-                .retain(|item| item.0 != self.sheet_name);
-        }
         if let Some(workbook_relationship_part) = self.workbook_relationship_part.upgrade() {
-            workbook_relationship_part
+            let mut relationship_part = workbook_relationship_part
                 .try_borrow_mut()
-                .context("Failed to pull workbook relationship handle")?
-                .delete_relationship_mut(&self.file_path);
+                .context("Failed to pull workbook relationship handle")?;
+            if let Some(sheet_collection) = self.sheet_collection.upgrade() {
+                // The sheet could have been renamed after this handle was created
+                sheet_collection
+                    .try_borrow_mut()
+                    .context("Failed to pull Sheets Collection")?
+                    .retain(|item| {
+                        !matches!(
+                            relationship_part.get_target_by_id(&item.1),
+                            Ok(Some(target)) if target == self.file_path
+                        )
+                    });
+            }
+            relationship_part.delete_relationship_mut(&self.file_path);
         }
         if let Some(xml_tree) = self.office_document.upgrade() {
-            xml_tree
+            let mut office_document = xml_tree
                 .try_borrow_mut()
-                .context("Failed to Pull XML Handle")?
-                .delete_document_mut(&self.file_path);
+                .context("Failed to Pull XML Handle")?;
+            office_document.delete_document_mut(&self.file_path);
+            // The relationship part of the sheet cannot exist without the sheet
+            office_document.delete_document_mut(
+                self.sheet_relationship_part
+                    .try_borrow()
+                    .context("Failed to pull sheet relationship handle")?
+                    .get_file_path(),
+            );
         }
         self.flush().context("Failed to flush the worksheet")?;
         Ok(())
-- 
2.43.0


From 9ecd2365969a2b817996517da3a3b17e9c28beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 11/51] fix: a new sheet never takes the part or the name of
 another sheet

The part of a sheet whose handle is open was not seen as existing, so adding a
sheet could fail and leave a second list entry for that part; the generated
name could repeat the name of an existing sheet.
---
 rs/src/files/office_document.rs               |  6 ++++-
 .../spreadsheet_2007/parts/worksheet.rs       | 27 ++++++++++++++-----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 76f7827..f81b892 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -51,7 +51,11 @@ impl OfficeDocument {
     }
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
-        self.archive_collection.contains_key(&file_path)
+        // Part names are equivalent when they differ only in case
+        self.archive_collection
+            .keys()
+            .chain(self.xml_document_collection.keys())
+            .any(|name| name.eq_ignore_ascii_case(&file_path))
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index a6244f9..9aea05b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1088,13 +1088,26 @@ impl WorkSheet {
                     }
                 }
                 let file_path = format!("{}{}", relative_path, worksheet_content.default_path);
-                let sheet_name = format!(
-                    "{}",
-                    sheet_name.clone().unwrap_or(format!(
-                        "{}{}",
-                        worksheet_content.default_name, &sheet_count
-                    ))
-                );
+                let sheet_name = if let Some(sheet_name) = sheet_name {
+                    sheet_name
+                } else {
+                    // Default name should not repeat an existing one, Sheet names ignore case
+                    let sheet_collection = sheet_collection
+                        .try_borrow()
+                        .context("Failed to pull Sheet Name Collection")?;
+                    let mut name_count = sheet_count;
+                    loop {
+                        let name = format!("{}{}", worksheet_content.default_name, name_count);
+                        if sheet_collection
+                            .iter()
+                            .any(|item| item.0.eq_ignore_ascii_case(&name))
+                        {
+                            name_count += 1;
+                        } else {
+                            break name;
+                        }
+                    }
+                };
                 let relationship_id = workbook_relationship_part
                     .try_borrow_mut()
                     .context("Failed to Get Relationship Handle")?
-- 
2.43.0


From abc19ed7448d1e382f975f12372188d49ab9277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 12/51] fix: keep style records of the file and resolve every
 style id to its format

The style part was rewritten from the models on every save: details the
models do not have were lost, number format ids did not match the format
records, builtin formats were ignored and element order depended on what
was in the file. Loaded records now stay as they are and new ones are
appended.
---
 rs/src/files/xml/xml_tree.rs                  |  38 +
 .../spreadsheet_2007/services/style.rs        | 838 +++++++++---------
 2 files changed, 443 insertions(+), 433 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 956dea6..4853793 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -24,6 +24,44 @@ impl XmlDocument {
         }
     }
 
+    /// Independent copy of the tree
+    pub(crate) fn clone_tree(&self) -> Self {
+        let namespace_collection =
+            Rc::new(RefCell::new(self.namespace_collection.borrow().clone()));
+        let xml_element_collection = self
+            .xml_element_collection
+            .iter()
+            .map(|(id, element)| {
+                let children = element
+                    .children
+                    .borrow()
+                    .iter()
+                    .map(|child| XmlElementChild {
+                        id: child.id,
+                        tag: child.tag.clone(),
+                    })
+                    .collect::<Vec<XmlElementChild>>();
+                (
+                    *id,
+                    XmlElement {
+                        id: element.id,
+                        parent_id: element.parent_id,
+                        tag: element.tag.clone(),
+                        attributes: element.attributes.clone(),
+                        value: element.value.clone(),
+                        children: Rc::new(RefCell::new(children)),
+                        namespace_collection_ref: Rc::downgrade(&namespace_collection),
+                    },
+                )
+            })
+            .collect();
+        Self {
+            running_id: self.running_id,
+            namespace_collection,
+            xml_element_collection,
+        }
+    }
+
     pub(crate) fn get_element_count(&self) -> usize {
         self.xml_element_collection.len()
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index c6c63ae..2da70fd 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -36,8 +36,23 @@ pub struct StylePart {
     border_collection: Vec<(u64, BorderStyle)>,
     cell_style_xfs_collection: Vec<(u64, CellXfs)>,
     cell_xfs_collection: Vec<(u64, CellXfs)>,
+    /// Number of records already in the xml tree, they are never rewritten
+    saved_count: SavedCount,
 }
 
+#[derive(Debug, Default)]
+struct SavedCount {
+    number_format: usize,
+    font: usize,
+    fill: usize,
+    border: usize,
+    cell_style_xfs: usize,
+    cell_xfs: usize,
+}
+
+/// Hash of records having details that are not represented in the models, they are never reused
+const UNMATCHABLE_HASH: u64 = 0;
+
 impl Drop for StylePart {
     fn drop(&mut self) {
         let _ = self.close_document();
@@ -110,9 +125,18 @@ impl XmlDocumentPart for StylePart {
             cell_style_collection,
             cell_collection,
         ) = Self::load_content(&mut xml_document).context("Load Share String To DB Failed")?;
+        let saved_count = SavedCount {
+            number_format: number_format_collection.len(),
+            font: font_collection.len(),
+            fill: fill_collection.len(),
+            border: border_collection.len(),
+            cell_style_xfs: cell_style_collection.len(),
+            cell_xfs: cell_collection.len(),
+        };
         Ok(Self {
             office_document,
             xml_document,
+            saved_count,
             file_path: file_name,
             cache_id: HashMap::new(),
             cache_order: VecDeque::new(),
@@ -170,9 +194,11 @@ impl StylePart {
         let mut style_collection = Vec::new();
         let mut xfs_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
+            // Decode from a copy, the records in the file are kept as they are
             let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
+                .try_borrow()
+                .context("xml doc borrow failed")?
+                .clone_tree();
             // Load Number Format Region
             if let Some(mut number_formats_vec) =
                 xml_doc_mut.pop_elements_by_tag_mut("numFmts", None)
@@ -195,9 +221,8 @@ impl StylePart {
                                     .get("formatCode")
                                     .ok_or(anyhow!("formatCode Attribute Not Found!"))?
                                     .to_string();
-                                let mut hasher = DefaultHasher::new();
-                                number_format.hash(&mut hasher);
-                                num_format_records.push((hasher.finish(), number_format));
+                                num_format_records
+                                    .push((UNMATCHABLE_HASH, number_format));
                             }
                         } else {
                             break;
@@ -216,103 +241,75 @@ impl StylePart {
                                 .pop_element_mut(&font_id)
                                 .ok_or(anyhow!("Element not Found Error"))?;
                             let mut font_style = FontStyle::default();
+                            // Child elements expected when the record is completely understood
+                            let mut pending_tags = vec!["sz", "color", "name", "family", "scheme"];
+                            let mut is_exact = true;
                             loop {
                                 if let Some((item_id, _)) = font.pop_child_mut() {
                                     let current_element = xml_doc_mut
                                         .pop_element_mut(&item_id)
                                         .ok_or(anyhow!("Failed to pull child element"))?;
-                                    match current_element.get_tag() {
-                                        "b" => font_style.is_bold = true,
-                                        "u" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(double) = attributes.get("val") {
-                                                    if double == "double" {
-                                                        font_style.is_double_underline = true;
-                                                    }
-                                                }
+                                    let tag = current_element.get_tag();
+                                    pending_tags.retain(|item| *item != tag);
+                                    let val = current_element
+                                        .get_attribute()
+                                        .and_then(|attributes| attributes.get("val"));
+                                    match tag {
+                                        "b" => match val.map(|val| val.as_str()) {
+                                            None | Some("1") | Some("true") => {
+                                                font_style.is_bold = true
                                             }
-                                            font_style.is_underline = false;
-                                        }
-                                        "i" => font_style.is_italic = false,
-                                        "sz" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.size = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
-                                                }
+                                            _ => is_exact = false,
+                                        },
+                                        "i" => match val.map(|val| val.as_str()) {
+                                            None | Some("1") | Some("true") => {
+                                                font_style.is_italic = true
                                             }
-                                        }
+                                            _ => is_exact = false,
+                                        },
+                                        "u" => match val.map(|val| val.as_str()) {
+                                            None | Some("single") => font_style.is_underline = true,
+                                            Some("double") => font_style.is_double_underline = true,
+                                            _ => is_exact = false,
+                                        },
+                                        "sz" => match val.and_then(|val| val.parse().ok()) {
+                                            Some(size) => font_style.size = size,
+                                            None => is_exact = false,
+                                        },
                                         "color" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(theme) = attributes.get("theme") {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Theme;
-                                                    font_style.color.value = theme
-                                                        .parse()
-                                                        .context("Font color theme parse failed")?
-                                                } else if let Some(rgb) = attributes.get("rgb") {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Rgb;
-                                                    let rgb_string = rgb.to_string();
-                                                    font_style.color.value = rgb_string;
-                                                } else if let Some(indexed) =
-                                                    attributes.get("indexed")
-                                                {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Indexed;
-                                                    let indexed_string = indexed.to_string();
-                                                    font_style.color.value = indexed_string;
-                                                }
-                                            }
-                                        }
-                                        "name" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.name = val.to_string()
-                                                }
+                                            match StylePart::deserialize_color(&current_element) {
+                                                Some(color) => font_style.color = color,
+                                                None => is_exact = false,
                                             }
                                         }
-                                        "family" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.family = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
-                                                }
+                                        "name" => match val {
+                                            Some(name) => font_style.name = name.to_string(),
+                                            None => is_exact = false,
+                                        },
+                                        "family" => match val.and_then(|val| val.parse().ok()) {
+                                            Some(family) => font_style.family = family,
+                                            None => is_exact = false,
+                                        },
+                                        "scheme" => match val {
+                                            Some(scheme) => {
+                                                font_style.font_scheme =
+                                                    FontSchemeValues::get_enum(scheme)
                                             }
-                                        }
-                                        "scheme" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.font_scheme =
-                                                        FontSchemeValues::get_enum(val)
-                                                }
-                                            }
-                                        }
-                                        _ => {
-                                            return Err(anyhow!("Unknown Font Style Found!"));
-                                        }
+                                            None => is_exact = false,
+                                        },
+                                        _ => is_exact = false,
                                     }
                                 } else {
                                     break;
                                 }
                             }
-                            let mut hasher = DefaultHasher::new();
-                            font_style.hash(&mut hasher);
-                            font_records.push((hasher.finish(), font_style));
+                            font_records.push((
+                                StylePart::get_record_hash(
+                                    &font_style,
+                                    is_exact && pending_tags.is_empty(),
+                                ),
+                                font_style,
+                            ));
                         } else {
                             break;
                         }
@@ -327,118 +324,48 @@ impl StylePart {
                                 .pop_element_mut(&fill_id)
                                 .ok_or(anyhow!("Failed to pull child element"))?;
                             let mut fill_style = FillStyle::default();
-                            if let Some((pattern_fill_id, _)) = current_element.pop_child_mut() {
+                            let mut is_exact = false;
+                            if let Some((pattern_fill_id, pattern_fill_tag)) =
+                                current_element.pop_child_mut()
+                            {
                                 if let Some(pattern_fill) =
                                     xml_doc_mut.pop_element_mut(&pattern_fill_id)
                                 {
-                                    if let Some(pattern_attributes) = pattern_fill.get_attribute() {
-                                        if let Some(pattern_type) =
-                                            pattern_attributes.get("patternType")
+                                    if let Some(pattern_type) = pattern_fill
+                                        .get_attribute()
+                                        .and_then(|attributes| attributes.get("patternType"))
+                                    {
+                                        fill_style.pattern_type =
+                                            PatternTypeValues::get_enum(pattern_type);
+                                        is_exact = pattern_fill_tag == "patternFill"
+                                            && PatternTypeValues::get_string(
+                                                fill_style.pattern_type.clone(),
+                                            ) == *pattern_type;
+                                    }
+                                    loop {
+                                        if let Some((child_id, child_tag)) =
+                                            pattern_fill.pop_child_mut()
                                         {
-                                            fill_style.pattern_type =
-                                                PatternTypeValues::get_enum(pattern_type);
-                                            loop {
-                                                if let Some((child_id, _)) =
-                                                    pattern_fill.pop_child_mut()
-                                                {
-                                                    if let Some(pop_child) =
-                                                        xml_doc_mut.pop_element_mut(&child_id)
-                                                    {
-                                                        if let Some(attributes) =
-                                                            pop_child.get_attribute()
-                                                        {
-                                                            match pop_child.get_tag() {
-                                                                "fgColor" => {
-                                                                    if let Some(theme) =
-                                                                        attributes.get("theme")
-                                                                    {
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Theme,
-                                                                            value:theme
-                                                                            .parse()
-                                                                            .context("color theme parse failed")?
-                                                                        });
-                                                                    } else if let Some(rgb) =
-                                                                        attributes.get("rgb")
-                                                                    {
-                                                                        let rgb_string =
-                                                                            rgb.to_string();
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Rgb,
-                                                                            value:rgb_string
-                                                                        });
-                                                                    } else if let Some(indexed) =
-                                                                        attributes.get("indexed")
-                                                                    {
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Indexed,
-                                                                            value:indexed
-                                                                            .parse()
-                                                                            .context("color color index parse failed")?
-                                                                        });
-                                                                    }
-                                                                }
-                                                                "bgColor" => {
-                                                                    if let Some(theme) =
-                                                                        attributes.get("theme")
-                                                                    {
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Theme,
-                                                                            value:theme
-                                                                            .parse()
-                                                                            .context("color theme parse failed")?
-                                                                        });
-                                                                    } else if let Some(rgb) =
-                                                                        attributes.get("rgb")
-                                                                    {
-                                                                        let rgb_string =
-                                                                            rgb.to_string();
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Rgb,
-                                                                            value:rgb_string
-                                                                        });
-                                                                    } else if let Some(indexed) =
-                                                                        attributes.get("indexed")
-                                                                    {
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Indexed,
-                                                                            value:indexed
-                                                                            .parse()
-                                                                            .context("color color index parse failed")?
-                                                                        });
-                                                                    }
-                                                                }
-                                                                _ => {
-                                                                    return Err(anyhow!(
-                                                                    "Unknown Color patter found"
-                                                                ));
-                                                                }
-                                                            }
-                                                        }
-                                                    }
-                                                } else {
-                                                    break;
-                                                }
+                                            let color =
+                                                xml_doc_mut.pop_element_mut(&child_id).and_then(
+                                                    |item| StylePart::deserialize_color(&item),
+                                                );
+                                            is_exact = is_exact && color.is_some();
+                                            match child_tag.as_str() {
+                                                "fgColor" => fill_style.foreground_color = color,
+                                                "bgColor" => fill_style.background_color = color,
+                                                _ => is_exact = false,
                                             }
+                                        } else {
+                                            break;
                                         }
                                     }
                                 }
                             }
-                            let mut hasher = DefaultHasher::new();
-                            fill_style.hash(&mut hasher);
-                            fill_records.push((hasher.finish(), fill_style));
+                            fill_records.push((
+                                StylePart::get_record_hash(&fill_style, is_exact),
+                                fill_style,
+                            ));
                         } else {
                             break;
                         }
@@ -452,67 +379,40 @@ impl StylePart {
                         if let Some((border_id, _)) = borders.pop_child_mut() {
                             if let Some(border) = xml_doc_mut.pop_element_mut(&border_id) {
                                 let mut border_style = BorderStyle::default();
+                                let mut is_exact = border
+                                    .get_attribute()
+                                    .map_or(true, |attributes| attributes.is_empty());
                                 // Loop Details of current border
                                 loop {
                                     if let Some((border_child_id, _)) = border.pop_child_mut() {
                                         if let Some(current_element) =
                                             xml_doc_mut.pop_element_mut(&border_child_id)
                                         {
-                                            match current_element.get_tag() {
-                                                "left" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.left,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "right" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.right,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "top" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.top,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "bottom" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.bottom,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "diagonal" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.diagonal,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
+                                            let border_setting = match current_element.get_tag() {
+                                                "left" => &mut border_style.left,
+                                                "right" => &mut border_style.right,
+                                                "top" => &mut border_style.top,
+                                                "bottom" => &mut border_style.bottom,
+                                                "diagonal" => &mut border_style.diagonal,
                                                 _ => {
-                                                    return Err(anyhow!(
-                                                        "Unknown border style found"
-                                                    ));
+                                                    is_exact = false;
+                                                    continue;
                                                 }
-                                            }
+                                            };
+                                            is_exact = StylePart::deserialize_border_setting(
+                                                &current_element,
+                                                border_setting,
+                                                &mut xml_doc_mut,
+                                            ) && is_exact;
                                         }
                                     } else {
                                         break;
                                     }
                                 }
-                                let mut hasher = DefaultHasher::new();
-                                border_style.hash(&mut hasher);
-                                border_records.push((hasher.finish(), border_style));
+                                border_records.push((
+                                    StylePart::get_record_hash(&border_style, is_exact),
+                                    border_style,
+                                ));
                             }
                         } else {
                             break;
@@ -553,20 +453,15 @@ impl StylePart {
                 .try_borrow_mut()
                 .context("xml doc borrow failed")?;
             // Create Number Formats Elements
-            {
-                let num_formats = xml_doc_mut
-                    .insert_child_at_mut("numFmts", &0, None)
-                    .context("Create Number Formats Parent Failed.")?;
-                let num_formats_id = num_formats.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.number_format_collection.len().to_string(),
-                );
-                num_formats
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, num_format) in self.number_format_collection.as_slice() {
+            if self.number_format_collection.len() > self.saved_count.number_format {
+                let num_formats_id = StylePart::get_container_id(
+                    &mut xml_doc_mut,
+                    "numFmts",
+                    self.number_format_collection.len(),
+                )?;
+                for (_, num_format) in
+                    &self.number_format_collection[self.saved_count.number_format..]
+                {
                     let num_format_element = xml_doc_mut
                         .append_child_mut("numFmt", Some(&num_formats_id))
                         .context("Create Number Format Element Failed")?;
@@ -579,17 +474,13 @@ impl StylePart {
                 }
             }
             // Create Fonts Elements
-            {
-                let fonts = xml_doc_mut
-                    .insert_children_after_tag_mut("fonts", "numFmts", None)
-                    .context("Create Fonts Parent Failed.")?;
-                let fonts_id = fonts.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.font_collection.len().to_string());
-                fonts
-                    .set_attribute_mut(attributes)
-                    .context("Set attribute failed for fonts style")?;
-                for (_, font_style) in self.font_collection.as_slice() {
+            if self.font_collection.len() > self.saved_count.font {
+                let fonts_id = StylePart::get_container_id(
+                    &mut xml_doc_mut,
+                    "fonts",
+                    self.font_collection.len(),
+                )?;
+                for (_, font_style) in &self.font_collection[self.saved_count.font..] {
                     let font_id = xml_doc_mut
                         .append_child_mut("font", Some(&fonts_id))
                         .context("Adding Font to Fonts Failed")?
@@ -661,17 +552,13 @@ impl StylePart {
                 }
             }
             // Create Fills Elements
-            {
-                let fills = xml_doc_mut
-                    .insert_children_after_tag_mut("fills", "fonts", None)
-                    .context("Create Fills parents Failed.")?;
-                let fills_id = fills.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.fill_collection.len().to_string());
-                fills
-                    .set_attribute_mut(attributes)
-                    .context("Set Fill Attribute Failed")?;
-                for (_, fill_data) in self.fill_collection.as_slice() {
+            if self.fill_collection.len() > self.saved_count.fill {
+                let fills_id = StylePart::get_container_id(
+                    &mut xml_doc_mut,
+                    "fills",
+                    self.fill_collection.len(),
+                )?;
+                for (_, fill_data) in &self.fill_collection[self.saved_count.fill..] {
                     let fill_id = xml_doc_mut
                         .append_child_mut("fill", Some(&fills_id))
                         .context("Adding Fill Element Failed")?
@@ -717,20 +604,13 @@ impl StylePart {
                 }
             }
             // Create Border Elements
-            {
-                let borders = xml_doc_mut
-                    .insert_children_after_tag_mut("borders", "fills", None)
-                    .context("Create borders parents Failed.")?;
-                let borders_id = borders.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.border_collection.len().to_string(),
-                );
-                borders
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, border_data) in self.border_collection.as_slice() {
+            if self.border_collection.len() > self.saved_count.border {
+                let borders_id = StylePart::get_container_id(
+                    &mut xml_doc_mut,
+                    "borders",
+                    self.border_collection.len(),
+                )?;
+                for (_, border_data) in &self.border_collection[self.saved_count.border..] {
                     let border_id = xml_doc_mut
                         .append_child_mut("border", Some(&borders_id))
                         .context("Create Border Failed")?
@@ -773,17 +653,27 @@ impl StylePart {
                 }
             }
             // Create Cell Style Elements
-            {
-                StylePart::add_cell_style(&mut xml_doc_mut, &mut self.cell_xfs_collection, true)?;
-            }
+            StylePart::add_cell_style(
+                &mut xml_doc_mut,
+                &self.cell_xfs_collection,
+                self.saved_count.cell_xfs,
+                true,
+            )?;
             // Create Defined Cell Style Elements
-            {
-                StylePart::add_cell_style(
-                    &mut xml_doc_mut,
-                    &mut self.cell_style_xfs_collection,
-                    false,
-                )?;
-            }
+            StylePart::add_cell_style(
+                &mut xml_doc_mut,
+                &self.cell_style_xfs_collection,
+                self.saved_count.cell_style_xfs,
+                false,
+            )?;
+            self.saved_count = SavedCount {
+                number_format: self.number_format_collection.len(),
+                font: self.font_collection.len(),
+                fill: self.fill_collection.len(),
+                border: self.border_collection.len(),
+                cell_style_xfs: self.cell_style_xfs_collection.len(),
+                cell_xfs: self.cell_xfs_collection.len(),
+            };
         }
         Ok(())
     }
@@ -796,85 +686,100 @@ impl StylePart {
         loop {
             if let Some((xf_id, _)) = style_xfs.pop_child_mut() {
                 let mut cell_xf = CellXfs::default();
+                // False when the record has anything that is not in the model
+                let mut is_exact = true;
                 if let Some(current_element) = xml_doc_mut.pop_element_mut(&xf_id) {
                     if let Some(attributes) = current_element.get_attribute() {
-                        if let Some(number_format_id) = attributes.get("numFmtId") {
-                            cell_xf.number_format_id = number_format_id
-                                .parse()
-                                .context("Number Number Format Id Parse Failed")?;
-                        }
-                        if let Some(font_id) = attributes.get("fontId") {
-                            cell_xf.font_id =
-                                font_id.parse().context("Number Font Id Parse Failed")?;
-                        }
-                        if let Some(fill_id) = attributes.get("fillId") {
-                            cell_xf.fill_id =
-                                fill_id.parse().context("Number Fill Id Parse Failed")?;
-                        }
-                        if let Some(border_id) = attributes.get("borderId") {
-                            cell_xf.border_id =
-                                border_id.parse().context("Number Border Id Parse Failed")?;
-                        }
-                        if let Some(format_id) = attributes.get("xfId") {
-                            cell_xf.format_id =
-                                format_id.parse().context("Number Format Id Parse Failed")?;
-                        }
-                        if let Some(apply_protection) = attributes.get("applyProtection") {
-                            cell_xf.apply_protection =
-                                ConverterUtil::normalize_bool_property_u8(apply_protection);
-                        }
-                        if let Some(apply_alignment) = attributes.get("applyAlignment") {
-                            cell_xf.apply_alignment =
-                                ConverterUtil::normalize_bool_property_u8(apply_alignment);
-                        }
-                        if let Some(apply_border) = attributes.get("applyBorder") {
-                            cell_xf.apply_border =
-                                ConverterUtil::normalize_bool_property_u8(apply_border);
-                        }
-                        if let Some(apply_fill) = attributes.get("applyFill") {
-                            cell_xf.apply_fill = ConverterUtil::normalize_bool_property_u8(apply_fill);
-                        }
-                        if let Some(apply_font) = attributes.get("applyFont") {
-                            cell_xf.apply_font = ConverterUtil::normalize_bool_property_u8(apply_font);
-                        }
-                        if let Some(apply_number_format) = attributes.get("applyNumberFormat") {
-                            cell_xf.apply_number_format =
-                                ConverterUtil::normalize_bool_property_u8(apply_number_format);
+                        for (key, value) in attributes {
+                            match key.as_str() {
+                                "numFmtId" => {
+                                    cell_xf.number_format_id = value
+                                        .parse()
+                                        .context("Number Number Format Id Parse Failed")?
+                                }
+                                "fontId" => {
+                                    cell_xf.font_id =
+                                        value.parse().context("Number Font Id Parse Failed")?
+                                }
+                                "fillId" => {
+                                    cell_xf.fill_id =
+                                        value.parse().context("Number Fill Id Parse Failed")?
+                                }
+                                "borderId" => {
+                                    cell_xf.border_id =
+                                        value.parse().context("Number Border Id Parse Failed")?
+                                }
+                                "xfId" => {
+                                    cell_xf.format_id =
+                                        value.parse().context("Number Format Id Parse Failed")?
+                                }
+                                "applyProtection" => {
+                                    cell_xf.apply_protection =
+                                        ConverterUtil::normalize_bool_property_u8(value)
+                                }
+                                "applyAlignment" => {
+                                    cell_xf.apply_alignment =
+                                        ConverterUtil::normalize_bool_property_u8(value)
+                                }
+                                "applyBorder" => {
+                                    cell_xf.apply_border =
+                                        ConverterUtil::normalize_bool_property_u8(value)
+                                }
+                                "applyFill" => {
+                                    cell_xf.apply_fill =
+                                        ConverterUtil::normalize_bool_property_u8(value)
+                                }
+                                "applyFont" => {
+                                    cell_xf.apply_font =
+                                        ConverterUtil::normalize_bool_property_u8(value)
+                                }
+                                "applyNumberFormat" => {
+                                    cell_xf.apply_number_format =
+                                        ConverterUtil::normalize_bool_property_u8(value)
+                                }
+                                _ => is_exact = false,
+                            }
                         }
-                        // Load Alignment Values if exist
-                        if let Some((alignment_id, _)) = current_element.pop_child_mut() {
-                            if let Some(alignment_element) =
-                                xml_doc_mut.pop_element_mut(&alignment_id)
-                            {
-                                if let Some(alignment_attributes) =
-                                    alignment_element.get_attribute()
-                                {
-                                    if let Some(is_wrap_text) = alignment_attributes.get("wrapText")
-                                    {
+                    }
+                    // Load Alignment Values if exist
+                    loop {
+                        if let Some((child_id, child_tag)) = current_element.pop_child_mut() {
+                            let child = xml_doc_mut.pop_element_mut(&child_id);
+                            if child_tag != "alignment" {
+                                is_exact = false;
+                                continue;
+                            }
+                            let alignment_attributes =
+                                child.as_ref().and_then(|item| item.get_attribute());
+                            for (key, value) in alignment_attributes.into_iter().flatten() {
+                                match key.as_str() {
+                                    "wrapText" => {
                                         cell_xf.is_wrap_text =
-                                            ConverterUtil::normalize_bool_property_u8(is_wrap_text);
+                                            ConverterUtil::normalize_bool_property_u8(value)
                                     }
-                                    if let Some(vertical_alignment) =
-                                        alignment_attributes.get("vertical")
-                                    {
+                                    "vertical" => {
                                         cell_xf.vertical_alignment =
-                                            VerticalAlignmentValues::get_enum(vertical_alignment);
+                                            VerticalAlignmentValues::get_enum(value);
+                                        is_exact = is_exact
+                                            && cell_xf.vertical_alignment
+                                                != VerticalAlignmentValues::None;
                                     }
-                                    if let Some(horizontal_alignment) =
-                                        alignment_attributes.get("horizontal")
-                                    {
+                                    "horizontal" => {
                                         cell_xf.horizontal_alignment =
-                                            HorizontalAlignmentValues::get_enum(
-                                                horizontal_alignment,
-                                            );
+                                            HorizontalAlignmentValues::get_enum(value);
+                                        is_exact = is_exact
+                                            && cell_xf.horizontal_alignment
+                                                != HorizontalAlignmentValues::None;
                                     }
+                                    _ => is_exact = false,
                                 }
                             }
+                        } else {
+                            break;
                         }
                     }
-                    let mut hasher = DefaultHasher::new();
-                    cell_xf.hash(&mut hasher);
-                    style_records.push((hasher.finish(), cell_xf));
+                    style_records
+                        .push((StylePart::get_record_hash(&cell_xf, is_exact), cell_xf));
                 }
             } else {
                 break;
@@ -883,49 +788,108 @@ impl StylePart {
         Ok(style_records)
     }
 
+    /// Hash to find the record again, when everything in the record is understood
+    fn get_record_hash<T: Hash>(item: &T, is_exact: bool) -> u64 {
+        if is_exact {
+            let mut hasher = DefaultHasher::new();
+            item.hash(&mut hasher);
+            hasher.finish()
+        } else {
+            UNMATCHABLE_HASH
+        }
+    }
+
+    /// Decode color element, None if it has anything that is not supported
+    fn deserialize_color(color_element: &XmlElement) -> Option<ColorSetting> {
+        let attributes = color_element.get_attribute()?;
+        if attributes.len() != 1 {
+            return None;
+        }
+        let (key, value) = attributes.iter().next()?;
+        match key.as_str() {
+            "theme" | "rgb" | "indexed" => Some(ColorSetting {
+                color_setting_type: ColorSettingTypeValues::get_enum(key),
+                value: value.to_string(),
+            }),
+            _ => None,
+        }
+    }
+
+    /// Decode border side, returns false if it has anything that is not supported
     pub(crate) fn deserialize_border_setting(
         current_element: &XmlElement,
         border: &mut BorderSetting,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
-    ) -> Result<(), AnyError> {
-        Ok(if let Some(attributes) = current_element.get_attribute() {
-            if let Some(style) = attributes.get("style") {
-                border.style = BorderStyleValues::get_enum(&style);
-                if border.style != BorderStyleValues::None {
-                    if let Some((color_id, _)) = current_element.pop_child_mut() {
-                        if let Some(color_element) = xml_doc_mut.pop_element_mut(&color_id) {
-                            if let Some(attributes) = color_element.get_attribute() {
-                                if let Some(theme) = attributes.get("theme") {
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Theme,
-                                        value: theme.parse().context("color theme parse failed")?,
-                                    });
-                                } else if let Some(rgb) = attributes.get("rgb") {
-                                    let rgb_string = rgb.to_string();
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Rgb,
-                                        value: rgb_string,
-                                    });
-                                } else if let Some(indexed) = attributes.get("indexed") {
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Indexed,
-                                        value: indexed
-                                            .parse()
-                                            .context("color color index parse failed")?,
-                                    });
-                                }
-                            }
-                        }
-                    }
-                }
+        xml_doc_mut: &mut XmlDocument,
+    ) -> bool {
+        let mut is_exact = true;
+        if let Some(style) = current_element
+            .get_attribute()
+            .and_then(|attributes| attributes.get("style"))
+        {
+            border.style = BorderStyleValues::get_enum(style);
+            is_exact = BorderStyleValues::get_string(border.style.clone()) == *style;
+        }
+        loop {
+            if let Some((color_id, _)) = current_element.pop_child_mut() {
+                border.border_color = xml_doc_mut
+                    .pop_element_mut(&color_id)
+                    .and_then(|item| StylePart::deserialize_color(&item));
+                is_exact = is_exact && border.border_color.is_some();
+            } else {
+                break;
             }
-        })
+        }
+        is_exact
+    }
+
+    /// Get the element holding the records, create it in its position when it is not there
+    fn get_container_id(
+        xml_doc_mut: &mut XmlDocument,
+        tag: &str,
+        count: usize,
+    ) -> AnyResult<usize, AnyError> {
+        let existing_id = xml_doc_mut
+            .get_first_element_id(vec![tag], None)
+            .context("Find Style Parent Failed")?;
+        let element_id = if let Some(element_id) = existing_id {
+            element_id
+        } else {
+            let element_id = xml_doc_mut
+                .append_child_mut(tag, None)
+                .context(format!("Create {} Parent Failed.", tag))?
+                .get_id();
+            if let Some(root) = xml_doc_mut.get_root_mut() {
+                root.order_child_mut(&[
+                    "numFmts",
+                    "fonts",
+                    "fills",
+                    "borders",
+                    "cellStyleXfs",
+                    "cellXfs",
+                    "cellStyles",
+                    "dxfs",
+                    "tableStyles",
+                    "colors",
+                    "extLst",
+                ])
+                .context("Order Style Elements Failed")?;
+            }
+            element_id
+        };
+        if let Some(element) = xml_doc_mut.get_element_mut(&element_id) {
+            let mut attributes = element.get_attribute().cloned().unwrap_or_default();
+            attributes.insert("count".to_string(), count.to_string());
+            element
+                .set_attribute_mut(attributes)
+                .context("Updating Count Attribute Failed")?;
+        }
+        Ok(element_id)
     }
 
     /// Add Color Element Node To XML
     fn add_color_element(
         color_setting: Option<ColorSetting>,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
         parent_id: usize,
     ) -> Result<(), AnyError> {
         Ok(if let Some(border_color_setting) = color_setting {
@@ -946,7 +910,7 @@ impl StylePart {
     /// Add Border Element Node to XML
     fn add_border_element(
         border_side: &str,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
         border_id: &usize,
         border_data: BorderSetting,
     ) -> Result<(), AnyError> {
@@ -970,27 +934,23 @@ impl StylePart {
 
     fn add_cell_style(
         xml_doc_mut: &mut XmlDocument,
-        xfs_data: &mut Vec<(u64, CellXfs)>,
+        xfs_data: &[(u64, CellXfs)],
+        saved_count: usize,
         enable_format_id: bool,
     ) -> Result<(), AnyError> {
-        let cell_style_xfs = xml_doc_mut
-            .insert_children_after_tag_mut(
-                if enable_format_id {
-                    "cellXfs"
-                } else {
-                    "cellStyleXfs"
-                },
-                "borders",
-                None,
-            )
-            .context("Create Cell Style parents Failed.")?;
-        let cell_style_xfs_id = cell_style_xfs.get_id();
-        let mut attributes = HashMap::new();
-        attributes.insert("count".to_string(), xfs_data.len().to_string());
-        cell_style_xfs
-            .set_attribute_mut(attributes)
-            .context("Updating Number Formats Element Attributes Failed")?;
-        for (_, xfs) in xfs_data {
+        if xfs_data.len() <= saved_count {
+            return Ok(());
+        }
+        let cell_style_xfs_id = StylePart::get_container_id(
+            xml_doc_mut,
+            if enable_format_id {
+                "cellXfs"
+            } else {
+                "cellStyleXfs"
+            },
+            xfs_data.len(),
+        )?;
+        for (_, xfs) in &xfs_data[saved_count..] {
             let xf = xml_doc_mut
                 .append_child_mut("xf", Some(&cell_style_xfs_id))
                 .context("Create Cell Style Config Failed")?;
@@ -1086,31 +1046,43 @@ impl StylePart {
                 cell_style.apply_number_format = 1;
                 // Get Number Format ID
                 if let Some(custom_format) = style_setting.custom_number_format {
-                    let mut hasher = DefaultHasher::new();
-                    let number_format = NumberFormat {
-                        format_code: custom_format,
-                        format_type: NumberFormatValues::Custom,
-                        ..Default::default()
-                    };
-                    number_format.hash(&mut hasher);
-                    let current_hash = hasher.finish();
-                    if let Some(position) = self
+                    let format_id = if let Some((_, number_format)) = self
                         .number_format_collection
                         .iter()
-                        .position(|(hash, _)| *hash == current_hash)
+                        .find(|(_, item)| item.format_code == custom_format)
                     {
-                        cell_style.number_format_id = position as u16 + 163;
+                        number_format.format_id
                     } else {
-                        self.number_format_collection
-                            .push((current_hash, number_format));
-                        cell_style.number_format_id =
-                            (self.number_format_collection.len() - 1) as u16;
-                    }
+                        // Ids below 164 are reserved for the builtin formats
+                        let format_id = self
+                            .number_format_collection
+                            .iter()
+                            .map(|(_, item)| item.format_id)
+                            .fold(163, usize::max)
+                            + 1;
+                        self.number_format_collection.push((
+                            UNMATCHABLE_HASH,
+                            NumberFormat {
+                                format_id,
+                                format_code: custom_format,
+                                format_type: NumberFormatValues::Custom,
+                            },
+                        ));
+                        format_id
+                    };
+                    cell_style.number_format_id =
+                        u16::try_from(format_id).context("Number format id out of range")?;
                 } else {
                     return Err(anyhow!(
                         "Custom Format Type is used without providing custom number format."
                     ));
                 }
+            } else if style_setting.number_format != NumberFormatValues::General {
+                cell_style.apply_number_format = 1;
+                cell_style.number_format_id =
+                    NumberFormatValues::get_string(style_setting.number_format)
+                        .parse()
+                        .context("Builtin number format id parse failed")?;
             }
             // Get Font Style ID
             {
-- 
2.43.0


From 8e9a3eb914e159dff897fe89e249cd6652e6806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 13/51] fix: keep shared string records and their indexes

Rich text records were reduced to their first run, empty records were
dropped so every later index moved, and a rich record could be reused for
a plain text. Existing records now stay as they are and white space of new
ones is marked to be preserved.
---
 .../spreadsheet_2007/services/share_string.rs | 111 +++++++++++-------
 1 file changed, 69 insertions(+), 42 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 2438b36..c209ee6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -7,18 +7,17 @@ use crate::{
     global_2007::traits::XmlDocumentPart,
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
-use std::{
-    cell::RefCell,
-    collections::{HashMap, HashSet},
-    rc::Weak,
-};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
 
 #[derive(Debug)]
 pub struct ShareStringPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
     xml_document: Weak<RefCell<XmlDocument>>,
-    share_string_collection: Vec<String>,
+    /// Text of every record, None when the record is more than a plain text
+    share_string_collection: Vec<Option<String>>,
+    /// Number of records already in the xml tree, they are never rewritten
+    saved_count: usize,
     file_path: String,
 }
 
@@ -41,33 +40,10 @@ impl XmlDocumentPartCommon for ShareStringPart {
                             let mut xml_doc_mut = xml_document
                                 .try_borrow_mut()
                                 .context("Failed to Pull Doc Reference")?;
-                            // Update count & uniqueCount in root
-                            if let Some(root) = xml_doc_mut.get_root_mut() {
-                                if let Some(attributes) = root.get_attribute_mut() {
-                                    attributes.insert(
-                                        "count".to_string(),
-                                        self.share_string_collection.len().to_string(),
-                                    );
-                                    attributes.insert(
-                                        "uniqueCount".to_string(),
-                                        self.share_string_collection
-                                            .iter()
-                                            .map(|s| s.to_string())
-                                            .collect::<HashSet<String>>()
-                                            .len()
-                                            .to_string(),
-                                    );
-                                }
-                            }
-                            for string in self.share_string_collection.to_owned() {
-                                let parent_id = xml_doc_mut
-                                    .append_child_mut("si", None)
-                                    .context("Failed to Add Child")?
-                                    .get_id();
-                                xml_doc_mut
-                                    .append_child_mut("t", Some(&parent_id))
-                                    .context("Creating Share String Child Failed")?
-                                    .set_value_mut(string);
+                            let new_count = self.share_string_collection.len() - self.saved_count;
+                            if new_count > 0 {
+                                self.save_content_to_tree_mut(&mut xml_doc_mut, new_count)
+                                    .context("Failed to Save Share String Records")?;
                             }
                         }
                         office_doc_ref
@@ -138,6 +114,7 @@ impl XmlDocumentPart for ShareStringPart {
             office_document,
             parent_relationship_part,
             xml_document,
+            saved_count: share_string_collection.len(),
             share_string_collection,
             file_path: file_name,
         })
@@ -167,25 +144,75 @@ impl ShareStringPart {
 
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<String>, AnyError> {
+    ) -> AnyResult<Vec<Option<String>>, AnyError> {
         let mut share_string_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
+            // Decode from a copy, the records in the file are kept as they are
             let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
+                .try_borrow()
+                .context("xml doc borrow failed")?
+                .clone_tree();
             if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
                 for element in elements {
-                    if let Some((child_id, _)) = element.pop_child_mut() {
-                        if let Some(text_element) = xml_doc_mut.pop_element_mut(&child_id) {
-                            let value = text_element.get_value().clone().unwrap_or("".to_string());
-                            share_string_collection.push(value);
+                    let mut value = None;
+                    if element.get_child_count() == 1 {
+                        if let Some((child_id, child_tag)) = element.pop_child_mut() {
+                            if child_tag == "t" {
+                                value = xml_doc_mut.pop_element_mut(&child_id).map(|item| {
+                                    item.get_value().clone().unwrap_or("".to_string())
+                                });
+                            }
                         }
                     }
+                    share_string_collection.push(value);
                 }
             }
         }
         Ok(share_string_collection)
     }
+
+    /// Append the new records after the existing ones
+    fn save_content_to_tree_mut(
+        &mut self,
+        xml_doc_mut: &mut XmlDocument,
+        new_count: usize,
+    ) -> AnyResult<(), AnyError> {
+        for string in self.share_string_collection[self.saved_count..]
+            .iter()
+            .flatten()
+        {
+            let parent_id = xml_doc_mut
+                .append_child_mut("si", None)
+                .context("Failed to Add Child")?
+                .get_id();
+            let text_element = xml_doc_mut
+                .append_child_mut("t", Some(&parent_id))
+                .context("Creating Share String Child Failed")?;
+            if string.trim() != string {
+                let mut attributes: HashMap<String, String> = HashMap::new();
+                attributes.insert("xml:space".to_string(), "preserve".to_string());
+                text_element
+                    .set_attribute_mut(attributes)
+                    .context("Set Attribute Failed")?;
+            }
+            text_element.set_value_mut(string.to_string());
+        }
+        self.saved_count = self.share_string_collection.len();
+        // Update count & uniqueCount in root
+        if let Some(root) = xml_doc_mut.get_root_mut() {
+            if let Some(attributes) = root.get_attribute_mut() {
+                let count = attributes
+                    .get("count")
+                    .and_then(|count| count.parse::<usize>().ok())
+                    .unwrap_or(self.saved_count - new_count);
+                attributes.insert("count".to_string(), count.saturating_add(new_count).to_string());
+                attributes.insert("uniqueCount".to_string(), self.saved_count.to_string());
+            }
+            root.order_child_mut(&["si", "extLst"])
+                .context("Failed Reorder the Share String child's")?;
+        }
+        Ok(())
+    }
 }
 
 impl ShareStringPart {
@@ -194,11 +221,11 @@ impl ShareStringPart {
             if let Some(position) = self
                 .share_string_collection
                 .iter()
-                .position(|predicate| predicate == &value)
+                .position(|predicate| predicate.as_ref() == Some(&value))
             {
                 position.to_string()
             } else {
-                self.share_string_collection.push(value);
+                self.share_string_collection.push(Some(value));
                 (self.share_string_collection.len() - 1).to_string()
             },
         )
-- 
2.43.0


From 27fd3b5573031225aaa48a90c6198f477d12d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 14/51] fix: keep calculation chain entries as they are

The optional sheet id of an entry was required (panic when absent) and
every attribute besides r and i was lost on saving.
---
 .../services/calculation_chain.rs             | 54 ++++++-------------
 1 file changed, 16 insertions(+), 38 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index c8aeb8f..f261987 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -13,7 +13,8 @@ use std::{cell::RefCell, collections::HashMap, rc::Weak};
 pub struct CalculationChainPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
-    calculation_collection: Vec<(String, String, Option<String>)>,
+    /// The chain has entries, they are kept as they are in the file
+    has_calculation: bool,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
 }
@@ -32,21 +33,7 @@ impl XmlDocumentPartCommon for CalculationChainPart {
         log_elapsed!(
             || {
                 if let Some(office_doc_ref) = self.office_document.upgrade() {
-                    if self.calculation_collection.len() > 0 {
-                        if let Some(xml_document) = self.xml_document.upgrade() {
-                            let mut xml_doc_mut = xml_document
-                                .try_borrow_mut()
-                                .context("Failed to pull document handle")?;
-                            for (cell_key, sheet_id, _l) in self.calculation_collection.to_owned() {
-                                let mut attributes = HashMap::new();
-                                attributes.insert("r".to_string(), cell_key);
-                                attributes.insert("i".to_string(), sheet_id);
-                                xml_doc_mut
-                                    .append_child_mut("c", None)
-                                    .context("Failed To Add Child Item")?
-                                    .set_attribute_mut(attributes)?;
-                            }
-                        }
+                    if self.has_calculation {
                         office_doc_ref
                             .try_borrow_mut()
                             .context("Failed to Borrow Share Tree")?
@@ -105,13 +92,13 @@ impl XmlDocumentPart for CalculationChainPart {
         let file_name = Self::get_calc_chain_file_name(&parent_relationship_part)
             .context("Failed to pull calc chain file name")?
             .to_string();
-        let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let calculation_collection = Self::load_content_to_database(&mut xml_document)
+        let xml_document = Self::get_xml_document(&office_document, &file_name)?;
+        let has_calculation = Self::has_calculation_entries(&xml_document)
             .context("Load Calculation Chain To DB Failed")?;
         Ok(Self {
             office_document,
             parent_relationship_part,
-            calculation_collection,
+            has_calculation,
             xml_document,
             file_path: file_name,
         })
@@ -138,26 +125,17 @@ impl CalculationChainPart {
             Err(anyhow!("Failed to upgrade relation part"))
         }
     }
-    fn load_content_to_database(
-        xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<(String, String, Option<String>)>, AnyError> {
-        let mut calculation_collection = Vec::new();
+    fn has_calculation_entries(
+        xml_document: &Weak<RefCell<XmlDocument>>,
+    ) -> AnyResult<bool, AnyError> {
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("c", None) {
-                for element in elements {
-                    if let Some(attributes) = element.get_attribute() {
-                        calculation_collection.push((
-                            attributes["r"].clone(),
-                            attributes["i"].clone(),
-                            attributes.get("l").cloned(),
-                        ));
-                    }
-                }
-            }
+            Ok(xml_document
+                .try_borrow()
+                .context("xml doc borrow failed")?
+                .get_root()
+                .map_or(false, |root| root.get_child_count() > 0))
+        } else {
+            Ok(false)
         }
-        Ok(calculation_collection)
     }
 }
-- 
2.43.0


From 822c9d5af0587a60d2a70fa2600960a58f6c6891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 15/51] fix: keep the sheet views of an existing sheet

Every save added a default view, reversed the order of the views, dropped
panes and selections and refused views with extensions.
---
 rs/src/files/xml/xml_tree.rs                  |   2 +-
 .../spreadsheet_2007/parts/worksheet.rs       | 485 +++++++++---------
 2 files changed, 249 insertions(+), 238 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 4853793..457a05e 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -102,7 +102,7 @@ impl XmlDocument {
         element_ids
     }
 
-    fn get_element_ids_by_tag(
+    pub(crate) fn get_element_ids_by_tag(
         &self,
         filter_tag: &str,
         parent_id: Option<&usize>,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 9aea05b..324d6c0 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -52,6 +52,8 @@ pub(crate) struct WorkSheetViewSelection {
 
 #[derive(Debug)]
 pub(crate) struct WorkSheetView {
+    /// Element of the view in the xml tree, None when it is new
+    element_id: Option<usize>,
     selection_collection: Option<Vec<WorkSheetViewSelection>>,
     workbook_view_id: String,
     default_grid_color: Option<bool>,
@@ -76,6 +78,7 @@ pub(crate) struct WorkSheetView {
 impl Default for WorkSheetView {
     fn default() -> Self {
         Self {
+            element_id: None,
             workbook_view_id: "0".to_string(),
             selection_collection: None,
             default_grid_color: None,
@@ -290,7 +293,7 @@ impl WorkSheet {
             )?;
             let worksheet_views = log_elapsed!(
                 || {
-                    deserialize_worksheet_views(&mut xml_doc_mut)
+                    deserialize_worksheet_views(&xml_doc_mut)
                         .context("Failed to deserialize Worksheet View")
                 },
                 "Worksheet View Deserialization"
@@ -385,112 +388,127 @@ impl WorkSheet {
     }
 
     fn serialize_sheet_views(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        let sheet_views_id = xml_doc_mut
-            .insert_children_after_tag_mut("sheetViews", "dimension", None)
-            .context("Failed to Insert Sheet Views Element")?
-            .get_id();
-        loop {
-            if let Some(sheet_view) = self.sheet_views.view_collection.pop() {
-                let mut attribute: HashMap<String, String> = HashMap::new();
-                attribute.insert("workbookViewId".to_string(), sheet_view.workbook_view_id);
-                if let Some(window_protection) = sheet_view.window_protection {
-                    attribute.insert(
-                        "windowProtection".to_string(),
-                        ConverterUtil::bool_xml_flag(&window_protection),
-                    );
-                }
-                if let Some(show_formula_bar) = sheet_view.show_formula_bar {
-                    attribute.insert(
-                        "showFormulas".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_formula_bar),
-                    );
-                }
-                if let Some(show_grid_line) = sheet_view.show_grid_line {
-                    attribute.insert(
-                        "showGridLines".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_grid_line),
-                    );
-                }
-                if let Some(show_row_col_header) = sheet_view.show_row_col_header {
-                    attribute.insert(
-                        "showRowColHeaders".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_row_col_header),
-                    );
-                }
-                if let Some(show_zero) = sheet_view.show_zero {
-                    attribute.insert(
-                        "showZeros".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_zero),
-                    );
-                }
-                if let Some(view_right_to_left) = sheet_view.view_right_to_left {
-                    attribute.insert(
-                        "rightToLeft".to_string(),
-                        ConverterUtil::bool_xml_flag(&view_right_to_left),
-                    );
-                }
-                if let Some(tab_selected) = sheet_view.tab_selected {
-                    attribute.insert(
-                        "tabSelected".to_string(),
-                        ConverterUtil::bool_xml_flag(&tab_selected),
-                    );
-                }
-                if let Some(show_ruler) = sheet_view.show_ruler {
-                    attribute.insert(
-                        "showRuler".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_ruler),
-                    );
-                }
-                if let Some(show_white_space) = sheet_view.show_white_space {
-                    attribute.insert(
-                        "showWhiteSpace".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_white_space),
-                    );
-                }
-                if let Some(show_outline_symbol) = sheet_view.show_outline_symbol {
-                    attribute.insert(
-                        "showOutlineSymbols".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_outline_symbol),
-                    );
-                }
-                if let Some(default_grid_color) = sheet_view.default_grid_color {
-                    attribute.insert(
-                        "defaultGridColor".to_string(),
-                        ConverterUtil::bool_xml_flag(&default_grid_color),
-                    );
-                }
-                if let Some(top_left_cell) = sheet_view.top_left_cell {
-                    attribute.insert("topLeftCell".to_string(), top_left_cell);
-                }
-                if let Some(view) = sheet_view.view {
-                    attribute.insert("view".to_string(), view);
-                }
-                if let Some(zoom_scale) = sheet_view.zoom_scale {
-                    attribute.insert("zoomScale".to_string(), zoom_scale.to_string());
-                }
-                if let Some(zoom_scale_normal) = sheet_view.zoom_scale_normal {
-                    attribute.insert("zoomScaleNormal".to_string(), zoom_scale_normal.to_string());
-                }
-                if let Some(zoom_scale_sheet_layout) = sheet_view.zoom_scale_sheet_layout {
-                    attribute.insert(
-                        "zoomScaleSheetLayoutView".to_string(),
-                        zoom_scale_sheet_layout.to_string(),
-                    );
-                }
-                if let Some(zoom_scale_page_layout) = sheet_view.zoom_scale_page_layout {
-                    attribute.insert(
-                        "zoomScalePageLayoutView".to_string(),
-                        zoom_scale_page_layout.to_string(),
-                    );
-                }
+        let sheet_views_id = if let Some(sheet_views_id) = xml_doc_mut
+            .get_first_element_id(vec!["sheetViews"], None)
+            .context("Failed to Find Sheet Views Element")?
+        {
+            sheet_views_id
+        } else {
+            xml_doc_mut
+                .insert_children_after_tag_mut("sheetViews", "dimension", None)
+                .context("Failed to Insert Sheet Views Element")?
+                .get_id()
+        };
+        for sheet_view in std::mem::take(&mut self.sheet_views.view_collection) {
+            // Details of an existing view that are not in the model are kept
+            let mut attribute: HashMap<String, String> = sheet_view
+                .element_id
+                .and_then(|element_id| xml_doc_mut.get_element(&element_id))
+                .and_then(|element| element.get_attribute().cloned())
+                .unwrap_or_default();
+            attribute.insert("workbookViewId".to_string(), sheet_view.workbook_view_id);
+            if let Some(window_protection) = sheet_view.window_protection {
+                attribute.insert(
+                    "windowProtection".to_string(),
+                    ConverterUtil::bool_xml_flag(&window_protection),
+                );
+            }
+            if let Some(show_formula_bar) = sheet_view.show_formula_bar {
+                attribute.insert(
+                    "showFormulas".to_string(),
+                    ConverterUtil::bool_xml_flag(&show_formula_bar),
+                );
+            }
+            if let Some(show_grid_line) = sheet_view.show_grid_line {
+                attribute.insert(
+                    "showGridLines".to_string(),
+                    ConverterUtil::bool_xml_flag(&show_grid_line),
+                );
+            }
+            if let Some(show_row_col_header) = sheet_view.show_row_col_header {
+                attribute.insert(
+                    "showRowColHeaders".to_string(),
+                    ConverterUtil::bool_xml_flag(&show_row_col_header),
+                );
+            }
+            if let Some(show_zero) = sheet_view.show_zero {
+                attribute.insert(
+                    "showZeros".to_string(),
+                    ConverterUtil::bool_xml_flag(&show_zero),
+                );
+            }
+            if let Some(view_right_to_left) = sheet_view.view_right_to_left {
+                attribute.insert(
+                    "rightToLeft".to_string(),
+                    ConverterUtil::bool_xml_flag(&view_right_to_left),
+                );
+            }
+            if let Some(tab_selected) = sheet_view.tab_selected {
+                attribute.insert(
+                    "tabSelected".to_string(),
+                    ConverterUtil::bool_xml_flag(&tab_selected),
+                );
+            }
+            if let Some(show_ruler) = sheet_view.show_ruler {
+                attribute.insert(
+                    "showRuler".to_string(),
+                    ConverterUtil::bool_xml_flag(&show_ruler),
+                );
+            }
+            if let Some(show_white_space) = sheet_view.show_white_space {
+                attribute.insert(
+                    "showWhiteSpace".to_string(),
+                    ConverterUtil::bool_xml_flag(&show_white_space),
+                );
+            }
+            if let Some(show_outline_symbol) = sheet_view.show_outline_symbol {
+                attribute.insert(
+                    "showOutlineSymbols".to_string(),
+                    ConverterUtil::bool_xml_flag(&show_outline_symbol),
+                );
+            }
+            if let Some(default_grid_color) = sheet_view.default_grid_color {
+                attribute.insert(
+                    "defaultGridColor".to_string(),
+                    ConverterUtil::bool_xml_flag(&default_grid_color),
+                );
+            }
+            if let Some(top_left_cell) = sheet_view.top_left_cell {
+                attribute.insert("topLeftCell".to_string(), top_left_cell);
+            }
+            if let Some(view) = sheet_view.view {
+                attribute.insert("view".to_string(), view);
+            }
+            if let Some(zoom_scale) = sheet_view.zoom_scale {
+                attribute.insert("zoomScale".to_string(), zoom_scale.to_string());
+            }
+            if let Some(zoom_scale_normal) = sheet_view.zoom_scale_normal {
+                attribute.insert("zoomScaleNormal".to_string(), zoom_scale_normal.to_string());
+            }
+            if let Some(zoom_scale_sheet_layout) = sheet_view.zoom_scale_sheet_layout {
+                attribute.insert(
+                    "zoomScaleSheetLayoutView".to_string(),
+                    zoom_scale_sheet_layout.to_string(),
+                );
+            }
+            if let Some(zoom_scale_page_layout) = sheet_view.zoom_scale_page_layout {
+                attribute.insert(
+                    "zoomScalePageLayoutView".to_string(),
+                    zoom_scale_page_layout.to_string(),
+                );
+            }
+            let sheet_view_element = if let Some(element_id) = sheet_view.element_id {
+                xml_doc_mut
+                    .get_element_mut(&element_id)
+                    .ok_or(anyhow!("Failed to get Sheet View Element"))?
+            } else {
                 xml_doc_mut
                     .append_child_mut("sheetView", Some(&sheet_views_id))
                     .context("Failed to insert sheetView record")?
-                    .set_attribute_mut(attribute)
-                    .context("Failed to Add Attribute to sheetView element")?;
-            } else {
-                break;
-            }
+            };
+            sheet_view_element
+                .set_attribute_mut(attribute)
+                .context("Failed to Add Attribute to sheetView element")?;
         }
         Ok(())
     }
@@ -687,142 +705,135 @@ fn deserialize_cols(
 }
 
 /// DeSerializing Worksheet View
-fn deserialize_worksheet_views(
-    xml_doc_mut: &mut XmlDocument,
-) -> AnyResult<WorkSheetViews, AnyError> {
+fn deserialize_worksheet_views(xml_doc_mut: &XmlDocument) -> AnyResult<WorkSheetViews, AnyError> {
     let mut worksheet_views = WorkSheetViews::default();
-    if let Some(mut sheet_views_elements) = xml_doc_mut.pop_elements_by_tag_mut("sheetViews", None)
+    if let Some(sheet_views_id) = xml_doc_mut
+        .get_first_element_id(vec!["sheetViews"], None)
+        .context("Failed to Find Sheet Views Element")?
     {
-        if let Some(sheet_views_element) = sheet_views_elements.pop() {
-            loop {
-                if let Some((element_id, element_tag)) = sheet_views_element.pop_child_mut() {
-                    // Validate element that are not accounted
-                    if element_tag != "sheetView" {
-                        return Err(anyhow!("Failed to Process Sheet Views child"));
-                    } else {
-                        let sheet_view_element = xml_doc_mut
-                            .pop_element_mut(&element_id)
-                            .context("Failed to get Sheet View Element")?;
-                        let mut worksheet_view = WorkSheetView::default();
-                        let attributes = sheet_view_element
-                            .get_attribute()
-                            .context("Failed to Get Attributes of Sheet View")?;
-                        worksheet_view.workbook_view_id = attributes
-                            .get("workbookViewId")
-                            .context(
-                                "Mandatory attribute \"workbookViewId\" is missing from sheetView",
-                            )?
-                            .clone();
-                        // Windows protection
-                        if let Some(window_protection) = attributes.get("windowProtection") {
-                            worksheet_view.window_protection = Some(
-                                ConverterUtil::normalize_bool_property_bool(&window_protection),
-                            );
-                        }
-                        // Show formula
-                        if let Some(show_formula_bar) = attributes.get("showFormulas") {
-                            worksheet_view.show_formula_bar = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_formula_bar),
-                            );
-                        }
-                        // Show Grid Line
-                        if let Some(show_grid_line) = attributes.get("showGridLines") {
-                            worksheet_view.show_grid_line =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_grid_line));
-                        }
-                        // Show row column header
-                        if let Some(show_row_col_header) = attributes.get("showRowColHeaders") {
-                            worksheet_view.show_row_col_header = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_row_col_header),
-                            );
-                        }
-                        // Show Zero
-                        if let Some(show_zero) = attributes.get("showZeros") {
-                            worksheet_view.show_zero =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_zero));
-                        }
-                        // Right to Left
-                        if let Some(view_right_to_left) = attributes.get("rightToLeft") {
-                            worksheet_view.view_right_to_left = Some(
-                                ConverterUtil::normalize_bool_property_bool(&view_right_to_left),
-                            );
-                        }
-                        // Tab Selected
-                        if let Some(tab_selected) = attributes.get("tabSelected") {
-                            worksheet_view.tab_selected =
-                                Some(ConverterUtil::normalize_bool_property_bool(&tab_selected));
-                        }
-                        // show ruler
-                        if let Some(show_ruler) = attributes.get("showRuler") {
-                            worksheet_view.show_ruler =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_ruler));
-                        }
-                        // show white space
-                        if let Some(show_white_space) = attributes.get("showWhiteSpace") {
-                            worksheet_view.show_white_space =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_white_space));
-                        }
-                        // Show outlined Symbols
-                        if let Some(show_outline_symbol) = attributes.get("showOutlineSymbols") {
-                            worksheet_view.show_outline_symbol = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_outline_symbol),
-                            );
-                        }
-                        // Default Grid Color
-                        if let Some(default_grid_color) = attributes.get("defaultGridColor") {
-                            worksheet_view.default_grid_color = Some(
-                                ConverterUtil::normalize_bool_property_bool(&default_grid_color),
-                            );
-                        }
-                        // Top Left Cell
-                        if let Some(top_left_cell) = attributes.get("topLeftCell") {
-                            worksheet_view.top_left_cell = Some(top_left_cell.clone());
-                        }
-                        // View Setting
-                        if let Some(view) = attributes.get("view") {
-                            worksheet_view.view = Some(view.clone());
-                        }
-                        // Zoom Scale
-                        if let Some(zoom_scale) = attributes.get("zoomScale") {
-                            worksheet_view.zoom_scale = Some(
-                                zoom_scale
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Normal
-                        if let Some(zoom_scale_normal) = attributes.get("zoomScaleNormal") {
-                            worksheet_view.zoom_scale_normal = Some(
-                                zoom_scale_normal
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Sheet Layout View
-                        if let Some(zoom_scale_sheet_layout) =
-                            attributes.get("zoomScaleSheetLayoutView")
-                        {
-                            worksheet_view.zoom_scale_sheet_layout = Some(
-                                zoom_scale_sheet_layout
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Page Layout View
-                        if let Some(zoom_scale_page_layout) =
-                            attributes.get("zoomScalePageLayoutView")
-                        {
-                            worksheet_view.zoom_scale_page_layout = Some(
-                                zoom_scale_page_layout
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        worksheet_views.view_collection.push(worksheet_view);
-                    }
-                } else {
-                    break;
+        if let Some(sheet_view_ids) =
+            xml_doc_mut.get_element_ids_by_tag("sheetView", Some(&sheet_views_id))
+        {
+            // The default view is only for sheets without one
+            worksheet_views.view_collection.clear();
+            for element_id in sheet_view_ids {
+                let sheet_view_element = xml_doc_mut
+                    .get_element(&element_id)
+                    .context("Failed to get Sheet View Element")?;
+                let mut worksheet_view = WorkSheetView {
+                    element_id: Some(element_id),
+                    ..WorkSheetView::default()
+                };
+                let attributes = sheet_view_element
+                    .get_attribute()
+                    .context("Failed to Get Attributes of Sheet View")?;
+                worksheet_view.workbook_view_id = attributes
+                    .get("workbookViewId")
+                    .context("Mandatory attribute \"workbookViewId\" is missing from sheetView")?
+                    .clone();
+                // Windows protection
+                if let Some(window_protection) = attributes.get("windowProtection") {
+                    worksheet_view.window_protection = Some(
+                        ConverterUtil::normalize_bool_property_bool(&window_protection),
+                    );
+                }
+                // Show formula
+                if let Some(show_formula_bar) = attributes.get("showFormulas") {
+                    worksheet_view.show_formula_bar = Some(
+                        ConverterUtil::normalize_bool_property_bool(&show_formula_bar),
+                    );
+                }
+                // Show Grid Line
+                if let Some(show_grid_line) = attributes.get("showGridLines") {
+                    worksheet_view.show_grid_line =
+                        Some(ConverterUtil::normalize_bool_property_bool(&show_grid_line));
+                }
+                // Show row column header
+                if let Some(show_row_col_header) = attributes.get("showRowColHeaders") {
+                    worksheet_view.show_row_col_header = Some(
+                        ConverterUtil::normalize_bool_property_bool(&show_row_col_header),
+                    );
+                }
+                // Show Zero
+                if let Some(show_zero) = attributes.get("showZeros") {
+                    worksheet_view.show_zero =
+                        Some(ConverterUtil::normalize_bool_property_bool(&show_zero));
+                }
+                // Right to Left
+                if let Some(view_right_to_left) = attributes.get("rightToLeft") {
+                    worksheet_view.view_right_to_left = Some(
+                        ConverterUtil::normalize_bool_property_bool(&view_right_to_left),
+                    );
+                }
+                // Tab Selected
+                if let Some(tab_selected) = attributes.get("tabSelected") {
+                    worksheet_view.tab_selected =
+                        Some(ConverterUtil::normalize_bool_property_bool(&tab_selected));
+                }
+                // show ruler
+                if let Some(show_ruler) = attributes.get("showRuler") {
+                    worksheet_view.show_ruler =
+                        Some(ConverterUtil::normalize_bool_property_bool(&show_ruler));
+                }
+                // show white space
+                if let Some(show_white_space) = attributes.get("showWhiteSpace") {
+                    worksheet_view.show_white_space = Some(
+                        ConverterUtil::normalize_bool_property_bool(&show_white_space),
+                    );
+                }
+                // Show outlined Symbols
+                if let Some(show_outline_symbol) = attributes.get("showOutlineSymbols") {
+                    worksheet_view.show_outline_symbol = Some(
+                        ConverterUtil::normalize_bool_property_bool(&show_outline_symbol),
+                    );
+                }
+                // Default Grid Color
+                if let Some(default_grid_color) = attributes.get("defaultGridColor") {
+                    worksheet_view.default_grid_color = Some(
+                        ConverterUtil::normalize_bool_property_bool(&default_grid_color),
+                    );
+                }
+                // Top Left Cell
+                if let Some(top_left_cell) = attributes.get("topLeftCell") {
+                    worksheet_view.top_left_cell = Some(top_left_cell.clone());
+                }
+                // View Setting
+                if let Some(view) = attributes.get("view") {
+                    worksheet_view.view = Some(view.clone());
+                }
+                // Zoom Scale
+                if let Some(zoom_scale) = attributes.get("zoomScale") {
+                    worksheet_view.zoom_scale = Some(
+                        zoom_scale
+                            .parse()
+                            .context("Failed to Convert Zoom Normal to i16")?,
+                    );
+                }
+                // Zoom Scale Normal
+                if let Some(zoom_scale_normal) = attributes.get("zoomScaleNormal") {
+                    worksheet_view.zoom_scale_normal = Some(
+                        zoom_scale_normal
+                            .parse()
+                            .context("Failed to Convert Zoom Normal to i16")?,
+                    );
+                }
+                // Zoom Scale Sheet Layout View
+                if let Some(zoom_scale_sheet_layout) = attributes.get("zoomScaleSheetLayoutView") {
+                    worksheet_view.zoom_scale_sheet_layout = Some(
+                        zoom_scale_sheet_layout
+                            .parse()
+                            .context("Failed to Convert Zoom Normal to i16")?,
+                    );
+                }
+                // Zoom Scale Page Layout View
+                if let Some(zoom_scale_page_layout) = attributes.get("zoomScalePageLayoutView") {
+                    worksheet_view.zoom_scale_page_layout = Some(
+                        zoom_scale_page_layout
+                            .parse()
+                            .context("Failed to Convert Zoom Normal to i16")?,
+                    );
                 }
+                worksheet_views.view_collection.push(worksheet_view);
             }
         }
     }
-- 
2.43.0


From d81441dbb83c63cf6dd8fcc93c3d172929da3a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 16/51] fix: column settings apply to every sheet and keep the
 other columns

Settings were ignored for a sheet without columns, splitting a range lost
its settings, false was written as true, columns were written out of order
and details of loaded columns were lost.
---
 .../spreadsheet_2007/models/worksheet.rs      |  6 ++-
 .../spreadsheet_2007/parts/worksheet.rs       | 46 +++++++++++++------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index c6a521f..5f20076 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -1,5 +1,6 @@
 use crate::global_2007::{models::HyperlinkProperties, traits::Enum};
 use crate::spreadsheet_2007::models::StyleId;
+use std::collections::HashMap;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum CellDataType {
@@ -55,7 +56,7 @@ pub struct RowProperties {
     pub(crate) span: Option<String>,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ColumnProperties {
     // Start Column index
     pub(crate) min: u16,
@@ -73,6 +74,8 @@ pub struct ColumnProperties {
     pub(crate) group_level: usize,
     // Collapse the current column
     pub(crate) collapsed: Option<bool>,
+    // Attributes of the column loaded from file
+    pub(crate) loaded_attributes: HashMap<String, String>,
 }
 
 impl Default for ColumnProperties {
@@ -83,6 +86,7 @@ impl Default for ColumnProperties {
             best_fit: None,
             collapsed: None,
             group_level: 0,
+            loaded_attributes: HashMap::new(),
             hidden: None,
             style_id: None,
             width: None,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 324d6c0..40ce8c9 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -355,6 +355,10 @@ impl WorkSheet {
                     .insert_children_after_tag_mut("cols", "sheetFormatPr", None)
                     .context("Failed to Insert Cols Element")?
                     .get_id();
+                // Columns should be in order
+                column_collection
+                    .make_contiguous()
+                    .sort_by_key(|item| item.min);
                 loop {
                     if let Some(item) = column_collection.pop_front() {
                         let mut attribute = HashMap::new();
@@ -367,11 +371,23 @@ impl WorkSheet {
                         if let Some(style_id) = item.style_id {
                             attribute.insert("style".to_string(), style_id.id.to_string());
                         }
-                        if let Some(_) = item.hidden {
-                            attribute.insert("hidden".to_string(), "1".to_string());
+                        if let Some(hidden) = item.hidden {
+                            attribute.insert(
+                                "hidden".to_string(),
+                                ConverterUtil::bool_xml_flag(&hidden),
+                            );
+                        }
+                        if let Some(best_fit) = item.best_fit {
+                            attribute.insert(
+                                "bestFit".to_string(),
+                                ConverterUtil::bool_xml_flag(&best_fit),
+                            );
                         }
-                        if let Some(_) = item.best_fit {
-                            attribute.insert("bestFit".to_string(), "1".to_string());
+                        // Details of the loaded column are kept as they are
+                        for (key, value) in item.loaded_attributes {
+                            if key != "min" && key != "max" {
+                                attribute.insert(key, value);
+                            }
                         }
                         xml_doc_mut
                             .append_child_mut("col", Some(&cols_id))
@@ -642,10 +658,10 @@ impl WorkSheet {
 fn deserialize_cols(
     xml_doc_mut: &mut XmlDocument,
 ) -> AnyResult<Option<VecDeque<ColumnProperties>>, AnyError> {
-    if let Some(mut cols_element) = xml_doc_mut.pop_elements_by_tag_mut("cols", None) {
+    if let Some(cols_element) = xml_doc_mut.pop_elements_by_tag_mut("cols", None) {
+        let mut column_collection = VecDeque::new();
         // Process the columns record if parent node exist
-        if let Some(cols) = cols_element.pop() {
-            let mut column_collection = VecDeque::with_capacity(cols.get_child_count());
+        for cols in cols_element {
             loop {
                 if let Some((col_elements, _)) = cols.pop_child_mut() {
                     if let Some(col) = xml_doc_mut.pop_element_mut(&col_elements) {
@@ -663,10 +679,11 @@ fn deserialize_cols(
                         }
                         if let Some(best_fit) = attributes.get("bestFit") {
                             column_properties.best_fit =
-                                if best_fit == "1" { Some(true) } else { None }
+                                Some(ConverterUtil::normalize_bool_property_bool(best_fit))
                         }
                         if let Some(hidden) = attributes.get("hidden") {
-                            column_properties.hidden = if hidden == "1" { Some(true) } else { None }
+                            column_properties.hidden =
+                                Some(ConverterUtil::normalize_bool_property_bool(hidden))
                         }
                         if let Some(style) = attributes.get("style") {
                             column_properties.style_id = Some(StyleId::new(
@@ -678,7 +695,7 @@ fn deserialize_cols(
                                 outline_level.parse().context("Failed to parse style ID")?;
                         }
                         if let Some(custom_width) = attributes.get("customWidth") {
-                            if custom_width == "1" {
+                            if ConverterUtil::normalize_bool_property_bool(custom_width) {
                                 column_properties.width = Some(
                                     attributes
                                         .get("width")
@@ -690,18 +707,19 @@ fn deserialize_cols(
                         }
                         if let Some(collapsed) = attributes.get("collapsed") {
                             column_properties.collapsed =
-                                if collapsed == "1" { Some(true) } else { None }
+                                Some(ConverterUtil::normalize_bool_property_bool(collapsed))
                         }
+                        column_properties.loaded_attributes = attributes.clone();
                         column_collection.push_back(column_properties);
                     }
                 } else {
                     break;
                 }
             }
-            return Ok(Some(column_collection));
         }
+        return Ok(Some(column_collection));
     }
-    Ok(None)
+    Ok(Some(VecDeque::new()))
 }
 
 /// DeSerializing Worksheet View
@@ -1193,7 +1211,7 @@ impl WorkSheet {
                         new_ranges.push_back(ColumnProperties {
                             min: col_index + 1,
                             max: range.max,
-                            ..ColumnProperties::default()
+                            ..range.clone()
                         });
                         range.max = col_index - 1;
                     }
-- 
2.43.0


From 0d0952d72a6362aaaa6d9144a5f783619d986101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 17/51] fix: keep rows and cells that are not edited

Formula details, rich inline text, extensions and every attribute without
a model were lost or refused on saving, an absent value became an empty
one, a formula of an inline text cell was ignored, row flags set to false
were written as true and optional references were required.
---
 rs/src/files/xml/xml_tree.rs                  |  19 ++
 .../spreadsheet_2007/models/worksheet.rs      |   5 +
 .../spreadsheet_2007/parts/worksheet.rs       | 212 ++++++++++--------
 3 files changed, 137 insertions(+), 99 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 457a05e..e289a1e 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -274,6 +274,25 @@ impl XmlDocument {
         }
     }
 
+    /// Attach an element, that was detached from its parent, as last child
+    pub(crate) fn attach_child_mut(
+        &mut self,
+        element_id: &usize,
+        parent_id: &usize,
+    ) -> AnyResult<(), AnyError> {
+        let element = self
+            .xml_element_collection
+            .get_mut(element_id)
+            .ok_or(anyhow!("Element Not Found"))?;
+        element.set_parent_id_mut(*parent_id);
+        let tag = element.get_tag().to_string();
+        self.xml_element_collection
+            .get_mut(parent_id)
+            .ok_or(anyhow!("Parent Element Not Found"))?
+            .append_children_mut(*element_id, &tag)
+            .context("Failed to add Child Relation")
+    }
+
     pub(crate) fn get_first_element_id(
         &self,
         mut element_tree: Vec<&str>,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index 5f20076..be7d7c6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -54,6 +54,8 @@ pub struct RowProperties {
     pub(crate) collapsed: Option<bool>,
     pub(crate) place_holder: Option<bool>,
     pub(crate) span: Option<String>,
+    // Attributes of the row loaded from file
+    pub(crate) loaded_attributes: HashMap<String, String>,
 }
 
 #[derive(Debug, Clone)]
@@ -105,6 +107,8 @@ pub struct CellProperties {
     pub(crate) metadata: Option<String>,
     pub(crate) comment_id: Option<usize>,
     pub(crate) place_holder: Option<bool>,
+    /// Element of the cell loaded from file, written back as it is
+    pub(crate) element_id: Option<usize>,
 }
 
 impl Default for CellProperties {
@@ -118,6 +122,7 @@ impl Default for CellProperties {
             metadata: None,
             comment_id: None,
             place_holder: None,
+            element_id: None,
         }
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 40ce8c9..451e833 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -553,29 +553,54 @@ impl WorkSheet {
                     row_attribute.insert("customHeight".to_string(), "1".to_string());
                     row_attribute.insert("ht".to_string(), row_height.to_string());
                 }
-                if let Some(_) = db_row.row_record.hidden {
-                    row_attribute.insert("hidden".to_string(), "1".to_string());
+                if let Some(hidden) = db_row.row_record.hidden {
+                    row_attribute
+                        .insert("hidden".to_string(), ConverterUtil::bool_xml_flag(&hidden));
                 }
                 if let Some(row_group_level) = db_row.row_record.group_level {
                     row_attribute.insert("outlineLevel".to_string(), row_group_level.to_string());
                 }
-                if let Some(_) = db_row.row_record.collapsed {
-                    row_attribute.insert("collapsed".to_string(), "1".to_string());
+                if let Some(collapsed) = db_row.row_record.collapsed {
+                    row_attribute.insert(
+                        "collapsed".to_string(),
+                        ConverterUtil::bool_xml_flag(&collapsed),
+                    );
+                }
+                if let Some(thick_top) = db_row.row_record.thick_top {
+                    row_attribute.insert(
+                        "thickTop".to_string(),
+                        ConverterUtil::bool_xml_flag(&thick_top),
+                    );
                 }
-                if let Some(_) = db_row.row_record.thick_top {
-                    row_attribute.insert("thickTop".to_string(), "1".to_string());
+                if let Some(thick_bottom) = db_row.row_record.thick_bottom {
+                    row_attribute.insert(
+                        "thickBot".to_string(),
+                        ConverterUtil::bool_xml_flag(&thick_bottom),
+                    );
                 }
-                if let Some(_) = db_row.row_record.thick_bottom {
-                    row_attribute.insert("thickBot".to_string(), "1".to_string());
+                if let Some(place_holder) = db_row.row_record.place_holder {
+                    row_attribute.insert(
+                        "ph".to_string(),
+                        ConverterUtil::bool_xml_flag(&place_holder),
+                    );
                 }
-                if let Some(_) = db_row.row_record.place_holder {
-                    row_attribute.insert("ph".to_string(), "1".to_string());
+                // Details of the loaded row are kept as they are
+                for (key, value) in db_row.row_record.loaded_attributes {
+                    if key != "r" {
+                        row_attribute.insert(key, value);
+                    }
                 }
                 row_element
                     .set_attribute_mut(row_attribute)
                     .context("Failed to set attribute for row")?;
                 if let Some(cols) = db_row.cell_records {
                     for (col_index, cell_record) in cols {
+                        if let Some(element_id) = cell_record.element_id {
+                            xml_doc_mut
+                                .attach_child_mut(&element_id, &row_element_id)
+                                .context("Failed to insert loaded cell")?;
+                            continue;
+                        }
                         // Create cell element
                         let cell_element = xml_doc_mut
                             .append_child_mut("c", Some(&row_element_id))
@@ -613,6 +638,12 @@ impl WorkSheet {
                             .set_attribute_mut(cell_attribute)
                             .context("Failed to Set Attribute for cell")?;
                         // Create cell's child element
+                        if let Some(formula) = cell_record.formula {
+                            let formula_element = xml_doc_mut
+                                .append_child_mut("f", Some(&cell_id))
+                                .context("Failed to insert formula element")?;
+                            formula_element.set_value_mut(formula);
+                        }
                         match cell_record.data_type {
                             CellDataType::InlineString => {
                                 let inline_string_id = xml_doc_mut
@@ -622,29 +653,24 @@ impl WorkSheet {
                                 let text_element = xml_doc_mut
                                     .append_child_mut("t", Some(&inline_string_id))
                                     .context("Failed To insert Text Value to inline string")?;
-                                text_element.set_value_mut(
-                                    if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    },
-                                );
+                                let value = cell_record.value.unwrap_or_default();
+                                if value.trim() != value {
+                                    let mut text_attribute = HashMap::new();
+                                    text_attribute
+                                        .insert("xml:space".to_string(), "preserve".to_string());
+                                    text_element
+                                        .set_attribute_mut(text_attribute)
+                                        .context("Failed to Set Attribute for Text")?;
+                                }
+                                text_element.set_value_mut(value);
                             }
                             _ => {
-                                if let Some(formula) = cell_record.formula {
-                                    let formula_element = xml_doc_mut
-                                        .append_child_mut("f", Some(&cell_id))
-                                        .context("Failed to insert Inline string element")?;
-                                    formula_element.set_value_mut(formula);
+                                if let Some(value) = cell_record.value {
+                                    xml_doc_mut
+                                        .append_child_mut("v", Some(&cell_id))
+                                        .context("Failed to insert value element")?
+                                        .set_value_mut(value);
                                 }
-                                xml_doc_mut
-                                    .append_child_mut("v", Some(&cell_id))
-                                    .context("Failed to insert Inline string element")?
-                                    .set_value_mut(if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    });
                             }
                         }
                     }
@@ -866,6 +892,7 @@ fn deserialize_sheet_data(
     if let Some(mut sheet_data_element) = xml_doc_mut.pop_elements_by_tag_mut("sheetData", None) {
         if let Some(sheet_data) = sheet_data_element.pop() {
             let mut sheet_data_collection: BTreeMap<u32, RowData> = BTreeMap::new();
+            let mut last_row_index: u32 = 0;
             // Loop All rows of sheet data
             loop {
                 if let Some((row_element_id, _)) = sheet_data.pop_child_mut() {
@@ -875,17 +902,22 @@ fn deserialize_sheet_data(
                             .get_attribute()
                             .ok_or(anyhow!("Failed to pull Row Attribute."))?;
                         // Get Row Id
-                        let row_index = row_attribute
-                            .get("r")
-                            .ok_or(anyhow!("Missing mandatory row id attribute"))?
-                            .parse()
-                            .context("Failed to parse row id")?;
+                        let row_index = match row_attribute.get("r") {
+                            Some(row_id) => row_id.parse().context("Failed to parse row id")?,
+                            // Row without id follows the previous row
+                            None => last_row_index
+                                .checked_add(1)
+                                .ok_or(anyhow!("Row id out of range"))?,
+                        };
+                        last_row_index = row_index;
                         if let Some(row_span) = row_attribute.get("spans") {
                             row_record.span = Some(row_span.to_string());
                         }
                         if let Some(style_id) = row_attribute.get("s") {
                             if let Some(custom_formant) = row_attribute.get("customFormat") {
-                                row_record.style_id = if custom_formant == "1" {
+                                row_record.style_id = if ConverterUtil::normalize_bool_property_bool(
+                                    custom_formant,
+                                ) {
                                     Some(StyleId::new(
                                         style_id
                                             .parse()
@@ -897,15 +929,21 @@ fn deserialize_sheet_data(
                             }
                         }
                         if let Some(hidden) = row_attribute.get("hidden") {
-                            row_record.hidden = if hidden == "1" { Some(true) } else { None };
+                            row_record.hidden =
+                                Some(ConverterUtil::normalize_bool_property_bool(hidden));
                         }
                         if let Some(height) = row_attribute.get("ht") {
                             if let Some(custom_height) = row_attribute.get("customHeight") {
-                                row_record.height = if custom_height == "1" {
-                                    Some(height.parse().context("Failed to parse the row height")?)
-                                } else {
-                                    None
-                                };
+                                row_record.height =
+                                    if ConverterUtil::normalize_bool_property_bool(custom_height) {
+                                        Some(
+                                            height
+                                                .parse()
+                                                .context("Failed to parse the row height")?,
+                                        )
+                                    } else {
+                                        None
+                                    };
                             }
                         }
                         if let Some(row_group_level) = row_attribute.get("outlineLevel") {
@@ -919,43 +957,47 @@ fn deserialize_sheet_data(
                             };
                         }
                         if let Some(collapsed) = row_attribute.get("collapsed") {
-                            row_record.collapsed = if collapsed == "1" { Some(true) } else { None };
+                            row_record.collapsed =
+                                Some(ConverterUtil::normalize_bool_property_bool(collapsed));
                         }
                         if let Some(thick_top) = row_attribute.get("thickTop") {
-                            row_record.thick_top = if thick_top == "1" { Some(true) } else { None };
+                            row_record.thick_top =
+                                Some(ConverterUtil::normalize_bool_property_bool(thick_top));
                         }
                         if let Some(thick_bottom) = row_attribute.get("thickBot") {
-                            row_record.thick_bottom = if thick_bottom == "1" {
-                                Some(true)
-                            } else {
-                                None
-                            };
+                            row_record.thick_bottom =
+                                Some(ConverterUtil::normalize_bool_property_bool(thick_bottom));
                         }
                         if let Some(place_holder) = row_attribute.get("ph") {
-                            row_record.place_holder = if place_holder == "1" {
-                                Some(true)
-                            } else {
-                                None
-                            };
+                            row_record.place_holder =
+                                Some(ConverterUtil::normalize_bool_property_bool(place_holder));
                         }
+                        row_record.loaded_attributes = row_attribute.clone();
                         let mut cell_records: BTreeMap<u16, CellProperties> = BTreeMap::new();
+                        let mut last_col_index: u16 = 0;
                         // Loop All Columns of row
                         loop {
                             let mut cell_record = CellProperties::default();
                             if let Some((col_element_id, _)) = row_element.pop_child_mut() {
                                 if let Some(col_element) =
-                                    xml_doc_mut.pop_element_mut(&col_element_id)
+                                    xml_doc_mut.get_element_mut(&col_element_id)
                                 {
+                                    cell_record.element_id = Some(col_element_id);
                                     let cell_attribute = col_element
                                         .get_attribute()
                                         .ok_or(anyhow!("Failed to pull attribute for Column"))?;
                                     // Get Col Id
-                                    let col_index = ConverterUtil::get_column_index(
-                                        cell_attribute
-                                            .get("r")
-                                            .ok_or(anyhow!("Missing mandatory col id attribute"))?,
-                                    )
-                                    .context("Failed to Convert col worksheet initialize")?;
+                                    let col_index = match cell_attribute.get("r") {
+                                        Some(cell_ref) => ConverterUtil::get_column_index(cell_ref)
+                                            .context(
+                                                "Failed to Convert col worksheet initialize",
+                                            )?,
+                                        // Cell without reference follows the previous cell
+                                        None => last_col_index
+                                            .checked_add(1)
+                                            .ok_or(anyhow!("Column id out of range"))?,
+                                    };
+                                    last_col_index = col_index;
                                     if let Some(style_id) = cell_attribute.get("s") {
                                         cell_record.style_id = Some(StyleId::new(
                                             style_id
@@ -988,44 +1030,16 @@ fn deserialize_sheet_data(
                                             None
                                         };
                                     };
-                                    loop {
-                                        if let Some((cell_child_id, _)) =
-                                            col_element.pop_child_mut()
-                                        {
-                                            if let Some(element) =
-                                                xml_doc_mut.pop_element_mut(&cell_child_id)
-                                            {
-                                                match element.get_tag() {
-                                                    "v" => {
-                                                        cell_record.value =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "f" => {
-                                                        cell_record.formula =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "is" => {
-                                                        if let Some((text_id, _)) =
-                                                            element.pop_child_mut()
-                                                        {
-                                                            if let Some(text_element) = xml_doc_mut
-                                                                .pop_element_mut(&text_id)
-                                                            {
-                                                                cell_record.value = text_element
-                                                                    .get_value()
-                                                                    .clone();
-                                                            }
-                                                        }
-                                                    }
-                                                    _ => {
-                                                        return Err(anyhow!(
-                                                            "Found un-know element cell child"
-                                                        ));
-                                                    }
-                                                }
-                                            }
-                                        } else {
-                                            break;
+                                    // Give the reference to a cell that depends on its position
+                                    if !cell_attribute.contains_key("r") {
+                                        let cell_ref = format!(
+                                            "{}{}",
+                                            ConverterUtil::get_column_ref(col_index)
+                                                .context("Failed to get Char Id from Int")?,
+                                            row_index
+                                        );
+                                        if let Some(attributes) = col_element.get_attribute_mut() {
+                                            attributes.insert("r".to_string(), cell_ref);
                                         }
                                     }
                                     dimension.start_col = min(dimension.start_col, col_index);
-- 
2.43.0


From 4aa90eea33b1658e74ec60ff1c40636418a09d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 18/51] fix: refuse rows and columns that cannot exist

Index 0 underflowed, long references overflowed, indexes beyond the sheet
and references with anything between or after letters and digits were
accepted.
---
 .../spreadsheet_2007/parts/worksheet.rs       |  9 +++++
 rs/src/utils/converters.rs                    | 39 ++++++++++++++++---
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 451e833..94845c2 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1205,6 +1205,8 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::validate_column_index(*col_index)
+            .context("Setting column properties failed")?;
         if let Some(column_collection) = self.column_collection.as_mut() {
             let mut new_ranges = VecDeque::new();
             // Delete Old Record
@@ -1250,6 +1252,7 @@ impl WorkSheet {
         row_index: &u32,
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::validate_row_index(*row_index).context("Setting row properties failed")?;
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             if let Some(row) = sheet_data.get_mut(row_index) {
                 row.row_record = row_properties;
@@ -1294,6 +1297,12 @@ impl WorkSheet {
         mut col_index: u16,
         mut column_cell: Vec<CellProperties>,
     ) -> AnyResult<(), AnyError> {
+        // Refuse cells that cannot exist before anything is changed
+        ConverterUtil::validate_row_index(row_index).context("Setting row values failed")?;
+        ConverterUtil::validate_column_index(col_index).context("Setting row values failed")?;
+        if column_cell.len() > usize::from(ConverterUtil::MAX_COLUMN - col_index) + 1 {
+            return Err(anyhow!("Row values go beyond the last column"));
+        }
         // Map Start Normalization
         col_index -= 1;
         for cell_data in column_cell.iter_mut() {
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 57a2509..2381f76 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -3,10 +3,21 @@ use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
 pub struct ConverterUtil;
 
 impl ConverterUtil {
+    /// Last column of a sheet
+    pub(crate) const MAX_COLUMN: u16 = 16384;
+    /// Last row of a sheet
+    pub(crate) const MAX_ROW: u32 = 1048576;
+
     /// Return int Id of the column
     pub fn get_column_index(cell_ref: &str) -> AnyResult<u16, AnyError> {
         let column_part: String = cell_ref.chars().take_while(|c| c.is_alphabetic()).collect();
-        if column_part.is_empty() {
+        if column_part.is_empty()
+            || column_part.len() > 3
+            || !column_part.chars().all(|c| c.is_ascii_alphabetic())
+            || !cell_ref[column_part.len()..]
+                .chars()
+                .all(|c| c.is_ascii_digit())
+        {
             return Err(anyhow!("Failed to Convert to Column Key Id"));
         }
         let mut index = 0;
@@ -14,8 +25,26 @@ impl ConverterUtil {
             let char_value = c.to_ascii_uppercase() as u16 - 'A' as u16 + 1;
             index += char_value * 26_usize.pow(i as u32) as u16;
         }
+        Self::validate_column_index(index)?;
         Ok(index)
     }
+
+    /// Column index that can exist in a sheet
+    pub(crate) fn validate_column_index(index: u16) -> AnyResult<(), AnyError> {
+        if index == 0 || index > Self::MAX_COLUMN {
+            return Err(anyhow!("Column index {} is out of range", index));
+        }
+        Ok(())
+    }
+
+    /// Row index that can exist in a sheet
+    pub(crate) fn validate_row_index(index: u32) -> AnyResult<(), AnyError> {
+        if index == 0 || index > Self::MAX_ROW {
+            return Err(anyhow!("Row index {} is out of range", index));
+        }
+        Ok(())
+    }
+
     /// Return String ref of the column
     pub fn get_column_ref(cell_id: u16) -> AnyResult<String, AnyError> {
         if cell_id == 0 {
@@ -36,10 +65,10 @@ impl ConverterUtil {
 
     /// Return
     pub fn get_cell_index(cell_ref: &str) -> AnyResult<(u32, u16), AnyError> {
-        Ok((
-            Self::extract_digits(cell_ref).context("Failed to extract int key")?,
-            Self::get_column_index(cell_ref).context("Failed to Convert to int key")?,
-        ))
+        let col_index = Self::get_column_index(cell_ref).context("Failed to Convert to int key")?;
+        let row_index = Self::extract_digits(cell_ref).context("Failed to extract int key")?;
+        Self::validate_row_index(row_index)?;
+        Ok((row_index, col_index))
     }
 
     /// convert open-xml bool flag property
-- 
2.43.0


From 4993fabf8a409cfb098ca6cabf1c80f08c5555bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 19/51] fix: auto type writes only finite numbers as number

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 94845c2..28180d8 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1309,7 +1309,11 @@ impl WorkSheet {
             if let Some(cell_value) = cell_data.value.as_ref() {
                 match cell_data.data_type {
                     CellDataType::Auto => {
-                        if cell_value.parse::<f64>().is_ok() {
+                        // Not a number and infinity have no numeric representation in a cell
+                        if cell_value
+                            .parse::<f64>()
+                            .map_or(false, |number| number.is_finite())
+                        {
                             cell_data.data_type = CellDataType::Number;
                         } else if cell_value.parse::<bool>().is_ok() {
                             cell_data.data_type = CellDataType::Boolean;
-- 
2.43.0


From 2c5ec22cee8caabaa71df1156bf92339a89a57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 20/51] fix: used range of a sheet covers exactly the rows with
 cells

---
 .../spreadsheet_2007/parts/worksheet.rs       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 28180d8..3895c7c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -316,7 +316,16 @@ impl WorkSheet {
             Ok(())
         }
         if let Some(sheet_data) = self.sheet_data.as_ref() {
-            if let Some(first_item) = sheet_data.first_key_value() {
+            // Only rows with cells are part of the used range
+            let mut used_rows = sheet_data
+                .iter()
+                .filter(|(_, row)| {
+                    row.cell_records
+                        .as_ref()
+                        .map_or(false, |cells| !cells.is_empty())
+                })
+                .map(|(row_index, _)| *row_index);
+            if let Some(first_row) = used_rows.next() {
                 let mut dimension_attribute = HashMap::new();
                 dimension_attribute.insert(
                     "ref".to_string(),
@@ -324,14 +333,10 @@ impl WorkSheet {
                         "{}{}:{}{}",
                         ConverterUtil::get_column_ref(self.dimension.start_col)
                             .context("Failed to convert dim col start")?,
-                        first_item.0,
+                        first_row,
                         ConverterUtil::get_column_ref(self.dimension.end_col)
                             .context("Failed to convert dim col end")?,
-                        if let Some(row_end) = sheet_data.last_key_value() {
-                            row_end.0
-                        } else {
-                            first_item.0
-                        }
+                        used_rows.last().unwrap_or(first_row)
                     ),
                 );
                 xml_doc_mut
-- 
2.43.0


From 242aee125245ebbb4d3dd1da81e77b766ee257ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 21/51] fix: refuse text that cannot be stored in XML

Control characters in cell values, formulas, sheet names and styles made
the saved package unreadable.
---
 .../spreadsheet_2007/parts/workbook.rs        |  1 +
 .../spreadsheet_2007/parts/worksheet.rs       |  9 ++++++++
 .../spreadsheet_2007/services/style.rs        | 23 +++++++++++++++----
 rs/src/utils/converters.rs                    | 11 +++++++++
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 186df49..8a6c19f 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -650,6 +650,7 @@ impl WorkbookPart {
         old_sheet_name: &str,
         new_sheet_name: &str,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::validate_xml_text(new_sheet_name).context("Sheet name cannot be used")?;
         // Check if sheet with same name exist
         if self
             .sheet_collection
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 3895c7c..f51e5be 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1106,6 +1106,10 @@ impl WorkSheet {
                         ));
                     }
                 }
+                if let Some(sheet_name) = sheet_name.as_ref() {
+                    ConverterUtil::validate_xml_text(sheet_name)
+                        .context("Sheet name cannot be used")?;
+                }
                 let mut sheet_count = sheet_collection
                     .try_borrow()
                     .context("Failed to pull Sheet Name Collection")?
@@ -1308,6 +1312,11 @@ impl WorkSheet {
         if column_cell.len() > usize::from(ConverterUtil::MAX_COLUMN - col_index) + 1 {
             return Err(anyhow!("Row values go beyond the last column"));
         }
+        for cell_data in column_cell.iter() {
+            for text in [&cell_data.value, &cell_data.formula].into_iter().flatten() {
+                ConverterUtil::validate_xml_text(text).context("Setting row values failed")?;
+            }
+        }
         // Map Start Normalization
         col_index -= 1;
         for cell_data in column_cell.iter_mut() {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 2da70fd..36d1ce9 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -221,8 +221,7 @@ impl StylePart {
                                     .get("formatCode")
                                     .ok_or(anyhow!("formatCode Attribute Not Found!"))?
                                     .to_string();
-                                num_format_records
-                                    .push((UNMATCHABLE_HASH, number_format));
+                                num_format_records.push((UNMATCHABLE_HASH, number_format));
                             }
                         } else {
                             break;
@@ -778,8 +777,7 @@ impl StylePart {
                             break;
                         }
                     }
-                    style_records
-                        .push((StylePart::get_record_hash(&cell_xf, is_exact), cell_xf));
+                    style_records.push((StylePart::get_record_hash(&cell_xf, is_exact), cell_xf));
                 }
             } else {
                 break;
@@ -1042,6 +1040,23 @@ impl StylePart {
             Ok(StyleId::new(*id))
         } else {
             let mut cell_style = CellXfs::default();
+            let mut setting_texts =
+                vec![&style_setting.font_family, &style_setting.text_color.value];
+            setting_texts.extend(&style_setting.custom_number_format);
+            setting_texts.extend(&style_setting.background_color);
+            setting_texts.extend(&style_setting.foreground_color);
+            for border in [
+                &style_setting.border_left,
+                &style_setting.border_top,
+                &style_setting.border_right,
+                &style_setting.border_bottom,
+                &style_setting.border_diagonal,
+            ] {
+                setting_texts.extend(border.border_color.as_ref().map(|color| &color.value));
+            }
+            for text in setting_texts {
+                ConverterUtil::validate_xml_text(text).context("Style setting cannot be used")?;
+            }
             if style_setting.number_format == NumberFormatValues::Custom {
                 cell_style.apply_number_format = 1;
                 // Get Number Format ID
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 2381f76..651de6e 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -71,6 +71,17 @@ impl ConverterUtil {
         Ok((row_index, col_index))
     }
 
+    /// Refuse text having characters that cannot be part of an XML document
+    pub(crate) fn validate_xml_text(value: &str) -> AnyResult<(), AnyError> {
+        if value.chars().all(|c| {
+            matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
+        }) {
+            Ok(())
+        } else {
+            Err(anyhow!("Text has a character that is not allowed in XML"))
+        }
+    }
+
     /// convert open-xml bool flag property
     pub(crate) fn normalize_bool_property_u8(value: &str) -> u8 {
         match value.trim() {
-- 
2.43.0


From 45d615dda14332fb6a602f661a006cb762762c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 22/51] fix: keep the schema order of sheet protection, legacy
 drawings and extensions

Elements missing in the order dictionary were moved behind every other
element of the sheet.
---
 rs/src/files/xml/xml_tree.rs                 | 23 +++++++++++++++-----
 rs/src/global/references/order_dictionary.rs |  4 ++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index e289a1e..e3658f6 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -526,12 +526,23 @@ impl XmlElement {
                 .enumerate()
                 .map(|(index, &tag)| (tag, index))
                 .collect();
-            self.children.borrow_mut().sort_by_key(|item| {
-                order_map
-                    .get(item.tag.as_str())
-                    .cloned()
-                    .unwrap_or(usize::MAX)
-            });
+            // Elements that are not in the skeleton stay behind the element they follow
+            let mut current_order = 0;
+            let mut ordered_children = self
+                .children
+                .borrow_mut()
+                .drain(..)
+                .map(|item| {
+                    if let Some(order) = order_map.get(item.tag.as_str()) {
+                        current_order = *order;
+                    }
+                    (current_order, item)
+                })
+                .collect::<Vec<(usize, XmlElementChild)>>();
+            ordered_children.sort_by_key(|(order, _)| *order);
+            self.children
+                .borrow_mut()
+                .extend(ordered_children.into_iter().map(|(_, item)| item));
         }
         Ok(())
     }
diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 366d6b6..1eb8c4c 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -11,7 +11,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
     ],
     "worksheet"=>&["sheetPr","dimension","sheetViews",
         "sheetFormatPr","cols","sheetData",
-        "sheetCalcPr","protectedRanges","scenarios",
+        "sheetCalcPr","sheetProtection","protectedRanges","scenarios",
         "autoFilter","sortState","dataConsolidate",
         "customSheetViews","mergeCells","phoneticPr",
         "conditionalFormatting",
@@ -19,7 +19,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
         "pageMargins","pageSetup","headerFooter",
         "rowBreaks","colBreaks","customProperties",
         "cellWatches","ignoredErrors","smartTags",
-        "drawing","drawingHF","picture",
+        "drawing","legacyDrawing","legacyDrawingHF","drawingHF","picture",
         "oleObjects","controls","webPublishItems",
         "tableParts","extLst",
     ],
-- 
2.43.0


From d7297060b7bb414e3ca24e7547d71f70a9734187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 23/51] fix: find the relationships of every workbook and sheet
 part

The relationship part of the workbook was only found for the name
workbook.xml and a part at the root of the package made opening panic.
---
 rs/src/global/global_2007/parts/relations.rs           | 10 +++++++++-
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs  |  5 +----
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs |  6 +-----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 670303f..3c40d3e 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -130,10 +130,18 @@ impl RelationsPart {
         &self.file_path
     }
 
+    /// Path of the relationship part belonging to the given part
+    pub(crate) fn get_relationship_file_path(part_path: &str) -> String {
+        match part_path.rsplit_once("/") {
+            Some((folder, file_name)) => format!("{}/_rels/{}.rels", folder, file_name),
+            None => format!("_rels/{}.rels", part_path),
+        }
+    }
+
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .find("_rels")
+            .rfind("_rels/")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 8a6c19f..e8c934c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -249,10 +249,7 @@ impl XmlDocumentPart for WorkbookPart {
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
-                        &format!(
-                            "{}/_rels/workbook.xml.rels",
-                            &file_name[..file_name.rfind("/").unwrap()]
-                        ),
+                        &RelationsPart::get_relationship_file_path(&file_name),
                     )
                     .context("Creating Relation ship part for workbook failed.")?,
                 ));
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index f51e5be..53e6f6b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -233,11 +233,7 @@ impl WorkSheet {
         let sheet_relationship_part = Rc::new(RefCell::new(
             RelationsPart::new(
                 office_document.clone(),
-                &format!(
-                    "{}/_rels/{}.rels",
-                    &file_path[..file_path.rfind("/").unwrap()],
-                    file_path.rsplit("/").next().unwrap()
-                ),
+                &RelationsPart::get_relationship_file_path(&file_path),
             )
             .context("Creating Relation ship part for workbook failed.")?,
         ));
-- 
2.43.0


From bd964caac1ebfb16feb252645eb63473ae88026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 24/51] fix: resolve relationship targets with dot segments

Such a part was taken as missing and replaced by an empty one.
---
 rs/src/global/global_2007/parts/relations.rs | 59 +++++++++++---------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 3c40d3e..31cbe5d 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -150,6 +150,30 @@ impl RelationsPart {
         }
     }
 
+    /// Part name of the target, that is absolute or relative to the source part
+    fn resolve_target(&self, target: &str) -> AnyResult<String, AnyError> {
+        let full_path = match target.strip_prefix("/") {
+            Some(target) => target.to_string(),
+            None => format!(
+                "{}{}",
+                self.get_relative_path()
+                    .context("Get Relative Path for Part File")?,
+                target
+            ),
+        };
+        let mut segments: Vec<&str> = Vec::new();
+        for segment in full_path.split("/") {
+            match segment {
+                "." => {}
+                ".." => {
+                    segments.pop();
+                }
+                _ => segments.push(segment),
+            }
+        }
+        Ok(segments.join("/"))
+    }
+
     pub(crate) fn get_target_by_id(
         &self,
         relationship_id: &str,
@@ -159,15 +183,7 @@ impl RelationsPart {
             .iter()
             .find(|item| item.0 == relationship_id)
         {
-            let file_path = record.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(Some(file_path.strip_prefix("/").unwrap().to_string()))
-            } else {
-                Ok(Some(format!("{}{}", relative_path, file_path)))
-            }
+            Ok(Some(self.resolve_target(&record.1)?))
         } else {
             Ok(None)
         }
@@ -187,15 +203,7 @@ impl RelationsPart {
             .iter()
             .find(|item| item.2 == content_type)
         {
-            let file_path = relationship.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(file_path.strip_prefix("/").unwrap().to_string())
-            } else {
-                Ok(format!("{}{}", relative_path, file_path))
-            }
+            self.resolve_target(&relationship.1)
         } else {
             self.set_new_relationship_mut(content, file_path.clone(), file_name.clone())
                 .context("Setting New Theme Relationship Failed.")?;
@@ -284,14 +292,13 @@ impl RelationsPart {
 
     /// Delete the target file path
     pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) {
-        let relative_path = self.get_relative_path().unwrap_or_default();
         let file_path = file_path.strip_prefix("/").unwrap_or(file_path);
-        self.relationships.retain(|item| {
-            // Target can be absolute or relative to the source part
-            match item.1.strip_prefix("/") {
-                Some(target) => target != file_path,
-                None => format!("{}{}", relative_path, item.1) != file_path,
-            }
-        })
+        let mut relationships = std::mem::take(&mut self.relationships);
+        relationships.retain(|item| {
+            // External targets are not part of the package
+            item.3.as_deref() == Some("External")
+                || !matches!(self.resolve_target(&item.1), Ok(target) if target == file_path)
+        });
+        self.relationships = relationships;
     }
 }
-- 
2.43.0


From 716842077980b447022b365bdca0c8a3b54b9009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 25/51] fix: hiding a sheet leaves the other sheets as they are

Hiding a second sheet showed the first one again, and hiding or activating
a sheet that does not exist was reported as success.
---
 .../spreadsheet_2007/parts/workbook.rs        | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index e8c934c..3991ec5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -531,12 +531,14 @@ impl WorkbookPart {
 
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, active_sheet, _) in self
+        let mut sheet_collection = self
             .sheet_collection
             .try_borrow_mut()
-            .context("Failed to pull Sheet Collection Handle")?
-            .iter_mut()
-        {
+            .context("Failed to pull Sheet Collection Handle")?;
+        if !sheet_collection.iter().any(|item| item.0 == sheet_name) {
+            return Err(anyhow!("Sheet Name not found in the stack"));
+        }
+        for (current_sheet_name, _, active_sheet, _) in sheet_collection.iter_mut() {
             if current_sheet_name == sheet_name {
                 *active_sheet = true
             } else {
@@ -627,19 +629,20 @@ impl WorkbookPart {
 
     /// Hide sheet on opening the excel
     pub(crate) fn hide_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, _, hide_sheet) in self
+        let mut sheet_collection = self
             .sheet_collection
             .try_borrow_mut()
-            .context("Failed to pull Sheet Collection Handle")?
+            .context("Failed to pull Sheet Collection Handle")?;
+        // Other sheets keep their own visibility
+        if let Some((_, _, _, hide_sheet)) = sheet_collection
             .iter_mut()
+            .find(|item| item.0 == sheet_name)
         {
-            if current_sheet_name == sheet_name {
-                *hide_sheet = true
-            } else {
-                *hide_sheet = false
-            }
+            *hide_sheet = true;
+            Ok(())
+        } else {
+            Err(anyhow!("Sheet Name not found in the stack"))
         }
-        Ok(())
     }
 
     pub(crate) fn rename_sheet_name_mut(
-- 
2.43.0


From 36020a832ab4f4af145be0021b608623dac7b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 26/51] fix: keep the workbook window settings and write the
 active sheet

Sheet tabs were toggled on every save, the date grouping flag replaced the
tab ratio, window position and further views were lost and the active
sheet was never written or pointed to another sheet after a deletion.
---
 .../spreadsheet_2007/parts/workbook.rs        | 262 ++++++++++--------
 1 file changed, 151 insertions(+), 111 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 3991ec5..516633d 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -36,6 +36,8 @@ pub struct WorkbookPart {
 
 #[derive(Debug)]
 pub(crate) struct WorkbookView {
+    /// Element of the view in the xml tree, None when it is new
+    element_id: Option<usize>,
     active_tab: Option<String>,
     first_sheet: Option<String>,
     visibility: Option<String>,
@@ -50,6 +52,7 @@ pub(crate) struct WorkbookView {
 impl Default for WorkbookView {
     fn default() -> Self {
         WorkbookView {
+            element_id: None,
             active_tab: None,
             first_sheet: None,
             minimize: false,
@@ -114,21 +117,62 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
                     let mut sheet_count = 1;
+                    // Position of the active sheet in the final sheet list
+                    let (active_tab, total_sheets) = {
+                        let sheet_collection = self
+                            .sheet_collection
+                            .try_borrow()
+                            .context("Failed to pull Sheet Name Collection")?;
+                        (
+                            sheet_collection.iter().position(|item| item.2),
+                            sheet_collection.len(),
+                        )
+                    };
+                    if active_tab.is_some() && self.workbook_view.is_none() {
+                        self.workbook_view = Some(WorkbookView::default());
+                    }
                     if let Some(workbook_view) = &self.workbook_view {
+                        // Details of an existing view that are not in the model are kept
+                        let mut attributes: HashMap<String, String> = workbook_view
+                            .element_id
+                            .and_then(|element_id| xml_doc_mut.get_element(&element_id))
+                            .and_then(|element| element.get_attribute().cloned())
+                            .unwrap_or_default();
                         // Create and Set BookViews
-                        let book_views_id = xml_doc_mut
-                            .insert_children_after_tag_mut("bookViews", "fileVersion", None)
-                            .context("Create book viewsD Node Failed")?
-                            .get_id();
-                        let workbook_view_element = xml_doc_mut
-                            .append_child_mut("workbookView", Some(&book_views_id))
-                            .context("Failed to create workbook view")?;
-                        let mut attributes: HashMap<String, String> = HashMap::new();
-                        if let Some(active_tab) = &workbook_view.active_tab {
-                            attributes.insert("activeTab".to_string(), active_tab.clone());
+                        let workbook_view_element = if let Some(element_id) =
+                            workbook_view.element_id
+                        {
+                            xml_doc_mut
+                                .get_element_mut(&element_id)
+                                .ok_or(anyhow!("Failed to find workbook view"))?
+                        } else {
+                            let book_views_id = match xml_doc_mut
+                                .get_first_element_id(vec!["bookViews"], None)
+                                .context("Find Book Views Failed")?
+                            {
+                                Some(book_views_id) => book_views_id,
+                                None => xml_doc_mut
+                                    .insert_children_after_tag_mut("bookViews", "fileVersion", None)
+                                    .context("Create book viewsD Node Failed")?
+                                    .get_id(),
+                            };
+                            xml_doc_mut
+                                .append_child_mut("workbookView", Some(&book_views_id))
+                                .context("Failed to create workbook view")?
+                        };
+                        // The sheet can be moved or deleted after the file was loaded
+                        attributes.remove("activeTab");
+                        if let Some(active_tab) = active_tab {
+                            attributes.insert("activeTab".to_string(), active_tab.to_string());
                         }
+                        attributes.remove("firstSheet");
                         if let Some(first_sheet) = &workbook_view.first_sheet {
-                            attributes.insert("firstSheet".to_string(), first_sheet.clone());
+                            if first_sheet
+                                .parse::<usize>()
+                                .map_or(false, |position| position < total_sheets)
+                            {
+                                attributes.insert("firstSheet".to_string(), first_sheet.clone());
+                            }
                         }
                         if let Some(tab_ratio) = &workbook_view.sheet_tab_ratio {
                             attributes.insert("tabRatio".to_string(), tab_ratio.to_string());
@@ -137,7 +181,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             &workbook_view.auto_filter_date_grouping
                         {
                             attributes.insert(
-                                "tabRatio".to_string(),
+                                "autoFilterDateGrouping".to_string(),
                                 if auto_filter_date_grouping.to_owned() {
                                     "1".to_string()
                                 } else {
@@ -315,107 +359,93 @@ impl WorkbookPart {
                         .try_borrow_mut()
                         .context("xml doc borrow failed")?;
                     // Deconstruct Book View for sheet collection data
-                    if let Some(mut book_views_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("bookViews", None)
+                    if let Some(book_views_id) = xml_doc_mut
+                        .get_first_element_id(vec!["bookViews"], None)
+                        .context("Find Book Views Failed")?
                     {
-                        if let Some(book_views) = book_views_vec.pop() {
-                            loop {
-                                if let Some((workbook_view_id, _)) = book_views.pop_child_mut() {
-                                    if let Some(workbook_view_element) =
-                                        xml_doc_mut.pop_element_mut(&workbook_view_id)
+                        // Settings are applied to the first view
+                        let first_view = xml_doc_mut
+                            .get_element_ids_by_tag("workbookView", Some(&book_views_id))
+                            .and_then(|ids| xml_doc_mut.get_element(&ids[0]));
+                        if let Some(workbook_view_element) = first_view {
+                            if let Some(attributes) = workbook_view_element.get_attribute() {
+                                workbook_view = Some(WorkbookView {
+                                    element_id: Some(workbook_view_element.get_id()),
+                                    auto_filter_date_grouping: if let Some(auto_filter_data_group) =
+                                        attributes.get("autoFilterDateGrouping")
                                     {
-                                        if let Some(attributes) =
-                                            workbook_view_element.get_attribute()
-                                        {
-                                            workbook_view = Some(WorkbookView {
-                                                auto_filter_date_grouping: if let Some(
-                                                    auto_filter_data_group,
-                                                ) =
-                                                    attributes.get("autoFilterDateGrouping")
-                                                {
-                                                    Some(
-                                                        ConverterUtil::normalize_bool_property_u8(
-                                                            auto_filter_data_group,
-                                                        ) == 1,
-                                                    )
-                                                } else {
-                                                    None
-                                                },
-                                                sheet_tab_ratio: if let Some(tab_ratio) =
-                                                    attributes.get("tabRatio")
-                                                {
-                                                    Some(tab_ratio.parse().context(
-                                                        "Failed to Parse Tab Ratio Numeric",
-                                                    )?)
-                                                } else {
-                                                    None
-                                                },
-                                                active_tab: if let Some(active_tab) =
-                                                    attributes.get("activeTab")
-                                                {
-                                                    Some(active_tab.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                first_sheet: if let Some(first_sheet) =
-                                                    attributes.get("firstSheet")
-                                                {
-                                                    Some(first_sheet.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                hide_sheet_tab: if let Some(hide_sheet_tab) =
-                                                    attributes.get("showSheetTabs")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_sheet_tab,
-                                                    ) == 1
-                                                } else {
-                                                    false
-                                                },
-                                                visibility: if let Some(visibility) =
-                                                    attributes.get("visibility")
-                                                {
-                                                    Some(visibility.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                minimize: if let Some(minimize) =
-                                                    attributes.get("minimized")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(minimize)
-                                                        == 1
-                                                } else {
-                                                    false
-                                                },
-                                                hide_horizontal_scroll: if let Some(
-                                                    hide_horizontal_scroll,
-                                                ) =
-                                                    attributes.get("showHorizontalScroll")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_horizontal_scroll,
-                                                    ) == 0
-                                                } else {
-                                                    false
-                                                },
-                                                hide_vertical_scroll: if let Some(
-                                                    hide_vertical_scroll,
-                                                ) =
-                                                    attributes.get("showVerticalScroll")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_vertical_scroll,
-                                                    ) == 0
-                                                } else {
-                                                    false
-                                                },
-                                            })
-                                        }
-                                    }
-                                } else {
-                                    break;
-                                }
+                                        Some(
+                                            ConverterUtil::normalize_bool_property_u8(
+                                                auto_filter_data_group,
+                                            ) == 1,
+                                        )
+                                    } else {
+                                        None
+                                    },
+                                    sheet_tab_ratio: if let Some(tab_ratio) =
+                                        attributes.get("tabRatio")
+                                    {
+                                        Some(
+                                            tab_ratio
+                                                .parse()
+                                                .context("Failed to Parse Tab Ratio Numeric")?,
+                                        )
+                                    } else {
+                                        None
+                                    },
+                                    active_tab: if let Some(active_tab) =
+                                        attributes.get("activeTab")
+                                    {
+                                        Some(active_tab.to_string())
+                                    } else {
+                                        None
+                                    },
+                                    first_sheet: if let Some(first_sheet) =
+                                        attributes.get("firstSheet")
+                                    {
+                                        Some(first_sheet.to_string())
+                                    } else {
+                                        None
+                                    },
+                                    hide_sheet_tab: if let Some(hide_sheet_tab) =
+                                        attributes.get("showSheetTabs")
+                                    {
+                                        ConverterUtil::normalize_bool_property_u8(hide_sheet_tab)
+                                            == 0
+                                    } else {
+                                        false
+                                    },
+                                    visibility: if let Some(visibility) =
+                                        attributes.get("visibility")
+                                    {
+                                        Some(visibility.to_string())
+                                    } else {
+                                        None
+                                    },
+                                    minimize: if let Some(minimize) = attributes.get("minimized") {
+                                        ConverterUtil::normalize_bool_property_u8(minimize) == 1
+                                    } else {
+                                        false
+                                    },
+                                    hide_horizontal_scroll: if let Some(hide_horizontal_scroll) =
+                                        attributes.get("showHorizontalScroll")
+                                    {
+                                        ConverterUtil::normalize_bool_property_u8(
+                                            hide_horizontal_scroll,
+                                        ) == 0
+                                    } else {
+                                        false
+                                    },
+                                    hide_vertical_scroll: if let Some(hide_vertical_scroll) =
+                                        attributes.get("showVerticalScroll")
+                                    {
+                                        ConverterUtil::normalize_bool_property_u8(
+                                            hide_vertical_scroll,
+                                        ) == 0
+                                    } else {
+                                        false
+                                    },
+                                })
                             }
                         }
                     }
@@ -455,6 +485,16 @@ impl WorkbookPart {
                         }
                     }
                 }
+                // Mark the active sheet
+                if let Some(active_tab) = workbook_view
+                    .as_ref()
+                    .and_then(|view| view.active_tab.as_ref())
+                    .and_then(|active_tab| active_tab.parse::<usize>().ok())
+                {
+                    if let Some(sheet) = sheet_collection.get_mut(active_tab) {
+                        sheet.2 = true;
+                    }
+                }
                 Ok((sheet_collection, workbook_view))
             },
             "Load Existing Workbook"
-- 
2.43.0


From 6aea6c3f8d7b9c3e785a262c6e85cf7cf2e7850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 27/51] fix: keep the id, the state and further attributes of
 existing sheets

Sheet ids were numbered again on every save and a very hidden sheet became
visible.
---
 .../spreadsheet_2007/parts/workbook.rs        | 140 ++++++++++++------
 .../spreadsheet_2007/parts/worksheet.rs       |  10 +-
 2 files changed, 98 insertions(+), 52 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 516633d..ac613ff 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -29,8 +29,8 @@ pub struct WorkbookPart {
     common_service: Rc<RefCell<CommonServices>>,
     workbook_relationship_part: Rc<RefCell<RelationsPart>>,
     theme_part: ThemePart,
-    /// This contain the sheet name, relationId, active sheet, hide sheet
-    sheet_collection: Rc<RefCell<Vec<(String, String, bool, bool)>>>,
+    /// This contain the sheet name, relationId, active sheet, hide sheet, element in the xml tree
+    sheet_collection: Rc<RefCell<Vec<(String, String, bool, bool, Option<usize>)>>>,
     workbook_view: Option<WorkbookView>,
 }
 
@@ -116,7 +116,6 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     let mut xml_doc_mut = xml_document_mut
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
-                    let mut sheet_count = 1;
                     // Position of the active sheet in the final sheet list
                     let (active_tab, total_sheets) = {
                         let sheet_collection = self
@@ -229,30 +228,71 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             .context("Failed to set workbook view attributes")?;
                     }
                     // Create and set Sheets
-                    let sheets_id = xml_doc_mut
-                        .insert_children_after_tag_mut("sheets", "bookViews", None)
-                        .context("Create Sheets Node Failed")?
-                        .get_id();
-                    for (sheet_display_name, relationship_id, _, hide) in &self
+                    let sheets_id = match xml_doc_mut
+                        .get_first_element_id(vec!["sheets"], None)
+                        .context("Find Sheets Failed")?
+                    {
+                        Some(sheets_id) => sheets_id,
+                        None => xml_doc_mut
+                            .insert_children_after_tag_mut("sheets", "bookViews", None)
+                            .context("Create Sheets Node Failed")?
+                            .get_id(),
+                    };
+                    // Detach the loaded sheets, the remaining ones are attached in final order
+                    let mut max_sheet_id: u32 = 0;
+                    loop {
+                        let child = xml_doc_mut
+                            .get_element(&sheets_id)
+                            .and_then(|sheets| sheets.pop_child_mut());
+                        if let Some((element_id, _)) = child {
+                            let sheet_id = xml_doc_mut
+                                .get_element(&element_id)
+                                .and_then(|sheet| sheet.get_attribute())
+                                .and_then(|attributes| attributes.get("sheetId"))
+                                .and_then(|sheet_id| sheet_id.parse().ok())
+                                .unwrap_or(0);
+                            max_sheet_id = max_sheet_id.max(sheet_id);
+                        } else {
+                            break;
+                        }
+                    }
+                    for (sheet_display_name, relationship_id, _, hide, element_id) in &self
                         .sheet_collection
                         .try_borrow_mut()
                         .context("Failed to pull Sheet Name Collection")?
                         .clone()
                     {
-                        let sheet = xml_doc_mut
-                            .append_child_mut("sheet", Some(&sheets_id))
-                            .context("Create Sheet Node Failed")?;
-                        let mut attributes = HashMap::new();
+                        let sheet = if let Some(element_id) = element_id {
+                            xml_doc_mut
+                                .attach_child_mut(element_id, &sheets_id)
+                                .context("Attach Sheet Node Failed")?;
+                            xml_doc_mut
+                                .get_element_mut(element_id)
+                                .ok_or(anyhow!("Failed to find sheet node"))?
+                        } else {
+                            xml_doc_mut
+                                .append_child_mut("sheet", Some(&sheets_id))
+                                .context("Create Sheet Node Failed")?
+                        };
+                        let mut attributes = sheet.get_attribute().cloned().unwrap_or_default();
                         attributes.insert("name".to_string(), sheet_display_name.to_string());
-                        attributes.insert("sheetId".to_string(), sheet_count.to_string());
-                        attributes.insert("r:id".to_string(), relationship_id.to_string());
-                        if *hide {
+                        if element_id.is_none() {
+                            max_sheet_id = max_sheet_id
+                                .checked_add(1)
+                                .ok_or(anyhow!("Sheet Id out of range"))?;
+                            attributes.insert("sheetId".to_string(), max_sheet_id.to_string());
+                            attributes.insert("r:id".to_string(), relationship_id.to_string());
+                        }
+                        // A very hidden sheet stays as it is
+                        if *hide
+                            && attributes.get("state").map(|state| state.as_str())
+                                != Some("veryHidden")
+                        {
                             attributes.insert("state".to_string(), "hidden".to_string());
                         }
                         sheet
                             .set_attribute_mut(attributes)
                             .context("Sheet Attributes Failed")?;
-                        sheet_count += 1;
                     }
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
@@ -349,7 +389,13 @@ impl XmlDocumentPart for WorkbookPart {
 impl WorkbookPart {
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<(Vec<(String, String, bool, bool)>, Option<WorkbookView>), AnyError> {
+    ) -> AnyResult<
+        (
+            Vec<(String, String, bool, bool, Option<usize>)>,
+            Option<WorkbookView>,
+        ),
+        AnyError,
+    > {
         log_elapsed!(
             || {
                 let mut sheet_collection = Vec::new();
@@ -450,36 +496,36 @@ impl WorkbookPart {
                         }
                     }
                     // Deconstruct Sheets into collection
-                    if let Some(mut sheets_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("sheets", None)
+                    if let Some(sheets_id) = xml_doc_mut
+                        .get_first_element_id(vec!["sheets"], None)
+                        .context("Find Sheets Failed")?
                     {
-                        if let Some(sheets) = sheets_vec.pop() {
+                        if let Some(sheet_ids) =
+                            xml_doc_mut.get_element_ids_by_tag("sheet", Some(&sheets_id))
+                        {
                             // Load Sheet from File if exist
-                            loop {
-                                if let Some((sheet_id, _)) = sheets.pop_child_mut() {
-                                    if let Some(sheet) = xml_doc_mut.pop_element_mut(&sheet_id) {
-                                        if let Some(attributes) = sheet.get_attribute() {
-                                            let name = attributes.get("name").ok_or(anyhow!(
-                                                "Error When Trying to read Sheet Details."
-                                            ))?;
-                                            let r_id = attributes.get("r:id").ok_or(anyhow!(
-                                                "Error When Trying to read Sheet Details."
-                                            ))?;
-                                            let state = attributes.get("state");
-                                            sheet_collection.push((
-                                                name.to_string(),
-                                                r_id.to_string(),
-                                                false,
-                                                if let Some(state) = state {
-                                                    state == "hidden"
-                                                } else {
-                                                    false
-                                                },
-                                            ));
-                                        }
+                            for sheet_id in sheet_ids {
+                                if let Some(sheet) = xml_doc_mut.get_element(&sheet_id) {
+                                    if let Some(attributes) = sheet.get_attribute() {
+                                        let name = attributes.get("name").ok_or(anyhow!(
+                                            "Error When Trying to read Sheet Details."
+                                        ))?;
+                                        let r_id = attributes.get("r:id").ok_or(anyhow!(
+                                            "Error When Trying to read Sheet Details."
+                                        ))?;
+                                        let state = attributes.get("state");
+                                        sheet_collection.push((
+                                            name.to_string(),
+                                            r_id.to_string(),
+                                            false,
+                                            if let Some(state) = state {
+                                                state == "hidden"
+                                            } else {
+                                                false
+                                            },
+                                            Some(sheet_id),
+                                        ));
                                     }
-                                } else {
-                                    break;
                                 }
                             }
                         }
@@ -532,7 +578,7 @@ impl WorkbookPart {
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .map(|(sheet_name, _, _, _)| sheet_name.to_string())
+            .map(|(sheet_name, _, _, _, _)| sheet_name.to_string())
             .collect::<Vec<String>>())
     }
 }
@@ -578,7 +624,7 @@ impl WorkbookPart {
         if !sheet_collection.iter().any(|item| item.0 == sheet_name) {
             return Err(anyhow!("Sheet Name not found in the stack"));
         }
-        for (current_sheet_name, _, active_sheet, _) in sheet_collection.iter_mut() {
+        for (current_sheet_name, _, active_sheet, _, _) in sheet_collection.iter_mut() {
             if current_sheet_name == sheet_name {
                 *active_sheet = true
             } else {
@@ -674,7 +720,7 @@ impl WorkbookPart {
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?;
         // Other sheets keep their own visibility
-        if let Some((_, _, _, hide_sheet)) = sheet_collection
+        if let Some((_, _, _, hide_sheet, _)) = sheet_collection
             .iter_mut()
             .find(|item| item.0 == sheet_name)
         {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 53e6f6b..65149ce 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -121,7 +121,7 @@ pub struct WorkSheet {
     xml_document: Weak<RefCell<XmlDocument>>,
     common_service: Weak<RefCell<CommonServices>>,
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
-    sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+    sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool, Option<usize>)>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
     dimension: Dimension,
     // sheet_property: Option<_>,
@@ -217,7 +217,7 @@ impl WorkSheet {
     /// Create New object for the group
     pub(crate) fn new(
         office_document: Weak<RefCell<OfficeDocument>>,
-        sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool, Option<usize>)>>>,
         workbook_relationship_part: Weak<RefCell<RelationsPart>>,
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
@@ -1077,7 +1077,7 @@ impl WorkSheet {
     fn get_sheet_file_name(
         sheet_name: Option<String>,
         office_document: &Weak<RefCell<OfficeDocument>>,
-        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, bool, Option<usize>)>>>,
         workbook_relationship_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<(String, String), AnyError> {
         let worksheet_content = EXCEL_TYPE_COLLECTION.get("worksheet").unwrap();
@@ -1085,7 +1085,7 @@ impl WorkSheet {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
                 if let Some(sheet_name) = sheet_name.clone() {
                     // If the Sheet name already exist get the path of sheet name
-                    if let Some((_, rel_id, _, _)) = sheet_collection
+                    if let Some((_, rel_id, _, _, _)) = sheet_collection
                         .try_borrow()
                         .context("Failed to Get Sheet Collection")?
                         .iter()
@@ -1171,7 +1171,7 @@ impl WorkSheet {
                 sheet_collection
                     .try_borrow_mut()
                     .context("Failed To pull Sheet Collection Handle")?
-                    .push((sheet_name.clone(), relationship_id, false, false));
+                    .push((sheet_name.clone(), relationship_id, false, false, None));
                 return Ok((
                     format!(
                         "{}/{}{}.{}",
-- 
2.43.0


From 9fddf78287918e7f11d2a937ef343c3c1cd3a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 28/51] fix: a requested fill color is painted

The pattern of the fill cannot be chosen and was always none, which never
shows the color.
---
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 36d1ce9..c2b0d65 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1132,6 +1132,13 @@ impl StylePart {
             // Get Fill Style ID
             {
                 let mut hasher = DefaultHasher::new();
+                // A color is only painted with a pattern
+                let pattern_type = match style_setting.pattern_type {
+                    PatternTypeValues::None if style_setting.foreground_color.is_some() => {
+                        PatternTypeValues::Solid
+                    }
+                    pattern_type => pattern_type,
+                };
                 let fill_style = FillStyle {
                     background_color: if let Some(background_color) = style_setting.background_color
                     {
@@ -1151,7 +1158,7 @@ impl StylePart {
                     } else {
                         None
                     },
-                    pattern_type: style_setting.pattern_type,
+                    pattern_type,
                     ..Default::default()
                 };
                 fill_style.hash(&mut hasher);
-- 
2.43.0


From 72bb23886613572b316cdf47b55d4e288967a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 29/51] fix: refuse to save while a worksheet handle is open
 instead of dropping the sheet content

---
 rs/src/files/office_document.rs              |  7 +++++++
 rs/src/spreadsheet/spreadsheet_2007/excel.rs | 16 +++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index f81b892..a29ac8e 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -64,6 +64,13 @@ impl OfficeDocument {
         self.xml_document_collection.remove(file_name);
     }
 
+    /// Is a part of the given content type still held by a handle
+    pub(crate) fn is_content_type_open(&self, content_type: &str) -> bool {
+        self.xml_document_collection
+            .values()
+            .any(|document| document.1.as_deref() == Some(content_type))
+    }
+
     pub(crate) fn get_xml_document_ref(
         &mut self,
         file_name: &str,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/excel.rs b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
index 51db1b6..f7d8701 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/excel.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
@@ -1,4 +1,5 @@
 use crate::{
+    element_dictionary::EXCEL_TYPE_COLLECTION,
     files::OfficeDocument,
     global_2007::{
         parts::{CorePropertiesPart, RelationsPart},
@@ -10,7 +11,7 @@ use crate::{
         parts::{WorkSheet, WorkbookPart},
     },
 };
-use anyhow::{Context, Error as AnyError, Result as AnyResult};
+use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{cell::RefCell, rc::Rc};
 
 #[derive(Debug)]
@@ -154,6 +155,19 @@ impl Excel {
     pub fn save_as(self, file_name: &str) -> AnyResult<(), AnyError> {
         log_elapsed!(
             || {
+                // The content of a sheet is written when its handle is closed
+                if let Some(content) = EXCEL_TYPE_COLLECTION.get("worksheet") {
+                    if self
+                        .office_document
+                        .try_borrow()
+                        .context("Save Office Document handle Failed")?
+                        .is_content_type_open(content.content_type)
+                    {
+                        return Err(anyhow!(
+                            "Please close the open worksheet handles before saving the file"
+                        ));
+                    }
+                }
                 self.workbook.flush()?;
                 self.core_properties.flush()?;
                 self.root_relations
-- 
2.43.0


From 760d3355e5615e9d9f47490f43686db3dcb97b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 30/51] fix: times are added to core properties that have none

---
 .../global_2007/parts/core_properties.rs      | 88 +++++++++++++------
 1 file changed, 61 insertions(+), 27 deletions(-)

diff --git a/rs/src/global/global_2007/parts/core_properties.rs b/rs/src/global/global_2007/parts/core_properties.rs
index 1c391e2..ac8ae7d 100644
--- a/rs/src/global/global_2007/parts/core_properties.rs
+++ b/rs/src/global/global_2007/parts/core_properties.rs
@@ -8,7 +8,7 @@ use crate::{
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use chrono::Utc;
-use std::{cell::RefCell, rc::Weak};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
 
 #[derive(Debug)]
 pub struct CorePropertiesPart {
@@ -49,32 +49,10 @@ impl XmlDocumentPartCommon for CorePropertiesPart {
             let mut xml_document = xml_document_ref
                 .try_borrow_mut()
                 .context("Failed to Pull Office document")?;
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:modified"], None)
-            {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        element.set_value_mut(
-                            Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                        );
-                    }
-                }
-                Err(_) => (),
-            }
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:created"], None)
-            {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        if !element.has_value() {
-                            element.set_value_mut(
-                                Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                            );
-                        }
-                    }
-                }
-                Err(_) => (),
-            }
+            Self::set_current_time_mut(&mut xml_document, "modified", true)
+                .context("Setting Modified Time Failed")?;
+            Self::set_current_time_mut(&mut xml_document, "created", false)
+                .context("Setting Created Time Failed")?;
         }
         // Update the current state to DB before dropping the object
         if let Some(xml_tree) = self.office_document.upgrade() {
@@ -106,6 +84,62 @@ impl XmlDocumentPart for CorePropertiesPart {
 }
 
 impl CorePropertiesPart {
+    /// Set a time property to now, add the element if the part has none yet
+    fn set_current_time_mut(
+        xml_document: &mut XmlDocument,
+        property: &str,
+        overwrite: bool,
+    ) -> AnyResult<(), AnyError> {
+        const DC_TERMS: &str = "http://purl.org/dc/terms/";
+        const XSI: &str = "http://www.w3.org/2001/XMLSchema-instance";
+        let (root_id, root_tag, namespaces) = match xml_document.get_root() {
+            Some(root) => (
+                root.get_id(),
+                root.get_tag().to_string(),
+                root.get_namespace().unwrap_or_default(),
+            ),
+            None => return Ok(()),
+        };
+        let prefix_of = |namespace: &str| {
+            namespaces
+                .iter()
+                .filter(|(prefix, value)| *prefix != "<Default>" && *value == namespace)
+                .map(|(prefix, _)| prefix.to_string())
+                .min()
+        };
+        let dc_terms = prefix_of(DC_TERMS);
+        let tag = format!("{}:{}", dc_terms.as_deref().unwrap_or("dcterms"), property);
+        let now = Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true);
+        if let Some(element) = xml_document
+            .get_first_element_mut(vec![&root_tag, &tag], None)
+            .context("Find Time Property Failed")?
+        {
+            if overwrite || !element.has_value() {
+                element.set_value_mut(now);
+            }
+            return Ok(());
+        }
+        let mut attributes: HashMap<String, String> = HashMap::new();
+        if dc_terms.is_none() {
+            attributes.insert("xmlns:dcterms".to_string(), DC_TERMS.to_string());
+        }
+        let xsi = prefix_of(XSI).unwrap_or_else(|| {
+            attributes.insert("xmlns:xsi".to_string(), XSI.to_string());
+            "xsi".to_string()
+        });
+        attributes.insert(
+            format!("{}:type", xsi),
+            format!("{}:W3CDTF", dc_terms.as_deref().unwrap_or("dcterms")),
+        );
+        xml_document
+            .append_child_mut(&tag, Some(&root_id))
+            .context("Add Time Property Failed")?
+            .set_attribute_mut(attributes)
+            .context("Set Attribute Failed")?
+            .set_value_mut(now);
+        Ok(())
+    }
+
     fn get_core_properties_file_name(
         relations_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<String, AnyError> {
-- 
2.43.0


From b8cae363ecc9bfe7601c96e2b094fb61b5326cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 31/51] fix: refuse a column reference whose row is outside the
 sheet

---
 rs/src/utils/converters.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 651de6e..b162fe2 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -20,6 +20,13 @@ impl ConverterUtil {
         {
             return Err(anyhow!("Failed to Convert to Column Key Id"));
         }
+        let row_part = &cell_ref[column_part.len()..];
+        if !row_part.is_empty() {
+            let row_index = row_part
+                .parse()
+                .context("Failed to Convert to Column Key Id")?;
+            Self::validate_row_index(row_index)?;
+        }
         let mut index = 0;
         for (i, c) in column_part.chars().rev().enumerate() {
             let char_value = c.to_ascii_uppercase() as u16 - 'A' as u16 + 1;
-- 
2.43.0


From 1dcbcd3a4202a7f5ebda43af0b05cb936c1c0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 32/51] fix: read parts that bind their main namespace to a
 prefix

---
 rs/src/files/xml/xml_serialize.rs |  1 +
 rs/src/files/xml/xml_tree.rs      | 77 ++++++++++++++++++++++++++++++-
 2 files changed, 77 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 006a51e..2b25c9d 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -28,6 +28,7 @@ impl XmlSerializer {
             },
             format!("Serializing : {}", file_name)
         )?;
+        xml_document.unprefix_main_namespace_mut();
         Ok(xml_document)
     }
 
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index e3658f6..91e6d78 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -1,7 +1,8 @@
+use crate::element_dictionary::{COMMON_TYPE_COLLECTION, EXCEL_TYPE_COLLECTION};
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     rc::{Rc, Weak},
 };
 
@@ -134,6 +135,80 @@ impl XmlDocument {
         self.xml_element_collection.get_mut(&0)
     }
 
+    /// Elements of the main namespace are addressed without prefix, so it becomes the default
+    /// namespace when the document binds it to a prefix instead
+    pub(crate) fn unprefix_main_namespace_mut(&mut self) {
+        let root_prefix = self
+            .get_root()
+            .and_then(|root| root.tag.split_once(':'))
+            .map(|(prefix, _)| prefix.to_string());
+        let (prefix, namespace, default_namespace) = match root_prefix {
+            Some(prefix) => {
+                let namespaces = self.namespace_collection.borrow();
+                match namespaces.get(&prefix) {
+                    Some(namespace) => (
+                        prefix,
+                        namespace.to_string(),
+                        namespaces.get("<Default>").cloned().unwrap_or_default(),
+                    ),
+                    None => return,
+                }
+            }
+            None => return,
+        };
+        if !Self::is_main_namespace(&namespace)
+            || !(default_namespace.is_empty() || default_namespace == namespace)
+        {
+            return;
+        }
+        // Elements that get both declarations from the root
+        let tag_prefix = format!("{}:", prefix);
+        let prefix_declaration = format!("xmlns:{}", prefix);
+        let mut element_ids: HashSet<usize> = HashSet::new();
+        let mut pending: Vec<usize> = vec![0];
+        while let Some(element_id) = pending.pop() {
+            if let Some(element) = self.xml_element_collection.get(&element_id) {
+                if element.attributes.as_ref().map_or(false, |attributes| {
+                    attributes.contains_key("xmlns") || attributes.contains_key(&prefix_declaration)
+                }) {
+                    continue;
+                }
+                if default_namespace.is_empty() && !element.tag.contains(':') {
+                    // An element without namespace would move into the main namespace
+                    return;
+                }
+                if element.tag.starts_with(&tag_prefix) {
+                    element_ids.insert(element_id);
+                }
+                pending.extend(element.children.borrow().iter().map(|child| child.id));
+            }
+        }
+        for element in self.xml_element_collection.values_mut() {
+            if element_ids.contains(&element.id) {
+                element.tag = element.tag[tag_prefix.len()..].to_string();
+            }
+            for child in element.children.borrow_mut().iter_mut() {
+                if element_ids.contains(&child.id) {
+                    child.tag = child.tag[tag_prefix.len()..].to_string();
+                }
+            }
+        }
+        self.namespace_collection
+            .borrow_mut()
+            .insert("<Default>".to_string(), namespace);
+    }
+
+    fn is_main_namespace(namespace: &str) -> bool {
+        [
+            EXCEL_TYPE_COLLECTION.get("workbook"),
+            COMMON_TYPE_COLLECTION.get("rels"),
+            COMMON_TYPE_COLLECTION.get("content_type"),
+        ]
+        .iter()
+        .flatten()
+        .any(|content| content.schemas_namespace == namespace)
+    }
+
     pub(crate) fn create_root_mut(&mut self, tag: &str) -> AnyResult<&mut XmlElement, AnyError> {
         let element = XmlElement::new(Rc::downgrade(&self.namespace_collection), tag)
             .context("Create Root XML Element Failed")?;
-- 
2.43.0


From 072d42af9a41f1eb59a26c6a4080d53e082f7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 33/51] fix: read sheet records that use another prefix for
 their relationship id

---
 .../spreadsheet_2007/parts/workbook.rs        | 71 ++++++++++++++++++-
 1 file changed, 68 insertions(+), 3 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index ac613ff..1a88623 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -21,6 +21,10 @@ use std::{
     rc::{Rc, Weak},
 };
 
+/// Namespace of the relationship id attribute
+const RELATIONSHIP_ID_NAMESPACE: &str =
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+
 #[derive(Debug)]
 pub struct WorkbookPart {
     office_document: Weak<RefCell<OfficeDocument>>,
@@ -117,7 +121,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
                     // Position of the active sheet in the final sheet list
-                    let (active_tab, total_sheets) = {
+                    let (active_tab, total_sheets, has_new_sheet) = {
                         let sheet_collection = self
                             .sheet_collection
                             .try_borrow()
@@ -125,6 +129,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         (
                             sheet_collection.iter().position(|item| item.2),
                             sheet_collection.len(),
+                            sheet_collection.iter().any(|item| item.4.is_none()),
                         )
                     };
                     if active_tab.is_some() && self.workbook_view.is_none() {
@@ -238,6 +243,25 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             .context("Create Sheets Node Failed")?
                             .get_id(),
                     };
+                    // New sheets use the prefix of the file for their relationship id
+                    let relationship_attribute = match Self::get_relationship_prefix(&xml_doc_mut) {
+                        Some(prefix) => format!("{}:id", prefix),
+                        None => {
+                            let root_element = xml_doc_mut.get_root_mut();
+                            if let Some(root_element) = root_element.filter(|_| has_new_sheet) {
+                                let mut attributes =
+                                    root_element.get_attribute().cloned().unwrap_or_default();
+                                attributes.insert(
+                                    "xmlns:r".to_string(),
+                                    RELATIONSHIP_ID_NAMESPACE.to_string(),
+                                );
+                                root_element
+                                    .set_attribute_mut(attributes)
+                                    .context("Declare relationship namespace failed")?;
+                            }
+                            "r:id".to_string()
+                        }
+                    };
                     // Detach the loaded sheets, the remaining ones are attached in final order
                     let mut max_sheet_id: u32 = 0;
                     loop {
@@ -281,7 +305,8 @@ impl XmlDocumentPartCommon for WorkbookPart {
                                 .checked_add(1)
                                 .ok_or(anyhow!("Sheet Id out of range"))?;
                             attributes.insert("sheetId".to_string(), max_sheet_id.to_string());
-                            attributes.insert("r:id".to_string(), relationship_id.to_string());
+                            attributes
+                                .insert(relationship_attribute.clone(), relationship_id.to_string());
                         }
                         // A very hidden sheet stays as it is
                         if *hide
@@ -495,6 +520,7 @@ impl WorkbookPart {
                             }
                         }
                     }
+                    let relationship_prefix = Self::get_relationship_prefix(&xml_doc_mut);
                     // Deconstruct Sheets into collection
                     if let Some(sheets_id) = xml_doc_mut
                         .get_first_element_id(vec!["sheets"], None)
@@ -510,7 +536,11 @@ impl WorkbookPart {
                                         let name = attributes.get("name").ok_or(anyhow!(
                                             "Error When Trying to read Sheet Details."
                                         ))?;
-                                        let r_id = attributes.get("r:id").ok_or(anyhow!(
+                                        let r_id = Self::get_relationship_id(
+                                            attributes,
+                                            &relationship_prefix,
+                                        )
+                                        .ok_or(anyhow!(
                                             "Error When Trying to read Sheet Details."
                                         ))?;
                                         let state = attributes.get("state");
@@ -552,6 +582,41 @@ impl WorkbookPart {
 
 // ############################# im-mut Function ######################################
 impl WorkbookPart {
+    /// Prefix the workbook binds to the namespace of relationship ids
+    fn get_relationship_prefix(xml_document: &XmlDocument) -> Option<String> {
+        xml_document
+            .get_root()
+            .and_then(|root| root.get_namespace())
+            .and_then(|namespaces| {
+                let mut prefixes = namespaces
+                    .into_iter()
+                    .filter(|(prefix, namespace)| {
+                        prefix != "<Default>" && namespace == RELATIONSHIP_ID_NAMESPACE
+                    })
+                    .map(|(prefix, _)| prefix)
+                    .collect::<Vec<String>>();
+                prefixes.sort();
+                prefixes.into_iter().next()
+            })
+    }
+
+    /// Relationship id of a sheet record
+    fn get_relationship_id<'a>(
+        attributes: &'a HashMap<String, String>,
+        relationship_prefix: &Option<String>,
+    ) -> Option<&'a String> {
+        attributes.get("r:id").or_else(|| {
+            // The record itself can declare the prefix too
+            let own_prefix = attributes.iter().find_map(|(key, value)| {
+                key.strip_prefix("xmlns:")
+                    .filter(|_| value == RELATIONSHIP_ID_NAMESPACE)
+            });
+            own_prefix
+                .or(relationship_prefix.as_deref())
+                .and_then(|prefix| attributes.get(&format!("{}:id", prefix)))
+        })
+    }
+
     fn get_workbook_file_name(
         relations_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<String, AnyError> {
-- 
2.43.0


From b88768f485e4515ca6e5a8e1696850c137892c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 34/51] fix: a sheet that cannot be opened stays as it was

---
 rs/src/files/office_document.rs               | 14 +++++--
 rs/src/global/global_2007/parts/relations.rs  | 15 ++++++-
 .../spreadsheet_2007/parts/worksheet.rs       | 41 ++++++++++++++-----
 3 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index a29ac8e..78c8219 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -64,6 +64,11 @@ impl OfficeDocument {
         self.xml_document_collection.remove(file_name);
     }
 
+    /// Forget an open handle, the stored content stays as it was before the handle was created
+    pub(crate) fn discard_xml_document_mut(&mut self, file_name: &str) {
+        self.xml_document_collection.remove(file_name);
+    }
+
     /// Is a part of the given content type still held by a handle
     pub(crate) fn is_content_type_open(&self, content_type: &str) -> bool {
         self.xml_document_collection
@@ -104,12 +109,15 @@ impl OfficeDocument {
                 "Please close the Existing object before creating new handle"
             ));
         }
+        // The stored content stays until the handle is closed
         if let Some((file_extension, extension_type, content_type, _, _, _, file_content)) =
-            self.archive_collection.remove(file_path)
+            self.archive_collection.get(file_path)
         {
-            let content = file_content.ok_or(anyhow!("Failed To Get content vec"))?;
+            let content = file_content
+                .as_ref()
+                .ok_or(anyhow!("Failed To Get content vec"))?;
             let decompressed_data =
-                decompress_content(&content).context("Raw Content Decompression Failed")?;
+                decompress_content(content).context("Raw Content Decompression Failed")?;
             let xml_tree: XmlDocument =
                 XmlSerializer::vec_to_xml_doc_tree(decompressed_data, file_path)
                     .context("Xml Serializer Failed")?;
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 31cbe5d..c266606 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -77,8 +77,19 @@ impl RelationsPart {
         file_name: &str,
     ) -> AnyResult<Self, AnyError> {
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let relationships =
-            Self::load_relations(&mut xml_document).context("Failed to decode Relations")?;
+        let relationships = match Self::load_relations(&mut xml_document) {
+            Ok(relationships) => relationships,
+            Err(error) => {
+                // The part is left as it was
+                if let Some(office_document) = office_document.upgrade() {
+                    office_document
+                        .try_borrow_mut()
+                        .context("Failed to Pull Open XML Handle")?
+                        .discard_xml_document_mut(file_name);
+                }
+                return Err(error.context("Failed to decode Relations"));
+            }
+        };
         Ok(Self {
             office_document,
             xml_document,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 65149ce..5a3d3fc 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -230,17 +230,36 @@ impl WorkSheet {
         )
         .context("Failed to pull calc chain file name")?;
         let xml_document = Self::get_xml_document(&office_document, &file_path)?;
-        let sheet_relationship_part = Rc::new(RefCell::new(
-            RelationsPart::new(
-                office_document.clone(),
-                &RelationsPart::get_relationship_file_path(&file_path),
-            )
-            .context("Creating Relation ship part for workbook failed.")?,
-        ));
-        let (column_collection, sheet_data, sheet_views, dimension) = log_elapsed!(
-            || { Self::initialize_worksheet(&xml_document).context("Failed to open Worksheet") },
-            "Worksheet Initialize Time"
-        )?;
+        let loaded_content = RelationsPart::new(
+            office_document.clone(),
+            &RelationsPart::get_relationship_file_path(&file_path),
+        )
+        .context("Creating Relation ship part for workbook failed.")
+        .and_then(|sheet_relationship_part| {
+            let content = log_elapsed!(
+                || {
+                    Self::initialize_worksheet(&xml_document).context("Failed to open Worksheet")
+                },
+                "Worksheet Initialize Time"
+            )?;
+            Ok((sheet_relationship_part, content))
+        });
+        let (sheet_relationship_part, (column_collection, sheet_data, sheet_views, dimension)) =
+            match loaded_content {
+                Ok((sheet_relationship_part, content)) => {
+                    (Rc::new(RefCell::new(sheet_relationship_part)), content)
+                }
+                Err(error) => {
+                    // A sheet that cannot be opened is left as it was
+                    if let Some(office_document) = office_document.upgrade() {
+                        office_document
+                            .try_borrow_mut()
+                            .context("Failed to pull office document")?
+                            .discard_xml_document_mut(&file_path);
+                    }
+                    return Err(error);
+                }
+            };
         Ok(Self {
             office_document,
             xml_document,
-- 
2.43.0


From 3d150b9fa897bc71ccee58325438a8578d64f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 35/51] fix: refuse files and sheets that are not workbooks and
 worksheets

---
 rs/src/global/global_2007/parts/relations.rs  | 12 ++++++++
 rs/src/spreadsheet/spreadsheet_2007/excel.rs  | 17 +++++++++++
 .../spreadsheet_2007/parts/workbook.rs        | 15 ++++++++++
 .../spreadsheet_2007/parts/worksheet.rs       | 28 +++++++++++++------
 4 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index c266606..174ffe9 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -200,6 +200,18 @@ impl RelationsPart {
         }
     }
 
+    /// Part name of the first target of the given type
+    pub(crate) fn find_target_by_type(
+        &self,
+        content_type: &str,
+    ) -> AnyResult<Option<String>, AnyError> {
+        self.relationships
+            .iter()
+            .find(|item| item.2 == content_type)
+            .map(|item| self.resolve_target(&item.1))
+            .transpose()
+    }
+
     /// Get Relation Target based on Type
     /// Note: This will get the first element match the criteria
     pub(crate) fn get_relationship_target_by_type_mut(
diff --git a/rs/src/spreadsheet/spreadsheet_2007/excel.rs b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
index f7d8701..df1e723 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/excel.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
@@ -54,6 +54,23 @@ impl Excel {
                     RelationsPart::new(Rc::downgrade(&office_document), "_rels/.rels")
                         .context("Initialize Root Relation Part failed")?,
                 ));
+                // An existing file without workbook cannot be edited as one
+                if file_name.is_some() {
+                    let workbook_content = EXCEL_TYPE_COLLECTION.get("workbook").unwrap();
+                    let workbook_path = root_relations
+                        .try_borrow()
+                        .context("Failed to pull relationship connection")?
+                        .find_target_by_type(workbook_content.schemas_type)
+                        .context("Failed to find the workbook")?
+                        .ok_or(anyhow!("The file has no workbook"))?;
+                    if !office_document
+                        .try_borrow()
+                        .context("Failed to pull office document")?
+                        .check_file_exist(workbook_path)
+                    {
+                        return Err(anyhow!("The workbook is missing in the file"));
+                    }
+                }
                 // Load relevant parts from root relations part
                 let core_properties = CorePropertiesPart::new(
                     Rc::downgrade(&office_document),
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 1a88623..4adc2a6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -355,6 +355,8 @@ impl XmlDocumentPart for WorkbookPart {
                     .context("Failed to pull workbook file name")?
                     .to_string();
                 let mut file_tree = Self::get_xml_document(&office_document, &file_name)?;
+                Self::validate_root_element(&file_tree)
+                    .context("The main part of the file is not a workbook")?;
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
@@ -582,6 +584,19 @@ impl WorkbookPart {
 
 // ############################# im-mut Function ######################################
 impl WorkbookPart {
+    fn validate_root_element(xml_document: &Weak<RefCell<XmlDocument>>) -> AnyResult<(), AnyError> {
+        let xml_document = xml_document
+            .upgrade()
+            .ok_or(anyhow!("Failed to upgrade workbook document"))?;
+        let xml_doc = xml_document
+            .try_borrow()
+            .context("xml doc borrow failed")?;
+        match xml_doc.get_root() {
+            Some(root) if root.get_tag() == "workbook" => Ok(()),
+            _ => Err(anyhow!("Unexpected root element")),
+        }
+    }
+
     /// Prefix the workbook binds to the namespace of relationship ids
     fn get_relationship_prefix(xml_document: &XmlDocument) -> Option<String> {
         xml_document
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 5a3d3fc..a8675c2 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -291,6 +291,10 @@ impl WorkSheet {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("Failed to get XML doc handle")?;
+            // Chart sheets and dialog sheets have no cells
+            if !matches!(xml_doc_mut.get_root(), Some(root) if root.get_tag() == "worksheet") {
+                return Err(anyhow!("The sheet is not a worksheet"));
+            }
             // unwrap dimension
             xml_doc_mut.pop_elements_by_tag_mut("dimension", None);
             // unwrap columns to local collection
@@ -1110,15 +1114,23 @@ impl WorkSheet {
                         .iter()
                         .find(|item| item.0 == sheet_name)
                     {
-                        return Ok((
-                            workbook_relationship_part
+                        let file_path = workbook_relationship_part
+                            .try_borrow()
+                            .context("Failed to Get Workbook relationship")?
+                            .get_target_by_id(&rel_id)
+                            .context("Failed to Get Target Path")?
+                            .ok_or(anyhow!("Failed to Get Relationship path"))?;
+                        if let Some(office_document) = office_document.upgrade() {
+                            // A blank sheet would hide that the content is missing
+                            if !office_document
                                 .try_borrow()
-                                .context("Failed to Get Workbook relationship")?
-                                .get_target_by_id(&rel_id)
-                                .context("Failed to Get Target Path")?
-                                .ok_or(anyhow!("Failed to Get Relationship path"))?,
-                            sheet_name,
-                        ));
+                                .context("Failed to Borrow Document")?
+                                .check_file_exist(file_path.clone())
+                            {
+                                return Err(anyhow!("The content of the sheet is missing"));
+                            }
+                        }
+                        return Ok((file_path, sheet_name));
                     }
                 }
                 if let Some(sheet_name) = sheet_name.as_ref() {
-- 
2.43.0


From b3d73156e613cbe4fea2514ff1346499cadc2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 36/51] fix: find parts whose names differ only in letter case

---
 rs/src/files/office_document.rs               | 17 ++++++++++++++
 .../global/global_2007/parts/content_types.rs | 22 ++++++++++++++-----
 rs/src/global/global_2007/parts/relations.rs  |  9 +++++++-
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 78c8219..801e474 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -58,6 +58,23 @@ impl OfficeDocument {
             .any(|name| name.eq_ignore_ascii_case(&file_path))
     }
 
+    /// Name under which the part is stored, part names are equivalent when they differ only in case
+    pub(crate) fn find_part_name(&self, file_path: &str) -> Option<String> {
+        if self.archive_collection.contains_key(file_path)
+            || self.xml_document_collection.contains_key(file_path)
+        {
+            return Some(file_path.to_string());
+        }
+        let mut names = self
+            .archive_collection
+            .keys()
+            .chain(self.xml_document_collection.keys())
+            .filter(|name| name.eq_ignore_ascii_case(file_path))
+            .collect::<Vec<_>>();
+        names.sort();
+        names.first().map(|name| name.to_string())
+    }
+
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
         self.archive_collection.remove(file_name);
         // An open handle of the deleted document should not be written back or block re-opening
diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 3d4af61..cff019c 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -47,11 +47,23 @@ impl ContentTypesPart {
         &mut self,
         file_name: &str,
     ) -> AnyResult<Option<String>, AnyError> {
-        if let Some(mut find_ids) = self.xml_document.get_element_ids_by_attribute(
-            "PartName",
-            &format!("/{}", file_name),
-            None,
-        ) {
+        let part_name = format!("/{}", file_name);
+        // Part names are equivalent when they differ only in case
+        let equivalent_name = self
+            .xml_document
+            .get_element_ids_by_tag("Override", None)
+            .unwrap_or_default()
+            .iter()
+            .filter_map(|id| self.xml_document.get_element(id))
+            .filter_map(|element| element.get_attribute())
+            .filter_map(|attributes| attributes.get("PartName"))
+            .filter(|name| name.eq_ignore_ascii_case(&part_name))
+            .max_by_key(|name| **name == part_name)
+            .map_or(part_name.clone(), |name| name.to_string());
+        if let Some(mut find_ids) =
+            self.xml_document
+                .get_element_ids_by_attribute("PartName", &equivalent_name, None)
+        {
             if let Some(id) = find_ids.pop() {
                 if let Some(element) = self.xml_document.pop_element_mut(&id) {
                     if let Some(attributes) = element.get_attribute() {
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 174ffe9..77b16f5 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -182,7 +182,14 @@ impl RelationsPart {
                 _ => segments.push(segment),
             }
         }
-        Ok(segments.join("/"))
+        let part_name = segments.join("/");
+        let stored_name = self.office_document.upgrade().and_then(|office_document| {
+            office_document
+                .try_borrow()
+                .ok()
+                .and_then(|office_document| office_document.find_part_name(&part_name))
+        });
+        Ok(stored_name.unwrap_or(part_name))
     }
 
     pub(crate) fn get_target_by_id(
-- 
2.43.0


From 6831d857148ad4113db963b9fdbd3e414d19d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 37/51] fix: names local to a sheet follow their sheet when
 another is deleted

---
 rs/src/files/xml/xml_tree.rs                  | 13 ++++
 .../spreadsheet_2007/parts/workbook.rs        | 71 ++++++++++++++++++-
 2 files changed, 83 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 91e6d78..7e6daff 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -248,6 +248,19 @@ impl XmlDocument {
         }
     }
 
+    /// Remove the given children of an element
+    pub(crate) fn remove_children_mut(&mut self, parent_id: &usize, child_ids: &HashSet<usize>) {
+        if let Some(parent_element) = self.xml_element_collection.get(parent_id) {
+            parent_element
+                .children
+                .borrow_mut()
+                .retain(|item| !child_ids.contains(&item.id));
+        }
+        for child_id in child_ids {
+            self.xml_element_collection.remove(child_id);
+        }
+    }
+
     pub(crate) fn pop_element_mut(&mut self, element_id: &usize) -> Option<XmlElement> {
         self.xml_element_collection.remove(element_id)
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 4adc2a6..eb3a254 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -17,7 +17,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     rc::{Rc, Weak},
 };
 
@@ -264,6 +264,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     };
                     // Detach the loaded sheets, the remaining ones are attached in final order
                     let mut max_sheet_id: u32 = 0;
+                    let mut loaded_sheets: Vec<usize> = Vec::new();
                     loop {
                         let child = xml_doc_mut
                             .get_element(&sheets_id)
@@ -276,6 +277,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                                 .and_then(|sheet_id| sheet_id.parse().ok())
                                 .unwrap_or(0);
                             max_sheet_id = max_sheet_id.max(sheet_id);
+                            loaded_sheets.push(element_id);
                         } else {
                             break;
                         }
@@ -319,6 +321,22 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             .set_attribute_mut(attributes)
                             .context("Sheet Attributes Failed")?;
                     }
+                    let sheet_positions = {
+                        let sheet_collection = self
+                            .sheet_collection
+                            .try_borrow()
+                            .context("Failed to pull Sheet Name Collection")?;
+                        loaded_sheets
+                            .iter()
+                            .map(|element_id| {
+                                sheet_collection
+                                    .iter()
+                                    .position(|item| item.4 == Some(*element_id))
+                            })
+                            .collect::<Vec<Option<usize>>>()
+                    };
+                    Self::update_sheet_scope_mut(&mut xml_doc_mut, &sheet_positions)
+                        .context("Update Defined Names Failed")?;
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
                             .order_child_mut(
@@ -584,6 +602,57 @@ impl WorkbookPart {
 
 // ############################# im-mut Function ######################################
 impl WorkbookPart {
+    /// Names local to a sheet refer to the position of the sheet, names of a deleted sheet are gone
+    fn update_sheet_scope_mut(
+        xml_document: &mut XmlDocument,
+        sheet_positions: &[Option<usize>],
+    ) -> AnyResult<(), AnyError> {
+        let is_unchanged = sheet_positions
+            .iter()
+            .enumerate()
+            .all(|(index, position)| *position == Some(index));
+        if is_unchanged {
+            return Ok(());
+        }
+        if let Some(defined_names_id) = xml_document
+            .get_first_element_id(vec!["definedNames"], None)
+            .context("Find Defined Names Failed")?
+        {
+            let mut removed_names: HashSet<usize> = HashSet::new();
+            for element_id in xml_document
+                .get_element_ids_by_tag("definedName", Some(&defined_names_id))
+                .unwrap_or_default()
+            {
+                if let Some(attributes) = xml_document
+                    .get_element_mut(&element_id)
+                    .and_then(|element| element.get_attribute_mut())
+                {
+                    let position = attributes
+                        .get("localSheetId")
+                        .and_then(|local_sheet| local_sheet.parse::<usize>().ok())
+                        .and_then(|local_sheet| sheet_positions.get(local_sheet));
+                    match position {
+                        Some(Some(position)) => {
+                            attributes.insert("localSheetId".to_string(), position.to_string());
+                        }
+                        Some(None) => {
+                            removed_names.insert(element_id);
+                        }
+                        None => {}
+                    }
+                }
+            }
+            xml_document.remove_children_mut(&defined_names_id, &removed_names);
+            let is_empty = xml_document
+                .get_element(&defined_names_id)
+                .map_or(false, |element| element.get_child_count() == 0);
+            if is_empty && !removed_names.is_empty() {
+                xml_document.pop_elements_by_tag_mut("definedNames", None);
+            }
+        }
+        Ok(())
+    }
+
     fn validate_root_element(xml_document: &Weak<RefCell<XmlDocument>>) -> AnyResult<(), AnyError> {
         let xml_document = xml_document
             .upgrade()
-- 
2.43.0


From 3ca849cdccce20ab507ea90f4351cf1a7ea32090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 38/51] fix: remove calculation entries of deleted sheets and
 replaced formulas

---
 .../spreadsheet_2007/parts/workbook.rs        | 44 +++++++++-
 .../spreadsheet_2007/parts/worksheet.rs       | 59 +++++++++++++
 .../services/calculation_chain.rs             | 83 ++++++++++++++++++-
 .../services/common_service.rs                | 12 +++
 4 files changed, 194 insertions(+), 4 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index eb3a254..a01ba5f 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -395,7 +395,7 @@ impl XmlDocumentPart for WorkbookPart {
                 )
                 .context("Loading Share String Failed")?;
                 // Calculation chain
-                let calculation_chain = CalculationChainPart::new(
+                let mut calculation_chain = CalculationChainPart::new(
                     office_document.clone(),
                     Rc::downgrade(&workbook_relationship_part),
                 )
@@ -406,13 +406,21 @@ impl XmlDocumentPart for WorkbookPart {
                     Rc::downgrade(&workbook_relationship_part),
                 )
                 .context("Loading Style Part Failed")?;
+                let (sheet_collection, workbook_view) =
+                    Self::load_sheet_names(&mut file_tree).context("Loading Sheet Names Failed")?;
+                calculation_chain.set_sheet_ids_mut(
+                    Self::load_sheet_ids(
+                        &file_tree,
+                        &workbook_relationship_part,
+                        &sheet_collection,
+                    )
+                    .context("Loading Sheet Ids Failed")?,
+                );
                 let common_service = Rc::new(RefCell::new(CommonServices::new(
                     calculation_chain,
                     share_string,
                     style,
                 )));
-                let (sheet_collection, workbook_view) =
-                    Self::load_sheet_names(&mut file_tree).context("Loading Sheet Names Failed")?;
                 Ok(Self {
                     office_document,
                     xml_document: file_tree,
@@ -653,6 +661,36 @@ impl WorkbookPart {
         Ok(())
     }
 
+    /// Sheet id of the loaded sheets by part name
+    fn load_sheet_ids(
+        xml_document: &Weak<RefCell<XmlDocument>>,
+        workbook_relationship_part: &Rc<RefCell<RelationsPart>>,
+        sheet_collection: &[(String, String, bool, bool, Option<usize>)],
+    ) -> AnyResult<HashMap<String, String>, AnyError> {
+        let mut sheet_ids = HashMap::new();
+        if let Some(xml_document) = xml_document.upgrade() {
+            let xml_doc = xml_document
+                .try_borrow()
+                .context("xml doc borrow failed")?;
+            let relationship_part = workbook_relationship_part
+                .try_borrow()
+                .context("Failed to pull relationship handle")?;
+            for (_, relationship_id, _, _, element_id) in sheet_collection {
+                let sheet_id = element_id
+                    .and_then(|element_id| xml_doc.get_element(&element_id))
+                    .and_then(|element| element.get_attribute())
+                    .and_then(|attributes| attributes.get("sheetId"));
+                let sheet_path = relationship_part
+                    .get_target_by_id(relationship_id)
+                    .context("Failed to Get Target Path")?;
+                if let (Some(sheet_id), Some(sheet_path)) = (sheet_id, sheet_path) {
+                    sheet_ids.insert(sheet_path, sheet_id.to_string());
+                }
+            }
+        }
+        Ok(sheet_ids)
+    }
+
     fn validate_root_element(xml_document: &Weak<RefCell<XmlDocument>>) -> AnyResult<(), AnyError> {
         let xml_document = xml_document
             .upgrade()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index a8675c2..e1e4128 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1383,6 +1383,8 @@ impl WorkSheet {
                 cell_data.data_type = CellDataType::Number;
             }
         }
+        self.remove_replaced_formulas(row_index, col_index + 1, &column_cell)
+            .context("Removing replaced formulas failed")?;
         // Load If Sheet Data Exist
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             // Load If Row Exits
@@ -1445,6 +1447,57 @@ impl WorkSheet {
         Ok(())
     }
 
+    /// Cells that lose the formula they have in the file are not calculated any more
+    fn remove_replaced_formulas(
+        &self,
+        row_index: u32,
+        start_col: u16,
+        column_cell: &[CellProperties],
+    ) -> AnyResult<(), AnyError> {
+        let cell_records = match self
+            .sheet_data
+            .as_ref()
+            .and_then(|sheet_data| sheet_data.get(&row_index))
+            .and_then(|row| row.cell_records.as_ref())
+        {
+            Some(cell_records) => cell_records,
+            None => return Ok(()),
+        };
+        let mut replaced: Vec<String> = Vec::new();
+        if let Some(xml_document) = self.xml_document.upgrade() {
+            let xml_doc = xml_document
+                .try_borrow()
+                .context("Failed to Pull XML Handle")?;
+            for (col_index, cell_data) in (start_col..).zip(column_cell) {
+                let has_formula = cell_records.get(&col_index).map_or(false, |cell_record| {
+                    cell_record.formula.is_some()
+                        || cell_record.element_id.map_or(false, |element_id| {
+                            xml_doc
+                                .get_element_ids_by_tag("f", Some(&element_id))
+                                .is_some()
+                        })
+                });
+                if has_formula && cell_data.formula.is_none() {
+                    replaced.push(format!(
+                        "{}{}",
+                        ConverterUtil::get_column_ref(col_index)
+                            .context("Failed to get Char Id from Int")?,
+                        row_index
+                    ));
+                }
+            }
+        }
+        if !replaced.is_empty() {
+            if let Some(common_service) = self.common_service.upgrade() {
+                common_service
+                    .try_borrow_mut()
+                    .context("Failed to Get Calculation Chain Handle")?
+                    .remove_calculation_mut(&self.file_path, Some(&replaced));
+            }
+        }
+        Ok(())
+    }
+
     fn update_share_string(&mut self, cell_value: &String) -> AnyResult<String, AnyError> {
         if let Some(common_service) = self.common_service.upgrade() {
             common_service
@@ -1486,6 +1539,12 @@ impl WorkSheet {
             }
             relationship_part.delete_relationship_mut(&self.file_path);
         }
+        if let Some(common_service) = self.common_service.upgrade() {
+            common_service
+                .try_borrow_mut()
+                .context("Failed to Get Calculation Chain Handle")?
+                .remove_calculation_mut(&self.file_path, None);
+        }
         if let Some(xml_tree) = self.office_document.upgrade() {
             let mut office_document = xml_tree
                 .try_borrow_mut()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index f261987..04cb2be 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -7,7 +7,7 @@ use crate::{
     global_2007::traits::XmlDocumentPart,
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
-use std::{cell::RefCell, collections::HashMap, rc::Weak};
+use std::{cell::RefCell, collections::{HashMap, HashSet}, rc::Weak};
 
 #[derive(Debug)]
 pub struct CalculationChainPart {
@@ -15,6 +15,11 @@ pub struct CalculationChainPart {
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
     /// The chain has entries, they are kept as they are in the file
     has_calculation: bool,
+    /// Sheet id of the sheets in the file by part name
+    sheet_ids: HashMap<String, String>,
+    /// Sheet id and reference of cells that lost their formula
+    removed_cells: HashSet<(String, String)>,
+    removed_sheets: HashSet<String>,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
 }
@@ -32,6 +37,8 @@ impl XmlDocumentPartCommon for CalculationChainPart {
     {
         log_elapsed!(
             || {
+                self.apply_removed_calculation()
+                    .context("Removing calculation entries failed")?;
                 if let Some(office_doc_ref) = self.office_document.upgrade() {
                     if self.has_calculation {
                         office_doc_ref
@@ -99,12 +106,86 @@ impl XmlDocumentPart for CalculationChainPart {
             office_document,
             parent_relationship_part,
             has_calculation,
+            sheet_ids: HashMap::new(),
+            removed_cells: HashSet::new(),
+            removed_sheets: HashSet::new(),
             xml_document,
             file_path: file_name,
         })
     }
 }
 
+// ############################# mut Function ######################################
+impl CalculationChainPart {
+    pub(crate) fn set_sheet_ids_mut(&mut self, sheet_ids: HashMap<String, String>) {
+        self.sheet_ids = sheet_ids;
+    }
+
+    /// Cells, or the whole sheet, have no formula any more
+    pub(crate) fn remove_calculation_mut(&mut self, sheet_path: &str, cell_refs: Option<&[String]>) {
+        if let Some(sheet_id) = self.sheet_ids.get(sheet_path) {
+            match cell_refs {
+                Some(cell_refs) => {
+                    for cell_ref in cell_refs {
+                        self.removed_cells
+                            .insert((sheet_id.to_string(), cell_ref.to_string()));
+                    }
+                }
+                None => {
+                    self.removed_sheets.insert(sheet_id.to_string());
+                }
+            }
+        }
+    }
+
+    /// Remove the entries of cells that have no formula any more
+    fn apply_removed_calculation(&mut self) -> AnyResult<(), AnyError> {
+        let removed_cells = std::mem::take(&mut self.removed_cells);
+        let removed_sheets = std::mem::take(&mut self.removed_sheets);
+        if removed_cells.is_empty() && removed_sheets.is_empty() {
+            return Ok(());
+        }
+        if let Some(xml_document) = self.xml_document.upgrade() {
+            let mut xml_doc_mut = xml_document
+                .try_borrow_mut()
+                .context("xml doc borrow failed")?;
+            let mut removed_entries: HashSet<usize> = HashSet::new();
+            // An entry without sheet belongs to the sheet of the entry before
+            let mut sheet_id = "0".to_string();
+            let mut written_sheet_id = sheet_id.clone();
+            for element_id in xml_doc_mut
+                .get_element_ids_by_tag("c", None)
+                .unwrap_or_default()
+            {
+                if let Some(attributes) = xml_doc_mut
+                    .get_element_mut(&element_id)
+                    .and_then(|element| element.get_attribute_mut())
+                {
+                    if let Some(entry_sheet_id) = attributes.get("i") {
+                        sheet_id = entry_sheet_id.to_string();
+                    }
+                    let cell_ref = attributes.get("r").cloned().unwrap_or_default();
+                    if removed_sheets.contains(&sheet_id)
+                        || removed_cells.contains(&(sheet_id.clone(), cell_ref))
+                    {
+                        removed_entries.insert(element_id);
+                    } else {
+                        if written_sheet_id != sheet_id {
+                            attributes.insert("i".to_string(), sheet_id.clone());
+                        }
+                        written_sheet_id = sheet_id.clone();
+                    }
+                }
+            }
+            xml_doc_mut.remove_children_mut(&0, &removed_entries);
+            self.has_calculation = xml_doc_mut
+                .get_root()
+                .map_or(false, |root| root.get_child_count() > 0);
+        }
+        Ok(())
+    }
+}
+
 impl CalculationChainPart {
     fn get_calc_chain_file_name(
         relations_part: &Weak<RefCell<RelationsPart>>,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
index 38bb913..37c8f55 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
@@ -36,6 +36,18 @@ impl CommonServices {
     }
 }
 
+// ########################### Calculation Chain ########################
+impl CommonServices {
+    pub(crate) fn remove_calculation_mut(
+        &mut self,
+        sheet_path: &str,
+        cell_refs: Option<&[String]>,
+    ) {
+        self.calculation_chain
+            .remove_calculation_mut(sheet_path, cell_refs)
+    }
+}
+
 // ########################### Share String ########################
 impl CommonServices {
     pub(crate) fn get_string_id_mut(&mut self, value: String) -> AnyResult<String, AnyError> {
-- 
2.43.0


From eab9dae32ba56f50f707b8ee75d731e81db6d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 39/51] fix: read UTF-16 parts and refuse content that is not
 text

---
 rs/src/files/xml/xml_serialize.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 2b25c9d..9367a7b 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -19,6 +19,8 @@ impl XmlSerializer {
         xml_str: Vec<u8>,
         file_name: &str,
     ) -> AnyResult<XmlDocument, AnyError> {
+        let xml_str = Self::decode_content(xml_str)
+            .context(format!("Failed to decode the content of : {}", file_name))?;
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
         log_elapsed!(
@@ -32,6 +34,27 @@ impl XmlSerializer {
         Ok(xml_document)
     }
 
+    /// Parts are encoded in UTF-8 or UTF-16, other content would be read as different text
+    fn decode_content(content: Vec<u8>) -> AnyResult<Vec<u8>, AnyError> {
+        let read_unit: fn([u8; 2]) -> u16 = match content.as_slice() {
+            [0xFF, 0xFE, ..] | [b'<', 0, ..] => u16::from_le_bytes,
+            [0xFE, 0xFF, ..] | [0, b'<', ..] => u16::from_be_bytes,
+            _ => {
+                std::str::from_utf8(&content).context("Content is not UTF-8")?;
+                return Ok(content);
+            }
+        };
+        if content.len() % 2 != 0 {
+            return Err(anyhow!("Content is not UTF-16"));
+        }
+        let units = content
+            .chunks_exact(2)
+            .map(|unit| read_unit([unit[0], unit[1]]))
+            .collect::<Vec<u16>>();
+        let text = String::from_utf16(&units).context("Content is not UTF-16")?;
+        Ok(text.strip_prefix('\u{FEFF}').unwrap_or(&text).as_bytes().to_vec())
+    }
+
     fn xml_element_parser(
         reader: &mut NsReader<Cursor<Vec<u8>>>,
         xml_document: &mut XmlDocument,
-- 
2.43.0


From 7817e8aa3995fc1e5fbecf5a306ceaabfd54be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 40/51] fix: refuse sheet names a workbook cannot hold and
 names that differ only in case

---
 .../spreadsheet_2007/parts/workbook.rs        |  8 ++++++--
 .../spreadsheet_2007/parts/worksheet.rs       | 11 ++++++-----
 rs/src/utils/converters.rs                    | 19 +++++++++++++++++++
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index a01ba5f..2f1067a 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -923,14 +923,18 @@ impl WorkbookPart {
         old_sheet_name: &str,
         new_sheet_name: &str,
     ) -> AnyResult<(), AnyError> {
-        ConverterUtil::validate_xml_text(new_sheet_name).context("Sheet name cannot be used")?;
+        ConverterUtil::validate_sheet_name(new_sheet_name).context("Sheet name cannot be used")?;
         // Check if sheet with same name exist
         if self
             .sheet_collection
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .any(|item| new_sheet_name == item.0)
+            .any(|item| {
+                new_sheet_name == item.0
+                    || item.0 != old_sheet_name
+                        && ConverterUtil::is_same_sheet_name(new_sheet_name, &item.0)
+            })
         {
             Err(anyhow!("New Sheet Name Already exist in the stack"))
         } else {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index e1e4128..0310b9d 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1108,11 +1108,12 @@ impl WorkSheet {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
                 if let Some(sheet_name) = sheet_name.clone() {
                     // If the Sheet name already exist get the path of sheet name
-                    if let Some((_, rel_id, _, _, _)) = sheet_collection
+                    if let Some((sheet_name, rel_id, _, _, _)) = sheet_collection
                         .try_borrow()
                         .context("Failed to Get Sheet Collection")?
                         .iter()
-                        .find(|item| item.0 == sheet_name)
+                        .filter(|item| ConverterUtil::is_same_sheet_name(&item.0, &sheet_name))
+                        .max_by_key(|item| item.0 == sheet_name)
                     {
                         let file_path = workbook_relationship_part
                             .try_borrow()
@@ -1130,11 +1131,11 @@ impl WorkSheet {
                                 return Err(anyhow!("The content of the sheet is missing"));
                             }
                         }
-                        return Ok((file_path, sheet_name));
+                        return Ok((file_path, sheet_name.to_string()));
                     }
                 }
                 if let Some(sheet_name) = sheet_name.as_ref() {
-                    ConverterUtil::validate_xml_text(sheet_name)
+                    ConverterUtil::validate_sheet_name(sheet_name)
                         .context("Sheet name cannot be used")?;
                 }
                 let mut sheet_count = sheet_collection
@@ -1179,7 +1180,7 @@ impl WorkSheet {
                         let name = format!("{}{}", worksheet_content.default_name, name_count);
                         if sheet_collection
                             .iter()
-                            .any(|item| item.0.eq_ignore_ascii_case(&name))
+                            .any(|item| ConverterUtil::is_same_sheet_name(&item.0, &name))
                         {
                             name_count += 1;
                         } else {
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index b162fe2..62a9764 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -89,6 +89,25 @@ impl ConverterUtil {
         }
     }
 
+    /// Refuse names that cannot be given to a sheet
+    pub(crate) fn validate_sheet_name(name: &str) -> AnyResult<(), AnyError> {
+        Self::validate_xml_text(name)?;
+        if name.is_empty() || name.encode_utf16().count() > 31 {
+            Err(anyhow!("Sheet name should have 1 to 31 characters"))
+        } else if name.starts_with('\'') || name.ends_with('\'') {
+            Err(anyhow!("Sheet name cannot start or end with an apostrophe"))
+        } else if name.contains(['[', ']', ':', '*', '?', '/', '\\']) {
+            Err(anyhow!("Sheet name has a character that is not allowed"))
+        } else {
+            Ok(())
+        }
+    }
+
+    /// Sheet names are equivalent when they differ only in case
+    pub(crate) fn is_same_sheet_name(name: &str, other: &str) -> bool {
+        name == other || name.to_lowercase() == other.to_lowercase()
+    }
+
     /// convert open-xml bool flag property
     pub(crate) fn normalize_bool_property_u8(value: &str) -> u8 {
         match value.trim() {
-- 
2.43.0


From f440247d8f7da3eb209a4c89578bd2d5c388c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 41/51] fix: open parts under the name they are stored with,
 whatever the letter case

---
 rs/src/files/office_document.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 801e474..fb4efc1 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -75,7 +75,14 @@ impl OfficeDocument {
         names.first().map(|name| name.to_string())
     }
 
+    /// Stored name of the part, or the given name when there is no such part yet
+    fn stored_name(&self, file_path: &str) -> String {
+        self.find_part_name(file_path)
+            .unwrap_or(file_path.to_string())
+    }
+
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
+        let file_name = &self.stored_name(file_name);
         self.archive_collection.remove(file_name);
         // An open handle of the deleted document should not be written back or block re-opening
         self.xml_document_collection.remove(file_name);
@@ -83,6 +90,7 @@ impl OfficeDocument {
 
     /// Forget an open handle, the stored content stays as it was before the handle was created
     pub(crate) fn discard_xml_document_mut(&mut self, file_name: &str) {
+        let file_name = &self.stored_name(file_name);
         self.xml_document_collection.remove(file_name);
     }
 
@@ -101,10 +109,11 @@ impl OfficeDocument {
         extension_type: String,
         xml_tree: XmlDocument,
     ) -> AnyResult<Weak<RefCell<XmlDocument>>, AnyError> {
+        let file_name = self.stored_name(file_name);
         let ref_xml_document = Rc::new(RefCell::new(xml_tree));
         let weak_xml_document = Rc::downgrade(&ref_xml_document);
         self.xml_document_collection.insert(
-            file_name.to_string(),
+            file_name,
             (
                 ref_xml_document.clone(),
                 content_type.clone(),
@@ -120,6 +129,7 @@ impl OfficeDocument {
         &mut self,
         file_path: &str,
     ) -> AnyResult<Option<(XmlDocument, Option<String>, String, String)>, AnyError> {
+        let file_path = &self.stored_name(file_path);
         // Check is the file path object already exist
         if self.xml_document_collection.get(file_path).is_some() {
             return Err(anyhow!(
@@ -151,6 +161,7 @@ impl OfficeDocument {
 
     /// Update the XML tree data to database and close the refCell
     pub(crate) fn close_xml_document(&mut self, file_path: &str) -> AnyResult<(), AnyError> {
+        let file_path = &self.stored_name(file_path);
         if let Some((xml_document, content_type, file_extension, extension_type)) =
             self.xml_document_collection.remove(file_path)
         {
-- 
2.43.0


From ce5434024d038efdb2a87666b1a23a6890f0cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 42/51] fix: every workbook view follows the sheets when one is
 deleted

---
 .../spreadsheet_2007/parts/workbook.rs        | 43 +++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 2f1067a..b8cb5d0 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -337,6 +337,8 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     };
                     Self::update_sheet_scope_mut(&mut xml_doc_mut, &sheet_positions)
                         .context("Update Defined Names Failed")?;
+                    Self::update_other_views_mut(&mut xml_doc_mut, &sheet_positions)
+                        .context("Update Workbook Views Failed")?;
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
                             .order_child_mut(
@@ -661,6 +663,47 @@ impl WorkbookPart {
         Ok(())
     }
 
+    /// Views behind the first refer to the position of a sheet as well
+    fn update_other_views_mut(
+        xml_document: &mut XmlDocument,
+        sheet_positions: &[Option<usize>],
+    ) -> AnyResult<(), AnyError> {
+        if let Some(book_views_id) = xml_document
+            .get_first_element_id(vec!["bookViews"], None)
+            .context("Find Book Views Failed")?
+        {
+            for element_id in xml_document
+                .get_element_ids_by_tag("workbookView", Some(&book_views_id))
+                .unwrap_or_default()
+                .into_iter()
+                .skip(1)
+            {
+                if let Some(attributes) = xml_document
+                    .get_element_mut(&element_id)
+                    .and_then(|element| element.get_attribute_mut())
+                {
+                    for key in ["activeTab", "firstSheet"] {
+                        let position = attributes
+                            .get(key)
+                            .and_then(|sheet| sheet.parse::<usize>().ok())
+                            .and_then(|sheet| sheet_positions.get(sheet).copied());
+                        match position {
+                            Some(Some(position)) => {
+                                attributes.insert(key.to_string(), position.to_string());
+                            }
+                            // The sheet is deleted, the view falls back to the first sheet
+                            Some(None) => {
+                                attributes.remove(key);
+                            }
+                            None => {}
+                        }
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     /// Sheet id of the loaded sheets by part name
     fn load_sheet_ids(
         xml_document: &Weak<RefCell<XmlDocument>>,
-- 
2.43.0


From 3a293fa6e749898341978e4bba8a93b83d7089d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 43/51] fix: refuse content outside the root element of a part

---
 rs/src/files/xml/xml_serialize.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 9367a7b..a936c20 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -74,6 +74,9 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
+                    if root_loaded && depth == 0 {
+                        break Err(anyhow!("Content after the root element"));
+                    }
                     depth += 1;
                     // Update tree structure
                     if root_loaded {
@@ -101,6 +104,9 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
+                    if root_loaded && depth == 0 {
+                        break Err(anyhow!("Content after the root element"));
+                    }
                     if root_loaded {
                         xml_document
                             .append_child_mut(&tag, Some(&active_xml_element_id))
@@ -175,8 +181,11 @@ impl XmlSerializer {
         text: &str,
     ) -> AnyResult<(), AnyError> {
         let is_white_space = text.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n'));
-        if depth == 0 && is_white_space {
-            return Ok(());
+        if depth == 0 {
+            if is_white_space {
+                return Ok(());
+            }
+            return Err(anyhow!("Text outside of the root element"));
         }
         let element = xml_document
             .get_element_mut(element_id)
-- 
2.43.0


From bca764f19750c38a153fe3cbe6a9783e62843e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 44/51] fix: a new sheet does not take the part of a sheet
 whose content is missing

---
 rs/src/global/global_2007/parts/relations.rs          | 11 +++++++++++
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs   | 11 +++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 77b16f5..93ee60d 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -246,6 +246,17 @@ impl RelationsPart {
         }
     }
 
+    /// Check if a relationship leads to the part, part names ignore letter case
+    pub(crate) fn has_target(&self, file_path: &str) -> bool {
+        self.relationships.iter().any(|item| {
+            item.3.as_deref() != Some("External")
+                && matches!(
+                    self.resolve_target(&item.1),
+                    Ok(target) if target.eq_ignore_ascii_case(file_path)
+                )
+        })
+    }
+
     /// Generate Next Relationship ID to add
     fn get_next_relationship_id(&self) -> String {
         let mut children = self.relationships.len() + 1;
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0310b9d..627e6dd 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1152,15 +1152,22 @@ impl WorkSheet {
                     let document = office_doc
                         .try_borrow()
                         .context("Failed to Borrow Document")?;
+                    let relationship_part = workbook_relationship_part
+                        .try_borrow()
+                        .context("Failed to pull relationship connection")?;
                     loop {
-                        if document.check_file_exist(format!(
+                        let file_name = format!(
                             "{}{}/{}{}.{}",
                             relative_path,
                             worksheet_content.default_path,
                             worksheet_content.default_name,
                             sheet_count,
                             worksheet_content.extension
-                        )) {
+                        );
+                        // A sheet can refer to content that is missing in the package
+                        if document.check_file_exist(file_name.clone())
+                            || relationship_part.has_target(&file_name)
+                        {
                             sheet_count += 1;
                         } else {
                             break;
-- 
2.43.0


From aba813d5bd519c51fceae1ff4d4590ea130bca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 45/51] fix: refuse parts that are not well-formed XML instead
 of reading them as something else

---
 rs/src/files/xml/xml_serialize.rs | 82 +++++++++++++++++++++++++++++--
 rs/src/files/xml/xml_tree.rs      |  6 ++-
 2 files changed, 84 insertions(+), 4 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index a936c20..af4872b 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -1,4 +1,4 @@
-use crate::files::XmlDocument;
+use crate::files::{XmlDocument, XmlElement};
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
 use quick_xml::escape::unescape;
@@ -22,6 +22,7 @@ impl XmlSerializer {
         let xml_str = Self::decode_content(xml_str)
             .context(format!("Failed to decode the content of : {}", file_name))?;
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
+        reader.config_mut().check_comments = true;
         let mut xml_document = XmlDocument::new();
         log_elapsed!(
             || {
@@ -40,7 +41,8 @@ impl XmlSerializer {
             [0xFF, 0xFE, ..] | [b'<', 0, ..] => u16::from_le_bytes,
             [0xFE, 0xFF, ..] | [0, b'<', ..] => u16::from_be_bytes,
             _ => {
-                std::str::from_utf8(&content).context("Content is not UTF-8")?;
+                let text = std::str::from_utf8(&content).context("Content is not UTF-8")?;
+                Self::validate_characters(text)?;
                 return Ok(content);
             }
         };
@@ -52,6 +54,7 @@ impl XmlSerializer {
             .map(|unit| read_unit([unit[0], unit[1]]))
             .collect::<Vec<u16>>();
         let text = String::from_utf16(&units).context("Content is not UTF-16")?;
+        Self::validate_characters(&text)?;
         Ok(text.strip_prefix('\u{FEFF}').unwrap_or(&text).as_bytes().to_vec())
     }
 
@@ -63,12 +66,30 @@ impl XmlSerializer {
         let mut root_loaded = false;
         let mut active_xml_element_id: usize = 0;
         let mut depth: usize = 0;
+        let mut is_first_event = true;
         loop {
             match reader.read_event_into(&mut temp_buffer) {
                 // Handle errors
                 Err(e) => break Err(e.into()),
                 // Read XML declaration
-                Result::Ok(Event::Decl(_)) => {}
+                Result::Ok(Event::Decl(declaration)) => {
+                    if !is_first_event {
+                        break Err(anyhow!("XML declaration is not at the start"));
+                    }
+                    Self::validate_declaration(&String::from_utf8_lossy(&declaration))
+                        .context("XML declaration failed")?;
+                }
+                // A part has no document type, its entities would be lost
+                Result::Ok(Event::DocType(_)) => {
+                    break Err(anyhow!("Document type declaration is not supported"));
+                }
+                Result::Ok(Event::PI(instruction)) => {
+                    let target = String::from_utf8_lossy(instruction.target()).to_string();
+                    if target.eq_ignore_ascii_case("xml") || !XmlElement::is_valid_xml_name(&target)
+                    {
+                        break Err(anyhow!("Processing instruction is not valid"));
+                    }
+                }
                 // Read start tag and attributes
                 Result::Ok(Event::Start(element)) => {
                     let tag: String =
@@ -129,7 +150,11 @@ impl XmlSerializer {
                     let raw_text: String = String::from_utf8_lossy(&byte_text)
                         .replace("\r\n", "\n")
                         .replace('\r', "\n");
+                    if raw_text.contains("]]>") {
+                        break Err(anyhow!("Section end in text"));
+                    }
                     let text = unescape(&raw_text).context("XML Text parsing error")?;
+                    Self::validate_characters(&text)?;
                     Self::append_text(xml_document, &active_xml_element_id, depth, &text)?;
                 }
 
@@ -169,6 +194,7 @@ impl XmlSerializer {
                 // Default case for other events
                 _ => {}
             }
+            is_first_event = false;
             temp_buffer.clear();
         }
     }
@@ -197,7 +223,53 @@ impl XmlSerializer {
         Ok(())
     }
 
+    /// Content is read as Unicode, another encoding would be read as different text
+    fn validate_declaration(declaration: &str) -> AnyResult<(), AnyError> {
+        let attributes = Self::get_attributes_string(BytesStart::from_content(declaration, 3))?;
+        let is_unicode = attributes.get("encoding").map_or(true, |encoding| {
+            ["utf-8", "utf-16", "us-ascii"].contains(&encoding.to_ascii_lowercase().as_str())
+        });
+        let is_known = attributes
+            .keys()
+            .all(|key| ["version", "encoding", "standalone"].contains(&key.as_str()));
+        if is_unicode && is_known && attributes.contains_key("version") {
+            Ok(())
+        } else {
+            Err(anyhow!("XML declaration is not supported"))
+        }
+    }
+
+    fn validate_characters(text: &str) -> AnyResult<(), AnyError> {
+        if text.chars().all(XmlElement::is_valid_xml_char) {
+            Ok(())
+        } else {
+            Err(anyhow!("Content has characters that are not valid in XML"))
+        }
+    }
+
+    /// Attributes are separated by white space
+    fn validate_attribute_separator(element: &BytesStart) -> AnyResult<(), AnyError> {
+        let mut quote: Option<u8> = None;
+        let mut is_value_end = false;
+        for byte in element.attributes_raw() {
+            if is_value_end && !byte.is_ascii_whitespace() {
+                return Err(anyhow!("Attributes are not separated"));
+            }
+            is_value_end = false;
+            match quote {
+                Some(open) if open == *byte => {
+                    quote = None;
+                    is_value_end = true;
+                }
+                None if matches!(*byte, b'"' | b'\'') => quote = Some(*byte),
+                _ => {}
+            }
+        }
+        Ok(())
+    }
+
     fn get_attributes_string(element: BytesStart) -> AnyResult<HashMap<String, String>, AnyError> {
+        Self::validate_attribute_separator(&element)?;
         element
             .attributes()
             .map(|attribute_result: Result<Attribute<'_>, AttrError>| {
@@ -211,6 +283,10 @@ impl XmlSerializer {
                 let value: String = unescape(&raw_value)
                     .context("Failed to unescape attribute value")?
                     .to_string();
+                if raw_value.contains('<') {
+                    return Err(anyhow!("Attribute value has a tag"));
+                }
+                Self::validate_characters(&value)?;
                 Ok((key, value))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 7e6daff..3779189 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -510,7 +510,11 @@ impl XmlElement {
         }
     }
 
-    fn is_valid_xml_name(name: &str) -> bool {
+    pub(crate) fn is_valid_xml_char(character: char) -> bool {
+        matches!(character, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
+    }
+
+    pub(crate) fn is_valid_xml_name(name: &str) -> bool {
         fn is_name_start_char(c: char) -> bool {
             c.is_ascii_alphabetic() || c == '_' || c.is_alphabetic()
         }
-- 
2.43.0


From 209e36d196929f25bad24bf28029adf1e0701778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 46/51] fix: text that looks like an escaped character is
 written as that text

---
 .../spreadsheet_2007/parts/worksheet.rs       | 13 +++++++++++--
 rs/src/utils/converters.rs                    | 19 +++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 627e6dd..ae77816 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1373,11 +1373,20 @@ impl WorkSheet {
                             }
                         } else {
                             cell_data.data_type = CellDataType::ShareString;
-                            cell_data.value = Some(self.update_share_string(cell_value)?);
+                            cell_data.value = Some(
+                                self.update_share_string(&ConverterUtil::escape_cell_text(
+                                    cell_value,
+                                ))?,
+                            );
                         }
                     }
                     CellDataType::ShareString => {
-                        cell_data.value = Some(self.update_share_string(cell_value)?);
+                        cell_data.value = Some(
+                            self.update_share_string(&ConverterUtil::escape_cell_text(cell_value))?,
+                        );
+                    }
+                    CellDataType::String | CellDataType::InlineString => {
+                        cell_data.value = Some(ConverterUtil::escape_cell_text(cell_value));
                     }
                     CellDataType::Boolean => {
                         cell_data.value = match cell_value.to_lowercase().as_str() {
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 62a9764..e027d08 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -103,6 +103,25 @@ impl ConverterUtil {
         }
     }
 
+    /// Text like _x0041_ stands for a character, the underscore of a literal one is escaped
+    pub(crate) fn escape_cell_text(text: &str) -> String {
+        let mut escaped = String::with_capacity(text.len());
+        for (position, character) in text.char_indices() {
+            escaped.push(character);
+            if character == '_' {
+                let following = &text.as_bytes()[position + 1..];
+                if following.len() > 5
+                    && following[0] == b'x'
+                    && following[1..5].iter().all(|digit| digit.is_ascii_hexdigit())
+                    && following[5] == b'_'
+                {
+                    escaped.push_str("x005F_");
+                }
+            }
+        }
+        escaped
+    }
+
     /// Sheet names are equivalent when they differ only in case
     pub(crate) fn is_same_sheet_name(name: &str, other: &str) -> bool {
         name == other || name.to_lowercase() == other.to_lowercase()
-- 
2.43.0


From e3033a7bf1a834eb4349f129bb0b1fad448e3e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 47/51] fix: refuse references and sections outside of the root
 element

---
 rs/src/files/xml/xml_serialize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index af4872b..b9e8396 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -153,6 +153,9 @@ impl XmlSerializer {
                     if raw_text.contains("]]>") {
                         break Err(anyhow!("Section end in text"));
                     }
+                    if depth == 0 && raw_text.contains('&') {
+                        break Err(anyhow!("Reference outside of the root element"));
+                    }
                     let text = unescape(&raw_text).context("XML Text parsing error")?;
                     Self::validate_characters(&text)?;
                     Self::append_text(xml_document, &active_xml_element_id, depth, &text)?;
@@ -160,6 +163,9 @@ impl XmlSerializer {
 
                 // Read CDATA content
                 Result::Ok(Event::CData(byte_data)) => {
+                    if depth == 0 {
+                        break Err(anyhow!("Section outside of the root element"));
+                    }
                     let text: String = String::from_utf8_lossy(&byte_data)
                         .replace("\r\n", "\n")
                         .replace('\r', "\n");
-- 
2.43.0


From 68f433482dd8fcc1bb3732c784fd1583620d3e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 48/51] fix: open worksheets are found before saving whatever
 content type the package gives them

---
 rs/src/files/office_document.rs              | 17 ++++++++++++-----
 rs/src/spreadsheet/spreadsheet_2007/excel.rs | 20 +++++++++-----------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index fb4efc1..34f82bd 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -94,11 +94,18 @@ impl OfficeDocument {
         self.xml_document_collection.remove(file_name);
     }
 
-    /// Is a part of the given content type still held by a handle
-    pub(crate) fn is_content_type_open(&self, content_type: &str) -> bool {
-        self.xml_document_collection
-            .values()
-            .any(|document| document.1.as_deref() == Some(content_type))
+    /// Is a part with the given root element still held by a handle
+    pub(crate) fn is_root_tag_open(&self, root_tag: &str) -> AnyResult<bool, AnyError> {
+        for document in self.xml_document_collection.values() {
+            let xml_document = document
+                .0
+                .try_borrow()
+                .context("Failed to Pull XML Handle")?;
+            if matches!(xml_document.get_root(), Some(root) if root.get_tag() == root_tag) {
+                return Ok(true);
+            }
+        }
+        Ok(false)
     }
 
     pub(crate) fn get_xml_document_ref(
diff --git a/rs/src/spreadsheet/spreadsheet_2007/excel.rs b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
index df1e723..1390bc2 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/excel.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
@@ -173,17 +173,15 @@ impl Excel {
         log_elapsed!(
             || {
                 // The content of a sheet is written when its handle is closed
-                if let Some(content) = EXCEL_TYPE_COLLECTION.get("worksheet") {
-                    if self
-                        .office_document
-                        .try_borrow()
-                        .context("Save Office Document handle Failed")?
-                        .is_content_type_open(content.content_type)
-                    {
-                        return Err(anyhow!(
-                            "Please close the open worksheet handles before saving the file"
-                        ));
-                    }
+                if self
+                    .office_document
+                    .try_borrow()
+                    .context("Save Office Document handle Failed")?
+                    .is_root_tag_open("worksheet")?
+                {
+                    return Err(anyhow!(
+                        "Please close the open worksheet handles before saving the file"
+                    ));
                 }
                 self.workbook.flush()?;
                 self.core_properties.flush()?;
-- 
2.43.0


From 53d4cdd2b47fe6851a2b09ff5ecad7ab0905a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:23 +0000
Subject: [PATCH 49/51] fix: large sheets are read and written in time
 proportional to their size

---
 rs/src/files/xml/xml_tree.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 3779189..9dcfc5c 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -2,7 +2,7 @@ use crate::element_dictionary::{COMMON_TYPE_COLLECTION, EXCEL_TYPE_COLLECTION};
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, VecDeque},
     rc::{Rc, Weak},
 };
 
@@ -41,7 +41,7 @@ impl XmlDocument {
                         id: child.id,
                         tag: child.tag.clone(),
                     })
-                    .collect::<Vec<XmlElementChild>>();
+                    .collect::<VecDeque<XmlElementChild>>();
                 (
                     *id,
                     XmlElement {
@@ -483,7 +483,7 @@ pub(crate) struct XmlElement {
     /// Internal Value of the
     value: Option<String>,
     /// Child Element Names to pull up nodes quickly
-    children: Rc<RefCell<Vec<XmlElementChild>>>,
+    children: Rc<RefCell<VecDeque<XmlElementChild>>>,
     // ######################## Document Parts ##########################
     /// XML Namespace collection
     namespace_collection_ref: Weak<RefCell<HashMap<String, String>>>,
@@ -502,7 +502,7 @@ impl XmlElement {
                 tag: tag.to_string(),
                 attributes: None,
                 value: None,
-                children: Rc::new(RefCell::new(Vec::new())),
+                children: Rc::new(RefCell::new(VecDeque::new())),
                 namespace_collection_ref: namespace_collection,
             })
         } else {
@@ -599,12 +599,10 @@ impl XmlElement {
 impl XmlElement {
     /// Remove the child reference irreversible
     pub(crate) fn pop_child_mut(&self) -> Option<(usize, String)> {
-        if self.children.borrow_mut().len() > 0 {
-            let child_element = self.children.borrow_mut().remove(0);
-            Some((child_element.id, child_element.tag))
-        } else {
-            None
-        }
+        self.children
+            .borrow_mut()
+            .pop_front()
+            .map(|child_element| (child_element.id, child_element.tag))
     }
 
     pub(crate) fn get_attribute_mut(&mut self) -> Option<&mut HashMap<String, String>> {
@@ -720,7 +718,7 @@ impl XmlElement {
         self.children
             .try_borrow_mut()
             .context("Failed to Pull children handle")?
-            .push(XmlElementChild {
+            .push_back(XmlElementChild {
                 id: child_id,
                 tag: tag.to_string(),
             });
@@ -761,7 +759,7 @@ impl XmlElement {
                 },
             );
         } else {
-            children.push(XmlElementChild {
+            children.push_back(XmlElementChild {
                 id: child_id,
                 tag: tag.to_string(),
             });
-- 
2.43.0


From 3bf4911a9783cadd4c637b0df3f6156431bd0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:07 +0000
Subject: [PATCH 50/51] fix: the position of a shared text is looked up without
 comparing all texts

---
 .../spreadsheet_2007/services/share_string.rs | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index c209ee6..836d1a5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -16,6 +16,8 @@ pub struct ShareStringPart {
     xml_document: Weak<RefCell<XmlDocument>>,
     /// Text of every record, None when the record is more than a plain text
     share_string_collection: Vec<Option<String>>,
+    /// First position of every plain text
+    share_string_position: HashMap<String, usize>,
     /// Number of records already in the xml tree, they are never rewritten
     saved_count: usize,
     file_path: String,
@@ -110,10 +112,19 @@ impl XmlDocumentPart for ShareStringPart {
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
         let share_string_collection = Self::load_content_to_database(&mut xml_document)
             .context("Load Share String To DB Failed")?;
+        let mut share_string_position = HashMap::new();
+        for (position, value) in share_string_collection.iter().enumerate() {
+            if let Some(value) = value {
+                share_string_position
+                    .entry(value.to_string())
+                    .or_insert(position);
+            }
+        }
         Ok(Self {
             office_document,
             parent_relationship_part,
             xml_document,
+            share_string_position,
             saved_count: share_string_collection.len(),
             share_string_collection,
             file_path: file_name,
@@ -218,15 +229,13 @@ impl ShareStringPart {
 impl ShareStringPart {
     pub(crate) fn get_string_id_mut(&mut self, value: String) -> AnyResult<String, AnyError> {
         Ok(
-            if let Some(position) = self
-                .share_string_collection
-                .iter()
-                .position(|predicate| predicate.as_ref() == Some(&value))
-            {
+            if let Some(position) = self.share_string_position.get(&value) {
                 position.to_string()
             } else {
+                let position = self.share_string_collection.len();
+                self.share_string_position.insert(value.to_string(), position);
                 self.share_string_collection.push(Some(value));
-                (self.share_string_collection.len() - 1).to_string()
+                position.to_string()
             },
         )
     }
-- 
2.43.0


From e639527f4618716d922e0a8b62c07df25c892cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 51/51] fix: records of the style table are addressed beyond
 65535

---
 .../spreadsheet_2007/models/style.rs           | 10 +++++-----
 .../spreadsheet_2007/services/style.rs         | 18 +++++++++---------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index b566931..8ede791 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -416,11 +416,11 @@ impl Default for FontStyle {
 }
 #[derive(Debug, Clone, Hash, Deserialize, Serialize)]
 pub(crate) struct CellXfs {
-    pub(crate) format_id: u16,
-    pub(crate) number_format_id: u16,
-    pub(crate) font_id: u16,
-    pub(crate) fill_id: u16,
-    pub(crate) border_id: u16,
+    pub(crate) format_id: u32,
+    pub(crate) number_format_id: u32,
+    pub(crate) font_id: u32,
+    pub(crate) fill_id: u32,
+    pub(crate) border_id: u32,
     pub(crate) apply_font: u8,
     pub(crate) apply_alignment: u8,
     pub(crate) apply_fill: u8,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index c2b0d65..d4ef482 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1086,7 +1086,7 @@ impl StylePart {
                         format_id
                     };
                     cell_style.number_format_id =
-                        u16::try_from(format_id).context("Number format id out of range")?;
+                        u32::try_from(format_id).context("Number format id out of range")?;
                 } else {
                     return Err(anyhow!(
                         "Custom Format Type is used without providing custom number format."
@@ -1119,13 +1119,13 @@ impl StylePart {
                     .iter()
                     .position(|(hash, _)| *hash == current_hash)
                 {
-                    cell_style.font_id = position as u16;
+                    cell_style.font_id = position as u32;
                     if position > 0 {
                         cell_style.apply_font = 1;
                     }
                 } else {
                     self.font_collection.push((current_hash, font_style));
-                    cell_style.font_id = (self.font_collection.len() - 1) as u16;
+                    cell_style.font_id = (self.font_collection.len() - 1) as u32;
                     cell_style.apply_font = 1;
                 }
             }
@@ -1168,13 +1168,13 @@ impl StylePart {
                     .iter()
                     .position(|(hash, _)| *hash == current_hash)
                 {
-                    cell_style.fill_id = position as u16;
+                    cell_style.fill_id = position as u32;
                     if position > 0 {
                         cell_style.apply_fill = 1;
                     }
                 } else {
                     self.fill_collection.push((current_hash, fill_style));
-                    cell_style.fill_id = (self.fill_collection.len() - 1) as u16;
+                    cell_style.fill_id = (self.fill_collection.len() - 1) as u32;
                     cell_style.apply_fill = 1;
                 }
             }
@@ -1196,13 +1196,13 @@ impl StylePart {
                     .iter()
                     .position(|(hash, _)| *hash == current_hash)
                 {
-                    cell_style.border_id = position as u16;
+                    cell_style.border_id = position as u32;
                     if position > 0 {
                         cell_style.apply_border = 1;
                     }
                 } else {
                     self.border_collection.push((current_hash, border_style));
-                    cell_style.border_id = (self.border_collection.len() - 1) as u16;
+                    cell_style.border_id = (self.border_collection.len() - 1) as u32;
                     cell_style.apply_border = 1;
                 }
             }
@@ -1228,11 +1228,11 @@ impl StylePart {
                     .iter()
                     .position(|(hash, _)| *hash == current_hash)
                 {
-                    cell_style.format_id = position as u16;
+                    cell_style.format_id = position as u32;
                 } else {
                     self.cell_style_xfs_collection
                         .push((current_hash, cell_style_xfs));
-                    cell_style.format_id = (self.cell_style_xfs_collection.len() - 1) as u16;
+                    cell_style.format_id = (self.cell_style_xfs_collection.len() - 1) as u32;
                 }
             }
             // Get Cell xfs
-- 
2.43.0

