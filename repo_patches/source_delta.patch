From 7ee0f84d9f4102b1c3f7b2de2a68a8cc57bb9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 01/49] fix: open parts whose root element is self-closing

---
 rs/src/files/xml/xml_serialize.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index d3c8ede..964e229 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -75,11 +75,21 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
-                    xml_document
-                        .append_child_mut(&tag, Some(&active_xml_element_id))
-                        .context("Insert XML Child Failed.")?
-                        .set_attribute_mut(attributes)
-                        .context("Parser Attribute Validation Failed")?;
+                    if root_loaded {
+                        xml_document
+                            .append_child_mut(&tag, Some(&active_xml_element_id))
+                            .context("Insert XML Child Failed.")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                    } else {
+                        // The root element itself can be self-closing
+                        xml_document
+                            .create_root_mut(&tag)
+                            .context("Create XML Root Element Failed")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                        root_loaded = true;
+                    }
                 }
 
                 // Read text content
-- 
2.43.0


From 2e4bae29967f2eb105cb9548501e535d4f43c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 02/49] fix: deleting a part also drops its open document, so
 it is neither saved nor blocks reopening

---
 rs/src/files/office_document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 85c2dbb..7196a95 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -54,6 +54,8 @@ impl OfficeDocument {
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
         self.archive_collection.remove(file_name);
+        // The part may still be open
+        self.xml_document_collection.remove(file_name);
     }
 
     pub(crate) fn get_xml_document_ref(
-- 
2.43.0


From b4370d1ce2f1bce79a3582cb80e960cb747f6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 03/49] fix: resolve relationship targets relative to their
 source part, also when deleting them

---
 rs/src/global/global_2007/parts/relations.rs | 57 +++++++++++---------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index dfc4258..cb8a8ae 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -138,6 +138,24 @@ impl RelationsPart {
         }
     }
 
+    /// Package path of a relationship target
+    fn get_target_path(&self, target: &str) -> AnyResult<String, AnyError> {
+        let path = if let Some(absolute_path) = target.strip_prefix("/") {
+            absolute_path.to_string()
+        } else {
+            format!("{}{}", self.get_relative_path()?, target)
+        };
+        let mut segments: Vec<&str> = Vec::new();
+        for segment in path.split("/") {
+            if segment == ".." {
+                segments.pop();
+            } else if segment != "." {
+                segments.push(segment);
+            }
+        }
+        Ok(segments.join("/"))
+    }
+
     pub(crate) fn get_target_by_id(
         &self,
         relationship_id: &str,
@@ -147,15 +165,10 @@ impl RelationsPart {
             .iter()
             .find(|item| item.0 == relationship_id)
         {
-            let file_path = record.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(Some(file_path.strip_prefix("/").unwrap().to_string()))
-            } else {
-                Ok(Some(format!("{}{}", relative_path, file_path)))
-            }
+            Ok(Some(
+                self.get_target_path(&record.1)
+                    .context("Get Relative Path for Part File")?,
+            ))
         } else {
             Ok(None)
         }
@@ -175,15 +188,8 @@ impl RelationsPart {
             .iter()
             .find(|item| item.2 == content_type)
         {
-            let file_path = relationship.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(file_path.strip_prefix("/").unwrap().to_string())
-            } else {
-                Ok(format!("{}{}", relative_path, file_path))
-            }
+            self.get_target_path(&relationship.1)
+                .context("Get Relative Path for Part File")
         } else {
             self.set_new_relationship_mut(content, file_path.clone(), file_name.clone())
                 .context("Setting New Theme Relationship Failed.")?;
@@ -272,13 +278,16 @@ impl RelationsPart {
 
     /// Delete the target file path
     pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) {
+        let file_path = file_path.strip_prefix("/").unwrap_or(file_path);
+        let target_paths = self
+            .relationships
+            .iter()
+            .map(|item| self.get_target_path(&item.1).unwrap_or_default())
+            .collect::<Vec<String>>();
+        let mut index = 0;
         self.relationships.retain(|item| {
-            item.1
-                != if file_path.starts_with("/") {
-                    file_path.to_string()
-                } else {
-                    format!("/{}", file_path)
-                }
+            index += 1;
+            item.3.as_deref() == Some("External") || target_paths[index - 1] != file_path
         })
     }
 }
-- 
2.43.0


From 2176e75ceab996756b2d776a53beeccea0900b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 04/49] fix: unescape attribute values when reading and keep
 their white space when writing

---
 rs/src/files/xml/xml_deserialize.rs | 26 ++++++++++++++++++++++----
 rs/src/files/xml/xml_serialize.rs   |  5 ++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 3b6c24a..5f32b35 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -131,9 +131,9 @@ impl XmlDeSerializer {
                             .iter()
                             .map(|(key, value)| {
                                 if key == "<Default>" {
-                                    format!("xmlns=\"{}\"", value)
+                                    format!("xmlns=\"{}\"", Self::escape_attribute(value))
                                 } else {
-                                    format!("xmlns:{}=\"{}\"", key, value)
+                                    format!("xmlns:{}=\"{}\"", key, Self::escape_attribute(value))
                                 }
                             })
                             .collect::<Vec<String>>()
@@ -150,7 +150,13 @@ impl XmlDeSerializer {
                 format!(
                     " {}",
                     keys.iter()
-                        .map(|key| format!("{}=\"{}\"", key, escape(attributes.get(key).unwrap())))
+                        .map(|key| {
+                            format!(
+                                "{}=\"{}\"",
+                                key,
+                                Self::escape_attribute(attributes.get(key).unwrap())
+                            )
+                        })
                         .collect::<Vec<String>>()
                         .join(" ")
                 )
@@ -166,6 +172,18 @@ impl XmlDeSerializer {
     }
 
     fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
-        format!("{}</{}>", escape(value), xml_element.get_tag())
+        format!("{}</{}>", Self::escape_text(value), xml_element.get_tag())
+    }
+
+    /// Carriage return has to be written as reference, readers turn it to line feed otherwise
+    fn escape_text(value: &str) -> String {
+        escape(value).replace('\r', "&#13;")
+    }
+
+    /// White space other than blank has to be written as reference, readers turn it to blank otherwise
+    fn escape_attribute(value: &str) -> String {
+        Self::escape_text(value)
+            .replace('\n', "&#10;")
+            .replace('\t', "&#9;")
     }
 }
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 964e229..ab088ee 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -135,7 +135,10 @@ impl XmlSerializer {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
                 let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = String::from_utf8_lossy(&attribute.value).to_string();
+                let value: String = attribute
+                    .unescape_value()
+                    .context("Failed to unescape attribute value")?
+                    .to_string();
                 Ok((key, value))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
-- 
2.43.0


From d5c019c1e65eba2c7ee15f46372a6ff58327d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 05/49] fix: namespace declarations of nested elements stay on
 their element

---
 rs/src/files/xml/xml_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c23d203..c255748 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -492,10 +492,11 @@ impl XmlElement {
         {
             return Err(anyhow!("Not All the attribute satisfy naming standards"));
         }
+        // Only the root's declarations are shared, a nested element keeps its own
         let ns_keys = keys
             .iter()
             .map(|item| item.to_string())
-            .filter(|item| item.starts_with("xmlns"))
+            .filter(|item| self.id == 0 && (item == "xmlns" || item.starts_with("xmlns:")))
             .clone()
             .collect::<Vec<String>>();
         if !ns_keys.is_empty() {
-- 
2.43.0


From c2b6ae54969703dda475ff02127e76aad8e55f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 06/49] fix: keep white space, split text and CDATA when
 reading a part, refuse truncated parts

---
 rs/src/files/xml/xml_deserialize.rs | 27 +++++++++----
 rs/src/files/xml/xml_serialize.rs   | 61 +++++++++++++++++++++++++----
 rs/src/files/xml/xml_tree.rs        |  5 +++
 3 files changed, 79 insertions(+), 14 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 5f32b35..b122f7c 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -51,9 +51,14 @@ impl XmlDeSerializer {
                 master_string.push_str(Self::generate_xml_element(xml_root, true, true).as_str());
             } else {
                 master_string.push_str(Self::generate_xml_element(xml_root, false, true).as_str());
-                if let Some(value) = xml_root.get_value() {
+                if xml_root.get_child_count() == 0 {
+                    let value = xml_root.get_value().as_deref().unwrap_or("");
                     master_string.push_str(&Self::generate_xml_value_close(value, xml_root));
                 } else {
+                    // Text next to child elements
+                    if let Some(value) = xml_root.get_value() {
+                        master_string.push_str(&Self::escape_text(value));
+                    }
                     let mut parent_id = 0;
                     loop {
                         current_count += 1;
@@ -75,12 +80,20 @@ impl XmlDeSerializer {
                                             Self::generate_xml_element(element, false, false)
                                                 .as_str(),
                                         );
-                                        if let Some(value) = element.get_value() {
-                                            master_string.push_str(
-                                                &Self::generate_xml_value_close(value, element),
-                                            );
-                                        } else {
-                                            parent_id = current_id
+                                        match element.get_value() {
+                                            Some(value) if element.get_child_count() == 0 => {
+                                                master_string.push_str(
+                                                    &Self::generate_xml_value_close(value, element),
+                                                );
+                                            }
+                                            value => {
+                                                // Text next to child elements
+                                                if let Some(value) = value {
+                                                    master_string
+                                                        .push_str(&Self::escape_text(value));
+                                                }
+                                                parent_id = current_id
+                                            }
                                         }
                                     }
                                 } else {
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index ab088ee..c67942e 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -20,7 +20,6 @@ impl XmlSerializer {
     ) -> AnyResult<XmlDocument, AnyError> {
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
-        reader.config_mut().trim_text(true);
         log_elapsed!(
             || {
                 Self::xml_element_parser(&mut reader, &mut xml_document)
@@ -37,6 +36,7 @@ impl XmlSerializer {
     ) -> AnyResult<(), AnyError> {
         let mut temp_buffer: Vec<u8> = Vec::new();
         let mut root_loaded = false;
+        let mut open_elements: usize = 0;
         let mut active_xml_element_id: usize = 0;
         loop {
             match reader.read_event_into(&mut temp_buffer) {
@@ -49,8 +49,12 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
+                    open_elements += 1;
                     // Update tree structure
                     if root_loaded {
+                        if open_elements == 1 {
+                            break Err(anyhow!("More than one root element found"));
+                        }
                         // Add child to parent
                         active_xml_element_id = xml_document
                             .append_child_mut(&tag, Some(&active_xml_element_id))
@@ -76,6 +80,9 @@ impl XmlSerializer {
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
                     if root_loaded {
+                        if open_elements == 0 {
+                            break Err(anyhow!("More than one root element found"));
+                        }
                         xml_document
                             .append_child_mut(&tag, Some(&active_xml_element_id))
                             .context("Insert XML Child Failed.")?
@@ -95,11 +102,21 @@ impl XmlSerializer {
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
                     let text = byte_text.unescape().context("XML Text parsing error")?;
-                    xml_document
-                        .get_element_mut(&active_xml_element_id)
-                        .ok_or(anyhow!("Converting Option to Result Failed"))
-                        .context("Getting Target Element Failed")?
-                        .set_value_mut(text.to_string());
+                    if open_elements > 0 {
+                        Self::append_text(xml_document, &active_xml_element_id, &text)?;
+                    } else if !text.trim().is_empty() {
+                        break Err(anyhow!("Text found outside of the root element"));
+                    }
+                }
+
+                // Read text content that is not escaped
+                Result::Ok(Event::CData(byte_text)) => {
+                    let text = String::from_utf8_lossy(&byte_text).to_string();
+                    if open_elements > 0 {
+                        Self::append_text(xml_document, &active_xml_element_id, &text)?;
+                    } else {
+                        break Err(anyhow!("Text found outside of the root element"));
+                    }
                 }
 
                 // Handle end tag
@@ -112,6 +129,16 @@ impl XmlSerializer {
                         .ok_or(anyhow!("Converting Option to Result Failed"))
                         .context("Getting Target Element Failed")?;
                     if element.get_tag() == tag {
+                        // White space between the child elements is only formatting
+                        if element.get_child_count() > 0
+                            && element
+                                .get_value()
+                                .as_ref()
+                                .is_some_and(|value| value.trim().is_empty())
+                        {
+                            element.clear_value_mut();
+                        }
+                        open_elements -= 1;
                         active_xml_element_id = element.get_parent_id()
                     } else {
                         break Err(anyhow!("Invalid XML Tree Parsing Failed."));
@@ -119,7 +146,12 @@ impl XmlSerializer {
                 }
 
                 // End of file
-                Result::Ok(Event::Eof) => break Ok(()),
+                Result::Ok(Event::Eof) => {
+                    if !root_loaded || open_elements > 0 {
+                        break Err(anyhow!("XML content ended unexpectedly"));
+                    }
+                    break Ok(());
+                }
 
                 // Default case for other events
                 _ => {}
@@ -128,6 +160,21 @@ impl XmlSerializer {
         }
     }
 
+    /// Text of an element can arrive in several pieces
+    fn append_text(
+        xml_document: &mut XmlDocument,
+        element_id: &usize,
+        text: &str,
+    ) -> AnyResult<(), AnyError> {
+        let element = xml_document
+            .get_element_mut(element_id)
+            .ok_or(anyhow!("Converting Option to Result Failed"))
+            .context("Getting Target Element Failed")?;
+        let value = format!("{}{}", element.get_value().as_deref().unwrap_or(""), text);
+        element.set_value_mut(value);
+        Ok(())
+    }
+
     fn get_attributes_string(element: BytesStart) -> AnyResult<HashMap<String, String>, AnyError> {
         element
             .attributes()
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c255748..7db5da5 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -534,6 +534,11 @@ impl XmlElement {
         self
     }
 
+    pub(crate) fn clear_value_mut(&mut self) -> &mut Self {
+        self.value = None;
+        self
+    }
+
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
         self.children
             .try_borrow_mut()
-- 
2.43.0


From 1661d9ad6e5caa69a0620fb7fd3f1bda509f1996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 07/49] fix: refuse text that is no cell reference and
 positions outside of the sheet

---
 .../spreadsheet_2007/parts/worksheet.rs       |  6 +++
 rs/src/utils/converters.rs                    | 42 +++++++++++++++----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0836483..894e99e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1149,6 +1149,8 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::validate_position(1, *col_index, 1)
+            .context("Failed to set column property")?;
         if let Some(column_collection) = self.column_collection.as_mut() {
             let mut new_ranges = VecDeque::new();
             // Delete Old Record
@@ -1194,6 +1196,8 @@ impl WorkSheet {
         row_index: &u32,
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::validate_position(*row_index, 1, 1)
+            .context("Failed to set row property")?;
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             if let Some(row) = sheet_data.get_mut(row_index) {
                 row.row_record = row_properties;
@@ -1238,6 +1242,8 @@ impl WorkSheet {
         mut col_index: u16,
         mut column_cell: Vec<CellProperties>,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::validate_position(row_index, col_index, column_cell.len())
+            .context("Failed to set row value")?;
         // Map Start Normalization
         col_index -= 1;
         for cell_data in column_cell.iter_mut() {
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 57a2509..bf76513 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -1,12 +1,21 @@
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
 
+/// Last row of a sheet
+pub(crate) const MAX_ROW: u32 = 1048576;
+/// Last column of a sheet
+pub(crate) const MAX_COLUMN: u16 = 16384;
+
 pub struct ConverterUtil;
 
 impl ConverterUtil {
     /// Return int Id of the column
     pub fn get_column_index(cell_ref: &str) -> AnyResult<u16, AnyError> {
-        let column_part: String = cell_ref.chars().take_while(|c| c.is_alphabetic()).collect();
-        if column_part.is_empty() {
+        let column_part: String = cell_ref
+            .chars()
+            .take_while(|c| c.is_ascii_alphabetic())
+            .collect();
+        // Last column of a sheet is XFD
+        if column_part.is_empty() || column_part.len() > 3 {
             return Err(anyhow!("Failed to Convert to Column Key Id"));
         }
         let mut index = 0;
@@ -14,6 +23,9 @@ impl ConverterUtil {
             let char_value = c.to_ascii_uppercase() as u16 - 'A' as u16 + 1;
             index += char_value * 26_usize.pow(i as u32) as u16;
         }
+        if index > MAX_COLUMN {
+            return Err(anyhow!("Column is outside of the sheet"));
+        }
         Ok(index)
     }
     /// Return String ref of the column
@@ -65,12 +77,26 @@ impl ConverterUtil {
         }
     }
 
+    /// Validate that the run of cells starting at the position is inside the sheet
+    pub(crate) fn validate_position(
+        row_index: u32,
+        col_index: u16,
+        cell_count: usize,
+    ) -> AnyResult<(), AnyError> {
+        if row_index < 1 || row_index > MAX_ROW {
+            return Err(anyhow!("Row {} is outside of the sheet", row_index));
+        }
+        if col_index < 1 || col_index as usize + cell_count.max(1) - 1 > MAX_COLUMN as usize {
+            return Err(anyhow!("Column {} is outside of the sheet", col_index));
+        }
+        Ok(())
+    }
+
     fn extract_digits(input: &str) -> AnyResult<u32> {
-        input
-            .chars()
-            .filter(|c| c.is_digit(10))
-            .collect::<String>()
-            .parse()
-            .context("Failed to Extract Digits")
+        let digits = input.trim_start_matches(|c: char| c.is_ascii_alphabetic());
+        if !digits.chars().all(|c| c.is_ascii_digit()) {
+            return Err(anyhow!("Cell reference has to be letters followed by digits"));
+        }
+        digits.parse().context("Failed to Extract Digits")
     }
 }
-- 
2.43.0


From 97be345866902b94916fd2e450d1423a90fcea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 08/49] fix: dimension of a sheet whose rows have no cell

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 894e99e..d45e3f1 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -314,6 +314,10 @@ impl WorkSheet {
         }
         if let Some(sheet_data) = self.sheet_data.as_ref() {
             if let Some(first_item) = sheet_data.first_key_value() {
+                if self.dimension.start_col > self.dimension.end_col {
+                    // There are rows but none of them has a cell
+                    return set_default(xml_doc_mut);
+                }
                 let mut dimension_attribute = HashMap::new();
                 dimension_attribute.insert(
                     "ref".to_string(),
-- 
2.43.0


From 1f32611c8193ec7bfb56218cb7e274c97368a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 09/49] fix: text such as nan, inf or 1e999 is no number

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index d45e3f1..15a1d9a 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1254,7 +1254,7 @@ impl WorkSheet {
             if let Some(cell_value) = cell_data.value.as_ref() {
                 match cell_data.data_type {
                     CellDataType::Auto => {
-                        if cell_value.parse::<f64>().is_ok() {
+                        if cell_value.parse::<f64>().is_ok_and(|v| v.is_finite()) {
                             cell_data.data_type = CellDataType::Number;
                         } else if cell_value.parse::<bool>().is_ok() {
                             cell_data.data_type = CellDataType::Boolean;
-- 
2.43.0


From 3563490d12a39ba35dc21f2bff5e08af9fa3eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 10/49] fix: column properties apply to new sheets, keep both
 sides of a split range and stay sorted

---
 .../spreadsheet_2007/models/worksheet.rs      |  2 +-
 .../spreadsheet_2007/parts/worksheet.rs       | 20 +++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index c6a521f..f83f594 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -55,7 +55,7 @@ pub struct RowProperties {
     pub(crate) span: Option<String>,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ColumnProperties {
     // Start Column index
     pub(crate) min: u16,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 15a1d9a..b722f62 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -368,11 +368,15 @@ impl WorkSheet {
                         if let Some(style_id) = item.style_id {
                             attribute.insert("style".to_string(), style_id.id.to_string());
                         }
-                        if let Some(_) = item.hidden {
-                            attribute.insert("hidden".to_string(), "1".to_string());
+                        if let Some(hidden) = item.hidden {
+                            attribute
+                                .insert("hidden".to_string(), ConverterUtil::bool_xml_flag(&hidden));
                         }
-                        if let Some(_) = item.best_fit {
-                            attribute.insert("bestFit".to_string(), "1".to_string());
+                        if let Some(best_fit) = item.best_fit {
+                            attribute.insert(
+                                "bestFit".to_string(),
+                                ConverterUtil::bool_xml_flag(&best_fit),
+                            );
                         }
                         xml_doc_mut
                             .append_child_mut("col", Some(&cols_id))
@@ -1155,7 +1159,8 @@ impl WorkSheet {
     ) -> AnyResult<(), AnyError> {
         ConverterUtil::validate_position(1, *col_index, 1)
             .context("Failed to set column property")?;
-        if let Some(column_collection) = self.column_collection.as_mut() {
+        {
+            let column_collection = self.column_collection.get_or_insert_with(VecDeque::new);
             let mut new_ranges = VecDeque::new();
             // Delete Old Record
             column_collection.retain_mut(|range| {
@@ -1175,7 +1180,7 @@ impl WorkSheet {
                         new_ranges.push_back(ColumnProperties {
                             min: col_index + 1,
                             max: range.max,
-                            ..ColumnProperties::default()
+                            ..range.clone()
                         });
                         range.max = col_index - 1;
                     }
@@ -1190,6 +1195,9 @@ impl WorkSheet {
                 });
             }
             column_collection.append(&mut new_ranges);
+            column_collection
+                .make_contiguous()
+                .sort_by_key(|range| range.min);
         }
         Ok(())
     }
-- 
2.43.0


From 81b143ee701f3202e3951c5909c2e7c70340243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 11/49] fix: row flags set to false are not written as true

---
 .../spreadsheet_2007/parts/worksheet.rs       | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index b722f62..ee41d3b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -527,8 +527,11 @@ impl WorkSheet {
                     row_attribute.insert("customHeight".to_string(), "1".to_string());
                     row_attribute.insert("ht".to_string(), row_height.to_string());
                 }
-                if let Some(_) = db_row.row_record.hidden {
-                    row_attribute.insert("hidden".to_string(), "1".to_string());
+                if let Some(hidden) = db_row.row_record.hidden {
+                    row_attribute.insert(
+                        "hidden".to_string(),
+                        ConverterUtil::bool_xml_flag(&hidden),
+                    );
                 }
                 if let Some(row_group_level) = db_row.row_record.group_level {
                     row_attribute.insert("outlineLevel".to_string(), row_group_level.to_string());
@@ -536,11 +539,17 @@ impl WorkSheet {
                 if let Some(_) = db_row.row_record.collapsed {
                     row_attribute.insert("collapsed".to_string(), "1".to_string());
                 }
-                if let Some(_) = db_row.row_record.thick_top {
-                    row_attribute.insert("thickTop".to_string(), "1".to_string());
+                if let Some(thick_top) = db_row.row_record.thick_top {
+                    row_attribute.insert(
+                        "thickTop".to_string(),
+                        ConverterUtil::bool_xml_flag(&thick_top),
+                    );
                 }
-                if let Some(_) = db_row.row_record.thick_bottom {
-                    row_attribute.insert("thickBot".to_string(), "1".to_string());
+                if let Some(thick_bottom) = db_row.row_record.thick_bottom {
+                    row_attribute.insert(
+                        "thickBot".to_string(),
+                        ConverterUtil::bool_xml_flag(&thick_bottom),
+                    );
                 }
                 if let Some(_) = db_row.row_record.place_holder {
                     row_attribute.insert("ph".to_string(), "1".to_string());
-- 
2.43.0


From 7162cfe5178ce67292c954e49ba66912b5c4ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 12/49] fix: rows and columns of an opened sheet keep
 attributes that are not modelled, cells without reference are read

---
 .../spreadsheet_2007/models/worksheet.rs      |  6 +++
 .../spreadsheet_2007/parts/worksheet.rs       | 47 ++++++++++++-------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index f83f594..dae83f4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -1,5 +1,6 @@
 use crate::global_2007::{models::HyperlinkProperties, traits::Enum};
 use crate::spreadsheet_2007::models::StyleId;
+use std::collections::HashMap;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum CellDataType {
@@ -53,6 +54,8 @@ pub struct RowProperties {
     pub(crate) collapsed: Option<bool>,
     pub(crate) place_holder: Option<bool>,
     pub(crate) span: Option<String>,
+    // Attributes as found in the source file
+    pub(crate) source_attributes: Option<HashMap<String, String>>,
 }
 
 #[derive(Debug, Clone)]
@@ -73,6 +76,8 @@ pub struct ColumnProperties {
     pub(crate) group_level: usize,
     // Collapse the current column
     pub(crate) collapsed: Option<bool>,
+    // Attributes as found in the source file
+    pub(crate) source_attributes: Option<HashMap<String, String>>,
 }
 
 impl Default for ColumnProperties {
@@ -84,6 +89,7 @@ impl Default for ColumnProperties {
             collapsed: None,
             group_level: 0,
             hidden: None,
+            source_attributes: None,
             style_id: None,
             width: None,
         }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index ee41d3b..e65dfee 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -358,12 +358,14 @@ impl WorkSheet {
                     .get_id();
                 loop {
                     if let Some(item) = column_collection.pop_front() {
-                        let mut attribute = HashMap::new();
+                        let mut attribute = item.source_attributes.unwrap_or_default();
                         attribute.insert("min".to_string(), item.min.to_string());
                         attribute.insert("max".to_string(), item.max.to_string());
                         if let Some(width) = item.width {
                             attribute.insert("customWidth".to_string(), "1".to_string());
-                            attribute.insert("width".to_string(), width.to_string());
+                            attribute
+                                .entry("width".to_string())
+                                .or_insert(width.to_string());
                         }
                         if let Some(style_id) = item.style_id {
                             attribute.insert("style".to_string(), style_id.id.to_string());
@@ -514,7 +516,7 @@ impl WorkSheet {
                     .append_child_mut("row", Some(&sheet_data_id))
                     .context("Failed to insert row element")?;
                 let row_element_id = row_element.get_id();
-                let mut row_attribute = HashMap::new();
+                let mut row_attribute = db_row.row_record.source_attributes.unwrap_or_default();
                 row_attribute.insert("r".to_string(), row_index.to_string());
                 if let Some(row_span) = db_row.row_record.span {
                     row_attribute.insert("spans".to_string(), row_span);
@@ -525,7 +527,9 @@ impl WorkSheet {
                 }
                 if let Some(row_height) = db_row.row_record.height {
                     row_attribute.insert("customHeight".to_string(), "1".to_string());
-                    row_attribute.insert("ht".to_string(), row_height.to_string());
+                    row_attribute
+                        .entry("ht".to_string())
+                        .or_insert(row_height.to_string());
                 }
                 if let Some(hidden) = db_row.row_record.hidden {
                     row_attribute.insert(
@@ -652,6 +656,7 @@ fn deserialize_cols(
                         let attributes = col
                             .get_attribute()
                             .ok_or(anyhow!("Error Getting col attribute"))?;
+                        column_properties.source_attributes = Some(attributes.clone());
                         if let Some(min) = attributes.get("min") {
                             column_properties.min =
                                 min.parse().context("Failed to parse min value")?;
@@ -854,6 +859,7 @@ fn deserialize_sheet_data(
     if let Some(mut sheet_data_element) = xml_doc_mut.pop_elements_by_tag_mut("sheetData", None) {
         if let Some(sheet_data) = sheet_data_element.pop() {
             let mut sheet_data_collection: BTreeMap<u32, RowData> = BTreeMap::new();
+            let mut last_row_index: u32 = 0;
             // Loop All rows of sheet data
             loop {
                 if let Some((row_element_id, _)) = sheet_data.pop_child_mut() {
@@ -862,12 +868,13 @@ fn deserialize_sheet_data(
                         let row_attribute = row_element
                             .get_attribute()
                             .ok_or(anyhow!("Failed to pull Row Attribute."))?;
-                        // Get Row Id
-                        let row_index = row_attribute
-                            .get("r")
-                            .ok_or(anyhow!("Missing mandatory row id attribute"))?
-                            .parse()
-                            .context("Failed to parse row id")?;
+                        row_record.source_attributes = Some(row_attribute.clone());
+                        // Get Row Id, a row without is next to the one before
+                        let row_index = match row_attribute.get("r") {
+                            Some(row_id) => row_id.parse().context("Failed to parse row id")?,
+                            None => last_row_index + 1,
+                        };
+                        last_row_index = row_index;
                         if let Some(row_span) = row_attribute.get("spans") {
                             row_record.span = Some(row_span.to_string());
                         }
@@ -927,6 +934,7 @@ fn deserialize_sheet_data(
                             };
                         }
                         let mut cell_records: BTreeMap<u16, CellProperties> = BTreeMap::new();
+                        let mut last_col_index: u16 = 0;
                         // Loop All Columns of row
                         loop {
                             let mut cell_record = CellProperties::default();
@@ -937,13 +945,18 @@ fn deserialize_sheet_data(
                                     let cell_attribute = col_element
                                         .get_attribute()
                                         .ok_or(anyhow!("Failed to pull attribute for Column"))?;
-                                    // Get Col Id
-                                    let col_index = ConverterUtil::get_column_index(
-                                        cell_attribute
-                                            .get("r")
-                                            .ok_or(anyhow!("Missing mandatory col id attribute"))?,
-                                    )
-                                    .context("Failed to Convert col worksheet initialize")?;
+                                    // Get Col Id, a cell without is next to the one before
+                                    let col_index = match cell_attribute.get("r") {
+                                        Some(cell_ref) => {
+                                            ConverterUtil::get_column_index(cell_ref).context(
+                                                "Failed to Convert col worksheet initialize",
+                                            )?
+                                        }
+                                        None => last_col_index + 1,
+                                    };
+                                    last_col_index = col_index;
+                                    ConverterUtil::validate_position(row_index, col_index, 1)
+                                        .context("Failed to read cell position")?;
                                     if let Some(style_id) = cell_attribute.get("s") {
                                         cell_record.style_id = Some(StyleId::new(
                                             style_id
-- 
2.43.0


From 123df111b98f9952cd558cc43b6fcf1126fcee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 13/49] fix: cells of an opened sheet keep formula attributes,
 formatted text, extensions and the date type

---
 rs/src/files/xml/xml_tree.rs                  | 19 ++++++++
 .../spreadsheet_2007/models/worksheet.rs      |  7 +++
 .../spreadsheet_2007/parts/worksheet.rs       | 43 ++++++++++++++++++-
 3 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 7db5da5..a661e4c 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -236,6 +236,25 @@ impl XmlDocument {
         }
     }
 
+    /// Move an element that is no longer linked by its old parent below the parent element
+    pub(crate) fn attach_element_mut(
+        &mut self,
+        element_id: &usize,
+        parent_id: &usize,
+    ) -> AnyResult<(), AnyError> {
+        let element = self
+            .xml_element_collection
+            .get_mut(element_id)
+            .ok_or(anyhow!("Element Not Found"))?;
+        element.set_parent_id_mut(*parent_id);
+        let tag = element.get_tag().to_string();
+        self.xml_element_collection
+            .get_mut(parent_id)
+            .ok_or(anyhow!("Parent Element Not Found"))?
+            .append_children_mut(*element_id, &tag)
+            .context("Failed to add Child Relation")
+    }
+
     pub(crate) fn get_first_element_id(
         &self,
         mut element_tree: Vec<&str>,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index dae83f4..0f0b205 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -12,6 +12,8 @@ pub enum CellDataType {
     ShareString,
     InlineString,
     Error,
+    /// ISO 8601 date
+    Date,
 }
 
 impl Enum<CellDataType> for CellDataType {
@@ -22,6 +24,7 @@ impl Enum<CellDataType> for CellDataType {
             CellDataType::ShareString => "s".to_string(),
             CellDataType::InlineString => "inlineStr".to_string(),
             CellDataType::Error => "e".to_string(),
+            CellDataType::Date => "d".to_string(),
             CellDataType::Number => "n".to_string(),
             _ => "a".to_string(),
         }
@@ -34,6 +37,7 @@ impl Enum<CellDataType> for CellDataType {
             "s" => CellDataType::ShareString,
             "inlineStr" => CellDataType::InlineString,
             "e" => CellDataType::Error,
+            "d" => CellDataType::Date,
             _ => CellDataType::Number,
         }
     }
@@ -107,6 +111,8 @@ pub struct CellProperties {
     pub(crate) metadata: Option<String>,
     pub(crate) comment_id: Option<usize>,
     pub(crate) place_holder: Option<bool>,
+    // Child elements kept as found in the source file
+    pub(crate) source_elements: Option<Vec<(usize, String)>>,
 }
 
 impl Default for CellProperties {
@@ -120,6 +126,7 @@ impl Default for CellProperties {
             metadata: None,
             comment_id: None,
             place_holder: None,
+            source_elements: None,
         }
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index e65dfee..33d85d8 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -600,7 +600,17 @@ impl WorkSheet {
                             .set_attribute_mut(cell_attribute)
                             .context("Failed to Set Attribute for cell")?;
                         // Create cell's child element
+                        let mut source_elements = cell_record.source_elements.unwrap_or_default();
+                        // Formula comes before and everything else after the value
+                        source_elements.retain(|(element_id, tag)| {
+                            tag != "f"
+                                || xml_doc_mut
+                                    .attach_element_mut(element_id, &cell_id)
+                                    .is_err()
+                        });
                         match cell_record.data_type {
+                            CellDataType::InlineString
+                                if source_elements.iter().any(|(_, tag)| tag == "is") => {}
                             CellDataType::InlineString => {
                                 let inline_string_id = xml_doc_mut
                                     .append_child_mut("is", Some(&cell_id))
@@ -634,6 +644,11 @@ impl WorkSheet {
                                     });
                             }
                         }
+                        for (element_id, _) in source_elements {
+                            xml_doc_mut
+                                .attach_element_mut(&element_id, &cell_id)
+                                .context("Failed to insert kept cell element")?;
+                        }
                     }
                 }
             }
@@ -851,6 +866,23 @@ fn deserialize_worksheet_views(
     Ok(worksheet_views)
 }
 
+/// Cell content that is kept as element instead of being read
+fn keep_cell_element(xml_doc_mut: &XmlDocument, element_id: &usize) -> bool {
+    if let Some(element) = xml_doc_mut.get_element(element_id) {
+        match element.get_tag() {
+            "v" => false,
+            "f" => element.get_attribute().is_some_and(|a| !a.is_empty()),
+            "is" => !element
+                .get_first_child_id()
+                .and_then(|child_id| xml_doc_mut.get_element(&child_id))
+                .is_some_and(|child| element.get_child_count() == 1 && child.get_tag() == "t"),
+            _ => true,
+        }
+    } else {
+        false
+    }
+}
+
 /// Deserialize Sheet Data
 fn deserialize_sheet_data(
     xml_doc_mut: &mut XmlDocument,
@@ -990,9 +1022,18 @@ fn deserialize_sheet_data(
                                         };
                                     };
                                     loop {
-                                        if let Some((cell_child_id, _)) =
+                                        if let Some((cell_child_id, cell_child_tag)) =
                                             col_element.pop_child_mut()
                                         {
+                                            // Formula attributes, formatted text and unknown
+                                            // content have no model, keep the element
+                                            if keep_cell_element(xml_doc_mut, &cell_child_id) {
+                                                cell_record
+                                                    .source_elements
+                                                    .get_or_insert_with(Vec::new)
+                                                    .push((cell_child_id, cell_child_tag));
+                                                continue;
+                                            }
                                             if let Some(element) =
                                                 xml_doc_mut.pop_element_mut(&cell_child_id)
                                             {
-- 
2.43.0


From 9af76a67e4e9276ffa0447fc041475e16914023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 14/49] fix: sheet views of an opened sheet are neither
 duplicated nor stripped of panes and selections

---
 .../spreadsheet_2007/parts/worksheet.rs       | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 33d85d8..e4a47e8 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -54,6 +54,8 @@ pub(crate) struct WorkSheetViewSelection {
 pub(crate) struct WorkSheetView {
     selection_collection: Option<Vec<WorkSheetViewSelection>>,
     workbook_view_id: String,
+    // Element of the view in the source file
+    source_element: Option<usize>,
     default_grid_color: Option<bool>,
     view_right_to_left: Option<bool>,
     show_formula_bar: Option<bool>,
@@ -77,6 +79,7 @@ impl Default for WorkSheetView {
     fn default() -> Self {
         Self {
             workbook_view_id: "0".to_string(),
+            source_element: None,
             selection_collection: None,
             default_grid_color: None,
             view_right_to_left: None,
@@ -400,8 +403,26 @@ impl WorkSheet {
             .context("Failed to Insert Sheet Views Element")?
             .get_id();
         loop {
-            if let Some(sheet_view) = self.sheet_views.view_collection.pop() {
-                let mut attribute: HashMap<String, String> = HashMap::new();
+            if !self.sheet_views.view_collection.is_empty() {
+                let sheet_view = self.sheet_views.view_collection.remove(0);
+                // Content of the view such as panes and selections stays with its element
+                let sheet_view_id = match sheet_view.source_element {
+                    Some(element_id) => {
+                        xml_doc_mut
+                            .attach_element_mut(&element_id, &sheet_views_id)
+                            .context("Failed to insert sheetView record")?;
+                        element_id
+                    }
+                    None => xml_doc_mut
+                        .append_child_mut("sheetView", Some(&sheet_views_id))
+                        .context("Failed to insert sheetView record")?
+                        .get_id(),
+                };
+                let sheet_view_element = xml_doc_mut
+                    .get_element_mut(&sheet_view_id)
+                    .ok_or(anyhow!("Failed to get sheetView record"))?;
+                let mut attribute: HashMap<String, String> =
+                    sheet_view_element.get_attribute().cloned().unwrap_or_default();
                 attribute.insert("workbookViewId".to_string(), sheet_view.workbook_view_id);
                 if let Some(window_protection) = sheet_view.window_protection {
                     attribute.insert(
@@ -493,9 +514,7 @@ impl WorkSheet {
                         zoom_scale_page_layout.to_string(),
                     );
                 }
-                xml_doc_mut
-                    .append_child_mut("sheetView", Some(&sheet_views_id))
-                    .context("Failed to insert sheetView record")?
+                sheet_view_element
                     .set_attribute_mut(attribute)
                     .context("Failed to Add Attribute to sheetView element")?;
             } else {
@@ -731,6 +750,8 @@ fn deserialize_worksheet_views(
     if let Some(mut sheet_views_elements) = xml_doc_mut.pop_elements_by_tag_mut("sheetViews", None)
     {
         if let Some(sheet_views_element) = sheet_views_elements.pop() {
+            // The views of the file replace the default view
+            worksheet_views.view_collection.clear();
             loop {
                 if let Some((element_id, element_tag)) = sheet_views_element.pop_child_mut() {
                     // Validate element that are not accounted
@@ -738,9 +759,10 @@ fn deserialize_worksheet_views(
                         return Err(anyhow!("Failed to Process Sheet Views child"));
                     } else {
                         let sheet_view_element = xml_doc_mut
-                            .pop_element_mut(&element_id)
+                            .get_element(&element_id)
                             .context("Failed to get Sheet View Element")?;
                         let mut worksheet_view = WorkSheetView::default();
+                        worksheet_view.source_element = Some(element_id);
                         let attributes = sheet_view_element
                             .get_attribute()
                             .context("Failed to Get Attributes of Sheet View")?;
-- 
2.43.0


From a71c7214f746f386d5cffaf782a334e462bf5cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 15/49] fix: mark white space around strings as significant

---
 rs/src/files/xml/xml_tree.rs                           | 10 ++++++++++
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs |  2 +-
 .../spreadsheet_2007/services/share_string.rs          |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index a661e4c..31e61f9 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -553,6 +553,16 @@ impl XmlElement {
         self
     }
 
+    /// Set text of a string, white space around it has to be marked as significant
+    pub(crate) fn set_text_mut(&mut self, text: String) -> &mut Self {
+        if text.trim() != text {
+            self.attributes
+                .get_or_insert_with(HashMap::new)
+                .insert("xml:space".to_string(), "preserve".to_string());
+        }
+        self.set_value_mut(text)
+    }
+
     pub(crate) fn clear_value_mut(&mut self) -> &mut Self {
         self.value = None;
         self
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index e4a47e8..7f0dd23 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -638,7 +638,7 @@ impl WorkSheet {
                                 let text_element = xml_doc_mut
                                     .append_child_mut("t", Some(&inline_string_id))
                                     .context("Failed To insert Text Value to inline string")?;
-                                text_element.set_value_mut(
+                                text_element.set_text_mut(
                                     if let Some(value) = cell_record.value {
                                         value
                                     } else {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 2438b36..126a4fc 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -67,7 +67,7 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                 xml_doc_mut
                                     .append_child_mut("t", Some(&parent_id))
                                     .context("Creating Share String Child Failed")?
-                                    .set_value_mut(string);
+                                    .set_text_mut(string);
                             }
                         }
                         office_doc_ref
-- 
2.43.0


From 91849f82bc312a1c9b7bf3253d7a206eab09feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 16/49] fix: shared strings of an opened file keep their
 position and formatting

---
 rs/src/files/xml/xml_tree.rs                  |  2 +-
 .../spreadsheet_2007/services/share_string.rs | 49 ++++++++++++-------
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 31e61f9..7cbf3cd 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -64,7 +64,7 @@ impl XmlDocument {
         element_ids
     }
 
-    fn get_element_ids_by_tag(
+    pub(crate) fn get_element_ids_by_tag(
         &self,
         filter_tag: &str,
         parent_id: Option<&usize>,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 126a4fc..f1e17eb 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -18,7 +18,10 @@ pub struct ShareStringPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
     xml_document: Weak<RefCell<XmlDocument>>,
-    share_string_collection: Vec<String>,
+    /// Text of each string, a formatted string has none to match
+    share_string_collection: Vec<Option<String>>,
+    /// Number of strings found in the source file
+    source_count: usize,
     file_path: String,
 }
 
@@ -52,14 +55,19 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                         "uniqueCount".to_string(),
                                         self.share_string_collection
                                             .iter()
-                                            .map(|s| s.to_string())
-                                            .collect::<HashSet<String>>()
+                                            .collect::<HashSet<&Option<String>>>()
                                             .len()
                                             .to_string(),
                                     );
                                 }
                             }
-                            for string in self.share_string_collection.to_owned() {
+                            // Strings of the source file are still in place
+                            for string in self
+                                .share_string_collection
+                                .iter()
+                                .skip(self.source_count)
+                                .cloned()
+                            {
                                 let parent_id = xml_doc_mut
                                     .append_child_mut("si", None)
                                     .context("Failed to Add Child")?
@@ -67,7 +75,7 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                 xml_doc_mut
                                     .append_child_mut("t", Some(&parent_id))
                                     .context("Creating Share String Child Failed")?
-                                    .set_text_mut(string);
+                                    .set_text_mut(string.unwrap_or_default());
                             }
                         }
                         office_doc_ref
@@ -138,6 +146,7 @@ impl XmlDocumentPart for ShareStringPart {
             office_document,
             parent_relationship_part,
             xml_document,
+            source_count: share_string_collection.len(),
             share_string_collection,
             file_path: file_name,
         })
@@ -167,20 +176,22 @@ impl ShareStringPart {
 
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<String>, AnyError> {
+    ) -> AnyResult<Vec<Option<String>>, AnyError> {
         let mut share_string_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
-                for element in elements {
-                    if let Some((child_id, _)) = element.pop_child_mut() {
-                        if let Some(text_element) = xml_doc_mut.pop_element_mut(&child_id) {
-                            let value = text_element.get_value().clone().unwrap_or("".to_string());
-                            share_string_collection.push(value);
-                        }
-                    }
+            let xml_doc = xml_document.try_borrow().context("xml doc borrow failed")?;
+            if let Some(element_ids) = xml_doc.get_element_ids_by_tag("si", None) {
+                for element_id in element_ids {
+                    // Only plain text can be shared with new cells
+                    share_string_collection.push(
+                        xml_doc
+                            .get_element(&element_id)
+                            .filter(|element| element.get_child_count() == 1)
+                            .and_then(|element| element.get_first_child_id())
+                            .and_then(|child_id| xml_doc.get_element(&child_id))
+                            .filter(|child| child.get_tag() == "t")
+                            .map(|child| child.get_value().clone().unwrap_or_default()),
+                    );
                 }
             }
         }
@@ -194,11 +205,11 @@ impl ShareStringPart {
             if let Some(position) = self
                 .share_string_collection
                 .iter()
-                .position(|predicate| predicate == &value)
+                .position(|predicate| predicate.as_ref() == Some(&value))
             {
                 position.to_string()
             } else {
-                self.share_string_collection.push(value);
+                self.share_string_collection.push(Some(value));
                 (self.share_string_collection.len() - 1).to_string()
             },
         )
-- 
2.43.0


From f51133a37a9e278bd7e5cc78b425157c634c4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 17/49] fix: count of unique shared strings matches the strings
 in the file

---
 .../spreadsheet_2007/services/share_string.rs        | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index f1e17eb..2425db4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -7,11 +7,7 @@ use crate::{
     global_2007::traits::XmlDocumentPart,
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
-use std::{
-    cell::RefCell,
-    collections::{HashMap, HashSet},
-    rc::Weak,
-};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
 
 #[derive(Debug)]
 pub struct ShareStringPart {
@@ -53,11 +49,7 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                     );
                                     attributes.insert(
                                         "uniqueCount".to_string(),
-                                        self.share_string_collection
-                                            .iter()
-                                            .collect::<HashSet<&Option<String>>>()
-                                            .len()
-                                            .to_string(),
+                                        self.share_string_collection.len().to_string(),
                                     );
                                 }
                             }
-- 
2.43.0


From a51043a6567f7e371cbd0f308f117a98471c9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 18/49] fix: calculation chain keeps its content and is dropped
 once it no longer matches the formulas

---
 .../spreadsheet_2007/parts/worksheet.rs       | 32 +++++++++++
 .../services/calculation_chain.rs             | 55 +++++++------------
 .../services/common_service.rs                |  7 +++
 3 files changed, 59 insertions(+), 35 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 7f0dd23..e1dc562 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1376,6 +1376,27 @@ impl WorkSheet {
                 cell_data.data_type = CellDataType::Number;
             }
         }
+        // A replaced formula may be part of the calculation chain
+        let replace_formula = self
+            .sheet_data
+            .as_ref()
+            .and_then(|sheet_data| sheet_data.get(&row_index))
+            .and_then(|row| row.cell_records.as_ref())
+            .is_some_and(|cell_records| {
+                (1..=column_cell.len() as u16).any(|offset| {
+                    cell_records
+                        .get(&(col_index + offset))
+                        .is_some_and(|cell| {
+                            cell.formula.is_some()
+                                || cell.source_elements.as_ref().is_some_and(|elements| {
+                                    elements.iter().any(|(_, tag)| tag == "f")
+                                })
+                        })
+                })
+            });
+        if replace_formula {
+            self.reset_calculation_chain()?;
+        }
         // Load If Sheet Data Exist
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             // Load If Row Exits
@@ -1438,6 +1459,16 @@ impl WorkSheet {
         Ok(())
     }
 
+    fn reset_calculation_chain(&self) -> AnyResult<(), AnyError> {
+        if let Some(common_service) = self.common_service.upgrade() {
+            common_service
+                .try_borrow_mut()
+                .context("Failed to Get Calculation Chain Handle")?
+                .reset_calculation_chain_mut();
+        }
+        Ok(())
+    }
+
     fn update_share_string(&mut self, cell_value: &String) -> AnyResult<String, AnyError> {
         if let Some(common_service) = self.common_service.upgrade() {
             common_service
@@ -1479,6 +1510,7 @@ impl WorkSheet {
                 .context("Failed to Pull XML Handle")?
                 .delete_document_mut(&self.file_path);
         }
+        self.reset_calculation_chain()?;
         self.flush().context("Failed to flush the worksheet")?;
         Ok(())
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index c8aeb8f..068098f 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -13,7 +13,8 @@ use std::{cell::RefCell, collections::HashMap, rc::Weak};
 pub struct CalculationChainPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
-    calculation_collection: Vec<(String, String, Option<String>)>,
+    /// Number of cells in the chain of the source file
+    source_count: usize,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
 }
@@ -32,21 +33,8 @@ impl XmlDocumentPartCommon for CalculationChainPart {
         log_elapsed!(
             || {
                 if let Some(office_doc_ref) = self.office_document.upgrade() {
-                    if self.calculation_collection.len() > 0 {
-                        if let Some(xml_document) = self.xml_document.upgrade() {
-                            let mut xml_doc_mut = xml_document
-                                .try_borrow_mut()
-                                .context("Failed to pull document handle")?;
-                            for (cell_key, sheet_id, _l) in self.calculation_collection.to_owned() {
-                                let mut attributes = HashMap::new();
-                                attributes.insert("r".to_string(), cell_key);
-                                attributes.insert("i".to_string(), sheet_id);
-                                xml_doc_mut
-                                    .append_child_mut("c", None)
-                                    .context("Failed To Add Child Item")?
-                                    .set_attribute_mut(attributes)?;
-                            }
-                        }
+                    // Cells of the source file are still in place
+                    if self.source_count > 0 {
                         office_doc_ref
                             .try_borrow_mut()
                             .context("Failed to Borrow Share Tree")?
@@ -106,12 +94,12 @@ impl XmlDocumentPart for CalculationChainPart {
             .context("Failed to pull calc chain file name")?
             .to_string();
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let calculation_collection = Self::load_content_to_database(&mut xml_document)
+        let source_count = Self::load_content_to_database(&mut xml_document)
             .context("Load Calculation Chain To DB Failed")?;
         Ok(Self {
             office_document,
             parent_relationship_part,
-            calculation_collection,
+            source_count,
             xml_document,
             file_path: file_name,
         })
@@ -140,24 +128,21 @@ impl CalculationChainPart {
     }
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<(String, String, Option<String>)>, AnyError> {
-        let mut calculation_collection = Vec::new();
+    ) -> AnyResult<usize, AnyError> {
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("c", None) {
-                for element in elements {
-                    if let Some(attributes) = element.get_attribute() {
-                        calculation_collection.push((
-                            attributes["r"].clone(),
-                            attributes["i"].clone(),
-                            attributes.get("l").cloned(),
-                        ));
-                    }
-                }
-            }
+            let xml_doc = xml_document.try_borrow().context("xml doc borrow failed")?;
+            Ok(xml_doc
+                .get_element_ids_by_tag("c", None)
+                .map(|element_ids| element_ids.len())
+                .unwrap_or(0))
+        } else {
+            Ok(0)
         }
-        Ok(calculation_collection)
+    }
+
+    /// The formulas changed, so the chain of the source file is dropped and the next application to
+    /// calculate the workbook builds a new one
+    pub(crate) fn reset_mut(&mut self) {
+        self.source_count = 0;
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
index 38bb913..0030c78 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
@@ -36,6 +36,13 @@ impl CommonServices {
     }
 }
 
+// ########################### Calculation Chain ########################
+impl CommonServices {
+    pub(crate) fn reset_calculation_chain_mut(&mut self) {
+        self.calculation_chain.reset_mut()
+    }
+}
+
 // ########################### Share String ########################
 impl CommonServices {
     pub(crate) fn get_string_id_mut(&mut self, value: String) -> AnyResult<String, AnyError> {
-- 
2.43.0


From 91bc2720b3d1b6654e2f31362890f11796981b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 19/49] fix: sheets of an opened workbook keep their id, state
 and other attributes

---
 .../spreadsheet_2007/parts/workbook.rs        | 53 ++++++++++++-------
 .../spreadsheet_2007/parts/worksheet.rs       | 17 ++++--
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 186df49..35ae7b5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -29,11 +29,13 @@ pub struct WorkbookPart {
     common_service: Rc<RefCell<CommonServices>>,
     workbook_relationship_part: Rc<RefCell<RelationsPart>>,
     theme_part: ThemePart,
-    /// This contain the sheet name, relationId, active sheet, hide sheet
-    sheet_collection: Rc<RefCell<Vec<(String, String, bool, bool)>>>,
+    sheet_collection: Rc<RefCell<Vec<SheetRecord>>>,
     workbook_view: Option<WorkbookView>,
 }
 
+/// Sheet name, relationId, active sheet, hide sheet and attributes in the source file
+pub(crate) type SheetRecord = (String, String, bool, bool, HashMap<String, String>);
+
 #[derive(Debug)]
 pub(crate) struct WorkbookView {
     active_tab: Option<String>,
@@ -113,7 +115,11 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     let mut xml_doc_mut = xml_document_mut
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
-                    let mut sheet_count = 1;
+                    let sheet_collection = self
+                        .sheet_collection
+                        .try_borrow()
+                        .context("Failed to pull Sheet Name Collection")?
+                        .clone();
                     if let Some(workbook_view) = &self.workbook_view {
                         // Create and Set BookViews
                         let book_views_id = xml_doc_mut
@@ -189,26 +195,34 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .insert_children_after_tag_mut("sheets", "bookViews", None)
                         .context("Create Sheets Node Failed")?
                         .get_id();
-                    for (sheet_display_name, relationship_id, _, hide) in &self
-                        .sheet_collection
-                        .try_borrow_mut()
-                        .context("Failed to pull Sheet Name Collection")?
-                        .clone()
+                    // Sheets of the source file keep their id
+                    let mut last_sheet_id = sheet_collection
+                        .iter()
+                        .filter_map(|sheet| sheet.4.get("sheetId")?.parse::<u32>().ok())
+                        .max()
+                        .unwrap_or(0);
+                    for (sheet_display_name, relationship_id, _, hide, source_attributes) in
+                        sheet_collection
                     {
                         let sheet = xml_doc_mut
                             .append_child_mut("sheet", Some(&sheets_id))
                             .context("Create Sheet Node Failed")?;
-                        let mut attributes = HashMap::new();
-                        attributes.insert("name".to_string(), sheet_display_name.to_string());
-                        attributes.insert("sheetId".to_string(), sheet_count.to_string());
-                        attributes.insert("r:id".to_string(), relationship_id.to_string());
-                        if *hide {
+                        let mut attributes = source_attributes;
+                        attributes.insert("name".to_string(), sheet_display_name);
+                        attributes.insert("r:id".to_string(), relationship_id);
+                        if !attributes.contains_key("sheetId") {
+                            last_sheet_id += 1;
+                            attributes.insert("sheetId".to_string(), last_sheet_id.to_string());
+                        }
+                        if !hide {
+                            attributes.remove("state");
+                        } else if attributes.get("state").map(String::as_str) != Some("veryHidden")
+                        {
                             attributes.insert("state".to_string(), "hidden".to_string());
                         }
                         sheet
                             .set_attribute_mut(attributes)
                             .context("Sheet Attributes Failed")?;
-                        sheet_count += 1;
                     }
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
@@ -308,7 +322,7 @@ impl XmlDocumentPart for WorkbookPart {
 impl WorkbookPart {
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<(Vec<(String, String, bool, bool)>, Option<WorkbookView>), AnyError> {
+    ) -> AnyResult<(Vec<SheetRecord>, Option<WorkbookView>), AnyError> {
         log_elapsed!(
             || {
                 let mut sheet_collection = Vec::new();
@@ -444,10 +458,11 @@ impl WorkbookPart {
                                                 r_id.to_string(),
                                                 false,
                                                 if let Some(state) = state {
-                                                    state == "hidden"
+                                                    state == "hidden" || state == "veryHidden"
                                                 } else {
                                                     false
                                                 },
+                                                attributes.clone(),
                                             ));
                                         }
                                     }
@@ -495,7 +510,7 @@ impl WorkbookPart {
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .map(|(sheet_name, _, _, _)| sheet_name.to_string())
+            .map(|sheet| sheet.0.to_string())
             .collect::<Vec<String>>())
     }
 }
@@ -534,7 +549,7 @@ impl WorkbookPart {
 
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, active_sheet, _) in self
+        for (current_sheet_name, _, active_sheet, _, _) in self
             .sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
@@ -630,7 +645,7 @@ impl WorkbookPart {
 
     /// Hide sheet on opening the excel
     pub(crate) fn hide_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, _, hide_sheet) in self
+        for (current_sheet_name, _, _, hide_sheet, _) in self
             .sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index e1dc562..b2be876 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -13,6 +13,7 @@ use crate::{
         services::CommonServices,
     },
 };
+use super::workbook::SheetRecord;
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
@@ -121,7 +122,7 @@ pub struct WorkSheet {
     xml_document: Weak<RefCell<XmlDocument>>,
     common_service: Weak<RefCell<CommonServices>>,
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
-    sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+    sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
     dimension: Dimension,
     // sheet_property: Option<_>,
@@ -217,7 +218,7 @@ impl WorkSheet {
     /// Create New object for the group
     pub(crate) fn new(
         office_document: Weak<RefCell<OfficeDocument>>,
-        sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: Weak<RefCell<RelationsPart>>,
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
@@ -1126,7 +1127,7 @@ impl WorkSheet {
     fn get_sheet_file_name(
         sheet_name: Option<String>,
         office_document: &Weak<RefCell<OfficeDocument>>,
-        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: &Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<(String, String), AnyError> {
         let worksheet_content = EXCEL_TYPE_COLLECTION.get("worksheet").unwrap();
@@ -1134,7 +1135,7 @@ impl WorkSheet {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
                 if let Some(sheet_name) = sheet_name.clone() {
                     // If the Sheet name already exist get the path of sheet name
-                    if let Some((_, rel_id, _, _)) = sheet_collection
+                    if let Some((_, rel_id, _, _, _)) = sheet_collection
                         .try_borrow()
                         .context("Failed to Get Sheet Collection")?
                         .iter()
@@ -1203,7 +1204,13 @@ impl WorkSheet {
                 sheet_collection
                     .try_borrow_mut()
                     .context("Failed To pull Sheet Collection Handle")?
-                    .push((sheet_name.clone(), relationship_id, false, false));
+                    .push((
+                        sheet_name.clone(),
+                        relationship_id,
+                        false,
+                        false,
+                        HashMap::new(),
+                    ));
                 return Ok((
                     format!(
                         "{}/{}{}.{}",
-- 
2.43.0


From 0239d66c674014d6d7baf25a753b3eb80fc03069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 20/49] fix: hiding a sheet leaves the other sheets as they are
 and reports an unknown sheet

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 35ae7b5..45dcdd3 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -652,12 +652,11 @@ impl WorkbookPart {
             .iter_mut()
         {
             if current_sheet_name == sheet_name {
-                *hide_sheet = true
-            } else {
-                *hide_sheet = false
+                *hide_sheet = true;
+                return Ok(());
             }
         }
-        Ok(())
+        Err(anyhow!("Sheet to hide not found in the stack"))
     }
 
     pub(crate) fn rename_sheet_name_mut(
-- 
2.43.0


From c83032c76510886ebc8bfd39d1e58ca7dd490fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 21/49] fix: the active sheet is saved, follows its sheet when
 others are deleted, and has to exist

---
 .../spreadsheet_2007/parts/workbook.rs        | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 45dcdd3..8ffece6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -120,6 +120,20 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .try_borrow()
                         .context("Failed to pull Sheet Name Collection")?
                         .clone();
+                    // Tabs are numbered by their position
+                    let active_tab = sheet_collection.iter().position(|sheet| sheet.2);
+                    if let Some(workbook_view) = self.workbook_view.as_mut() {
+                        workbook_view.active_tab = active_tab.map(|position| position.to_string());
+                        workbook_view.first_sheet = workbook_view.first_sheet.take().filter(|tab| {
+                            tab.parse::<usize>()
+                                .is_ok_and(|tab| tab < sheet_collection.len())
+                        });
+                    } else if let Some(position) = active_tab {
+                        self.workbook_view = Some(WorkbookView {
+                            active_tab: Some(position.to_string()),
+                            ..WorkbookView::default()
+                        });
+                    }
                     if let Some(workbook_view) = &self.workbook_view {
                         // Create and Set BookViews
                         let book_views_id = xml_doc_mut
@@ -325,7 +339,7 @@ impl WorkbookPart {
     ) -> AnyResult<(Vec<SheetRecord>, Option<WorkbookView>), AnyError> {
         log_elapsed!(
             || {
-                let mut sheet_collection = Vec::new();
+                let mut sheet_collection: Vec<SheetRecord> = Vec::new();
                 let mut workbook_view = None;
                 if let Some(xml_document) = xml_document.upgrade() {
                     let mut xml_doc_mut = xml_document
@@ -473,6 +487,13 @@ impl WorkbookPart {
                         }
                     }
                 }
+                if let Some(active_sheet) = workbook_view
+                    .as_ref()
+                    .and_then(|view: &WorkbookView| view.active_tab.as_ref()?.parse::<usize>().ok())
+                    .and_then(|position| sheet_collection.get_mut(position))
+                {
+                    active_sheet.2 = true;
+                }
                 Ok((sheet_collection, workbook_view))
             },
             "Load Existing Workbook"
@@ -549,12 +570,14 @@ impl WorkbookPart {
 
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, active_sheet, _, _) in self
+        let mut sheet_collection = self
             .sheet_collection
             .try_borrow_mut()
-            .context("Failed to pull Sheet Collection Handle")?
-            .iter_mut()
-        {
+            .context("Failed to pull Sheet Collection Handle")?;
+        if !sheet_collection.iter().any(|item| item.0 == sheet_name) {
+            return Err(anyhow!("Sheet to activate not found in the stack"));
+        }
+        for (current_sheet_name, _, active_sheet, _, _) in sheet_collection.iter_mut() {
             if current_sheet_name == sheet_name {
                 *active_sheet = true
             } else {
-- 
2.43.0


From c52d1af451e66de227c147386f4f8698814e11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 22/49] fix: sheet tabs of an opened workbook stay visible,
 date grouping does not overwrite the tab ratio

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 8ffece6..0c8deab 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -157,7 +157,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             &workbook_view.auto_filter_date_grouping
                         {
                             attributes.insert(
-                                "tabRatio".to_string(),
+                                "autoFilterDateGrouping".to_string(),
                                 if auto_filter_date_grouping.to_owned() {
                                     "1".to_string()
                                 } else {
@@ -400,7 +400,7 @@ impl WorkbookPart {
                                                 {
                                                     ConverterUtil::normalize_bool_property_u8(
                                                         hide_sheet_tab,
-                                                    ) == 1
+                                                    ) == 0
                                                 } else {
                                                     false
                                                 },
-- 
2.43.0


From 17c9411dcde25f110d7d4be5ccec5096860ef5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 23/49] fix: window position and further views of an opened
 workbook are kept

---
 .../spreadsheet_2007/parts/workbook.rs        | 41 +++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 0c8deab..2fc7e5d 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -47,6 +47,10 @@ pub(crate) struct WorkbookView {
     hide_sheet_tab: bool,
     sheet_tab_ratio: Option<i16>,
     auto_filter_date_grouping: Option<bool>,
+    /// Attributes in the source file
+    source_attributes: HashMap<String, String>,
+    /// Further views in the source file
+    other_views: Vec<HashMap<String, String>>,
 }
 
 impl Default for WorkbookView {
@@ -61,6 +65,8 @@ impl Default for WorkbookView {
             hide_horizontal_scroll: false,
             sheet_tab_ratio: None,
             visibility: None,
+            source_attributes: HashMap::new(),
+            other_views: Vec::new(),
         }
     }
 }
@@ -143,7 +149,9 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         let workbook_view_element = xml_doc_mut
                             .append_child_mut("workbookView", Some(&book_views_id))
                             .context("Failed to create workbook view")?;
-                        let mut attributes: HashMap<String, String> = HashMap::new();
+                        let mut attributes = workbook_view.source_attributes.clone();
+                        attributes.remove("activeTab");
+                        attributes.remove("firstSheet");
                         if let Some(active_tab) = &workbook_view.active_tab {
                             attributes.insert("activeTab".to_string(), active_tab.clone());
                         }
@@ -203,6 +211,22 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         workbook_view_element
                             .set_attribute_mut(attributes)
                             .context("Failed to set workbook view attributes")?;
+                        for mut attributes in workbook_view.other_views.clone() {
+                            // These tabs may be gone
+                            for key in ["activeTab", "firstSheet"] {
+                                if attributes.get(key).is_some_and(|tab| {
+                                    !tab.parse::<usize>()
+                                        .is_ok_and(|tab| tab < sheet_collection.len())
+                                }) {
+                                    attributes.remove(key);
+                                }
+                            }
+                            xml_doc_mut
+                                .append_child_mut("workbookView", Some(&book_views_id))
+                                .context("Failed to create workbook view")?
+                                .set_attribute_mut(attributes)
+                                .context("Failed to set workbook view attributes")?;
+                        }
                     }
                     // Create and set Sheets
                     let sheets_id = xml_doc_mut
@@ -340,7 +364,7 @@ impl WorkbookPart {
         log_elapsed!(
             || {
                 let mut sheet_collection: Vec<SheetRecord> = Vec::new();
-                let mut workbook_view = None;
+                let mut workbook_view: Option<WorkbookView> = None;
                 if let Some(xml_document) = xml_document.upgrade() {
                     let mut xml_doc_mut = xml_document
                         .try_borrow_mut()
@@ -355,10 +379,19 @@ impl WorkbookPart {
                                     if let Some(workbook_view_element) =
                                         xml_doc_mut.pop_element_mut(&workbook_view_id)
                                     {
-                                        if let Some(attributes) =
+                                        if let Some(workbook_view) = workbook_view.as_mut() {
+                                            workbook_view.other_views.push(
+                                                workbook_view_element
+                                                    .get_attribute()
+                                                    .cloned()
+                                                    .unwrap_or_default(),
+                                            );
+                                        } else if let Some(attributes) =
                                             workbook_view_element.get_attribute()
                                         {
                                             workbook_view = Some(WorkbookView {
+                                                source_attributes: attributes.clone(),
+                                                other_views: Vec::new(),
                                                 auto_filter_date_grouping: if let Some(
                                                     auto_filter_data_group,
                                                 ) =
@@ -489,7 +522,7 @@ impl WorkbookPart {
                 }
                 if let Some(active_sheet) = workbook_view
                     .as_ref()
-                    .and_then(|view: &WorkbookView| view.active_tab.as_ref()?.parse::<usize>().ok())
+                    .and_then(|view| view.active_tab.as_ref()?.parse::<usize>().ok())
                     .and_then(|position| sheet_collection.get_mut(position))
                 {
                     active_sheet.2 = true;
-- 
2.43.0


From 2970536084af3dd0f79e53eddb5b6dc8a4b5bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 24/49] fix: open workbooks whose main part has another name or
 lies at the top of the package

---
 rs/src/global/global_2007/parts/relations.rs       | 14 +++++++++++++-
 .../spreadsheet/spreadsheet_2007/parts/workbook.rs |  5 +----
 .../spreadsheet_2007/parts/worksheet.rs            |  6 +-----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index cb8a8ae..eb8229b 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -126,10 +126,22 @@ impl RelationsPart {
         Ok(relationships)
     }
 
+    /// Path of the relationship part of a part
+    pub(crate) fn get_relation_path(file_path: &str) -> String {
+        match file_path.rfind("/") {
+            Some(position) => format!(
+                "{}/_rels/{}.rels",
+                &file_path[..position],
+                &file_path[position + 1..]
+            ),
+            None => format!("_rels/{}.rels", file_path),
+        }
+    }
+
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .find("_rels")
+            .rfind("_rels")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 2fc7e5d..8d264f6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -301,10 +301,7 @@ impl XmlDocumentPart for WorkbookPart {
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
-                        &format!(
-                            "{}/_rels/workbook.xml.rels",
-                            &file_name[..file_name.rfind("/").unwrap()]
-                        ),
+                        &RelationsPart::get_relation_path(&file_name),
                     )
                     .context("Creating Relation ship part for workbook failed.")?,
                 ));
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index b2be876..4fe5884 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -234,11 +234,7 @@ impl WorkSheet {
         let sheet_relationship_part = Rc::new(RefCell::new(
             RelationsPart::new(
                 office_document.clone(),
-                &format!(
-                    "{}/_rels/{}.rels",
-                    &file_path[..file_path.rfind("/").unwrap()],
-                    file_path.rsplit("/").next().unwrap()
-                ),
+                &RelationsPart::get_relation_path(&file_path),
             )
             .context("Creating Relation ship part for workbook failed.")?,
         ));
-- 
2.43.0


From 35b3f27e9c4c713c9a1b02506eb14c9ac914b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 25/49] fix: asking for a sheet that does not exist is an error
 and adds none

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 8d264f6..7a531f5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -585,6 +585,15 @@ impl WorkbookPart {
     pub(crate) fn get_worksheet_mut(&mut self, sheet_name: &str) -> AnyResult<WorkSheet, AnyError> {
         log_elapsed!(
             || {
+                if !self
+                    .sheet_collection
+                    .try_borrow()
+                    .context("Failed to pull Sheet Name Collection")?
+                    .iter()
+                    .any(|item| item.0 == sheet_name)
+                {
+                    return Err(anyhow!("Sheet not found in the stack"));
+                }
                 WorkSheet::new(
                     self.office_document.clone(),
                     Rc::downgrade(&self.sheet_collection),
-- 
2.43.0


From 7887b3c0dc71c035605581bd7b06b19dfef6fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 26/49] fix: a new sheet takes neither the name nor the path of
 a sheet that exists or is open

---
 rs/src/files/office_document.rs                   |  1 +
 .../spreadsheet_2007/parts/worksheet.rs           | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 7196a95..f8932ed 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -50,6 +50,7 @@ impl OfficeDocument {
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
         self.archive_collection.contains_key(&file_path)
+            || self.xml_document_collection.contains_key(&file_path)
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 4fe5884..734e072 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1162,8 +1162,21 @@ impl WorkSheet {
                     let document = office_doc
                         .try_borrow()
                         .context("Failed to Borrow Document")?;
+                    // A default name must be free as well
+                    let used_names = match sheet_name {
+                        Some(_) => Vec::new(),
+                        None => sheet_collection
+                            .try_borrow()
+                            .context("Failed to pull Sheet Name Collection")?
+                            .iter()
+                            .map(|item| item.0.clone())
+                            .collect::<Vec<String>>(),
+                    };
                     loop {
-                        if document.check_file_exist(format!(
+                        if used_names.contains(&format!(
+                            "{}{}",
+                            worksheet_content.default_name, sheet_count
+                        )) || document.check_file_exist(format!(
                             "{}{}/{}{}.{}",
                             relative_path,
                             worksheet_content.default_path,
-- 
2.43.0


From 79d43695df86e5d7878329f1c58932d4e509533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 27/49] fix: deleting a renamed sheet removes it, together with
 its relationships

---
 .../spreadsheet_2007/parts/worksheet.rs       | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 734e072..832f032 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -135,7 +135,7 @@ pub struct WorkSheet {
     // merge_cells:Option<_>
     // hyperlinks:Option<_>
     file_path: String,
-    sheet_name: String,
+    relationship_id: String,
 }
 
 impl Drop for WorkSheet {
@@ -223,7 +223,7 @@ impl WorkSheet {
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
     ) -> AnyResult<Self, AnyError> {
-        let (file_path, sheet_name) = Self::get_sheet_file_name(
+        let (file_path, relationship_id) = Self::get_sheet_file_name(
             sheet_name,
             &office_document,
             &sheet_collection,
@@ -254,7 +254,7 @@ impl WorkSheet {
             column_collection,
             sheet_data,
             file_path: file_path.to_string(),
-            sheet_name,
+            relationship_id,
         })
     }
 
@@ -1144,7 +1144,7 @@ impl WorkSheet {
                                 .get_target_by_id(&rel_id)
                                 .context("Failed to Get Target Path")?
                                 .ok_or(anyhow!("Failed to Get Relationship path"))?,
-                            sheet_name,
+                            rel_id.clone(),
                         ));
                     }
                 }
@@ -1214,8 +1214,8 @@ impl WorkSheet {
                     .try_borrow_mut()
                     .context("Failed To pull Sheet Collection Handle")?
                     .push((
-                        sheet_name.clone(),
-                        relationship_id,
+                        sheet_name,
+                        relationship_id.clone(),
                         false,
                         false,
                         HashMap::new(),
@@ -1228,7 +1228,7 @@ impl WorkSheet {
                         &sheet_count,
                         worksheet_content.extension
                     ),
-                    sheet_name,
+                    relationship_id,
                 ));
             }
         }
@@ -1509,10 +1509,11 @@ impl WorkSheet {
     /// Delete Current sheet and all its components
     pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
         if let Some(sheet_collection) = self.sheet_collection.upgrade() {
+            // The sheet may have been renamed since it was opened
             sheet_collection
                 .try_borrow_mut()
                 .context("Failed to pull Sheets Collection")?
-                .retain(|item| item.0 != self.sheet_name);
+                .retain(|item| item.1 != self.relationship_id);
         }
         if let Some(workbook_relationship_part) = self.workbook_relationship_part.upgrade() {
             workbook_relationship_part
@@ -1525,6 +1526,10 @@ impl WorkSheet {
                 .try_borrow_mut()
                 .context("Failed to Pull XML Handle")?
                 .delete_document_mut(&self.file_path);
+            xml_tree
+                .try_borrow_mut()
+                .context("Failed to Pull XML Handle")?
+                .delete_document_mut(&RelationsPart::get_relation_path(&self.file_path));
         }
         self.reset_calculation_chain()?;
         self.flush().context("Failed to flush the worksheet")?;
-- 
2.43.0


From 7c06c5a6a7a03248701bfdffa1611596e2c6e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 28/49] fix: content types match regardless of case, each
 extension has one default and none is empty

---
 rs/src/files/office_document.rs               | 30 +++++++++++--------
 .../global/global_2007/parts/content_types.rs | 29 +++++++++++-------
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index f8932ed..ba6bebe 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -6,7 +6,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     fs::{metadata, remove_file, File},
     io::{Cursor, Read, Write},
     rc::{Rc, Weak},
@@ -197,9 +197,20 @@ impl OfficeDocument {
                 ),
             ) in self.archive_collection.to_owned()
             {
-                extensions.push((file_extension, extension_type));
                 if let Some(content_type) = content_type {
                     overrides.push((format!("/{}", file_name), content_type));
+                } else if extensions.iter().any(|item| {
+                    item.0.eq_ignore_ascii_case(&file_extension) && item.1 != extension_type
+                }) {
+                    // An extension has only one default
+                    overrides.push((format!("/{}", file_name), extension_type.clone()));
+                }
+                if file_extension != ""
+                    && !extensions
+                        .iter()
+                        .any(|item| item.0.eq_ignore_ascii_case(&file_extension))
+                {
+                    extensions.push((file_extension, extension_type));
                 }
                 zip_writer
                     .start_file(file_name, zip_option)
@@ -217,15 +228,8 @@ impl OfficeDocument {
         zip_writer
             .start_file("[Content_Types].xml", zip_option)
             .context("Zip File Write Start Fail")?;
-        let content_type_file = ContentTypesPart::create_xml_file(
-            extensions
-                .into_iter()
-                .collect::<HashSet<_>>()
-                .into_iter()
-                .collect::<Vec<_>>(),
-            overrides,
-        )
-        .context("Creating Content Type XML Failed")?;
+        let content_type_file = ContentTypesPart::create_xml_file(extensions, overrides)
+            .context("Creating Content Type XML Failed")?;
         zip_writer
             .write_all(&content_type_file)
             .context("Writing compressed data to ZIp")?;
@@ -279,7 +283,9 @@ impl OfficeDocument {
             let f_extension = file_name.rsplit(".").next();
             if let Some(f_extension) = f_extension {
                 if let Some(extensions) = extension_collection.clone() {
-                    let item = extensions.iter().find(|item| item.0 == f_extension);
+                    let item = extensions
+                        .iter()
+                        .find(|item| item.0.eq_ignore_ascii_case(f_extension));
                     if let Some(extension) = item {
                         file_extension = extension.0.to_string();
                         extension_type = extension.1.to_string();
diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 707cb4a..6b3c0ff 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -47,16 +47,25 @@ impl ContentTypesPart {
         &mut self,
         file_name: &str,
     ) -> AnyResult<Option<String>, AnyError> {
-        if let Some(mut find_ids) = self.xml_document.get_element_ids_by_attribute(
-            "PartName",
-            &format!("/{}", file_name),
-            None,
-        ) {
-            if let Some(id) = find_ids.pop() {
-                if let Some(element) = self.xml_document.pop_element_mut(&id) {
-                    if let Some(attributes) = element.get_attribute() {
-                        let res = attributes.get("ContentType").unwrap().to_string();
-                        return Ok(Some(res));
+        let part_name = format!("/{}", file_name);
+        if let Some(override_ids) = self.xml_document.get_element_ids_by_tag("Override", None) {
+            for id in override_ids {
+                if let Some(attributes) = self
+                    .xml_document
+                    .get_element(&id)
+                    .and_then(|element| element.get_attribute())
+                {
+                    // Part names are not case sensitive
+                    if attributes
+                        .get("PartName")
+                        .is_some_and(|name| name.eq_ignore_ascii_case(&part_name))
+                    {
+                        return Ok(Some(
+                            attributes
+                                .get("ContentType")
+                                .ok_or(anyhow!("content type override attribute missing"))?
+                                .to_string(),
+                        ));
                     }
                 }
             }
-- 
2.43.0


From 07f9ce4f1f6a954092506fd904dd060a410bc815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 29/49] fix: a save that fails leaves the target file as it was

---
 rs/src/files/office_document.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index ba6bebe..a5154e8 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,7 +7,7 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::HashMap,
-    fs::{metadata, remove_file, File},
+    fs::{metadata, remove_file, rename, File},
     io::{Cursor, Read, Write},
     rc::{Rc, Weak},
 };
@@ -167,12 +167,26 @@ impl OfficeDocument {
         let file_content: Vec<u8> = self
             .save_database_into_archive()
             .context("Save Archive Data into Database")?;
-        if metadata(file_path).is_ok() {
-            remove_file(file_path).map_err(|e| anyhow!("Remove Save File Target Failed. {}", e))?;
+        // The target is replaced only after all of the content is written
+        let mut attempt = 0;
+        let mut temporary_path = format!("{}.tmp", file_path);
+        while metadata(&temporary_path).is_ok() {
+            attempt += 1;
+            temporary_path = format!("{}.tmp{}", file_path, attempt);
         }
-        let mut file = File::create(file_path).context("Create Save File Failed")?;
-        file.write_all(&file_content)
-            .context("Save File Write Failed")
+        let mut file = File::create(&temporary_path).context("Create Save File Failed")?;
+        let result = file
+            .write_all(&file_content)
+            .context("Save File Write Failed");
+        drop(file);
+        let result = result.and_then(|_| {
+            rename(&temporary_path, file_path)
+                .map_err(|e| anyhow!("Replace Save File Target Failed. {}", e))
+        });
+        if result.is_err() {
+            let _ = remove_file(&temporary_path);
+        }
+        result
     }
 
     /// Save the database content into file archive
-- 
2.43.0


From 17c98d3a47f155b04da910e99e37a616bee02602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 30/49] fix: saving with a sheet still open is an error instead
 of losing its rows

---
 rs/src/spreadsheet/spreadsheet_2007/excel.rs          | 6 +++++-
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/excel.rs b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
index 51db1b6..97ee5a5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/excel.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
@@ -10,7 +10,7 @@ use crate::{
         parts::{WorkSheet, WorkbookPart},
     },
 };
-use anyhow::{Context, Error as AnyError, Result as AnyResult};
+use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{cell::RefCell, rc::Rc};
 
 #[derive(Debug)]
@@ -154,6 +154,10 @@ impl Excel {
     pub fn save_as(self, file_name: &str) -> AnyResult<(), AnyError> {
         log_elapsed!(
             || {
+                // Rows of an open sheet are still with its handle
+                if self.workbook.has_open_sheet() {
+                    return Err(anyhow!("Close every sheet before saving the file"));
+                }
                 self.workbook.flush()?;
                 self.core_properties.flush()?;
                 self.root_relations
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 7a531f5..1d66499 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -555,6 +555,11 @@ impl WorkbookPart {
         }
     }
 
+    /// Sheet handles refer to the sheet collection as long as they are open
+    pub(crate) fn has_open_sheet(&self) -> bool {
+        Rc::weak_count(&self.sheet_collection) > 0
+    }
+
     pub(crate) fn list_sheet_names(&self) -> AnyResult<Vec<String>, AnyError> {
         Ok(self
             .sheet_collection
-- 
2.43.0


From 149ad975864f639f564f78716699b169547cf140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 31/49] fix: styles of an opened workbook are kept as they are,
 number formats of new styles are applied

---
 rs/src/files/xml/xml_tree.rs                  |  23 +-
 .../spreadsheet_2007/services/style.rs        | 431 ++++++++++++------
 2 files changed, 310 insertions(+), 144 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 7cbf3cd..743eb86 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -5,7 +5,7 @@ use std::{
     rc::{Rc, Weak},
 };
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub(crate) struct XmlDocument {
     running_id: usize,
     /// XML Namespace collection
@@ -335,7 +335,7 @@ impl XmlDocument {
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub(crate) struct XmlElementChild {
     id: usize,
     tag: String,
@@ -360,6 +360,21 @@ pub(crate) struct XmlElement {
     namespace_collection_ref: Weak<RefCell<HashMap<String, String>>>,
 }
 
+impl Clone for XmlElement {
+    /// The copy has a child list of its own
+    fn clone(&self) -> Self {
+        Self {
+            id: self.id,
+            parent_id: self.parent_id,
+            tag: self.tag.clone(),
+            attributes: self.attributes.clone(),
+            value: self.value.clone(),
+            children: Rc::new(RefCell::new(self.children.borrow().clone())),
+            namespace_collection_ref: self.namespace_collection_ref.clone(),
+        }
+    }
+}
+
 impl XmlElement {
     /// Create element with tree document reference
     fn new(
@@ -457,6 +472,10 @@ impl XmlElement {
         }
     }
 
+    pub(crate) fn get_child_ids(&self) -> Vec<usize> {
+        self.children.borrow().iter().map(|item| item.id).collect()
+    }
+
     pub(crate) fn get_parent_id(&self) -> usize {
         self.parent_id
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index c6c63ae..2021187 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -30,12 +30,14 @@ pub struct StylePart {
     cache_id: HashMap<u64, u32>,
     cache_order: VecDeque<u64>,
     cache_capacity: u8,
-    number_format_collection: Vec<(u64, NumberFormat)>,
-    font_collection: Vec<(u64, FontStyle)>,
-    fill_collection: Vec<(u64, FillStyle)>,
-    border_collection: Vec<(u64, BorderStyle)>,
-    cell_style_xfs_collection: Vec<(u64, CellXfs)>,
-    cell_xfs_collection: Vec<(u64, CellXfs)>,
+    number_format_collection: Vec<NumberFormat>,
+    font_collection: Vec<(Option<u64>, FontStyle)>,
+    fill_collection: Vec<(Option<u64>, FillStyle)>,
+    border_collection: Vec<(Option<u64>, BorderStyle)>,
+    cell_style_xfs_collection: Vec<(Option<u64>, CellXfs)>,
+    cell_xfs_collection: Vec<(Option<u64>, CellXfs)>,
+    /// Number of number formats, fonts, fills, borders, cell styles and cell formats in the source file
+    source_count: [usize; 6],
 }
 
 impl Drop for StylePart {
@@ -111,6 +113,14 @@ impl XmlDocumentPart for StylePart {
             cell_collection,
         ) = Self::load_content(&mut xml_document).context("Load Share String To DB Failed")?;
         Ok(Self {
+            source_count: [
+                number_format_collection.len(),
+                font_collection.len(),
+                fill_collection.len(),
+                border_collection.len(),
+                cell_style_collection.len(),
+                cell_collection.len(),
+            ],
             office_document,
             xml_document,
             file_path: file_name,
@@ -154,12 +164,12 @@ impl StylePart {
         xml_document: &mut Weak<RefCell<XmlDocument>>,
     ) -> AnyResult<
         (
-            Vec<(u64, NumberFormat)>,
-            Vec<(u64, FontStyle)>,
-            Vec<(u64, FillStyle)>,
-            Vec<(u64, BorderStyle)>,
-            Vec<(u64, CellXfs)>,
-            Vec<(u64, CellXfs)>,
+            Vec<NumberFormat>,
+            Vec<(Option<u64>, FontStyle)>,
+            Vec<(Option<u64>, FillStyle)>,
+            Vec<(Option<u64>, BorderStyle)>,
+            Vec<(Option<u64>, CellXfs)>,
+            Vec<(Option<u64>, CellXfs)>,
         ),
         AnyError,
     > {
@@ -170,9 +180,9 @@ impl StylePart {
         let mut style_collection = Vec::new();
         let mut xfs_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
+            // The styles of the source file stay in place, they are decoded from a copy
+            let source_doc = xml_document.try_borrow().context("xml doc borrow failed")?;
+            let mut xml_doc_mut = source_doc.clone();
             // Load Number Format Region
             if let Some(mut number_formats_vec) =
                 xml_doc_mut.pop_elements_by_tag_mut("numFmts", None)
@@ -195,9 +205,7 @@ impl StylePart {
                                     .get("formatCode")
                                     .ok_or(anyhow!("formatCode Attribute Not Found!"))?
                                     .to_string();
-                                let mut hasher = DefaultHasher::new();
-                                number_format.hash(&mut hasher);
-                                num_format_records.push((hasher.finish(), number_format));
+                                num_format_records.push(number_format);
                             }
                         } else {
                             break;
@@ -233,17 +241,17 @@ impl StylePart {
                                                     }
                                                 }
                                             }
-                                            font_style.is_underline = false;
+                                            font_style.is_underline =
+                                                !font_style.is_double_underline;
                                         }
-                                        "i" => font_style.is_italic = false,
+                                        "i" => font_style.is_italic = true,
                                         "sz" => {
                                             if let Some(attributes) =
                                                 current_element.get_attribute()
                                             {
                                                 if let Some(val) = attributes.get("val") {
-                                                    font_style.size = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
+                                                    font_style.size =
+                                                        val.parse().unwrap_or(font_style.size)
                                                 }
                                             }
                                         }
@@ -302,9 +310,7 @@ impl StylePart {
                                                 }
                                             }
                                         }
-                                        _ => {
-                                            return Err(anyhow!("Unknown Font Style Found!"));
-                                        }
+                                        _ => {}
                                     }
                                 } else {
                                     break;
@@ -312,7 +318,11 @@ impl StylePart {
                             }
                             let mut hasher = DefaultHasher::new();
                             font_style.hash(&mut hasher);
-                            font_records.push((hasher.finish(), font_style));
+                            font_records.push((
+                                StylePart::is_known(&source_doc, &font_id, &StylePart::is_known_font)
+                                    .then(|| hasher.finish()),
+                                font_style,
+                            ));
                         } else {
                             break;
                         }
@@ -420,11 +430,7 @@ impl StylePart {
                                                                         });
                                                                     }
                                                                 }
-                                                                _ => {
-                                                                    return Err(anyhow!(
-                                                                    "Unknown Color patter found"
-                                                                ));
-                                                                }
+                                                                _ => {}
                                                             }
                                                         }
                                                     }
@@ -438,7 +444,11 @@ impl StylePart {
                             }
                             let mut hasher = DefaultHasher::new();
                             fill_style.hash(&mut hasher);
-                            fill_records.push((hasher.finish(), fill_style));
+                            fill_records.push((
+                                StylePart::is_known(&source_doc, &fill_id, &StylePart::is_known_fill)
+                                    .then(|| hasher.finish()),
+                                fill_style,
+                            ));
                         } else {
                             break;
                         }
@@ -499,11 +509,7 @@ impl StylePart {
                                                     )
                                                     .context("Left Border Decode Failed")?;
                                                 }
-                                                _ => {
-                                                    return Err(anyhow!(
-                                                        "Unknown border style found"
-                                                    ));
-                                                }
+                                                _ => {}
                                             }
                                         }
                                     } else {
@@ -512,7 +518,11 @@ impl StylePart {
                                 }
                                 let mut hasher = DefaultHasher::new();
                                 border_style.hash(&mut hasher);
-                                border_records.push((hasher.finish(), border_style));
+                                border_records.push((
+                                StylePart::is_known(&source_doc, &border_id, &StylePart::is_known_border)
+                                    .then(|| hasher.finish()),
+                                border_style,
+                            ));
                             }
                         } else {
                             break;
@@ -525,13 +535,21 @@ impl StylePart {
             {
                 if let Some(cell_style_xfs) = cell_style_xfs_vec.pop() {
                     style_collection =
-                        StylePart::deserialize_cell_style(cell_style_xfs, &mut xml_doc_mut)
+                        StylePart::deserialize_cell_style(
+                            cell_style_xfs,
+                            &source_doc,
+                            &mut xml_doc_mut,
+                        )
                             .context("Deserializing Cell Style Xfs Failed")?;
                 }
             }
             if let Some(mut cell_xfs_vec) = xml_doc_mut.pop_elements_by_tag_mut("cellXfs", None) {
                 if let Some(cell_xfs) = cell_xfs_vec.pop() {
-                    xfs_collection = StylePart::deserialize_cell_style(cell_xfs, &mut xml_doc_mut)
+                    xfs_collection = StylePart::deserialize_cell_style(
+                        cell_xfs,
+                        &source_doc,
+                        &mut xml_doc_mut,
+                    )
                         .context("Deserializing Cell Xfs Failed")?;
                 }
             }
@@ -546,27 +564,139 @@ impl StylePart {
         ))
     }
 
+    /// Whether all of the element is known, a style with anything else is no match for a setting
+    fn is_known(
+        xml_document: &XmlDocument,
+        element_id: &usize,
+        known: &dyn Fn(&str, Option<(&str, &str)>) -> bool,
+    ) -> bool {
+        if let Some(element) = xml_document.get_element(element_id) {
+            known(element.get_tag(), None)
+                && element.get_attribute().is_none_or(|attributes| {
+                    attributes
+                        .iter()
+                        .all(|(key, value)| known(element.get_tag(), Some((key, value))))
+                })
+                && element
+                    .get_child_ids()
+                    .iter()
+                    .all(|child_id| StylePart::is_known(xml_document, child_id, known))
+        } else {
+            false
+        }
+    }
+
+    fn is_known_color(key: &str) -> bool {
+        matches!(key, "theme" | "rgb" | "indexed")
+    }
+
+    fn is_known_font(tag: &str, attribute: Option<(&str, &str)>) -> bool {
+        match (tag, attribute) {
+            ("font" | "b" | "i" | "u" | "sz" | "color" | "name" | "family" | "scheme", None) => {
+                true
+            }
+            ("u", Some(("val", value))) => value == "single" || value == "double",
+            ("sz", Some(("val", value))) => value.parse::<u8>().is_ok(),
+            ("name" | "family", Some(("val", _))) => true,
+            ("scheme", Some(("val", value))) => matches!(value, "none" | "minor" | "major"),
+            ("color", Some((key, _))) => StylePart::is_known_color(key),
+            _ => false,
+        }
+    }
+
+    fn is_known_fill(tag: &str, attribute: Option<(&str, &str)>) -> bool {
+        match (tag, attribute) {
+            ("fill" | "patternFill" | "fgColor" | "bgColor", None) => true,
+            ("patternFill", Some(("patternType", value))) => {
+                PatternTypeValues::get_string(PatternTypeValues::get_enum(value)) == value
+            }
+            ("fgColor" | "bgColor", Some((key, _))) => StylePart::is_known_color(key),
+            _ => false,
+        }
+    }
+
+    fn is_known_border(tag: &str, attribute: Option<(&str, &str)>) -> bool {
+        match (tag, attribute) {
+            ("border" | "left" | "right" | "top" | "bottom" | "diagonal" | "color", None) => true,
+            ("left" | "right" | "top" | "bottom" | "diagonal", Some(("style", value))) => {
+                BorderStyleValues::get_string(BorderStyleValues::get_enum(value)) == value
+            }
+            ("color", Some((key, _))) => StylePart::is_known_color(key),
+            _ => false,
+        }
+    }
+
+    fn is_known_cell_format(tag: &str, attribute: Option<(&str, &str)>) -> bool {
+        match (tag, attribute) {
+            ("xf" | "alignment", None) => true,
+            (
+                "xf",
+                Some((
+                    "numFmtId" | "fontId" | "fillId" | "borderId" | "xfId" | "applyProtection"
+                    | "applyAlignment" | "applyBorder" | "applyFill" | "applyFont"
+                    | "applyNumberFormat",
+                    _,
+                )),
+            ) => true,
+            ("alignment", Some(("wrapText", _))) => true,
+            ("alignment", Some(("vertical", value))) => {
+                VerticalAlignmentValues::get_string(VerticalAlignmentValues::get_enum(value))
+                    == value
+            }
+            ("alignment", Some(("horizontal", value))) => {
+                HorizontalAlignmentValues::get_string(HorizontalAlignmentValues::get_enum(value))
+                    == value
+            }
+            _ => false,
+        }
+    }
+
+    /// Element that holds the styles of one kind, with its count updated
+    fn get_collection_element(
+        xml_doc_mut: &mut XmlDocument,
+        tag: &str,
+        count: usize,
+    ) -> AnyResult<usize, AnyError> {
+        let element_id = xml_doc_mut
+            .get_element_ids_by_tag(tag, None)
+            .and_then(|mut element_ids| element_ids.pop());
+        let element = match element_id {
+            Some(element_id) => xml_doc_mut.get_element_mut(&element_id),
+            None => Some(
+                xml_doc_mut
+                    .append_child_mut(tag, None)
+                    .context("Create Style Collection Failed")?,
+            ),
+        }
+        .ok_or(anyhow!("Style Collection Not Found"))?;
+        let element_id = element.get_id();
+        if let Some(attributes) = element.get_attribute_mut() {
+            attributes.insert("count".to_string(), count.to_string());
+        } else {
+            element
+                .set_attribute_mut(HashMap::from([("count".to_string(), count.to_string())]))
+                .context("Updating Style Collection Attributes Failed")?;
+        }
+        Ok(element_id)
+    }
+
     /// Save Database record back to XML File
     fn save_content_to_tree_mut(&mut self) -> AnyResult<(), AnyError> {
         if let Some(xml_document) = self.xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("xml doc borrow failed")?;
+            let [num_format_count, font_count, fill_count, border_count, style_count, xfs_count] =
+                self.source_count;
+            // Styles of the source file are still in place
             // Create Number Formats Elements
-            {
-                let num_formats = xml_doc_mut
-                    .insert_child_at_mut("numFmts", &0, None)
-                    .context("Create Number Formats Parent Failed.")?;
-                let num_formats_id = num_formats.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.number_format_collection.len().to_string(),
-                );
-                num_formats
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, num_format) in self.number_format_collection.as_slice() {
+            if self.number_format_collection.len() > num_format_count {
+                let num_formats_id = StylePart::get_collection_element(
+                    &mut xml_doc_mut,
+                    "numFmts",
+                    self.number_format_collection.len(),
+                )?;
+                for num_format in self.number_format_collection.iter().skip(num_format_count) {
                     let num_format_element = xml_doc_mut
                         .append_child_mut("numFmt", Some(&num_formats_id))
                         .context("Create Number Format Element Failed")?;
@@ -580,16 +710,12 @@ impl StylePart {
             }
             // Create Fonts Elements
             {
-                let fonts = xml_doc_mut
-                    .insert_children_after_tag_mut("fonts", "numFmts", None)
-                    .context("Create Fonts Parent Failed.")?;
-                let fonts_id = fonts.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.font_collection.len().to_string());
-                fonts
-                    .set_attribute_mut(attributes)
-                    .context("Set attribute failed for fonts style")?;
-                for (_, font_style) in self.font_collection.as_slice() {
+                let fonts_id = StylePart::get_collection_element(
+                    &mut xml_doc_mut,
+                    "fonts",
+                    self.font_collection.len(),
+                )?;
+                for (_, font_style) in self.font_collection.iter().skip(font_count) {
                     let font_id = xml_doc_mut
                         .append_child_mut("font", Some(&fonts_id))
                         .context("Adding Font to Fonts Failed")?
@@ -604,7 +730,7 @@ impl StylePart {
                             .append_child_mut("i", Some(&font_id))
                             .context("Create Size Failed")?;
                     }
-                    if font_style.is_underline {
+                    if font_style.is_underline && !font_style.is_double_underline {
                         xml_doc_mut
                             .append_child_mut("u", Some(&font_id))
                             .context("Create Size Failed")?;
@@ -662,16 +788,12 @@ impl StylePart {
             }
             // Create Fills Elements
             {
-                let fills = xml_doc_mut
-                    .insert_children_after_tag_mut("fills", "fonts", None)
-                    .context("Create Fills parents Failed.")?;
-                let fills_id = fills.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.fill_collection.len().to_string());
-                fills
-                    .set_attribute_mut(attributes)
-                    .context("Set Fill Attribute Failed")?;
-                for (_, fill_data) in self.fill_collection.as_slice() {
+                let fills_id = StylePart::get_collection_element(
+                    &mut xml_doc_mut,
+                    "fills",
+                    self.fill_collection.len(),
+                )?;
+                for (_, fill_data) in self.fill_collection.iter().skip(fill_count) {
                     let fill_id = xml_doc_mut
                         .append_child_mut("fill", Some(&fills_id))
                         .context("Adding Fill Element Failed")?
@@ -718,19 +840,12 @@ impl StylePart {
             }
             // Create Border Elements
             {
-                let borders = xml_doc_mut
-                    .insert_children_after_tag_mut("borders", "fills", None)
-                    .context("Create borders parents Failed.")?;
-                let borders_id = borders.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.border_collection.len().to_string(),
-                );
-                borders
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, border_data) in self.border_collection.as_slice() {
+                let borders_id = StylePart::get_collection_element(
+                    &mut xml_doc_mut,
+                    "borders",
+                    self.border_collection.len(),
+                )?;
+                for (_, border_data) in self.border_collection.iter().skip(border_count) {
                     let border_id = xml_doc_mut
                         .append_child_mut("border", Some(&borders_id))
                         .context("Create Border Failed")?
@@ -774,24 +889,48 @@ impl StylePart {
             }
             // Create Cell Style Elements
             {
-                StylePart::add_cell_style(&mut xml_doc_mut, &mut self.cell_xfs_collection, true)?;
+                StylePart::add_cell_style(
+                    &mut xml_doc_mut,
+                    &self.cell_xfs_collection,
+                    xfs_count,
+                    true,
+                )?;
             }
             // Create Defined Cell Style Elements
             {
                 StylePart::add_cell_style(
                     &mut xml_doc_mut,
-                    &mut self.cell_style_xfs_collection,
+                    &self.cell_style_xfs_collection,
+                    style_count,
                     false,
                 )?;
             }
+            if let Some(root_element) = xml_doc_mut.get_root_mut() {
+                root_element
+                    .order_child_mut(&[
+                        "numFmts",
+                        "fonts",
+                        "fills",
+                        "borders",
+                        "cellStyleXfs",
+                        "cellXfs",
+                        "cellStyles",
+                        "dxfs",
+                        "tableStyles",
+                        "colors",
+                        "extLst",
+                    ])
+                    .context("Failed Reorder the element child's")?;
+            }
         }
         Ok(())
     }
 
     pub(crate) fn deserialize_cell_style(
         style_xfs: XmlElement,
+        source_doc: &XmlDocument,
         xml_doc_mut: &mut XmlDocument,
-    ) -> AnyResult<Vec<(u64, CellXfs)>, AnyError> {
+    ) -> AnyResult<Vec<(Option<u64>, CellXfs)>, AnyError> {
         let mut style_records = Vec::new();
         loop {
             if let Some((xf_id, _)) = style_xfs.pop_child_mut() {
@@ -842,7 +981,10 @@ impl StylePart {
                                 ConverterUtil::normalize_bool_property_u8(apply_number_format);
                         }
                         // Load Alignment Values if exist
-                        if let Some((alignment_id, _)) = current_element.pop_child_mut() {
+                        while let Some((alignment_id, tag)) = current_element.pop_child_mut() {
+                            if tag != "alignment" {
+                                continue;
+                            }
                             if let Some(alignment_element) =
                                 xml_doc_mut.pop_element_mut(&alignment_id)
                             {
@@ -874,7 +1016,11 @@ impl StylePart {
                     }
                     let mut hasher = DefaultHasher::new();
                     cell_xf.hash(&mut hasher);
-                    style_records.push((hasher.finish(), cell_xf));
+                    style_records.push((
+                        StylePart::is_known(source_doc, &xf_id, &StylePart::is_known_cell_format)
+                            .then(|| hasher.finish()),
+                        cell_xf,
+                    ));
                 }
             } else {
                 break;
@@ -886,7 +1032,7 @@ impl StylePart {
     pub(crate) fn deserialize_border_setting(
         current_element: &XmlElement,
         border: &mut BorderSetting,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
     ) -> Result<(), AnyError> {
         Ok(if let Some(attributes) = current_element.get_attribute() {
             if let Some(style) = attributes.get("style") {
@@ -925,7 +1071,7 @@ impl StylePart {
     /// Add Color Element Node To XML
     fn add_color_element(
         color_setting: Option<ColorSetting>,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
         parent_id: usize,
     ) -> Result<(), AnyError> {
         Ok(if let Some(border_color_setting) = color_setting {
@@ -946,7 +1092,7 @@ impl StylePart {
     /// Add Border Element Node to XML
     fn add_border_element(
         border_side: &str,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
         border_id: &usize,
         border_data: BorderSetting,
     ) -> Result<(), AnyError> {
@@ -970,27 +1116,20 @@ impl StylePart {
 
     fn add_cell_style(
         xml_doc_mut: &mut XmlDocument,
-        xfs_data: &mut Vec<(u64, CellXfs)>,
+        xfs_data: &Vec<(Option<u64>, CellXfs)>,
+        source_count: usize,
         enable_format_id: bool,
     ) -> Result<(), AnyError> {
-        let cell_style_xfs = xml_doc_mut
-            .insert_children_after_tag_mut(
-                if enable_format_id {
-                    "cellXfs"
-                } else {
-                    "cellStyleXfs"
-                },
-                "borders",
-                None,
-            )
-            .context("Create Cell Style parents Failed.")?;
-        let cell_style_xfs_id = cell_style_xfs.get_id();
-        let mut attributes = HashMap::new();
-        attributes.insert("count".to_string(), xfs_data.len().to_string());
-        cell_style_xfs
-            .set_attribute_mut(attributes)
-            .context("Updating Number Formats Element Attributes Failed")?;
-        for (_, xfs) in xfs_data {
+        let cell_style_xfs_id = StylePart::get_collection_element(
+            xml_doc_mut,
+            if enable_format_id {
+                "cellXfs"
+            } else {
+                "cellStyleXfs"
+            },
+            xfs_data.len(),
+        )?;
+        for (_, xfs) in xfs_data.iter().skip(source_count) {
             let xf = xml_doc_mut
                 .append_child_mut("xf", Some(&cell_style_xfs_id))
                 .context("Create Cell Style Config Failed")?;
@@ -1086,31 +1225,39 @@ impl StylePart {
                 cell_style.apply_number_format = 1;
                 // Get Number Format ID
                 if let Some(custom_format) = style_setting.custom_number_format {
-                    let mut hasher = DefaultHasher::new();
-                    let number_format = NumberFormat {
-                        format_code: custom_format,
-                        format_type: NumberFormatValues::Custom,
-                        ..Default::default()
-                    };
-                    number_format.hash(&mut hasher);
-                    let current_hash = hasher.finish();
-                    if let Some(position) = self
+                    let format_id = if let Some(number_format) = self
                         .number_format_collection
                         .iter()
-                        .position(|(hash, _)| *hash == current_hash)
+                        .find(|number_format| number_format.format_code == custom_format)
                     {
-                        cell_style.number_format_id = position as u16 + 163;
+                        number_format.format_id
                     } else {
-                        self.number_format_collection
-                            .push((current_hash, number_format));
-                        cell_style.number_format_id =
-                            (self.number_format_collection.len() - 1) as u16;
-                    }
+                        // Ids up to 163 belong to built in formats
+                        let format_id = self
+                            .number_format_collection
+                            .iter()
+                            .map(|number_format| number_format.format_id + 1)
+                            .fold(164, usize::max);
+                        self.number_format_collection.push(NumberFormat {
+                            format_id,
+                            format_code: custom_format,
+                            format_type: NumberFormatValues::Custom,
+                        });
+                        format_id
+                    };
+                    cell_style.number_format_id =
+                        u16::try_from(format_id).context("Too many number formats")?;
                 } else {
                     return Err(anyhow!(
                         "Custom Format Type is used without providing custom number format."
                     ));
                 }
+            } else if style_setting.number_format != NumberFormatValues::General {
+                cell_style.apply_number_format = 1;
+                cell_style.number_format_id =
+                    NumberFormatValues::get_string(style_setting.number_format)
+                        .parse()
+                        .context("Number Number Format Id Parse Failed")?;
             }
             // Get Font Style ID
             {
@@ -1130,14 +1277,14 @@ impl StylePart {
                 if let Some(position) = self
                     .font_collection
                     .iter()
-                    .position(|(hash, _)| *hash == current_hash)
+                    .position(|(hash, _)| *hash == Some(current_hash))
                 {
                     cell_style.font_id = position as u16;
                     if position > 0 {
                         cell_style.apply_font = 1;
                     }
                 } else {
-                    self.font_collection.push((current_hash, font_style));
+                    self.font_collection.push((Some(current_hash), font_style));
                     cell_style.font_id = (self.font_collection.len() - 1) as u16;
                     cell_style.apply_font = 1;
                 }
@@ -1172,14 +1319,14 @@ impl StylePart {
                 if let Some(position) = self
                     .fill_collection
                     .iter()
-                    .position(|(hash, _)| *hash == current_hash)
+                    .position(|(hash, _)| *hash == Some(current_hash))
                 {
                     cell_style.fill_id = position as u16;
                     if position > 0 {
                         cell_style.apply_fill = 1;
                     }
                 } else {
-                    self.fill_collection.push((current_hash, fill_style));
+                    self.fill_collection.push((Some(current_hash), fill_style));
                     cell_style.fill_id = (self.fill_collection.len() - 1) as u16;
                     cell_style.apply_fill = 1;
                 }
@@ -1200,14 +1347,14 @@ impl StylePart {
                 if let Some(position) = self
                     .border_collection
                     .iter()
-                    .position(|(hash, _)| *hash == current_hash)
+                    .position(|(hash, _)| *hash == Some(current_hash))
                 {
                     cell_style.border_id = position as u16;
                     if position > 0 {
                         cell_style.apply_border = 1;
                     }
                 } else {
-                    self.border_collection.push((current_hash, border_style));
+                    self.border_collection.push((Some(current_hash), border_style));
                     cell_style.border_id = (self.border_collection.len() - 1) as u16;
                     cell_style.apply_border = 1;
                 }
@@ -1232,12 +1379,12 @@ impl StylePart {
                 if let Some(position) = self
                     .cell_style_xfs_collection
                     .iter()
-                    .position(|(hash, _)| *hash == current_hash)
+                    .position(|(hash, _)| *hash == Some(current_hash))
                 {
                     cell_style.format_id = position as u16;
                 } else {
                     self.cell_style_xfs_collection
-                        .push((current_hash, cell_style_xfs));
+                        .push((Some(current_hash), cell_style_xfs));
                     cell_style.format_id = (self.cell_style_xfs_collection.len() - 1) as u16;
                 }
             }
@@ -1250,11 +1397,11 @@ impl StylePart {
                 if let Some(position) = self
                     .cell_xfs_collection
                     .iter()
-                    .position(|(hash, _)| *hash == current_hash)
+                    .position(|(hash, _)| *hash == Some(current_hash))
                 {
                     Ok(StyleId::new(position as u32))
                 } else {
-                    self.cell_xfs_collection.push((current_hash, font_style));
+                    self.cell_xfs_collection.push((Some(current_hash), font_style));
                     Ok(StyleId::new((self.cell_xfs_collection.len() - 1) as u32))
                 }
             }
-- 
2.43.0


From 86eb026ef707065885a6df1155736de0fe6d0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 32/49] fix: refuse text with characters that no XML part can
 hold

---
 .../spreadsheet_2007/parts/workbook.rs        | 22 +++++++++++++++++++
 .../spreadsheet_2007/parts/worksheet.rs       |  9 ++++++++
 rs/src/utils/converters.rs                    | 10 +++++++++
 3 files changed, 41 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 1d66499..fc2e9ed 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -731,6 +731,7 @@ impl WorkbookPart {
         old_sheet_name: &str,
         new_sheet_name: &str,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::validate_text(new_sheet_name).context("Failed to rename sheet")?;
         // Check if sheet with same name exist
         if self
             .sheet_collection
@@ -761,6 +762,27 @@ impl WorkbookPart {
         &mut self,
         style_setting: StyleSetting,
     ) -> AnyResult<StyleId, AnyError> {
+        let borders = [
+            &style_setting.border_left,
+            &style_setting.border_top,
+            &style_setting.border_right,
+            &style_setting.border_bottom,
+            &style_setting.border_diagonal,
+        ];
+        for text in [&style_setting.font_family, &style_setting.text_color.value]
+            .into_iter()
+            .chain(&style_setting.custom_number_format)
+            .chain(&style_setting.background_color)
+            .chain(&style_setting.foreground_color)
+            .chain(
+                borders
+                    .iter()
+                    .filter_map(|border| border.border_color.as_ref())
+                    .map(|color| &color.value),
+            )
+        {
+            ConverterUtil::validate_text(text).context("Failed to get style id")?;
+        }
         self.common_service
             .try_borrow_mut()
             .context("Failed to get Style Handle")?
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 832f032..6ef16c3 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -223,6 +223,9 @@ impl WorkSheet {
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
     ) -> AnyResult<Self, AnyError> {
+        if let Some(sheet_name) = &sheet_name {
+            ConverterUtil::validate_text(sheet_name).context("Failed to set sheet name")?;
+        }
         let (file_path, relationship_id) = Self::get_sheet_file_name(
             sheet_name,
             &office_document,
@@ -1357,6 +1360,12 @@ impl WorkSheet {
     ) -> AnyResult<(), AnyError> {
         ConverterUtil::validate_position(row_index, col_index, column_cell.len())
             .context("Failed to set row value")?;
+        for text in column_cell
+            .iter()
+            .flat_map(|cell| cell.value.iter().chain(cell.formula.iter()))
+        {
+            ConverterUtil::validate_text(text).context("Failed to set row value")?;
+        }
         // Map Start Normalization
         col_index -= 1;
         for cell_data in column_cell.iter_mut() {
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index bf76513..5d4b10d 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -92,6 +92,16 @@ impl ConverterUtil {
         Ok(())
     }
 
+    /// Validate that the text has no character that is not allowed in XML
+    pub(crate) fn validate_text(text: &str) -> AnyResult<(), AnyError> {
+        if text.chars().any(|c| {
+            (c < ' ' && c != '\t' && c != '\n' && c != '\r') || c == '\u{FFFE}' || c == '\u{FFFF}'
+        }) {
+            return Err(anyhow!("Text has a character that can not be stored"));
+        }
+        Ok(())
+    }
+
     fn extract_digits(input: &str) -> AnyResult<u32> {
         let digits = input.trim_start_matches(|c: char| c.is_ascii_alphabetic());
         if !digits.chars().all(|c| c.is_ascii_digit()) {
-- 
2.43.0


From a650a9aaed379772e2864815896f1745e9a922a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 33/49] fix: fill color of a style is visible

---
 rs/src/spreadsheet/spreadsheet_2007/models/style.rs   |  2 +-
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index b566931..0a0411e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -151,7 +151,7 @@ impl Enum<FontSchemeValues> for FontSchemeValues {
     }
 }
 
-#[derive(Debug, Clone, Hash, Deserialize, Serialize)]
+#[derive(Debug, Clone, PartialEq, Hash, Deserialize, Serialize)]
 pub enum PatternTypeValues {
     None,
     Gray125,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 2021187..867a9cc 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1292,7 +1292,7 @@ impl StylePart {
             // Get Fill Style ID
             {
                 let mut hasher = DefaultHasher::new();
-                let fill_style = FillStyle {
+                let mut fill_style = FillStyle {
                     background_color: if let Some(background_color) = style_setting.background_color
                     {
                         Some(ColorSetting {
@@ -1314,6 +1314,15 @@ impl StylePart {
                     pattern_type: style_setting.pattern_type,
                     ..Default::default()
                 };
+                // A color is only visible with a pattern, solid uses the foreground color
+                if fill_style.pattern_type == PatternTypeValues::None {
+                    if fill_style.foreground_color.is_none() {
+                        fill_style.foreground_color = fill_style.background_color.clone();
+                    }
+                    if fill_style.foreground_color.is_some() {
+                        fill_style.pattern_type = PatternTypeValues::Solid;
+                    }
+                }
                 fill_style.hash(&mut hasher);
                 let current_hash = hasher.finish();
                 if let Some(position) = self
-- 
2.43.0


From 1f90644964cf057e18424f91119736f92df64f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 34/49] fix: line ends are read as XML defines them, parts that
 are no UTF-8 are refused

---
 rs/src/files/xml/xml_serialize.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index c67942e..9d2eea2 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -1,6 +1,7 @@
 use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
+use quick_xml::escape::unescape;
 use quick_xml::events::BytesStart;
 use quick_xml::{
     events::{
@@ -101,7 +102,8 @@ impl XmlSerializer {
 
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
-                    let text = byte_text.unescape().context("XML Text parsing error")?;
+                    let text = Self::get_text(&byte_text)?;
+                    let text = unescape(&text).context("XML Text parsing error")?;
                     if open_elements > 0 {
                         Self::append_text(xml_document, &active_xml_element_id, &text)?;
                     } else if !text.trim().is_empty() {
@@ -111,7 +113,7 @@ impl XmlSerializer {
 
                 // Read text content that is not escaped
                 Result::Ok(Event::CData(byte_text)) => {
-                    let text = String::from_utf8_lossy(&byte_text).to_string();
+                    let text = Self::get_text(&byte_text)?;
                     if open_elements > 0 {
                         Self::append_text(xml_document, &active_xml_element_id, &text)?;
                     } else {
@@ -160,6 +162,16 @@ impl XmlSerializer {
         }
     }
 
+    /// Text as it is in the file, every line end is read as single line feed
+    fn get_text(content: &[u8]) -> AnyResult<String, AnyError> {
+        let text = std::str::from_utf8(content).context("XML Text is not valid UTF-8")?;
+        if text.contains('\r') {
+            Ok(text.replace("\r\n", "\n").replace('\r', "\n"))
+        } else {
+            Ok(text.to_string())
+        }
+    }
+
     /// Text of an element can arrive in several pieces
     fn append_text(
         xml_document: &mut XmlDocument,
@@ -182,8 +194,9 @@ impl XmlSerializer {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
                 let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = attribute
-                    .unescape_value()
+                // White space that is not escaped is read as space
+                let value = Self::get_text(&attribute.value)?.replace(['\t', '\n'], " ");
+                let value: String = unescape(&value)
                     .context("Failed to unescape attribute value")?
                     .to_string();
                 Ok((key, value))
-- 
2.43.0


From 9c10874073cb9a8f0e6704ddb9a9097009dca893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 35/49] fix: elements a part's order does not name keep their
 place, sheetProtection and legacyDrawing get theirs

---
 rs/src/files/xml/xml_tree.rs                 | 18 ++++++++++++------
 rs/src/global/references/order_dictionary.rs |  5 +++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 743eb86..b7cb656 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -504,12 +504,18 @@ impl XmlElement {
                 .enumerate()
                 .map(|(index, &tag)| (tag, index))
                 .collect();
-            self.children.borrow_mut().sort_by_key(|item| {
-                order_map
-                    .get(item.tag.as_str())
-                    .cloned()
-                    .unwrap_or(usize::MAX)
-            });
+            let mut children = self.children.borrow_mut();
+            // An element the skeleton does not name stays behind the one it follows
+            let mut last = 0;
+            let mut ranked = children
+                .drain(..)
+                .map(|item| {
+                    last = order_map.get(item.tag.as_str()).cloned().unwrap_or(last);
+                    (last, item)
+                })
+                .collect::<Vec<_>>();
+            ranked.sort_by_key(|item| item.0);
+            children.extend(ranked.into_iter().map(|item| item.1));
         }
         Ok(())
     }
diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 366d6b6..f9adb31 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -11,7 +11,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
     ],
     "worksheet"=>&["sheetPr","dimension","sheetViews",
         "sheetFormatPr","cols","sheetData",
-        "sheetCalcPr","protectedRanges","scenarios",
+        "sheetCalcPr","sheetProtection","protectedRanges","scenarios",
         "autoFilter","sortState","dataConsolidate",
         "customSheetViews","mergeCells","phoneticPr",
         "conditionalFormatting",
@@ -19,7 +19,8 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
         "pageMargins","pageSetup","headerFooter",
         "rowBreaks","colBreaks","customProperties",
         "cellWatches","ignoredErrors","smartTags",
-        "drawing","drawingHF","picture",
+        "drawing","legacyDrawing","legacyDrawingHF",
+        "drawingHF","picture",
         "oleObjects","controls","webPublishItems",
         "tableParts","extLst",
     ],
-- 
2.43.0


From fb2517a411a10cd48500f98735bb9561fa1b60d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 36/49] fix: a row index beyond the sheet or the last possible
 sheet id in a file is an error, not a crash

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs  | 4 +++-
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index fc2e9ed..a81a48f 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -249,7 +249,9 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         attributes.insert("name".to_string(), sheet_display_name);
                         attributes.insert("r:id".to_string(), relationship_id);
                         if !attributes.contains_key("sheetId") {
-                            last_sheet_id += 1;
+                            last_sheet_id = last_sheet_id
+                                .checked_add(1)
+                                .ok_or(anyhow!("No Sheet Id Left For a New Sheet"))?;
                             attributes.insert("sheetId".to_string(), last_sheet_id.to_string());
                         }
                         if !hide {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 6ef16c3..6f73dae 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1,5 +1,5 @@
 use crate::{
-    converters::ConverterUtil,
+    converters::{ConverterUtil, MAX_ROW},
     element_dictionary::EXCEL_TYPE_COLLECTION,
     files::{OfficeDocument, XmlDocument, XmlSerializer},
     global_2007::{
@@ -928,6 +928,9 @@ fn deserialize_sheet_data(
                             Some(row_id) => row_id.parse().context("Failed to parse row id")?,
                             None => last_row_index + 1,
                         };
+                        if !(1..=MAX_ROW).contains(&row_index) {
+                            return Err(anyhow!("Row Index {} is Outside of The Sheet", row_index));
+                        }
                         last_row_index = row_index;
                         if let Some(row_span) = row_attribute.get("spans") {
                             row_record.span = Some(row_span.to_string());
-- 
2.43.0


From 54d7e7d8bcd2b0381129f94765d2ccd0fad085b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 37/49] fix: keep a part that could not be opened as it was

A worksheet or relationship part that failed to open was saved without its content.
---
 rs/src/files/office_document.rs                  | 14 +++++++++++---
 rs/src/global/global_2007/parts/relations.rs     | 13 +++++++++++--
 .../spreadsheet_2007/parts/worksheet.rs          | 16 +++++++++++++---
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index a5154e8..ec4a420 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -59,6 +59,11 @@ impl OfficeDocument {
         self.xml_document_collection.remove(file_name);
     }
 
+    /// Close the document without saving, the content of the archive stays as it is
+    pub(crate) fn discard_document_mut(&mut self, file_name: &str) {
+        self.xml_document_collection.remove(file_name);
+    }
+
     pub(crate) fn get_xml_document_ref(
         &mut self,
         file_name: &str,
@@ -92,12 +97,15 @@ impl OfficeDocument {
                 "Please close the Existing object before creating new handle"
             ));
         }
+        // The archive keeps its content until the document is closed, opening it may still fail
         if let Some((file_extension, extension_type, content_type, _, _, _, file_content)) =
-            self.archive_collection.remove(file_path)
+            self.archive_collection.get(file_path)
         {
-            let content = file_content.ok_or(anyhow!("Failed To Get content vec"))?;
+            let content = file_content
+                .as_ref()
+                .ok_or(anyhow!("Failed To Get content vec"))?;
             let decompressed_data =
-                decompress_content(&content).context("Raw Content Decompression Failed")?;
+                decompress_content(content).context("Raw Content Decompression Failed")?;
             let xml_tree: XmlDocument =
                 XmlSerializer::vec_to_xml_doc_tree(decompressed_data, file_path)
                     .context("Xml Serializer Failed")?;
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index eb8229b..f792759 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -78,11 +78,20 @@ impl RelationsPart {
     ) -> AnyResult<Self, AnyError> {
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
         let relationships =
-            Self::load_relations(&mut xml_document).context("Failed to decode Relations")?;
+            Self::load_relations(&mut xml_document).context("Failed to decode Relations");
+        if relationships.is_err() {
+            // The part stays as it was in the source file
+            if let Some(office_document) = office_document.upgrade() {
+                office_document
+                    .try_borrow_mut()
+                    .context("Failed to Pull Open XML Handle")?
+                    .discard_document_mut(file_name);
+            }
+        }
         Ok(Self {
             office_document,
             xml_document,
-            relationships,
+            relationships: relationships?,
             file_path: file_name.to_string(),
         })
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 6f73dae..7076d16 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -233,7 +233,6 @@ impl WorkSheet {
             &workbook_relationship_part,
         )
         .context("Failed to pull calc chain file name")?;
-        let xml_document = Self::get_xml_document(&office_document, &file_path)?;
         let sheet_relationship_part = Rc::new(RefCell::new(
             RelationsPart::new(
                 office_document.clone(),
@@ -241,10 +240,21 @@ impl WorkSheet {
             )
             .context("Creating Relation ship part for workbook failed.")?,
         ));
-        let (column_collection, sheet_data, sheet_views, dimension) = log_elapsed!(
+        let xml_document = Self::get_xml_document(&office_document, &file_path)?;
+        let content = log_elapsed!(
             || { Self::initialize_worksheet(&xml_document).context("Failed to open Worksheet") },
             "Worksheet Initialize Time"
-        )?;
+        );
+        if content.is_err() {
+            // The sheet stays as it was in the source file
+            if let Some(office_document) = office_document.upgrade() {
+                office_document
+                    .try_borrow_mut()
+                    .context("Failed to pull office document")?
+                    .discard_document_mut(&file_path);
+            }
+        }
+        let (column_collection, sheet_data, sheet_views, dimension) = content?;
         Ok(Self {
             office_document,
             xml_document,
-- 
2.43.0


From 2df42e0ee6b8d40a24a8c435e5fee3b15b0e647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 38/49] fix: keep the columns of every cols element of a
 worksheet

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 7076d16..b05903c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -689,10 +689,10 @@ impl WorkSheet {
 fn deserialize_cols(
     xml_doc_mut: &mut XmlDocument,
 ) -> AnyResult<Option<VecDeque<ColumnProperties>>, AnyError> {
-    if let Some(mut cols_element) = xml_doc_mut.pop_elements_by_tag_mut("cols", None) {
-        // Process the columns record if parent node exist
-        if let Some(cols) = cols_element.pop() {
-            let mut column_collection = VecDeque::with_capacity(cols.get_child_count());
+    if let Some(cols_element) = xml_doc_mut.pop_elements_by_tag_mut("cols", None) {
+        let mut column_collection = VecDeque::new();
+        // Process the columns record if parent node exist, there may be several
+        for cols in cols_element {
             loop {
                 if let Some((col_elements, _)) = cols.pop_child_mut() {
                     if let Some(col) = xml_doc_mut.pop_element_mut(&col_elements) {
@@ -746,8 +746,8 @@ fn deserialize_cols(
                     break;
                 }
             }
-            return Ok(Some(column_collection));
         }
+        return Ok(Some(column_collection));
     }
     Ok(None)
 }
-- 
2.43.0


From af8e5394d2ecd0133925fe69c8930945c64ef6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 39/49] fix: keep the extensions of a row, they were taken for
 a cell

---
 .../spreadsheet_2007/parts/worksheet.rs       | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index b05903c..a9165e4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -26,6 +26,8 @@ use std::{
 pub(crate) struct RowData {
     row_record: RowProperties,
     cell_records: Option<BTreeMap<u16, CellProperties>>,
+    // Child elements other than cells kept as found in the source file
+    source_elements: Vec<usize>,
 }
 
 #[derive(Debug)]
@@ -680,6 +682,11 @@ impl WorkSheet {
                         }
                     }
                 }
+                for element_id in db_row.source_elements {
+                    xml_doc_mut
+                        .attach_element_mut(&element_id, &row_element_id)
+                        .context("Failed to insert kept row element")?;
+                }
             }
         }
         Ok(())
@@ -1002,10 +1009,18 @@ fn deserialize_sheet_data(
                         }
                         let mut cell_records: BTreeMap<u16, CellProperties> = BTreeMap::new();
                         let mut last_col_index: u16 = 0;
+                        let mut source_elements: Vec<usize> = Vec::new();
                         // Loop All Columns of row
                         loop {
                             let mut cell_record = CellProperties::default();
-                            if let Some((col_element_id, _)) = row_element.pop_child_mut() {
+                            if let Some((col_element_id, col_element_tag)) =
+                                row_element.pop_child_mut()
+                            {
+                                // Only cells are read, extensions of the row stay as they are
+                                if col_element_tag != "c" {
+                                    source_elements.push(col_element_id);
+                                    continue;
+                                }
                                 if let Some(col_element) =
                                     xml_doc_mut.pop_element_mut(&col_element_id)
                                 {
@@ -1122,6 +1137,7 @@ fn deserialize_sheet_data(
                                 } else {
                                     None
                                 },
+                                source_elements,
                             },
                         );
                     }
@@ -1336,6 +1352,7 @@ impl WorkSheet {
                     RowData {
                         row_record: row_properties,
                         cell_records: None,
+                        source_elements: Vec::new(),
                     },
                 );
             }
@@ -1346,6 +1363,7 @@ impl WorkSheet {
                 RowData {
                     row_record: row_properties,
                     cell_records: None,
+                    source_elements: Vec::new(),
                 },
             );
             self.sheet_data = Some(map);
@@ -1472,6 +1490,7 @@ impl WorkSheet {
                     RowData {
                         row_record: RowProperties::default(),
                         cell_records: Some(cell_records),
+                        source_elements: Vec::new(),
                     },
                 );
             }
@@ -1490,6 +1509,7 @@ impl WorkSheet {
                 RowData {
                     row_record: RowProperties::default(),
                     cell_records: Some(cell_records),
+                    source_elements: Vec::new(),
                 },
             );
             self.sheet_data = Some(sheet_data);
-- 
2.43.0


From 5318e29a75d7dc98e91f6552e005698423acb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 40/49] fix: open worksheets with extensions of the sheet views

---
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index a9165e4..6229bad 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -108,12 +108,15 @@ impl Default for WorkSheetView {
 #[derive(Debug)]
 pub(crate) struct WorkSheetViews {
     view_collection: Vec<WorkSheetView>,
+    // Extensions kept as found in the source file
+    source_elements: Vec<usize>,
 }
 
 impl Default for WorkSheetViews {
     fn default() -> Self {
         Self {
             view_collection: vec![WorkSheetView::default()],
+            source_elements: Vec::new(),
         }
     }
 }
@@ -533,6 +536,11 @@ impl WorkSheet {
                 break;
             }
         }
+        for element_id in self.sheet_views.source_elements.drain(..) {
+            xml_doc_mut
+                .attach_element_mut(&element_id, &sheet_views_id)
+                .context("Failed to insert kept sheetViews element")?;
+        }
         Ok(())
     }
 
@@ -771,9 +779,9 @@ fn deserialize_worksheet_views(
             worksheet_views.view_collection.clear();
             loop {
                 if let Some((element_id, element_tag)) = sheet_views_element.pop_child_mut() {
-                    // Validate element that are not accounted
                     if element_tag != "sheetView" {
-                        return Err(anyhow!("Failed to Process Sheet Views child"));
+                        // Extensions stay as they are
+                        worksheet_views.source_elements.push(element_id);
                     } else {
                         let sheet_view_element = xml_doc_mut
                             .get_element(&element_id)
-- 
2.43.0


From 1af02dbe76eaa13117e82fada4ee75d60f3c798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 41/49] fix: a file that holds no workbook, or a part that
 starts with another element, is an error and not edited

---
 .../global/global_2007/parts/content_types.rs  |  3 +++
 rs/src/global/global_2007/parts/relations.rs   |  1 +
 rs/src/global/global_2007/traits/xml_parts.rs  | 18 ++++++++++++++++++
 rs/src/spreadsheet/spreadsheet_2007/excel.rs   |  5 +++++
 .../spreadsheet_2007/parts/workbook.rs         | 14 ++++++++++++++
 .../spreadsheet_2007/parts/worksheet.rs        |  1 +
 .../spreadsheet_2007/services/share_string.rs  |  1 +
 .../spreadsheet_2007/services/style.rs         |  1 +
 8 files changed, 44 insertions(+)

diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 6b3c0ff..db962dd 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -16,6 +16,9 @@ impl ContentTypesPart {
         let xml_document =
             XmlSerializer::vec_to_xml_doc_tree(xml_file_content, "Default Content Type")
                 .context("Decoding Content Type Failed")?;
+        if xml_document.get_root().map(|root| root.get_tag()) != Some("Types") {
+            return Err(anyhow!("The file holds no content types"));
+        }
         Ok(Self { xml_document })
     }
     pub(crate) fn get_extensions(&mut self) -> AnyResult<Option<Vec<(String, String)>>, AnyError> {
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index f792759..f923093 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -103,6 +103,7 @@ impl RelationsPart {
         xml_document: &mut Weak<RefCell<XmlDocument>>,
     ) -> AnyResult<Vec<(String, String, String, Option<String>)>, AnyError> {
         let mut relationships = Vec::new();
+        Self::check_root(xml_document, "Relationships")?;
         if let Some(xml_document) = xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
diff --git a/rs/src/global/global_2007/traits/xml_parts.rs b/rs/src/global/global_2007/traits/xml_parts.rs
index 5441f37..4a2937e 100644
--- a/rs/src/global/global_2007/traits/xml_parts.rs
+++ b/rs/src/global/global_2007/traits/xml_parts.rs
@@ -49,6 +49,24 @@ pub(crate) trait XmlDocumentPartCommon {
                 xml_document,
             )
     }
+    /// Only a part with the expected root can be understood, anything else must not be edited
+    fn check_root(
+        xml_document: &Weak<RefCell<XmlDocument>>,
+        tag: &str,
+    ) -> AnyResult<(), AnyError> {
+        if let Some(xml_document) = xml_document.upgrade() {
+            let xml_document = xml_document.try_borrow().context("xml doc borrow failed")?;
+            let root = xml_document.get_root().ok_or(anyhow!("No Root Element"))?;
+            if root.get_tag() != tag {
+                return Err(anyhow!(
+                    "The part starts with {} instead of {}",
+                    root.get_tag(),
+                    tag
+                ));
+            }
+        }
+        Ok(())
+    }
     /// Initialize the content if not already exist . // File Content , Content Type, File Extension, Extension Type
     fn initialize_content_xml() -> AnyResult<(XmlDocument, Option<String>, String, String), AnyError>;
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/excel.rs b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
index 97ee5a5..4e11f98 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/excel.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
@@ -59,6 +59,11 @@ impl Excel {
                     Rc::downgrade(&root_relations),
                 )
                 .context("Creating Core Property Part Failed.")?;
+                if file_name.is_some()
+                    && !WorkbookPart::is_available(&office_document, &root_relations)?
+                {
+                    return Err(anyhow!("The file holds no workbook"));
+                }
                 let workbook = WorkbookPart::new(
                     Rc::downgrade(&office_document),
                     Rc::downgrade(&root_relations),
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index a81a48f..6a195b5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -300,6 +300,7 @@ impl XmlDocumentPart for WorkbookPart {
                     .context("Failed to pull workbook file name")?
                     .to_string();
                 let mut file_tree = Self::get_xml_document(&office_document, &file_name)?;
+                Self::check_root(&file_tree, "workbook").context("Reading Workbook Failed")?;
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
@@ -537,6 +538,19 @@ impl WorkbookPart {
 
 // ############################# im-mut Function ######################################
 impl WorkbookPart {
+    /// Whether the source file holds a workbook
+    pub(crate) fn is_available(
+        office_document: &Rc<RefCell<OfficeDocument>>,
+        root_relations: &Rc<RefCell<RelationsPart>>,
+    ) -> AnyResult<bool, AnyError> {
+        let file_name = Self::get_workbook_file_name(&Rc::downgrade(root_relations))
+            .context("Failed to pull workbook file name")?;
+        Ok(office_document
+            .try_borrow()
+            .context("Failed to pull office document")?
+            .check_file_exist(file_name))
+    }
+
     fn get_workbook_file_name(
         relations_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<String, AnyError> {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 6229bad..015d7dc 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -287,6 +287,7 @@ impl WorkSheet {
         ),
         AnyError,
     > {
+        Self::check_root(xml_document, "worksheet")?;
         if let Some(xml_document) = xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 2425db4..5a0e4b1 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -132,6 +132,7 @@ impl XmlDocumentPart for ShareStringPart {
             .context("Failed to pull share string file name")?
             .to_string();
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
+        Self::check_root(&xml_document, "sst")?;
         let share_string_collection = Self::load_content_to_database(&mut xml_document)
             .context("Load Share String To DB Failed")?;
         Ok(Self {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 867a9cc..8b7e42d 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -104,6 +104,7 @@ impl XmlDocumentPart for StylePart {
             .context("Failed to pull style file name")?
             .to_string();
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
+        Self::check_root(&xml_document, "styleSheet")?;
         let (
             number_format_collection,
             font_collection,
-- 
2.43.0


From 517808d5cc911d7fbb3c511332cd6ff1f8635c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 42/49] fix: a font of an opened file without name, size or
 color is not taken for one with the defaults

---
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 8b7e42d..d3a1991 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -224,7 +224,16 @@ impl StylePart {
                             let font = xml_doc_mut
                                 .pop_element_mut(&font_id)
                                 .ok_or(anyhow!("Element not Found Error"))?;
-                            let mut font_style = FontStyle::default();
+                            // What a font leaves open is not what the defaults say
+                            let mut font_style = FontStyle {
+                                name: String::new(),
+                                size: 0,
+                                color: ColorSetting {
+                                    value: String::new(),
+                                    ..Default::default()
+                                },
+                                ..Default::default()
+                            };
                             loop {
                                 if let Some((item_id, _)) = font.pop_child_mut() {
                                     let current_element = xml_doc_mut
-- 
2.43.0


From 5781a84f4530dc8048a7dd1ac59ba1de02976eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 43/49] fix: keep the formula of a cell with an inline string

---
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 015d7dc..642628e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -648,6 +648,12 @@ impl WorkSheet {
                                     .attach_element_mut(element_id, &cell_id)
                                     .is_err()
                         });
+                        if let Some(formula) = cell_record.formula {
+                            let formula_element = xml_doc_mut
+                                .append_child_mut("f", Some(&cell_id))
+                                .context("Failed to insert formula element")?;
+                            formula_element.set_value_mut(formula);
+                        }
                         match cell_record.data_type {
                             CellDataType::InlineString
                                 if source_elements.iter().any(|(_, tag)| tag == "is") => {}
@@ -668,12 +674,6 @@ impl WorkSheet {
                                 );
                             }
                             _ => {
-                                if let Some(formula) = cell_record.formula {
-                                    let formula_element = xml_doc_mut
-                                        .append_child_mut("f", Some(&cell_id))
-                                        .context("Failed to insert Inline string element")?;
-                                    formula_element.set_value_mut(formula);
-                                }
                                 xml_doc_mut
                                     .append_child_mut("v", Some(&cell_id))
                                     .context("Failed to insert Inline string element")?
-- 
2.43.0


From d4906e8fc145fc54b16dd680f396d4bce2d2abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:33 +0000
Subject: [PATCH 44/49] fix: an open sheet without unsaved content does not
 stop the workbook from being saved

---
 rs/src/spreadsheet/spreadsheet_2007/excel.rs  |  2 +-
 .../spreadsheet_2007/parts/workbook.rs        | 15 +++++++++----
 .../spreadsheet_2007/parts/worksheet.rs       | 21 +++++++++++++++++++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/excel.rs b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
index 4e11f98..0609d8e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/excel.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/excel.rs
@@ -160,7 +160,7 @@ impl Excel {
         log_elapsed!(
             || {
                 // Rows of an open sheet are still with its handle
-                if self.workbook.has_open_sheet() {
+                if self.workbook.has_unsaved_sheet() {
                     return Err(anyhow!("Close every sheet before saving the file"));
                 }
                 self.workbook.flush()?;
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 6a195b5..4f29876 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -30,6 +30,8 @@ pub struct WorkbookPart {
     workbook_relationship_part: Rc<RefCell<RelationsPart>>,
     theme_part: ThemePart,
     sheet_collection: Rc<RefCell<Vec<SheetRecord>>>,
+    // Shared by every open sheet whose content is not in its document
+    unsaved_token: Rc<()>,
     workbook_view: Option<WorkbookView>,
 }
 
@@ -347,6 +349,7 @@ impl XmlDocumentPart for WorkbookPart {
                     workbook_relationship_part,
                     theme_part,
                     sheet_collection: Rc::new(RefCell::new(sheet_collection)),
+                    unsaved_token: Rc::new(()),
                     workbook_view,
                 })
             },
@@ -572,8 +575,8 @@ impl WorkbookPart {
     }
 
     /// Sheet handles refer to the sheet collection as long as they are open
-    pub(crate) fn has_open_sheet(&self) -> bool {
-        Rc::weak_count(&self.sheet_collection) > 0
+    pub(crate) fn has_unsaved_sheet(&self) -> bool {
+        Rc::strong_count(&self.unsaved_token) > 1
     }
 
     pub(crate) fn list_sheet_names(&self) -> AnyResult<Vec<String>, AnyError> {
@@ -598,6 +601,7 @@ impl WorkbookPart {
             Rc::downgrade(&self.sheet_collection),
             Rc::downgrade(&self.workbook_relationship_part),
             Rc::downgrade(&self.common_service),
+            Rc::downgrade(&self.unsaved_token),
             sheet_name,
         )
         .context("Worksheet Creation Failed")?)
@@ -615,14 +619,17 @@ impl WorkbookPart {
                 {
                     return Err(anyhow!("Sheet not found in the stack"));
                 }
-                WorkSheet::new(
+                let mut worksheet = WorkSheet::new(
                     self.office_document.clone(),
                     Rc::downgrade(&self.sheet_collection),
                     Rc::downgrade(&self.workbook_relationship_part),
                     Rc::downgrade(&self.common_service),
+                    Rc::downgrade(&self.unsaved_token),
                     Some(sheet_name.to_string()),
                 )
-                .context("Worksheet Creation Failed")
+                .context("Worksheet Creation Failed")?;
+                worksheet.hold_content_mut();
+                Ok(worksheet)
             },
             "Get Exiting Workbook"
         )
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 642628e..dfbaf17 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -128,6 +128,9 @@ pub struct WorkSheet {
     common_service: Weak<RefCell<CommonServices>>,
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
     sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
+    // Held while the sheet has content that is not in its document
+    unsaved_token: Weak<()>,
+    unsaved_content: Option<Rc<()>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
     dimension: Dimension,
     // sheet_property: Option<_>,
@@ -226,6 +229,7 @@ impl WorkSheet {
         sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: Weak<RefCell<RelationsPart>>,
         common_service: Weak<RefCell<CommonServices>>,
+        unsaved_token: Weak<()>,
         sheet_name: Option<String>,
     ) -> AnyResult<Self, AnyError> {
         if let Some(sheet_name) = &sheet_name {
@@ -269,6 +273,8 @@ impl WorkSheet {
             dimension,
             sheet_views,
             sheet_collection,
+            unsaved_token,
+            unsaved_content: None,
             column_collection,
             sheet_data,
             file_path: file_path.to_string(),
@@ -276,6 +282,11 @@ impl WorkSheet {
         })
     }
 
+    /// Note that the document of the sheet misses content till the sheet is closed
+    pub(crate) fn hold_content_mut(&mut self) {
+        self.unsaved_content = self.unsaved_token.upgrade();
+    }
+
     fn initialize_worksheet(
         xml_document: &Weak<RefCell<XmlDocument>>,
     ) -> AnyResult<
@@ -307,6 +318,12 @@ impl WorkSheet {
                 },
                 "Sheet Data Deserialize"
             )?;
+            // The document of a sheet without rows is complete while the sheet is open
+            if sheet_data.as_ref().map_or(true, |rows| rows.is_empty()) {
+                xml_doc_mut
+                    .insert_children_after_tag_mut("sheetData", "cols", None)
+                    .context("Failed to Insert Sheet Data Element")?;
+            }
             let worksheet_views = log_elapsed!(
                 || {
                     deserialize_worksheet_views(&mut xml_doc_mut)
@@ -547,6 +564,7 @@ impl WorkSheet {
 
     fn serialize_sheet_data(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
         if let Some(sheet_data) = self.sheet_data.take() {
+            xml_doc_mut.pop_elements_by_tag_mut("sheetData", None);
             let sheet_data_id = xml_doc_mut
                 .insert_children_after_tag_mut("sheetData", "cols", None)
                 .context("Failed to Insert Cols Element")?
@@ -1299,6 +1317,7 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
+        self.hold_content_mut();
         ConverterUtil::validate_position(1, *col_index, 1)
             .context("Failed to set column property")?;
         {
@@ -1350,6 +1369,7 @@ impl WorkSheet {
         row_index: &u32,
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
+        self.hold_content_mut();
         ConverterUtil::validate_position(*row_index, 1, 1)
             .context("Failed to set row property")?;
         if let Some(sheet_data) = self.sheet_data.as_mut() {
@@ -1398,6 +1418,7 @@ impl WorkSheet {
         mut col_index: u16,
         mut column_cell: Vec<CellProperties>,
     ) -> AnyResult<(), AnyError> {
+        self.hold_content_mut();
         ConverterUtil::validate_position(row_index, col_index, column_cell.len())
             .context("Failed to set row value")?;
         for text in column_cell
-- 
2.43.0


From 47226d46a8bce881236c642560ee4ae54a8cdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 45/49] fix: a call of the foreign interface that failed does
 not report success

---
 rs_ffi/src/document/word.rs            | 2 +-
 rs_ffi/src/presentation/power_point.rs | 2 +-
 rs_ffi/src/spreadsheet/excel.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs_ffi/src/document/word.rs b/rs_ffi/src/document/word.rs
index be1f0a2..bee025f 100644
--- a/rs_ffi/src/document/word.rs
+++ b/rs_ffi/src/document/word.rs
@@ -83,7 +83,7 @@ pub extern "C" fn word_save_as(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
diff --git a/rs_ffi/src/presentation/power_point.rs b/rs_ffi/src/presentation/power_point.rs
index 507b69a..cd2d2a1 100644
--- a/rs_ffi/src/presentation/power_point.rs
+++ b/rs_ffi/src/presentation/power_point.rs
@@ -83,7 +83,7 @@ pub extern "C" fn power_point_save_as(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
diff --git a/rs_ffi/src/spreadsheet/excel.rs b/rs_ffi/src/spreadsheet/excel.rs
index 639f229..a8cffc2 100644
--- a/rs_ffi/src/spreadsheet/excel.rs
+++ b/rs_ffi/src/spreadsheet/excel.rs
@@ -153,7 +153,7 @@ pub extern "C" fn excel_rename_sheet(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
-- 
2.43.0


From 4538d42a905afb940c62ce4bcaec5233957cea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 46/49] fix: italic and underline asked for through the foreign
 interface are not taken from bold

---
 rs_ffi/src/spreadsheet/excel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs_ffi/src/spreadsheet/excel.rs b/rs_ffi/src/spreadsheet/excel.rs
index a8cffc2..5291d5f 100644
--- a/rs_ffi/src/spreadsheet/excel.rs
+++ b/rs_ffi/src/spreadsheet/excel.rs
@@ -285,9 +285,9 @@ pub extern "C" fn get_style_id_mut(
                 // style_setting.text_color = text_color;
             }
             style_setting.is_bold = fbs_style_setting.is_bold();
-            style_setting.is_italic = fbs_style_setting.is_bold();
-            style_setting.is_underline = fbs_style_setting.is_bold();
-            style_setting.is_double_underline = fbs_style_setting.is_bold();
+            style_setting.is_italic = fbs_style_setting.is_italic();
+            style_setting.is_underline = fbs_style_setting.is_underline();
+            style_setting.is_double_underline = fbs_style_setting.is_double_underline();
             // fill
             // xfs
             style_setting.background_color =
-- 
2.43.0


From 3636c087f0ec3b1b17b2106df94eddba8f974b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 47/49] fix: keep the phonetic flag of a cell spelled out as
 true

---
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index dfbaf17..7db53aa 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1092,11 +1092,14 @@ fn deserialize_sheet_data(
                                             )?);
                                     };
                                     if let Some(place_holder) = cell_attribute.get("ph") {
-                                        cell_record.place_holder = if place_holder == "1" {
-                                            Some(true)
-                                        } else {
-                                            None
-                                        };
+                                        cell_record.place_holder =
+                                            if ConverterUtil::normalize_bool_property_bool(
+                                                place_holder,
+                                            ) {
+                                                Some(true)
+                                            } else {
+                                                None
+                                            };
                                     };
                                     loop {
                                         if let Some((cell_child_id, cell_child_tag)) =
-- 
2.43.0


From d0ce484c966f4c030fa0c1928cb4c864212dcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:31 +0000
Subject: [PATCH 48/49] fix: parts whose name holds _rels keep their
 relationships

---
 rs/src/global/global_2007/parts/relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index f923093..8d94eb8 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -151,7 +151,7 @@ impl RelationsPart {
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .rfind("_rels")
+            .rfind("_rels/")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
-- 
2.43.0


From 2d1b326f88828b60ccd97be61518e828b092190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:07 +0000
Subject: [PATCH 49/49] fix: find parts whose names differ from their
 relationship by letter case alone

---
 rs/src/files/office_document.rs              | 17 +++++++++++++--
 rs/src/global/global_2007/parts/relations.rs | 23 +++++++++++++++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index ec4a420..de4eeba 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -49,8 +49,21 @@ impl OfficeDocument {
     }
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
-        self.archive_collection.contains_key(&file_path)
-            || self.xml_document_collection.contains_key(&file_path)
+        self.find_file_name(&file_path).is_some()
+    }
+
+    /// Name of the part as it is stored, names of parts do not differ by case alone
+    pub(crate) fn find_file_name(&self, file_path: &str) -> Option<String> {
+        if self.archive_collection.contains_key(file_path)
+            || self.xml_document_collection.contains_key(file_path)
+        {
+            return Some(file_path.to_string());
+        }
+        self.archive_collection
+            .keys()
+            .chain(self.xml_document_collection.keys())
+            .find(|name| name.eq_ignore_ascii_case(file_path))
+            .cloned()
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 8d94eb8..968f9a7 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -76,6 +76,7 @@ impl RelationsPart {
         office_document: Weak<RefCell<OfficeDocument>>,
         file_name: &str,
     ) -> AnyResult<Self, AnyError> {
+        let file_name = Self::get_file_name(&office_document, file_name.to_string());
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
         let relationships =
             Self::load_relations(&mut xml_document).context("Failed to decode Relations");
@@ -85,14 +86,14 @@ impl RelationsPart {
                 office_document
                     .try_borrow_mut()
                     .context("Failed to Pull Open XML Handle")?
-                    .discard_document_mut(file_name);
+                    .discard_document_mut(&file_name);
             }
         }
         Ok(Self {
             office_document,
             xml_document,
             relationships: relationships?,
-            file_path: file_name.to_string(),
+            file_path: file_name,
         })
     }
 }
@@ -175,7 +176,23 @@ impl RelationsPart {
                 segments.push(segment);
             }
         }
-        Ok(segments.join("/"))
+        Ok(Self::get_file_name(
+            &self.office_document,
+            segments.join("/"),
+        ))
+    }
+
+    /// Name of the part as the package stores it
+    fn get_file_name(office_document: &Weak<RefCell<OfficeDocument>>, file_path: String) -> String {
+        office_document
+            .upgrade()
+            .and_then(|document| {
+                document
+                    .try_borrow()
+                    .ok()
+                    .and_then(|document| document.find_file_name(&file_path))
+            })
+            .unwrap_or(file_path)
     }
 
     pub(crate) fn get_target_by_id(
-- 
2.43.0

