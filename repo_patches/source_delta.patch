From 47106a63863b3ddeb3cad3ac63fa744bcc36d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 01/12] fix: abbreviate() no longer slices inside a multi-byte
 character

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1649a13..cc09deb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,12 +603,14 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 
 /// abbreviates long strings with ...
 fn abbreviate(text: &str, limit: usize) -> String {
-	if limit < 4 || text.len() <= limit {
+	// count and cut by characters, not bytes (byte offsets may not be char boundaries)
+	let length = text.chars().count();
+	if limit < 4 || length <= limit {
 		text.to_string()
 	} else {
-		let mut buffer = (&text[0..(limit / 2 - 1)]).to_string();
+		let mut buffer: String = text.chars().take(limit / 2 - 1).collect();
 		buffer.push_str("…");
-		buffer.push_str(&text[(text.len() - limit / 2)..]);
+		buffer.extend(text.chars().skip(length - limit / 2));
 		buffer
 	}
 }
-- 
2.43.0


From 54cfc8e763300b3fb58c2f7492cd023806fe941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 02/12] fix: unescape() advances its cursor by the character it
 wrote, not by the last one it scanned

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cc09deb..ebfeac5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,7 +289,6 @@ pub fn unescape(text: impl Into<String>) -> String {
 				let slice = (&buffer[i..]).to_string();
 				let mut char_size: usize = 1;
 				for (j, k) in slice.char_indices() {
-					char_size = k.len_utf8();
 					if k == ';' {
 						let end = i + j + 1;
 						let slice = &slice[..j];
@@ -324,6 +323,8 @@ pub fn unescape(text: impl Into<String>) -> String {
 								Err(_) => { /* do nothing */ }
 							}
 						}
+						// the entity ends at the first ';'
+						break;
 					}
 				}
 				last_i = i+char_size;
-- 
2.43.0


From ebf232c41ef58ca85320a91256cb87d4d376fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 03/12] fix: Declaration::from_str("<?>") returns an error
 instead of panicking

---
 src/dom.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 62c623d..c9ade87 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2036,10 +2036,9 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.starts_with("<?") && buffer.ends_with("?>"){
-			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
-		} else {
-			Err(ParsingError::new("Invalid XML declaration syntax").into())
+		match buffer.strip_prefix("<?").and_then(|s| s.strip_suffix("?>")) {
+			Some(content) => Ok(Self{decl_str: content.to_string()}),
+			None => Err(ParsingError::new("Invalid XML declaration syntax").into())
 		}
 	}
 	/// Creates a new standard Declaration (UTF-8 encoded XML version 1)
-- 
2.43.0


From d12ed5f38469618074640208455c708fde39c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 04/12] fix: Element::insert applies the namespace context to
 the inserted node

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index c9ade87..5e848be 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1278,7 +1278,7 @@ impl Element {
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
 			self.default_namespace(), self.xmlns_context.clone(),
-			self.child_nodes.last_mut().unwrap()
+			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
-- 
2.43.0


From 0540fed6c3afe8405114f6c63f570eb54b0cbab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 05/12] fix: DTD is written back with its <!DOCTYPE ...>
 delimiters

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 5e848be..86861b3 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2088,6 +2088,6 @@ impl DTD {
 
 impl std::fmt::Display for DTD {
 	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-		write!(f, "{}", self.dtd_str)
+		write!(f, "<!DOCTYPE{}>", self.dtd_str)
 	}
 }
-- 
2.43.0


From b7aab5342f2adfc985deb6e5bf8b84494680b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 06/12] fix: an XML declaration after a leading DTD or comment
 is an error, wherever that item starts

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ebfeac5..e92956d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -409,7 +409,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		}
 		let slice = &buffer[tag_start..tag_end];
 		if slice.starts_with("<?xml") {
-			if tag_span.0 != 0 {
+			if tag_span.1 != 0 {
 				let (line, col) = line_and_column(&buffer, tag_start);
 				return Err(errors::ParsingError::new(format!(
 					"<?xml ...?> declaration must at start of XML (syntax error on line {line}, column {col})"
-- 
2.43.0


From 2e19a571875a728d95233521fdf6d6668afe8cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 07/12] fix: a second root element is an error instead of
 overwriting the first

---
 src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e92956d..e3a8a63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -453,8 +453,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	let root_slice = &buffer[tag_span.0 .. tag_span.1];
 	let root_element: dom::Element = parse_new_element(strip_tag(root_slice).as_str(), &buffer, &tag_span, None)?;
 	parse_stack.push(root_element);
-	let selfclosing_root = root_slice.ends_with("/>");
-	if selfclosing_root {parse_stack.pop()?;}  // pop root if it is  self-closing
+	if root_slice.ends_with("/>") {parse_stack.pop()?;}  // pop root if it is  self-closing
 	let mut last_span: (usize, usize);
 	loop {
 		// find next tag
@@ -470,8 +469,8 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		} else {
 			// next tag
-			if selfclosing_root {
-				// next tag not allowed
+			if parse_stack.empty_stack() {
+				// root element already closed, next tag not allowed
 				let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
 				return Err(errors::ParsingError::new(format!(
 					"only 1 root element is allowed (syntax error on line {line}, column {col})"
-- 
2.43.0


From 12ba3dfeaf7a9139f834cd36a1ca141ac005f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 08/12] fix: text after the root element is an error instead of
 being dropped

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e3a8a63..37ec42a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -460,6 +460,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		let next_span = next_tag(&buffer, tag_span.1);
 		if next_span.0.is_none() {
 			// EoF
+			if real_text(&buffer[tag_span.1..]).is_some() {
+				let (line, col) = line_and_column(&buffer, tag_span.1);
+				return Err(errors::ParsingError::new(format!(
+					"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+				)).into());
+			}
 			break
 		} else if next_span.1.is_none() {
 			// broken tag?
-- 
2.43.0


From 438cd4a790537abf8fcaf48065a74f1e561c72cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 09/12] fix: comments whose content starts with '>' or '->' are
 read back as written

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 37ec42a..3fb9b69 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -764,7 +764,8 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	let sub_buffer = &buffer[start_index..];
 	if sub_buffer.starts_with("<!--") {
 		// comment
-		return (start, sub_buffer.find("-->").map(|i|i+start_index+3));
+		// the closing --> must not overlap the opening <!--
+		return (start, (&sub_buffer[4..]).find("-->").map(|i|i+start_index+7));
 	} else if sub_buffer.starts_with("<?") {
 		// declaration, look for ?> but handle quoting
 		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
-- 
2.43.0


From 28fe6ebe8e5385f19df572364cd8e22b633f1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 10/12] fix: element and attribute names containing markup
 characters are rejected

---
 src/dom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 86861b3..d6cbe67 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -982,7 +982,7 @@ impl Element {
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
 		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(r#"^[_a-zA-Z][^\s<>&"'=/]*$"#).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
@@ -996,7 +996,7 @@ impl Element {
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
 		let singleton = Element::NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(r#"^[_a-zA-Z][^\s<>&"'=/]*$"#).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
-- 
2.43.0


From b91041e79470ccfe25c66ad37db9d2ddf72f1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 11/12] fix: namespace prefixes containing markup characters
 are rejected

---
 src/dom.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index d6cbe67..4b7935c 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -442,6 +442,9 @@ impl Element {
 		// sanity check
 		let name = name.into();
 		Element::check_elem_name(name.as_str())?;
+		if let Some(prefix) = &xmlns_prefix {
+			Element::check_prefix(prefix.as_str())?;
+		}
 		// first, convert attributes to <String,String> map
 		let mut attrs: HashMap<String, String> = HashMap::new();
 		match attributes {
@@ -1004,6 +1007,18 @@ impl Element {
 			Err(InvalidElementName::new(format!("'{}' is not a valid name", name)))
 		}
 	}
+	const PREFIX_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
+	fn check_prefix(prefix: &str) -> Result<(), InvalidElementName> {
+		let singleton = Element::PREFIX_CHECKER_SINGLETON;
+		let checker = singleton.get_or_init(
+			|| Regex::new(r#"^[^\s<>&"'=/]*$"#).unwrap()
+		);
+		if checker.is_match(prefix) {
+			Ok(())
+		} else {
+			Err(InvalidElementName::new(format!("'{}' is not a valid namespace prefix", prefix)))
+		}
+	}
 	/** Deletes an attribute from this element */
 	pub fn remove_attr(&mut self, attr_name: impl Into<String>) -> Option<String> {
 		let n: String = attr_name.into();
-- 
2.43.0


From 628eee0e2469d5c560e7a31d6554268d2fe5dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:35 +0000
Subject: [PATCH 12/12] fix: line and column of an error are those of the
 position itself, not of the character after it

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3fb9b69..ca2f9f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -891,12 +891,12 @@ fn line_and_column(text: &String, pos: usize) -> (usize, usize){
 	let mut line = 1;
 	let mut col = 1;
 	for (i, c) in text.char_indices(){
+		if i >= pos {break;}
 		col += 1;
 		if c == '\n' {
 			line += 1;
 			col = 1;
 		}
-		if i >= pos {break;}
 	}
 	(line, col)
 }
-- 
2.43.0

