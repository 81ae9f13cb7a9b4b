From bca4757aa3a1416756cf027ff0ad5e1ebd796027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:02 +0000
Subject: [PATCH 01/16] fix: return I/O errors from parse_file instead of
 panicking

A relative path that cannot be resolved and a read error (or invalid UTF-8) in
the middle of the file hit an unwrap. Let the system resolve relative paths when
opening, and propagate read errors.
---
 src/parser.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 80657f3..22b5f94 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -10,7 +10,6 @@ use std::fmt;
 use std::rc::{Rc, Weak};
 use std::{
 	cell::{Ref, RefCell},
-	env,
 	fs::File,
 	io::prelude::*,
 	io::BufReader,
@@ -1783,19 +1782,14 @@ impl Doc {
 	where
 		P: AsRef<Path>,
 	{
-		let file_path = filename.as_ref();
-		let file_path = if file_path.is_absolute() {
-			file_path.to_path_buf()
-		} else {
-			env::current_dir()?.join(filename).canonicalize().unwrap()
-		};
-		let file = File::open(file_path)?;
+		// a relative path is resolved against the working directory by the system itself
+		let file = File::open(filename)?;
 		let file = BufReader::new(file);
 		let mut doc = Doc::new();
 		let mut content = String::with_capacity(500);
 		doc.parse_options = options;
 		for line in file.lines() {
-			let line_content = line.unwrap();
+			let line_content = line?;
 			content.push_str(&line_content);
 			for c in line_content.chars() {
 				doc.next(c, &content)?;
-- 
2.43.0


From c28699a0fa91bc21c45dd9729114b0ad915768a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:14 +0000
Subject: [PATCH 02/16] fix: keep line breaks in the context used for error
 positions of parse_file

The text handed to error reporting lacked the newlines that were fed to the
parser, so line and column of every error after the first line were wrong.
---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 22b5f94..4e0d436 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1794,6 +1794,7 @@ impl Doc {
 			for c in line_content.chars() {
 				doc.next(c, &content)?;
 			}
+			content.push('\n');
 			doc.next('\n', &content)?;
 		}
 		doc.eof(&content)?;
-- 
2.43.0


From ba96153d7a006c2178ae6e76feddfe556e7900ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 03/16] fix: keep the tag name and attribute cut off by the end
 of input

Input ending inside a tag name left an element without meta data, which panicked
in eof or when rendering; ending inside an attribute left an attribute with an
empty name and lost the value.
---
 src/parser.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4e0d436..d240bc4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2008,8 +2008,32 @@ impl Doc {
 		Ok(())
 	}
 
+	// keep the tag name or the attribute that is cut off by the end of the doc
+	fn finish_cut_off_tag(&mut self) {
+		let tag_code_in = self
+			.current_node
+			.borrow()
+			.meta
+			.as_ref()
+			.map(|meta| meta.borrow().code_in.clone());
+		match tag_code_in {
+			None => {
+				self.set_tag_meta();
+			}
+			Some(TagCodeIn::Key) => self.set_tag_attr_key(),
+			Some(TagCodeIn::Value) => {
+				let quote = Some(self.mark_char).filter(|&quote| quote != WS_CHAR);
+				self.set_tag_attr_value(quote);
+			}
+			_ => {}
+		}
+	}
+
 	// end of the doc
 	fn eof(&mut self, context: &str) -> HResult {
+		if matches!(self.code_in, CodeTypeIn::Tag) {
+			self.finish_cut_off_tag();
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From bbbd6c56cc7b5fb3797fd6d74f393de908782c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:43 +0000
Subject: [PATCH 04/16] fix: don't add an end tag to a void element that is cut
 off by the end of input

'<br' was repaired to '<br></br>', which a strict parse refuses.
---
 src/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d240bc4..b4a9187 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1918,12 +1918,14 @@ impl Doc {
 			if let Some(meta) = &tag_node.borrow_mut().meta {
 				// set it's meta as auto fix
 				meta.borrow_mut().auto_fix = true;
-				// make end tag
-				let tag_name = &meta.borrow().name;
-				let mut end = Node::new(NodeType::TagEnd, self.position);
-				end.content = Some(tag_name.clone());
-				end.parent = Some(Rc::downgrade(tag_node));
-				end_tag = Some(end);
+				// make end tag, void elements don't have one
+				if !meta.borrow().is_void {
+					let tag_name = &meta.borrow().name;
+					let mut end = Node::new(NodeType::TagEnd, self.position);
+					end.content = Some(tag_name.clone());
+					end.parent = Some(Rc::downgrade(tag_node));
+					end_tag = Some(end);
+				}
 			}
 			if let Some(end_tag) = end_tag {
 				tag_node.borrow_mut().end_tag = Some(Rc::new(RefCell::new(end_tag)));
-- 
2.43.0


From fc6b4f449225f036f15859592e841d08c3410503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:02 +0000
Subject: [PATCH 05/16] fix: don't close the parent element at a self-closed
 doctype

'<!DOCTYPE html/>' popped the enclosing element, or the root itself, from the
chain; the next node then panicked or was put under the wrong parent.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b4a9187..5c8387b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1112,7 +1112,10 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
-			doc.chain_nodes.pop();
+			// a doctype is never added to the chain nodes
+			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				doc.chain_nodes.pop();
+			}
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
-- 
2.43.0


From 203dfa1f9d02acbfe548f046432d11021cbdf76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:03 +0000
Subject: [PATCH 06/16] fix: leave svg and math also when the end tag differs
 in case

After '<svg></SVG>' the parser still believed it was inside svg and panicked at
a following '<![CDATA['.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5c8387b..7c692f8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1364,7 +1364,7 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.set_code_in(Unkown);
 				// end of special tag
 				if doc.in_special.is_some()
-					&& is_equal_chars(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name, &None)
+					&& is_equal_chars_ignore_case(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name).0
 				{
 					doc.in_special = None;
 				}
-- 
2.43.0


From 7211cc616cc9c08063cdd6a611b646b702585dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:04 +0000
Subject: [PATCH 07/16] fix: don't overflow when cloning a node with moved or
 created children

A child whose offset lies before the cloned node (a node made by
create_text_node or moved from another place) made the offset subtraction
overflow: a panic in debug builds, a huge offset in release builds.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7c692f8..9e0a0ee 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -506,8 +506,8 @@ impl Node {
 	// clone node but without childs
 	fn clone_node_without_childs(&self, reduce_code_at: usize) -> RefNode {
 		Rc::new(RefCell::new(Node {
-			begin_at: self.begin_at - reduce_code_at,
-			end_at: self.end_at - reduce_code_at,
+			begin_at: self.begin_at.saturating_sub(reduce_code_at),
+			end_at: self.end_at.saturating_sub(reduce_code_at),
 			index: 0,
 			node_type: self.node_type,
 			root: self.root.clone(),
-- 
2.43.0


From 0c15f314d3e924c8aba174140721663f8e48b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:43 +0000
Subject: [PATCH 08/16] fix: add the text of an unescaped '<' like any other
 text node

The text node made for an unescaped '<' had no parent and root links, and went
into the last element even when that element is void or raw text and already
closed ('<br><<').
---
 src/parser.rs | 46 ++++++----------------------------------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9e0a0ee..842a86b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1938,8 +1938,6 @@ impl Doc {
 	// fix unescaped left angle bracket
 	fn fix_unescaped_lt(&mut self, c: char, context: &str) -> HResult {
 		let mut chars = vec!['&', 'l', 't', ';'];
-		let mut parent: Option<RefNode> = None;
-		let mut need_parent = false;
 		let node_type = self.current_node.borrow().node_type;
 		let is_end_text = c == TAG_BEGIN_CHAR;
 		if !is_end_text {
@@ -1959,47 +1957,15 @@ impl Doc {
 					self.current_node.borrow_mut().node_type = NodeType::Text;
 				}
 			}
-			NodeType::Tag => {
-				// tag, check if auto fix or self closing
-				let is_closed = self
-					.current_node
-					.borrow()
-					.meta
-					.as_ref()
-					.map_or(false, |meta| {
-						let meta = &meta.borrow();
-						meta.self_closed || meta.auto_fix
-					});
-				if !is_closed {
-					parent = Some(Rc::clone(&self.current_node));
-				} else {
-					need_parent = true;
-				}
-			}
 			_ => {
-				need_parent = true;
+				// new text node in the innermost open element
+				self.add_new_node(Rc::new(RefCell::new(Node::new(
+					NodeType::Text,
+					self.mem_position,
+				))));
+				self.prev_chars = chars;
 			}
 		}
-		if need_parent {
-			if !self.chain_nodes.is_empty() {
-				let index = self.chain_nodes.len() - 1;
-				parent = Some(Rc::clone(&self.chain_nodes[index]));
-			} else {
-				parent = Some(Rc::clone(&self.root));
-			}
-		}
-		if let Some(parent) = &parent {
-			let text_node = Node::new(NodeType::Text, self.mem_position);
-			let current_node = Rc::new(RefCell::new(text_node));
-			let mut parent = parent.borrow_mut();
-			let childs = parent.childs.get_or_insert(Vec::new());
-			current_node.borrow_mut().index = childs.len();
-			childs.push(Rc::clone(&current_node));
-			// set current node as text node
-			self.current_node = current_node;
-			// set prev chars
-			self.prev_chars = chars;
-		}
 		self.repeat_whitespace = false;
 		self.set_code_in(CodeTypeIn::TextNode);
 		// if is end of text<the tag left character>
-- 
2.43.0


From b89168b74d6fa3bbed06b06ee6c79435ae677286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:45 +0000
Subject: [PATCH 09/16] fix: don't let a later tag change the text of a closed
 element

In '<p> </p><b>' the start of <b> turned the only text of <p> into spaces
between tags.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 842a86b..6b0e19c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1357,6 +1357,9 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				};
 				if !is_only_text_child {
 					doc.set_text_spaces_between();
+				} else {
+					// the element is closed, a later tag must not change its text
+					doc.check_textnode = None;
 				}
 				// set node end
 				doc.set_tag_end_info();
-- 
2.43.0


From 1cfdd201304396f532758fc314e2d7221e067cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 10/16] fix: render a doctype without attributes so that it can
 be parsed again

'<!DOCTYPE >' was rendered as '<!DOCTYPE>', which the parser refuses.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6b0e19c..8ab7dba 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -755,6 +755,9 @@ impl Node {
 				result.extend_from_slice(&meta.name);
 				if !meta.attrs.is_empty() {
 					result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+				} else {
+					// the doctype name must be followed by a whitespace
+					result.push(WS_CHAR);
 				}
 				result.push('>');
 			}
-- 
2.43.0


From ec058d6da0059f578710ea73e4cdefcecee503fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:01 +0000
Subject: [PATCH 11/16] fix: don't index an id in a doctype as an element id

get_element_by_id returned the doctype node for '<!DOCTYPE id=x>'.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8ab7dba..0bf66f0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2150,13 +2150,14 @@ impl Doc {
 	// set attr value
 	fn set_tag_attr_value(&mut self, quote: Option<char>) {
 		let value = self.clean_chars_to_vec();
+		let is_element = self.current_node.borrow().node_type == NodeType::Tag;
 		if let Some(meta) = &self.current_node.borrow_mut().meta {
 			let mut meta = meta.borrow_mut();
 			// set attribute value
 			let attr = meta.set_attr_value(value, quote);
 			// check the value if is a id value
 			// store the id nodes to cache
-			if let Some(id_name) = attr.check_if_id() {
+			if let Some(id_name) = attr.check_if_id().filter(|_| is_element) {
 				self
 					.id_tags
 					.borrow_mut()
-- 
2.43.0


From 83406abf3ab300c22c8353599d45092972712612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:48 +0000
Subject: [PATCH 12/16] fix: don't copy a text again at every repair inside it

With auto_fix_unescaped_lt or auto_fix_unexpected_endtag every stray '<' or
end tag copied the whole text before it, so that the time grew with the square
of the input: 160k stray '<' took more than a minute.
---
 src/parser.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0bf66f0..91ae7f4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -982,7 +982,7 @@ fn parse_wait(doc: &mut Doc, c: char, _: &str) -> HResult {
 				let mut current_node = doc.current_node.borrow_mut();
 				// remove content to prev chars
 				if let Some(content) = &mut current_node.content {
-					doc.prev_chars.append(content);
+					std::mem::swap(&mut doc.prev_chars, content);
 				}
 				if matches!(current_node.node_type, NodeType::Text) {
 					doc.repeat_whitespace = false;
@@ -1012,7 +1012,12 @@ fn parse_text(doc: &mut Doc, c: char, _: &str) -> HResult {
 	match c {
 		// match the tag start '<'
 		TAG_BEGIN_CHAR => {
-			let content = doc.clean_chars_to_vec();
+			// hand over a well filled buffer: the text may go on, and must not be copied each time
+			let content = if doc.prev_chars.len() >= doc.prev_chars.capacity() / 2 {
+				std::mem::take(&mut doc.prev_chars)
+			} else {
+				doc.clean_chars_to_vec()
+			};
 			doc.current_node.borrow_mut().content = Some(content);
 			doc.check_textnode = if doc.repeat_whitespace {
 				Some(Rc::clone(&doc.current_node))
@@ -1953,10 +1958,8 @@ impl Doc {
 			NodeType::Text | NodeType::SpacesBetweenTag => {
 				// text node or spaces between
 				if let Some(content) = &mut self.current_node.borrow_mut().content {
-					let mut prev_chars: Vec<char> = Vec::with_capacity(content.len() + chars.len());
-					prev_chars.append(content);
-					prev_chars.append(&mut chars);
-					self.prev_chars = prev_chars;
+					std::mem::swap(&mut self.prev_chars, content);
+					self.prev_chars.append(&mut chars);
 				}
 				// change node type if spaces between
 				if matches!(node_type, NodeType::SpacesBetweenTag) {
-- 
2.43.0


From 49b3632714659e2daa624bc9182ca5a2a7571aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:50 +0000
Subject: [PATCH 13/16] fix: don't treat everything after a self closed pre as
 its content

A self closed <pre/> turned on the preserving of spaces when rendering with
remove_spaces; only an end tag turned it off again, and there is none.
---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 91ae7f4..f2ae48e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -665,9 +665,10 @@ impl Node {
 					.expect("tag's meta data must have.")
 					.borrow();
 				let tag_name = &meta.name;
-				// check if is in pre, only check if not in pre
-				status.is_in_pre =
-					is_in_pre || is_equal_chars(tag_name, &PRE_TAG_NAME, &Some(NameCase::Lower));
+				// check if is in pre, only check if not in pre, a self closed pre has no content
+				status.is_in_pre = is_in_pre
+					|| (!meta.self_closed
+						&& is_equal_chars(tag_name, &PRE_TAG_NAME, &Some(NameCase::Lower)));
 				if need_tag {
 					// add tag name
 					result.push('<');
-- 
2.43.0


From 868b6b4cccb5a9aca518185ed43e9ba6a5029815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:51 +0000
Subject: [PATCH 14/16] fix: don't read on after the end of the file in
 parse_file

The iterator over the lines polled the file once more after its end. When the
file grew in the meantime, what was appended to the last line was taken for a
new line, and a line break that is in no version of the file got into the text.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index f2ae48e..5c59936 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1799,6 +1799,8 @@ impl Doc {
 	{
 		// a relative path is resolved against the working directory by the system itself
 		let file = File::open(filename)?;
+		// once the end of the file is reached, what is appended later belongs to another version
+		let file = file.chain(std::io::empty());
 		let file = BufReader::new(file);
 		let mut doc = Doc::new();
 		let mut content = String::with_capacity(500);
-- 
2.43.0


From 6084c035b6bd592bd9db8d4f44e7da2727e9fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:43 +0000
Subject: [PATCH 15/16] fix: don't leave svg or math at the end of an element
 of the same name inside it

In <svg><svg></svg><g/></svg> the end of the inner svg ended the outer one too,
so self closing tags and CDATA sections after it were refused.
---
 src/parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5c59936..c381753 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1374,10 +1374,8 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.set_tag_end_info();
 				// set code in
 				doc.set_code_in(Unkown);
-				// end of special tag
-				if doc.in_special.is_some()
-					&& is_equal_chars_ignore_case(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name).0
-				{
+				// end of special tag, not of a tag with the same name inside it
+				if matches!(&doc.in_special, Some((_, _, depth)) if *depth > doc.chain_nodes.len()) {
 					doc.in_special = None;
 				}
 				// set end tag more info
@@ -1657,7 +1655,7 @@ fn parse_exclamation_begin(doc: &mut Doc, c: char, context: &str) -> HResult {
 			}
 			LEFT_BRACKET_CHAR => {
 				// CDATA
-				let special_tag_name = doc.in_special.as_ref().map(|(_, name)| name);
+				let special_tag_name = doc.in_special.as_ref().map(|(_, name, _)| name);
 				if let Some(tag_name) = special_tag_name {
 					if is_equal_chars(
 						tag_name,
@@ -1719,7 +1717,7 @@ pub struct Doc {
 	mark_char: char,
 	chain_nodes: Vec<RefNode>,
 	current_node: RefNode,
-	in_special: Option<(SpecialTag, Vec<char>)>,
+	in_special: Option<(SpecialTag, Vec<char>, usize)>,
 	repeat_whitespace: bool,
 	check_textnode: Option<RefNode>,
 	handle: NextHandle,
@@ -2225,6 +2223,7 @@ impl Doc {
 							.borrow()
 							.name
 							.clone(),
+						self.chain_nodes.len(),
 					))
 				} else {
 					None
-- 
2.43.0


From 364c4eab3acffa3ad8dd941fb10a2f002d6fc936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:43 +0000
Subject: [PATCH 16/16] fix: keep the spaces of a pre after a pre inside it

When rendering with minify_spaces, the end tag of a nested pre ended the
preserving of spaces also for the rest of the outer pre.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index c381753..1ea41b6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -795,6 +795,7 @@ impl Node {
 	}
 	// build node tree
 	fn build_tree(&self, options: &RenderOptions, status: &mut RenderStatus, result: &mut Vec<char>) {
+		let is_in_pre = status.is_in_pre;
 		self.build_node(options, status, result);
 		if let Some(childs) = &self.childs {
 			if status.root {
@@ -815,6 +816,8 @@ impl Node {
 		if let Some(end_tag) = &self.end_tag {
 			end_tag.borrow().build_node(options, status, result);
 		}
+		// a pre inside a pre doesn't end the outer one
+		status.is_in_pre = is_in_pre;
 	}
 	// build
 	pub fn build(&self, options: &RenderOptions, inner_text: bool) -> Vec<char> {
-- 
2.43.0

