# C27: the tree built from a document
P = "C27"
F = "src/parsing.rs"
L = "src/lib.rs"
D = "src/dom.rs"
MV = """		for i in (1..self.data.len()).rev() {
			let mut node = self.data.remove(&i).expect("logic error: missing index");
			if node.value.is_element() {
				// flip the children of element
				node.value.as_element_mut().unwrap().reverse_children()
			}
			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
				.value.as_element_mut().expect("logic error: parent is not an Element")
				.append_boxed(node.value);
		}
"""
FL = """			if node.value.is_element() {
				// flip the children of element
				node.value.as_element_mut().unwrap().reverse_children()
			}
"""
RT = """		// flip children because they were added in reverse order
		e.reverse_children();
"""
HD = "		for i in (1..self.data.len()).rev() {\n"
PU = """			let old_pos = self.pos.unwrap();
			let new_pos = self.data.len();
			self.data.get_mut(&old_pos).expect("logic error")
				.child_ids.push(new_pos);
			self.data.insert(new_pos, ParseTreeNode{
				id: new_pos,
				value: Box::new(new_element),
				parent_id: Some(old_pos),
				child_ids: Vec::new(),
			});
			self.pos = Some(new_pos);
"""
AP = """		let pos = self.pos.unwrap();
		let new_id = self.data.len();
		self.data.get_mut(&pos).expect("logic error")
			.child_ids.push(new_id);
		self.data.insert(new_id, ParseTreeNode{
			id: new_id,
			value: Box::new(n),
			parent_id: Some(pos),
			child_ids: Vec::new(),
		});
"""
PO = """		let new_pos = self.data
			.get(&pos).expect("logic error").parent_id;
		self.pos = new_pos;
"""
TE = """		match self.pos {
			None => None,
			Some(pos) => Some(
				self.data.get(&pos).expect("logic error")
					.value.as_element().expect("logic error")
			)
		}
"""
ES = """		match self.pos {
			None => true,
			Some(_) => false
		}
"""
AB = """		let pos = self.pos.unwrap();
		let new_id = self.data.len();
"""

# ---- moving
case("c27_s_while", "same", P, (F, MV, MV.replace(HD, "		let mut i = self.data.len();\n		while i > 1 {\n			i -= 1;\n")))
case("c27_s_count", "same", P, (F, MV, MV.replace(HD, "		let count = self.data.len();\n		for i in (1..count).rev() {\n")))
case("c27_s_incl", "same", P, (F, MV, MV.replace(HD, "		for i in (1..=self.data.len()-1).rev() {\n")))
case("c27_s_iflet", "same", P, (F, MV, MV.replace(FL, "			if let Ok(e) = node.value.as_element_mut() {\n				e.reverse_children();\n			}\n")))
case("c27_s_insert", "same", P, (F, MV, MV.replace(FL, "").replace(".append_boxed(node.value)", ".insert_first_boxed(node.value)")), (F, RT, ""),
     (D, "	/** flips the order of child nodes (non-recursive) */\n", "	/// puts a node before all others\n	pub(crate) fn insert_first_boxed(&mut self, mut node: Box<dyn Node>) {\n		Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut node);\n		self.child_nodes.insert(0, node);\n		self.cleanup_text_nodes();\n	}\n	/** flips the order of child nodes (non-recursive) */\n"))
case("c27_s_helper", "same", P, (F, MV, MV.replace(FL, "			Self::finish(&mut node);\n")),
     (F, "	/// converts the whole parse tree to a DOM", "	/// puts the children of an element into document order\n	fn finish(node: &mut ParseTreeNode) {\n		if node.value.is_element() {\n			node.value.as_element_mut().unwrap().reverse_children()\n		}\n	}\n	/// converts the whole parse tree to a DOM"))
case("c27_s_parent", "same", P, (F, MV, MV.replace("""			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
				.value.as_element_mut().expect("logic error: parent is not an Element")
				.append_boxed(node.value);
""", """			let parent = self.data.get_mut(&parent_index).expect("logic error: parent is missing");
			let parent = parent.value.as_element_mut().expect("logic error: parent is not an Element");
			let child = node.value;
			parent.append_boxed(child);
""")))
case("c27_s_isempty", "same", P, (F, "		if self.data.is_empty() {\n			return Err(ParsingError::new(\"no root", "		if self.data.len() == 0 {\n			return Err(ParsingError::new(\"no root"))
case("c27_s_swap", "same", P, (D, "		self.child_nodes.reverse();\n", "		if self.child_nodes.len() > 1 {\n			self.child_nodes.reverse();\n		}\n"))
case("c27_s_flip2", "same", P, (F, MV, MV.replace("if node.value.is_element() {", "if node.child_ids.len() > 1 {")))
case("c27_b_noflip", "bug", P, (F, MV, MV.replace(FL, "")))
case("c27_b_noroot", "bug", P, (F, RT, ""))
case("c27_b_two", "bug", P, (F, MV, MV.replace("(1..", "(2..")))
case("c27_b_fwd", "bug", P, (F, MV, MV.replace("(1..self.data.len()).rev()", "1..self.data.len()")))
case("c27_b_last", "bug", P, (F, MV, MV.replace("self.data.len()).rev", "self.data.len()-1).rev")))
case("c27_b_flipparent", "bug", P, (F, MV, MV.replace(".append_boxed(node.value);", ".append_boxed(node.value);\n			if i % 2 == 0 {\n				self.data.get_mut(&parent_index).unwrap().value.as_element_mut().unwrap().reverse_children();\n			}")))
case("c27_b_flip3", "bug", P, (F, MV, MV.replace("if node.value.is_element() {", "if node.value.is_element() && node.child_ids.len() > 2 {")))
case("c27_b_flipid", "bug", P, (F, MV, MV.replace("if node.value.is_element() {", "if node.value.is_element() && i < 64 {")))
case("c27_b_skipcom", "bug", P, (F, MV, MV.replace("			let parent_index", "			if node.value.is_comment() && node.parent_id == Some(0) { continue; }\n			let parent_index")))
case("c27_b_rootpar", "bug", P, (F, MV, MV.replace("get_mut(&parent_index)", "get_mut(&0)")))
case("c27_b_dup", "bug", P, (F, MV, MV.replace(".append_boxed(node.value);", ".append_boxed(dyn_clone::clone_box(&*node.value));\n			if i == 7 { self.data.get_mut(&parent_index).unwrap().value.as_element_mut().unwrap().append_boxed(node.value); }")))
case("c27_b_rev1", "bug", P, (D, "		self.child_nodes.reverse();\n", "		let n = self.child_nodes.len();\n		if n > 2 {\n			self.child_nodes.reverse();\n		}\n"))
case("c27_b_rev2", "bug", P, (D, "		self.child_nodes.reverse();\n", "		if let Some(r) = self.child_nodes.get_mut(1..) {\n			r.reverse();\n		}\n"))
# ---- the stack
case("c27_s_push", "same", P, (F, PU, """			let old_pos = self.pos.unwrap();
			let new_pos = self.data.len();
			self.pos = Some(new_pos);
			self.data.insert(new_pos, ParseTreeNode{
				id: new_pos,
				parent_id: Some(old_pos),
				value: Box::new(new_element),
				child_ids: Vec::new(),
			});
			self.data.get_mut(&old_pos).expect("logic error")
				.child_ids.push(new_pos);
"""))
case("c27_s_add", "same", P, (F, PU, "			let new_pos = self.add(Box::new(new_element));\n			self.pos = Some(new_pos);\n"),
     (F, AP, "		self.add(Box::new(n));\n"),
     (F, "	/// pop the top element from the stack\n", """	/// adds a node below the open element and returns its number
	fn add(&mut self, value: Box<dyn Node>) -> usize {
		let pos = self.pos.unwrap();
		let new_id = self.data.len();
		self.data.get_mut(&pos).expect("logic error")
			.child_ids.push(new_id);
		self.data.insert(new_id, ParseTreeNode{
			id: new_id,
			value,
			parent_id: Some(pos),
			child_ids: Vec::new(),
		});
		new_id
	}
	/// pop the top element from the stack
"""))
case("c27_s_pop", "same", P, (F, PO, "		self.pos = self.data[&pos].parent_id;\n"))
case("c27_s_pop2", "same", P, (F, """		if self.pos.is_none() {
			return Err(ParsingError::new("closing tag without corresponding open tag").into());
		}
		let pos = self.pos.unwrap();
""", """		let pos = match self.pos {
			Some(x) => x,
			None => return Err(ParsingError::new("closing tag without corresponding open tag").into())
		};
"""))
case("c27_s_top", "same", P, (F, TE, """		let pos = self.pos?;
		let node = self.data.get(&pos).expect("logic error");
		Some(node.value.as_element().expect("logic error"))
"""))
case("c27_s_top2", "same", P, (F, TE, """		self.pos.map(|pos| self.data.get(&pos).expect("logic error").value.as_element().expect("logic error"))
"""))
case("c27_s_es", "same", P, (F, ES, "		self.pos.is_none()\n"))
case("c27_s_bump", "same", P, (F, AP, AP.replace("child_ids.push(new_id)", "child_ids.insert(0, new_id)")))
case("c27_b_open", "bug", P, (F, PU, PU.replace("			self.pos = Some(new_pos);\n", "			if new_pos < 1000 {\n				self.pos = Some(new_pos);\n			}\n")))
case("c27_b_parent", "bug", P, (F, PU, PU.replace("parent_id: Some(old_pos)", "parent_id: Some(old_pos.min(255))")))
case("c27_b_parent0", "bug", P, (F, PU, PU.replace("parent_id: Some(old_pos)", "parent_id: Some(0)")))
case("c27_b_id", "bug", P, (F, AP, AP.replace("self.data.len();", "self.data.len() - 1;")))
case("c27_b_id2", "bug", P, (F, AP, AP.replace("let new_id = self.data.len();", "let new_id = pos + self.data[&pos].child_ids.len() + 1;")))
case("c27_b_id3", "bug", P, (F, AP, AP.replace("let new_id = self.data.len();", "let new_id = self.data.len() & 0xffff;")))
case("c27_b_appar", "bug", P, (F, AP, AP.replace("parent_id: Some(pos)", "parent_id: self.data[&pos].parent_id.or(Some(pos))")))
case("c27_b_appos", "bug", P, (F, AP, AP + "		self.pos = Some(new_id);\n"))
case("c27_b_pop0", "bug", P, (F, PO, "		self.pos = if pos == 0 { None } else { Some(pos - 1) };\n"))
case("c27_b_poptwo", "bug", P, (F, PO, PO + "		if let Some(p) = self.pos { if self.data[&p].child_ids.len() > 99 { self.pos = self.data[&p].parent_id; } }\n"))
case("c27_b_poprm", "bug", P, (F, PO, PO + "		if self.data[&pos].child_ids.is_empty() && self.data.len() > 500 { self.data.remove(&pos); }\n"))
case("c27_b_top", "bug", P, (F, TE, TE.replace("Some(pos) => Some(\n				self.data.get(&pos)", "Some(pos) => Some(\n				self.data.get(&(if pos > 40 {self.data[&pos].parent_id.unwrap()} else {pos}))")))
case("c27_b_es", "bug", P, (F, ES, ES.replace("Some(_) => false", "Some(p) => self.data.len() > 900 && self.data[&p].parent_id.is_none()")))
# ---- the tag loop
TX = """		match real_text(text) {
			None => {},
"""
case("c27_b_textcd", "bug", P, (L, TX, "		match real_text(text).filter(|_| !buffer[tag_span.0..].starts_with(\"<![CDATA[\")) {\n			None => {},\n"))
case("c27_b_comlost", "bug", P, (L, "			} else if begin == end {\n				// empty comment, shortcut parsing\n				parse_stack.append(dom::Comment::new(String::new())?)?;\n", "			} else if begin == end {\n				// empty comment, shortcut parsing\n"))
case("c27_b_selfpush", "bug", P, (L, "				if slice.ends_with(\"/>\") {\n					// self-closing\n", "				if slice.ends_with(\" />\") || slice.ends_with(\"/>\") && tag_def.len() < 200 {\n					// self-closing\n"))
case("c27_b_longtag", "bug", P, (L, "			last_span = tag_span;\n", "			last_span = if tag_span.1 - tag_span.0 > 4096 { (tag_span.0, next_span.0.unwrap()) } else { tag_span };\n"))
