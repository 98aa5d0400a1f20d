L, D, P = "src/lib.rs", "src/dom.rs", "src/parsing.rs"
INS = '''		if index > self.child_nodes.len() {
			return Err(IndexOutOfBounds::new(index as isize, Some((0, self.child_nodes.len() as isize))));
		}
		// Note: if this is an element, set the namespace context
		self.child_nodes.insert(index, node.boxed());
		Self::apply_xmlns_context_to_child_node(
			self.default_namespace(), self.xmlns_context.clone(),
			&mut self.child_nodes[index]
		);
'''
REM = '''		if index >= self.child_nodes.len() {
			return Err(IndexOutOfBounds::new(index as isize, Some((0, self.child_nodes.len() as isize))));
		}
		Ok(self.child_nodes.remove(index))
'''
REL = '''		// first, index the child elements
		let mut elems: Vec<usize> = Vec::new();
		for i in 0..self.child_nodes.len() {
			if self.child_nodes[i].is_element(){ elems.push(i); }
		}
		// now remove the requested element
		if index >= elems.len() {
			return Err(IndexOutOfBounds::new(index as isize, Some((0, elems.len() as isize))));
		}
		let removed = self.child_nodes.remove(elems[index]);
		Ok(removed.as_element().expect("logic error").clone())
'''
SETATTR = '''		let n: String = attr_name.into();
		Element::check_attr_name(n.as_str())?;
		let v: String = value.into();
		self.attributes.insert(n, v);
'''
ALL = "C10 C11 C12 C13"
# ---- C10
case("c10_insert_clear_first", "bug", "C10", (D, INS, '''		let boxed = node.boxed();
		if index > self.child_nodes.len() {
			self.child_nodes.retain(|n| !n.is_comment());
			return Err(IndexOutOfBounds::new(index as isize, Some((0, self.child_nodes.len() as isize))));
		}
		self.child_nodes.insert(index, boxed);
		Self::apply_xmlns_context_to_child_node(
			self.default_namespace(), self.xmlns_context.clone(),
			&mut self.child_nodes[index]
		);
'''))
case("c10_attr_first", "bug", "C10", (D, SETATTR, '''		let n: String = attr_name.into();
		let old = self.attributes.insert(n.clone(), value.into());
		if let Err(e) = Element::check_attr_name(n.as_str()) {
			if old.is_none() { self.attributes.remove(&n); }
			return Err(e);
		}
'''))
case("c10_attr_restore", "same", "C10", (D, SETATTR, '''		let n: String = attr_name.into();
		let v: String = value.into();
		match Element::check_attr_name(&n) {
			Err(e) => return Err(e),
			Ok(()) => {self.attributes.insert(n, v);}
		}
'''))
case("c10_remove_el_eager", "bug", "C10", (D, REL, '''		let n = self.child_nodes.len();
		let mut seen = 0usize;
		let mut pos: Option<usize> = None;
		for i in 0..n {
			if self.child_nodes[i].is_element() {
				if seen == index { pos = Some(i); }
				seen += 1;
			}
		}
		if index > seen { self.child_nodes.pop(); }
		match pos {
			None => Err(IndexOutOfBounds::new(index as isize, Some((0, seen as isize)))),
			Some(i) => {
				let removed = self.child_nodes.remove(i);
				Ok(removed.as_element().expect("logic error").clone())
			}
		}
'''))
case("c10_take_restore", "same", "C10", (D, REM, '''		let mut kids = std::mem::take(&mut self.child_nodes);
		if index >= kids.len() {
			let n = kids.len();
			self.child_nodes = kids;
			return Err(IndexOutOfBounds::new(index as isize, Some((0, n as isize))));
		}
		let r = kids.remove(index);
		self.child_nodes = kids;
		Ok(r)
'''))
# ---- C11
case("c11_insert_ge", "bug", "C11", (D, "		if index > self.child_nodes.len() {\n", "		if index >= self.child_nodes.len() && index != 0 {\n"))
case("c11_remove_swap", "bug", "C11", (D, "		Ok(self.child_nodes.remove(index))\n", "		Ok(self.child_nodes.swap_remove(index))\n"))
case("c11_rel_all", "bug", "C11", (D, "let removed = self.child_nodes.remove(elems[index]);", "let removed = if self.child_nodes[index].is_element() {self.child_nodes.remove(index)} else {self.child_nodes.remove(elems[index])};"))
case("c11_rel_scan", "bug", "C11", (D, '''		for i in 0..self.child_nodes.len() {
			if self.child_nodes[i].is_element(){ elems.push(i); }''', '''		for i in 0..self.child_nodes.len() {
			if !self.child_nodes[i].is_text(){ elems.push(i); }'''))
case("c11_rel_last", "bug", "C11", (D, "elems[index]);", "elems[elems.len()-1-index]);"))
case("c11_err_index", "bug", "C11", (D, REM, REM.replace("index as isize, Some", "self.child_nodes.len() as isize, Some")))
case("c11_insert_clamp", "bug", "C11", (D, "		self.child_nodes.insert(index, node.boxed());\n", "		let index = if index == self.child_nodes.len() && index > 1 {index - 1} else {index};\n		self.child_nodes.insert(index, node.boxed());\n"))
case("c11_get", "same", ALL, (D, REM, '''		let count = self.child_nodes.len();
		if index < count {
			let node = self.child_nodes.remove(index);
			return Ok(node);
		}
		Err(IndexOutOfBounds::new(index as isize, Some((0, count as isize))))
'''))
case("c11_getopt", "same", ALL, (D, REM, '''		match self.child_nodes.get(index) {
			None => Err(IndexOutOfBounds::new(index as isize, Some((0, self.child_nodes.len() as isize)))),
			Some(_) => Ok(self.child_nodes.remove(index))
		}
'''))
case("c11_insert_helper", "same", ALL, (D, INS, '''		self.check_pos(index)?;
		let mut b = node.boxed();
		Self::apply_xmlns_context_to_child_node(
			self.default_namespace(), self.xmlns_context.clone(),
			&mut b
		);
		self.child_nodes.insert(index, b);
'''), (D, '''	/**
	Inserts the given node at the given index''', '''	fn check_pos(&self, index: usize) -> Result<(), IndexOutOfBounds> {
		let n = self.child_nodes.len();
		if index <= n {return Ok(());}
		Err(IndexOutOfBounds::new(index as isize, Some((0, n as isize))))
	}
	/**
	Inserts the given node at the given index'''))
case("c11_insert_split", "same", ALL, (D, "		self.child_nodes.insert(index, node.boxed());\n", '''		let mut tail = self.child_nodes.split_off(index);
		self.child_nodes.push(node.boxed());
		self.child_nodes.append(&mut tail);
'''))
case("c11_rel_enum", "same", ALL, (D, REL, '''		let elems: Vec<usize> = self.child_nodes.iter().enumerate()
			.filter(|(_, n)| n.is_element()).map(|(i, _)| i).collect();
		match elems.get(index) {
			None => Err(IndexOutOfBounds::new(index as isize, Some((0, elems.len() as isize)))),
			Some(pos) => {
				let removed = self.child_nodes.remove(*pos);
				Ok(removed.as_element().expect("logic error").clone())
			}
		}
'''))
case("c11_rel_enumloop", "same", ALL, (D, '''		for i in 0..self.child_nodes.len() {
			if self.child_nodes[i].is_element(){ elems.push(i); }
		}
		// now''', '''		for (i, child) in self.child_nodes.iter().enumerate() {
			if !child.is_element() { continue; }
			elems.push(i);
		}
		// now'''))
case("c11_rel_nth", "same", ALL, (D, REL, '''		let found = self.child_nodes.iter().enumerate()
			.filter(|(_, n)| n.is_element()).map(|(i, _)| i).nth(index);
		let total = self.child_elements().count();
		match found {
			None => Err(IndexOutOfBounds::new(index as isize, Some((0, total as isize)))),
			Some(pos) => {
				let removed = self.child_nodes.remove(pos);
				Ok(removed.as_element().expect("logic error").clone())
			}
		}
'''))
case("c11_rel_count", "same", ALL, (D, REL, '''		let mut seen = 0usize;
		for i in 0..self.child_nodes.len() {
			if !self.child_nodes[i].is_element() { continue; }
			if seen == index {
				let removed = self.child_nodes.remove(i);
				return Ok(removed.as_element().expect("logic error").clone());
			}
			seen += 1;
		}
		Err(IndexOutOfBounds::new(index as isize, Some((0, seen as isize))))
'''))
case("c11_rel_count_opt", "same", ALL, (D, REL, '''		let mut seen = 0usize;
		let mut pos = None;
		for (i, n) in self.child_nodes.iter().enumerate() {
			if n.is_element() {
				if seen == index { pos = Some(i); }
				seen += 1;
			}
		}
		let i = pos.ok_or(IndexOutOfBounds::new(index as isize, Some((0, seen as isize))))?;
		let removed = self.child_nodes.remove(i);
		Ok(removed.as_element().expect("logic error").clone())
'''))
case("c11_rel_count_bug", "bug", "C11", (D, REL, '''		let mut seen = 0usize;
		for i in 0..self.child_nodes.len() {
			if seen == index && self.child_nodes[i].is_element() {
				let removed = self.child_nodes.remove(i);
				return Ok(removed.as_element().expect("logic error").clone());
			}
			if self.child_nodes[i].is_element() || self.child_nodes[i].is_cdata() {seen += 1;}
		}
		Err(IndexOutOfBounds::new(index as isize, Some((0, seen as isize))))
'''))

# ---- C12
AB = """		Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut node);
		self.child_nodes.push(node);
"""
AALL = """		// first add every node, keeping a record of which ones were elements
		let mut elem_indices: Vec<usize> = Vec::with_capacity(children.len());
		let mut i = self.child_nodes.len();
		for child in children {
			if child.is_element() {
				elem_indices.push(i);
			}
			self.child_nodes.push(child);
			i += 1;
		}
		// then apply the xmlns context to the elements
		for i in elem_indices {
			Self::apply_xmlns_context_to_child_node(
				self.default_namespace(), self.xmlns_context.clone(),
			&mut self.child_nodes[i]
			);
		}
"""
DEF = """		match self.xmlns_prefix {
			None => {
				match self.default_namespace() {
					None => self.xmlns = parent_default_namespace,
					Some(_) => {/* do nothing */}
				}
			}
			Some(_) => {/* do nothing */}
		}
"""
PRE = """					if ! self.xmlns_context.contains_key(prefix.as_str()) {
						let _ = &self.xmlns_context.insert(prefix, ns);
					}
"""
case("c12_all_zero", "bug", "C12", (D, "let mut i = self.child_nodes.len();\n		for child", "let mut i = 0;\n		for child"))
case("c12_all_skip", "bug", "C12", (D, "			if child.is_element() {\n				elem_indices.push(i);\n			}\n			self", "			if child.is_element() && child.as_element().expect(\"e\").namespace_prefix().is_none() {\n				elem_indices.push(i);\n			}\n			self"))
case("c12_all_first", "bug", "C12", (D, "		for i in elem_indices {", "		for i in elem_indices.into_iter().skip(1) {"))

case("c12_insert_none", "bug", "C12", (D, """		Self::apply_xmlns_context_to_child_node(
			self.default_namespace(), self.xmlns_context.clone(),
			&mut self.child_nodes[index]
		);
		// clean-up text nodes
		self.cleanup_text_nodes();
		// done""", """		self.cleanup_text_nodes();
		// done"""))
case("c12_insert_raw_ns", "bug", "C12", (D, """		Self::apply_xmlns_context_to_child_node(
			self.default_namespace(), self.xmlns_context.clone(),
			&mut self.child_nodes[index]
		);
		// clean-up text nodes
		self.cleanup_text_nodes();
		// done""", """		Self::apply_xmlns_context_to_child_node(
			self.xmlns.clone(), self.xmlns_context.clone(),
			&mut self.child_nodes[index]
		);
		// clean-up text nodes
		self.cleanup_text_nodes();
		// done"""))
case("c12_insert_last", "bug", "C12", (D, "			&mut self.child_nodes[index]\n		);\n		// clean", "			self.child_nodes.last_mut().expect(\"x\")\n		);\n		// clean"))
case("c12_extend", "bug", "C12", (D, PRE, "					let _ = &self.xmlns_context.insert(prefix, ns);\n"))
case("c12_prefix_eq", "bug", "C12", (D, PRE, PRE.replace("if ! self.xmlns_context.contains_key(prefix.as_str())", "if ! self.xmlns_context.contains_key(prefix.as_str()) && prefix.as_str() != \"xsi\"")))
case("c12_default_always", "bug", "C12", (D, DEF, "		self.xmlns = parent_default_namespace;\n"))
case("c12_default_prefixed", "bug", "C12", (D, DEF, "		if self.xmlns.is_none() {self.xmlns = parent_default_namespace;}\n"))
case("c12_default_over", "bug", "C12", (D, DEF, "		if self.xmlns_prefix.is_none() && parent_default_namespace.is_some() {self.xmlns = parent_default_namespace;}\n"))
case("c12_new_child_ns", "bug", "C12", (D, "df_xmlns, xmlns_context,\n				node", "None, xmlns_context,\n				node"))
case("c12_boxed_empty", "bug", "C12", (D, AB, AB.replace("self.xmlns_context.clone()", "HashMap::new()")))
case("c12_default_if", "same", ALL, (D, DEF, "		if self.xmlns_prefix.is_none() && self.xmlns.is_none() {self.xmlns = parent_default_namespace;}\n"))
case("c12_default_get_or", "same", ALL, (D, DEF, "		if self.xmlns_prefix.is_none() {self.xmlns = self.xmlns.take().or(parent_default_namespace);}\n"))
case("c12_entry", "same", ALL, (D, PRE, "					self.xmlns_context.entry(prefix).or_insert(ns);\n"))
case("c12_iflet", "same", ALL, (D, """		match parent_prefixes {
			None => {}
			Some(prefixes) => {
				for (prefix, ns) in prefixes {
					if ! self.xmlns_context.contains_key(prefix.as_str()) {
						let _ = &self.xmlns_context.insert(prefix, ns);
					}
				}
			}
		}
""", """		if let Some(prefixes) = parent_prefixes {
			for (prefix, ns) in prefixes.into_iter() {
				if self.xmlns_context.contains_key(&prefix) {continue;}
				self.xmlns_context.insert(prefix, ns);
			}
		}
"""))
case("c12_lookup_cloned", "same", ALL, (D, "self.xmlns = self.xmlns_context.get(prefix).map(String::clone);", "self.xmlns = self.xmlns_context.get(prefix).cloned();"))
case("c12_lookup_iflet", "same", ALL, (D, """		if self.xmlns.is_none() {
			match &self.xmlns_prefix {
				None => {}
				Some(prefix) => {
					// get prefix namespace from context
					self.xmlns = self.xmlns_context.get(prefix).map(String::clone);
				}
			};
		}
""", """		if let (None, Some(prefix)) = (&self.xmlns, &self.xmlns_prefix) {
			if let Some(ns) = self.xmlns_context.get(prefix) {
				self.xmlns = Some(ns.clone());
			}
		}
"""))
case("c12_all_direct", "same", ALL, (D, AALL, """		for mut child in children {
			Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut child);
			self.child_nodes.push(child);
		}
"""))
case("c12_all_range", "same", ALL, (D, AALL, """		let start = self.child_nodes.len();
		self.child_nodes.extend(children);
		for k in start..self.child_nodes.len() {
			Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut self.child_nodes[k]);
		}
"""))
case("c12_all_range2", "same", ALL, (D, AALL, """		let start = self.child_nodes.len();
		for c in children {self.child_nodes.push(c);}
		for k in start..self.child_nodes.len() {
			Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut self.child_nodes[k]);
		}
"""))
case("c12_all_boxed", "same", ALL, (D, AALL, "		for c in children {self.append_boxed(c);}\n"))
case("c12_all_enum", "same", ALL, (D, AALL, """		let base = self.child_nodes.len();
		let mut elem_indices: Vec<usize> = Vec::new();
		for (k, child) in children.into_iter().enumerate() {
			if child.is_element() { elem_indices.push(base + k); }
			self.child_nodes.push(child);
		}
		let (d, c) = (self.default_namespace(), self.xmlns_context.clone());
		for i in elem_indices {
			Self::apply_xmlns_context_to_child_node(d.clone(), c.clone(), &mut self.child_nodes[i]);
		}
"""))
case("c12_boxed_helper", "same", ALL, (D, AB, """		self.adopt_node(&mut node);
		self.child_nodes.push(node);
"""), (D, "	/** Applies this element's context to the given child */\n", """	fn adopt_node(&self, node: &mut Box<dyn Node>) {
		let context = self.xmlns_context.clone();
		let df = self.default_namespace();
		Self::apply_xmlns_context_to_child_node(df, context, node);
	}
	/** Applies this element's context to the given child */
"""))
case("c12_boxed_after", "same", ALL, (D, AB, """		self.child_nodes.push(node);
		let (d, c) = (self.default_namespace(), self.xmlns_context.clone());
		if let Some(n) = self.child_nodes.last_mut() {
			Self::apply_xmlns_context_to_child_node(d, c, n);
		}
"""), (D, "append_boxed(&mut self, mut node", "append_boxed(&mut self, node"))
case("c12_child_iflet", "same", ALL, (D, """		let is_element = node.is_element();
		if is_element {
			Self::apply_xmlns_context_to_child_element(
				df_xmlns, xmlns_context,
				node.as_element_mut().expect("logic error")
			);
		}
""", """		if !node.is_element() { return; }
		if let Ok(el) = node.as_element_mut() {
			el.set_namespace_context(df_xmlns, Some(xmlns_context));
		}
"""), (D, """	/** Applies the default xmlns and prefixed xmlns context to the given child */
	fn apply_xmlns_context_to_child_element(df_xmlns: Option<String>, xmlns_context: HashMap<String, String>, child: &mut Element) {
		// update xmlns prefix context if we just added an element
		child.set_namespace_context(
			df_xmlns,
			Some(xmlns_context)
		);
	}
""", ""))
# ---- C13
CLEAN = """		let mut index = self.child_nodes.len() - 1;
		while index > 0 {
			if self.child_nodes[index].is_text()
			&& self.child_nodes[index-1].is_text() {
				// index-1 and index are text nodes, merge them
				let back = self.child_nodes.remove(index);
				let front = self.child_nodes.remove(index-1);
				let merged = Text::concat(front.as_text().expect("logic error"), back.as_text().expect("logic error"));
				self.child_nodes.insert(index-1, merged.boxed());
			}
			index -= 1;
		}
"""
BLANK = """		let mut index = self.child_nodes.len() - 1;
		loop {
			if self.child_nodes[index].is_text()
				&& self.child_nodes[index]
				.as_text().expect("logic error").is_whitespace() {
				self.child_nodes.remove(index);
			}
			if index == 0 {break;}
			index = index.wrapping_sub(1);
		}
"""
case("c13_insert_none", "bug", "C13", (D, "		// clean-up text nodes\n		self.cleanup_text_nodes();\n		// done", "		// done"))
case("c13_insert_cond", "bug", "C13", (D, "		// clean-up text nodes\n		self.cleanup_text_nodes();\n		// done", "		if index + 1 == self.child_nodes.len() {self.cleanup_text_nodes();}\n		// done"))
case("c13_stop_early", "bug", "C13", (D, "		while index > 0 {\n			if self.child_nodes[index].is_text()", "		while index > 1 {\n			if self.child_nodes[index].is_text()"))
case("c13_start_low", "bug", "C13", (D, CLEAN, CLEAN.replace("self.child_nodes.len() - 1;", "self.child_nodes.len().saturating_sub(2);")))
case("c13_swap", "bug", "C13", (D, "Text::concat(front.as_text().expect(\"logic error\"), back.as_text().expect(\"logic error\"))", "Text::concat(back.as_text().expect(\"logic error\"), front.as_text().expect(\"logic error\"))"))
case("c13_len2", "bug", "C13", (D, "		if self.child_nodes.len() == 0 {return;}", "		if self.child_nodes.len() <= 1 {return;}"))
case("c13_blank_break", "bug", "C13", (D, BLANK, BLANK.replace("				self.child_nodes.remove(index);\n", "				self.child_nodes.remove(index);\n				break;\n")))
case("c13_blank_zero", "bug", "C13", (D, BLANK, BLANK.replace("if index == 0 {break;}", "if index <= 1 {break;}")))
case("c13_blank_first", "bug", "C13", (D, CLEAN, ""), (D, "		// remove text nodes that are whitespace\n", "		// remove text nodes that are whitespace\n")) 
case("c13_all_one", "bug", "C13", (D, """		// clean-up text nodes
		self.cleanup_text_nodes();
	}
	/**
	Inserts""", """		if self.child_nodes.len() > 1 {self.cleanup_text_nodes();}
	}
	/**
	Inserts"""))
case("c13_concat_trim", "bug", "C13", (D, "let merged = Text::concat(front.as_text().expect(\"logic error\"), back", "let merged = Text::concat(&Text::new(front.as_text().expect(\"logic error\").content.trim_end()), back"))
case("c13_blank_while", "same", ALL, (D, BLANK, """		let mut index = self.child_nodes.len();
		while index > 0 {
			index -= 1;
			if self.child_nodes[index].is_text() && self.child_nodes[index].as_text().expect("logic error").is_whitespace() {
				self.child_nodes.remove(index);
			}
		}
"""))
case("c13_blank_retain", "same", ALL, (D, BLANK, """		self.child_nodes.retain(|n| !(n.is_text() && n.as_text().expect("logic error").is_whitespace()));
"""))
case("c13_blank_rev", "same", ALL, (D, BLANK, """		for i in (0..self.child_nodes.len()).rev() {
			let blank = match self.child_nodes[i].as_text() { Ok(t) => t.is_whitespace(), Err(_) => false };
			if blank { self.child_nodes.remove(i); }
		}
"""))
case("c13_merge_rev", "same", ALL, (D, CLEAN, """		for i in (1..self.child_nodes.len()).rev() {
			if self.child_nodes[i].is_text() && self.child_nodes[i-1].is_text() {
				let back = self.child_nodes.remove(i);
				let front = &self.child_nodes[i-1];
				let merged = Text::concat(front.as_text().expect("logic error"), back.as_text().expect("logic error"));
				self.child_nodes[i-1] = merged.boxed();
			}
		}
"""))
case("c13_merge_helper", "same", ALL, (D, CLEAN, """		self.merge_texts();
"""), (D, "	/** Discards merges sequential text nodes and then whitespace-only text nodes */\n", """	fn merge_texts(&mut self) {
"""+CLEAN+"""	}
	/** Discards merges sequential text nodes and then whitespace-only text nodes */
"""))
case("c13_empty", "same", ALL, (D, "		if self.child_nodes.len() == 0 {return;}", "		if self.child_nodes.is_empty() {return;}"))
# ---- C23
RBY = '''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in (0..self.child_nodes.len()).rev() {
			if predicate(&self.child_nodes[i]) {
				rm_indices.push(i);
			}
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;
	}
	/** Removes the Nth child element'''
RTAIL = '''	}
	/** Removes the Nth child element'''
RALL = '''		let mut count =  self.remove_by(predicate);
		for e in self.child_elements_mut() {
			count += e.remove_all(predicate);
		}
		return count;
'''
RALLE = '''		let mut count =  self.remove_by(&new_pred);
		for e in self.child_elements_mut() {
			count += e.remove_all(&new_pred);
		}
		return count;
'''
RELS = '''				if predicate(
					self.child_nodes[i].as_element().expect("logic error")
				) {
					rm_indices.push(i);
				}
'''
def rby(id, kind, body): case("c23_" + id, kind, "C23", (D, RBY, body + RTAIL))
def rall(id, kind, body): case("c23_" + id, kind, "C23", (D, RALL, body))
rby("asc", "bug", '''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in 0..self.child_nodes.len() {
			if predicate(&self.child_nodes[i]) {
				rm_indices.push(i);
			}
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			if i < self.child_nodes.len() { self.child_nodes.remove(i); }
		}
		return count;
''')
rby("from1", "bug", '''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in (1..self.child_nodes.len()).rev() {
			if predicate(&self.child_nodes[i]) {
				rm_indices.push(i);
			}
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;
''')
rby("skiplast", "bug", '''		let mut rm_indices: Vec<usize> = Vec::new();
		if self.child_nodes.len() == 0 { return 0; }
		for i in (0..self.child_nodes.len()-1).rev() {
			if predicate(&self.child_nodes[i]) {
				rm_indices.push(i);
			}
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;
''')
rby("neg", "bug", '''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in (0..self.child_nodes.len()).rev() {
			if !predicate(&self.child_nodes[i]) {
				continue;
			}
			if self.child_nodes[i].is_cdata() { continue; }
			rm_indices.push(i);
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;
''')
rby("extra", "bug", '''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in (0..self.child_nodes.len()).rev() {
			if predicate(&self.child_nodes[i]) || (self.child_nodes[i].is_comment() && i == 0) {
				rm_indices.push(i);
			}
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;
''')
rby("fwdskip", "bug", '''		let mut count = 0;
		let mut i = 0;
		while i < self.child_nodes.len() {
			if predicate(&self.child_nodes[i]) {
				self.child_nodes.remove(i);
				count += 1;
			}
			i += 1;
		}
		return count;
''')
rby("break", "bug", '''		let mut count = 0;
		let mut i = 0;
		while i < self.child_nodes.len() {
			if predicate(&self.child_nodes[i]) {
				self.child_nodes.remove(i);
				count += 1;
				if count == 100 { break; }
			} else {
				i += 1;
			}
		}
		return count;
''')
rby("count", "bug", '''		let before = self.child_nodes.len();
		let mut i = before;
		while i > 0 {
			i -= 1;
			if predicate(&self.child_nodes[i]) {
				self.child_nodes.remove(i);
			}
		}
		return before;
''')
rby("swap", "bug", '''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in (0..self.child_nodes.len()).rev() {
			if predicate(&self.child_nodes[i]) {
				rm_indices.push(i);
			}
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.swap_remove(i);
		}
		return count;
''')
rby("retain_neg", "bug", '''		let before = self.child_nodes.len();
		self.child_nodes.retain(|n| n.is_element() || !predicate(n));
		return before - self.child_nodes.len();
''')
rby("one", "bug", '''		let before = self.child_nodes.len();
		if let Some(i) = self.child_nodes.iter().position(|n| predicate(n)) {
			self.child_nodes.remove(i);
		}
		return before - self.child_nodes.len();
''')
rby("wrongidx", "bug", '''		let mut count = 0;
		for i in (0..self.child_nodes.len()).rev() {
			if predicate(&self.child_nodes[i]) {
				self.child_nodes.remove(if i > 0 && self.child_nodes[i-1].is_comment() {i-1} else {i});
				count += 1;
			}
		}
		return count;
''')
rby("while_down", "same", '''		let mut count = 0;
		let mut i = self.child_nodes.len();
		while i > 0 {
			i -= 1;
			if predicate(&self.child_nodes[i]) {
				let _ = self.child_nodes.remove(i);
				count += 1;
			}
		}
		count
''')
rby("fwd", "same", '''		let mut count = 0;
		let mut i = 0;
		while i < self.child_nodes.len() {
			if predicate(&self.child_nodes[i]) {
				self.child_nodes.remove(i);
				count += 1;
			} else {
				i += 1;
			}
		}
		count
''')
rby("asc_rev", "same", '''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in 0..self.child_nodes.len() {
			if predicate(&self.child_nodes[i]) {
				rm_indices.push(i);
			}
		}
		for i in rm_indices.iter().rev() {
			self.child_nodes.remove(*i);
		}
		rm_indices.len()
''')
rby("empty_guard", "same", '''		if self.child_nodes.is_empty() { return 0; }
		let mut rm_indices: Vec<usize> = Vec::with_capacity(self.child_nodes.len());
		for i in (0..self.child_nodes.len()).rev() {
			let hit = predicate(&self.child_nodes[i]);
			if hit {
				rm_indices.push(i);
			}
		}
		if rm_indices.is_empty() { return 0; }
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;
''')
rby("retain", "same", '''		let before = self.child_nodes.len();
		self.child_nodes.retain(|n| !predicate(n));
		before - self.child_nodes.len()
''')
rby("filter", "same", '''		let rm_indices: Vec<usize> = (0..self.child_nodes.len()).rev().filter(|i| predicate(&self.child_nodes[*i])).collect();
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;
''')
rby("enumerate", "same", '''		let mut rm_indices: Vec<usize> = Vec::new();
		for (i, n) in self.child_nodes.iter().enumerate() {
			if predicate(n) {
				rm_indices.push(i);
			}
		}
		let count =  rm_indices.len();
		while let Some(i) = rm_indices.pop() {
			self.child_nodes.remove(i);
		}
		return count;
''')
rby("saved_len", "same", '''		let before = self.child_nodes.len();
		let mut i = before;
		while i > 0 {
			i -= 1;
			if predicate(&self.child_nodes[i]) {
				self.child_nodes.remove(i);
			}
		}
		return before - self.child_nodes.len();
''')
case("c23_helper", "same", "C23", (D, RBY, '''		let rm_indices = self.matching_indices(predicate);
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;
	}
	fn matching_indices<P>(&self, predicate: &P) -> Vec<usize> where P: Fn(&Box<dyn Node>) -> bool {
		let mut rm_indices: Vec<usize> = Vec::new();
		for i in (0..self.child_nodes.len()).rev() {
			if predicate(&self.child_nodes[i]) {
				rm_indices.push(i);
			}
		}
		rm_indices
''' + RTAIL))
rall("nosum", "bug", '''		let count =  self.remove_by(predicate);
		for e in self.child_elements_mut() {
			e.remove_all(predicate);
		}
		return count;
''')
rall("assign", "bug", '''		let mut count =  self.remove_by(predicate);
		for e in self.child_elements_mut() {
			count = e.remove_all(predicate);
		}
		return count;
''')
rall("early", "bug", '''		let mut count =  self.remove_by(predicate);
		if count == 0 { return 0; }
		for e in self.child_elements_mut() {
			count += e.remove_all(predicate);
		}
		return count;
''')
rall("shallow", "bug", '''		let mut count =  self.remove_by(predicate);
		for e in self.child_elements_mut() {
			count += e.remove_by(predicate);
		}
		return count;
''')
rall("brk", "bug", '''		let mut count =  self.remove_by(predicate);
		for e in self.child_elements_mut() {
			let n = e.remove_all(predicate);
			count += n;
			if n > 10 { break; }
		}
		return count;
''')
rall("onlyif", "bug", '''		let mut count =  self.remove_by(predicate);
		for e in self.child_elements_mut() {
			if e.attributes.is_empty() { count += e.remove_all(predicate); }
		}
		return count;
''')
rall("idx", "same", '''		let mut count =  self.remove_by(predicate);
		for i in 0..self.child_nodes.len() {
			if let Ok(e) = self.child_nodes[i].as_element_mut() {
				count += e.remove_all(predicate);
			}
		}
		count
''')
rall("post", "same", '''		let mut deep = 0;
		let direct = self.remove_by(predicate);
		for e in self.child_elements_mut() {
			deep += e.remove_all(predicate);
		}
		direct + deep
''')
rall("map_sum", "same", '''		let direct = self.remove_by(predicate);
		direct + self.child_elements_mut().map(|e| e.remove_all(predicate)).sum::<usize>()
''')
rall("iter_mut", "same", '''		let mut count = self.remove_by(predicate);
		for n in self.child_nodes.iter_mut() {
			if n.is_element() {
				let e = n.as_element_mut().expect("logic error");
				let k = e.remove_all(predicate);
				count = count + k;
			}
		}
		count
''')
case("c23_e_shallow", "bug", "C23", (D, RALLE, RALLE.replace("e.remove_all(&", "e.remove_by(&")))
case("c23_e_first", "bug", "C23", (D, RALLE, RALLE.replace("self.child_elements_mut()", "self.child_elements_mut().take(1)")))
case("c23_e_comment", "bug", "C23", (D, "				true => predicate(n.as_element().unwrap()),\n				false => false", "				true => predicate(n.as_element().unwrap()),\n				false => n.is_comment()"))
case("c23_e_noroot", "bug", "C23", (D, "				true => predicate(n.as_element().unwrap()),", "				true => n.as_element().unwrap().child_nodes.is_empty() && predicate(n.as_element().unwrap()),"))
case("c23_e_call", "same", "C23", (D, RALLE, "		self.remove_all(&new_pred)\n"))
case("c23_e_match", "same", "C23", (D, '''			match n.is_element(){
				true => predicate(n.as_element().unwrap()),
				false => false
			}
''', "			n.as_element().map(|e| predicate(e)).unwrap_or(false)\n"))
case("c23_els_ns", "bug", "C23", (D, RELS, '''				let e = self.child_nodes[i].as_element().expect("logic error");
				if e.xmlns_prefix.is_none() && predicate(e) {
					rm_indices.push(i);
				}
'''))
case("c23_els_let", "same", "C23", (D, RELS, '''				let e = self.child_nodes[i].as_element().expect("logic error");
				let hit = predicate(e);
				if hit { rm_indices.push(i) }
'''))
case("c23_name_tag", "bug", "C23", (D, "self.remove_elements(move |e| e.name == n)", "self.remove_elements(move |e| e.tag_name() == n)"))
case("c23_name_start", "bug", "C23", (D, "self.remove_elements(move |e| e.name == n)", "self.remove_elements(move |e| e.name.starts_with(n.as_str()))"))
case("c23_name_get", "same", "C23", (D, "self.remove_elements(move |e| e.name == n)", "self.remove_elements(|e| e.name().as_str() == n.as_str())"))
