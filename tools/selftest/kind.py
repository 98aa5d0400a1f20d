D = "src/dom.rs"
# ---------------------------------------------------------------- C14
TT = '''		NODE_TYPE
'''
ETXT = '''	fn as_text(&self) -> Result<&Text, TypeCastError> {Err(TypeCastError::new("Cannot cast Element as Text"))}
'''
EEM = '''	fn as_element_mut(&mut self) -> Result<&mut Element, TypeCastError> {Ok(self)}
'''
NT = '''		if self.is_cdata() {
			DomNodeType::CDataNode
		} else if self.is_comment() {
			DomNodeType::CommentNode
		} else if self.is_element() {
			DomNodeType::ElementNode
		} else if self.is_text() {
			DomNodeType::TextNode
		} else {
			panic!("Logic error! Box<dyn Node> value has no corresponding type in enum DomNodeType")
		}
'''
TXTIMPL = '''impl Node for Text {

	fn text(&self) -> String {
		self.content.clone()
	}

	fn is_element(&self) -> bool {
		false
	}

	fn is_text(&self) -> bool {
		true
	}
'''
case("c14_blank", "bug", "C14", (D, TXTIMPL, TXTIMPL.replace("		true\n", "		!self.content.is_empty()\n")))
case("c14_both", "bug", "C14", (D, TXTIMPL, TXTIMPL.replace("		false\n", "		true\n")))
case("c14_match", "same", "C14", (D, TXTIMPL, TXTIMPL.replace("		true\n", "		matches!(self.as_any().type_id(), _)\n")))
case("c14_nonempty_cast", "bug", "C14", (D, EEM, '''	fn as_element_mut(&mut self) -> Result<&mut Element, TypeCastError> {
		if self.child_nodes.is_empty() { return Err(TypeCastError::new("Cannot cast Element as Element")); }
		Ok(self)
	}
'''))
case("c14_mut_edit", "bug", "C14", (D, EEM, '''	fn as_element_mut(&mut self) -> Result<&mut Element, TypeCastError> {
		self.cleanup_text_nodes();
		Ok(self)
	}
'''))
case("c14_ret", "same", "C14", (D, EEM, '''	fn as_element_mut(&mut self) -> Result<&mut Element, TypeCastError> {
		let me = self;
		return Ok(me);
	}
'''))
case("c14_child", "bug", "C14", (D, '''	fn as_element(&self) -> Result<&Element, TypeCastError> {Ok(&self)}
''', '''	fn as_element(&self) -> Result<&Element, TypeCastError> {
		match self.child_nodes.first() {
			Some(n) if self.child_nodes.len() == 1 && n.is_element() => n.as_element(),
			_ => Ok(self)
		}
	}
'''))
case("c14_astext", "bug", "C14", (D, ETXT, '''	fn as_text(&self) -> Result<&Text, TypeCastError> {
		if self.child_nodes.len() == 1 { return self.child_nodes[0].as_text(); }
		Err(TypeCastError::new("Cannot cast Element as Text"))
	}
'''))
case("c14_tag_swap", "bug", "C14", (D, NT, NT.replace("DomNodeType::CDataNode", "DomNodeType::TextNode", 1)))
case("c14_tag_order", "same", "C14", (D, NT, '''		if self.is_text() { return DomNodeType::TextNode; }
		if self.is_element() { return DomNodeType::ElementNode; }
		if self.is_comment() { return DomNodeType::CommentNode; }
		if self.is_cdata() { return DomNodeType::CDataNode; }
		panic!("Logic error! Box<dyn Node> value has no corresponding type in enum DomNodeType")
'''))
case("c14_tag_else", "same", "C14", (D, NT, '''		match (self.is_text(), self.is_element(), self.is_comment()) {
			(true, _, _) => DomNodeType::TextNode,
			(_, true, _) => DomNodeType::ElementNode,
			(_, _, true) => DomNodeType::CommentNode,
			_ => DomNodeType::CDataNode,
		}
'''))
BOXT = '''		crate::text_escape(self.content.clone())
	}

	fn boxed(self) -> Box<dyn Node> {
		Box::new(self)
	}
'''
case("c14_box_trim", "bug", "C14", (D, BOXT, BOXT.replace("Box::new(self)", "Box::new(Text::new(self.content.trim()))")))
case("c14_box_let", "same", "C14", (D, BOXT, BOXT.replace("Box::new(self)", "let b: Box<dyn Node> = Box::new(Text::new(self.content.as_str()));\n		b")))
case("c14_from", "bug", "C14", (D, "		value.node_type()\n", "		if value.text().is_empty() { DomNodeType::ElementNode } else { value.node_type() }\n"))
case("c14_from_same", "same", "C14", (D, "		value.node_type()\n", "		let t = value.as_ref().node_type();\n		t\n"))

# ---------------------------------------------------------------- C15
EEQ = '''		if self.name == other.name && self.xmlns == other.xmlns
			&& self.xmlns_prefix == other.xmlns_prefix
			&& self.attributes == other.attributes
			&& self.child_nodes.len() == other.child_nodes.len() {
			for i in 0..self.child_nodes.len() {
				if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {
					return false;
				}
			}
			return true;
		}
		return false;
'''
def eeq(id, kind, *rs):
    t = EEQ
    for a, b in rs:
        assert t.count(a) == 1, (id, a)
        t = t.replace(a, b)
    case(id, kind, "C15", (D, EEQ, t))
eeq("c15_prefix", "bug", ("			&& self.xmlns_prefix == other.xmlns_prefix\n", ""))
eeq("c15_attrs", "bug", ("self.attributes == other.attributes", "self.attributes.len() == other.attributes.len()"))
eeq("c15_attrs_in", "bug", ("self.attributes == other.attributes", "self.attributes.iter().all(|(k, v)| other.attributes.get(k) == Some(v))"))
eeq("c15_last", "bug", ("for i in 0..self.child_nodes.len() {", "for i in 1..self.child_nodes.len() {"))
eeq("c15_last2", "bug", ("for i in 0..self.child_nodes.len() {", "for i in 0..self.child_nodes.len().saturating_sub(1) {"))
eeq("c15_len", "bug", ("			&& self.child_nodes.len() == other.child_nodes.len() {\n			for i in 0..self.child_nodes.len() {", " {\n			for i in 0..self.child_nodes.len().min(other.child_nodes.len()) {"))
eeq("c15_contains", "bug", ("if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {", "if !other.child_nodes.iter().any(|c| node_eq(&self.child_nodes[i], c)) {"))
eeq("c15_comments", "bug", ("if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {", "if self.child_nodes[i].is_comment() && other.child_nodes[i].is_comment() { continue; }\n				if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {"))
eeq("c15_self", "bug", ("if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {", "if !node_eq(&self.child_nodes[i], &self.child_nodes[i]) {"))
eeq("c15_xmlns", "bug", ("self.xmlns == other.xmlns", "(self.xmlns.is_none() || self.xmlns == other.xmlns)"))
eeq("c15_name_ci", "bug", ("self.name == other.name", "self.name.eq_ignore_ascii_case(&other.name)"))
eeq("c15_ret_true", "bug", ("					return false;\n", "					return i > 0;\n"))
eeq("c15_break", "bug", ("					return false;\n", "					break;\n"))
case("c15_early", "same", "C15", (D, EEQ, '''		if self.name != other.name || self.xmlns != other.xmlns { return false; }
		if self.xmlns_prefix != other.xmlns_prefix { return false; }
		if self.attributes != other.attributes { return false; }
		if self.child_nodes.len() != other.child_nodes.len() { return false; }
		let mut i = 0;
		while i < self.child_nodes.len() {
			if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) { return false; }
			i += 1;
		}
		true
'''))
case("c15_zip", "same", "C15", (D, EEQ, '''		self.name == other.name && self.xmlns == other.xmlns
			&& self.xmlns_prefix == other.xmlns_prefix
			&& self.attributes == other.attributes
			&& self.child_nodes.len() == other.child_nodes.len()
			&& self.child_nodes.iter().zip(other.child_nodes.iter()).all(|(a, b)| node_eq(a, b))
'''))
case("c15_zip_nolen", "bug", "C15", (D, EEQ, '''		self.name == other.name && self.xmlns == other.xmlns
			&& self.xmlns_prefix == other.xmlns_prefix
			&& self.attributes == other.attributes
			&& self.child_nodes.iter().zip(other.child_nodes.iter()).all(|(a, b)| node_eq(a, b))
'''))
case("c15_zip_for", "same", "C15", (D, EEQ, '''		let head = self.name == other.name && self.xmlns == other.xmlns
			&& self.xmlns_prefix == other.xmlns_prefix
			&& self.attributes == other.attributes;
		if !head || self.child_nodes.len() != other.child_nodes.len() { return false; }
		for (a, b) in self.child_nodes.iter().zip(&other.child_nodes) {
			if !node_eq(a, b) { return false; }
		}
		true
'''))
case("c15_ptr", "same", "C15", (D, EEQ, "		if std::ptr::eq(self, other) { return true; }\n" + EEQ))
case("c15_flag", "same", "C15", (D, EEQ, '''		let mut same = self.name == other.name && self.xmlns == other.xmlns
			&& self.xmlns_prefix == other.xmlns_prefix
			&& self.attributes == other.attributes
			&& self.child_nodes.len() == other.child_nodes.len();
		if same {
			for i in 0..self.child_nodes.len() {
				if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {
					same = false;
					break;
				}
			}
		}
		same
'''))
case("c15_flag_last", "bug", "C15", (D, EEQ, '''		let mut same = self.name == other.name && self.xmlns == other.xmlns
			&& self.xmlns_prefix == other.xmlns_prefix
			&& self.attributes == other.attributes
			&& self.child_nodes.len() == other.child_nodes.len();
		if same {
			for i in 0..self.child_nodes.len() {
				same = node_eq(&self.child_nodes[i], &other.child_nodes[i]);
			}
		}
		same
'''))
case("c15_helper", "same", "C15", (D, EEQ, '''		self.name == other.name && self.xmlns == other.xmlns
			&& self.xmlns_prefix == other.xmlns_prefix
			&& self.attributes == other.attributes
			&& Self::same_children(&self.child_nodes, &other.child_nodes)
'''), (D, "	fn check_attr_name(", '''	fn same_children(a: &Vec<Box<dyn Node>>, b: &Vec<Box<dyn Node>>) -> bool {
		if a.len() != b.len() { return false; }
		for i in 0..a.len() {
			if !node_eq(&a[i], &b[i]) { return false; }
		}
		true
	}

	fn check_attr_name('''))
TEQ = "		self.content.eq(&other.content)\n"
case("c15_text_trim", "bug", "C15", (D, TEQ, "		self.content.trim() == other.content.trim()\n"))
case("c15_text_len", "bug", "C15", (D, TEQ, "		self.content.len() == other.content.len() && self.content.starts_with(&other.content[..])\n"))
case("c15_text_bytes", "same", "C15", (D, TEQ, "		self.content == other.content\n"))
CEQ = '''			n1.as_comment().unwrap() == n2.as_comment().unwrap(),
'''
case("c15_ne_comment", "bug", "C15", (D, CEQ, "			true,\n"))
case("c15_ne_text", "bug", "C15", (D, CEQ, "			n1.as_comment().unwrap().get_content().trim() == n2.as_comment().unwrap().get_content().trim(),\n"))
NEQ = '''	let t1 = n1.node_type();
	let t2 = n2.node_type();
	if t1 != t2 {
		return false;
	}
'''
case("c15_ne_kinds", "bug", "C15", (D, NEQ, NEQ.replace("		return false;", "		return n1.text() == n2.text();")))
NEQF = NEQ + '''	return match t1 {
		DomNodeType::CDataNode =>
			n1.as_cdata().unwrap() == n2.as_cdata().unwrap(),
		DomNodeType::CommentNode =>
			n1.as_comment().unwrap() == n2.as_comment().unwrap(),
		DomNodeType::ElementNode =>
			n1.as_element().unwrap() == n2.as_element().unwrap(),
		DomNodeType::TextNode =>
			n1.as_text().unwrap() == n2.as_text().unwrap()
	}
'''
case("c15_ne_match", "same", "C15", (D, NEQF, '''	match (n1.as_element(), n2.as_element()) {
		(Ok(a), Ok(b)) => return a == b,
		(Err(_), Err(_)) => {},
		_ => return false
	}
	if let (Ok(a), Ok(b)) = (n1.as_text(), n2.as_text()) { return a == b; }
	if let (Ok(a), Ok(b)) = (n1.as_comment(), n2.as_comment()) { return a == b; }
	if let (Ok(a), Ok(b)) = (n1.as_cdata(), n2.as_cdata()) { return a == b; }
	false
'''))
ECL = '''		let mut new_children: Vec<Box<dyn Node>> = Vec::with_capacity(self.child_nodes.len());
		for c in &self.child_nodes {
			new_children.push(clone_node(c))
		}
		Self {
			name: self.name.clone(),
			child_nodes: new_children,
			attributes: self.attributes.clone(),
			xmlns: self.xmlns.clone(),
			xmlns_prefix: self.xmlns_prefix.clone(),
			xmlns_context: self.xmlns_context.clone(),
		}
'''
def ecl(id, kind, *rs):
    t = ECL
    for a, b in rs:
        assert t.count(a) == 1, (id, a)
        t = t.replace(a, b)
    case(id, kind, "C15", (D, ECL, t))
ecl("c15_cl_ctx", "bug", ("xmlns_context: self.xmlns_context.clone()", "xmlns_context: Default::default()"))
ecl("c15_cl_prefix", "bug", ("xmlns_prefix: self.xmlns_prefix.clone()", "xmlns_prefix: self.xmlns.as_ref().and(self.xmlns_prefix.clone())"))
ecl("c15_cl_skip", "bug", ("			new_children.push(clone_node(c))\n", "			if !c.is_comment() { new_children.push(clone_node(c)) }\n"))
ecl("c15_cl_rev", "bug", ("in &self.child_nodes {", "in self.child_nodes.iter().rev() {"))
ecl("c15_cl_ins0", "bug", ("new_children.push(clone_node(c))", "new_children.insert(0, clone_node(c))"))
ecl("c15_cl_take", "bug", ("in &self.child_nodes {", "in self.child_nodes.iter().take(1000) {"))
ecl("c15_cl_filter", "bug", ("in &self.child_nodes {", "in self.child_nodes.iter().filter(|n| !n.text().is_empty() || n.is_element()) {"))
ecl("c15_cl_text", "bug", ("new_children.push(clone_node(c))", "match c.as_cdata() { Ok(cd) => new_children.push(Text::new(cd.text()).boxed()), Err(_) => new_children.push(clone_node(c)) }"))
ecl("c15_cl_name", "bug", ("name: self.name.clone(),", "name: self.tag_name(),"))
ecl("c15_cl_collect", "same", ('''		let mut new_children: Vec<Box<dyn Node>> = Vec::with_capacity(self.child_nodes.len());
		for c in &self.child_nodes {
			new_children.push(clone_node(c))
		}
''', "		let new_children: Vec<Box<dyn Node>> = self.child_nodes.iter().map(|c| clone_node(c)).collect();\n"))
ecl("c15_cl_fn", "same", ('''		let mut new_children: Vec<Box<dyn Node>> = Vec::with_capacity(self.child_nodes.len());
		for c in &self.child_nodes {
			new_children.push(clone_node(c))
		}
''', "		let new_children = self.child_nodes.iter().map(clone_node).collect::<Vec<_>>();\n"))
ecl("c15_cl_while", "same", ('''		for c in &self.child_nodes {
			new_children.push(clone_node(c))
		}
''', '''		let mut i = 0;
		while i < self.child_nodes.len() {
			let c = &self.child_nodes[i];
			new_children.push(clone_node(c));
			i += 1;
		}
'''))
ecl("c15_cl_extend", "same", ('''		for c in &self.child_nodes {
			new_children.push(clone_node(c))
		}
''', "		new_children.extend(self.child_nodes.iter().map(clone_node));\n"))
CLN = '''		Box::new(node.as_text().expect("logic error").clone())
'''
case("c15_cn_trim", "bug", "C15", (D, CLN, '''		Box::new(Text::new(node.as_text().expect("logic error").content.trim()))
'''))
case("c15_cn_kind", "bug", "C15", (D, '''		Box::new(node.as_cdata().expect("logic error").clone())
''', '''		Box::new(Text::new(node.as_cdata().expect("logic error").text()))
'''))
case("c15_cn_new", "same", "C15", (D, CLN, '''		let t = node.as_text().expect("logic error");
		Text::new(t.content.clone()).boxed()
'''))
HE = '''		self.name.hash(state);
		self.xmlns.hash(state);
'''
case("c15_h_ctx", "bug", "C15", (D, HE, HE + "		self.xmlns_context.len().hash(state);\n"))
case("c15_h_map", "bug", "C15", (D, HE, HE + "		for (k, v) in &self.attributes { k.hash(state); v.hash(state); }\n"))
case("c15_h_prefix", "same", "C15", (D, HE, HE + "		self.xmlns_prefix.hash(state);\n"))
case("c15_h_less", "same", "C15", (D, HE, "		self.name.hash(state);\n"))
case("c15_h_count", "same", "C15", (D, HE, HE + "		self.child_nodes.len().hash(state);\n"))
case("c15_h_addr", "bug", "C15", (D, HE, HE + "		(self as *const Self as usize).hash(state);\n"))
DEQ = '''		self.declaration == other.declaration
		&& self.dtds == other.dtds
		&& self.root_element == other.root_element
'''
case("c15_d_dtd", "bug", "C15", (D, DEQ, DEQ.replace("		&& self.dtds == other.dtds\n", "		&& self.dtds.len() == other.dtds.len()\n")))
case("c15_d_decl", "bug", "C15", (D, DEQ, DEQ.replace("self.declaration == other.declaration", "(self.declaration.is_none() || self.declaration == other.declaration)")))
case("c15_d_early", "same", "C15", (D, DEQ, '''		if self.root_element != other.root_element { return false; }
		if self.declaration != other.declaration { return false; }
		self.dtds == other.dtds
'''))
