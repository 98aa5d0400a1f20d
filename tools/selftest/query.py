D = "src/dom.rs"
NAME = """		let n: String = name.into();
		self.child_elements().filter(move |c| c.name == n)
"""
NAMEM = NAME.replace("child_elements()", "child_elements_mut()")
NS = """		let ns = namespace.map(|s| s.to_string());
		self.child_elements().filter(move |c| c.xmlns == ns)
"""
NSM = NS.replace("child_elements()", "child_elements_mut()")
PX = """		let pfx = prefix.map(|p| p.to_string());
		self.child_elements().filter(move |c| c.xmlns_prefix == pfx)
"""
PXM = PX.replace("child_elements()", "child_elements_mut()")
FE = """		let n: String = name.into();
		for e in self.child_elements() {
			if e.name() == n {
				return Ok(e);
			}
		}
		Err(DoesNotExistError::default())
"""
FEM = FE.replace("child_elements()", "child_elements_mut()")
CE = """		self.child_nodes.iter()
			.filter(|n| n.is_element())
			.map(|n| n.as_element().expect("logic error"))
"""
CEM = """		self.child_nodes.iter_mut()
			.filter(|n| n.is_element())
			.map(|n| n.as_element_mut().expect("logic error"))
"""
CR = """		Box::new(
			self.child_nodes.iter()
			.chain(
				self.child_elements().map(|e| e.children_recursive()
				).flatten()
			)
		)
"""
SE = """			self.search(|n| n.is_element())
				.map(|n| n.as_element().expect("logic error"))
				.filter(predicate)
"""
SN = """		let n: String = name.into();
		self.search_elements(move |e| e.name() == n)
"""
ST = """			self.search(|n| n.is_text())
			.map(|n| n.as_text().expect("logic error"))
			.filter(predicate)
"""
SC = """			self.search(|n| n.is_comment())
				.map(|n| n.as_comment().expect("logic error"))
				.filter(predicate)
"""
P = "C21"
# ---- same behaviour
case("c21_s_name", "same", P, (D, NAME, NAME.replace("move |c| c.name == n", "move |c| n == c.name")))
case("c21_s_name2", "same", P, (D, NAME, NAME.replace("move |c| c.name == n", "move |c| c.name.as_str() == n.as_str()")))
case("c21_s_name3", "same", P, (D, NAME, NAME.replace("move |c| c.name == n", "move |c| c.name() == n")))
case("c21_s_name4", "same", P, (D, NAME, NAME.replace("move |c| c.name == n", "move |c| c.name.len() == n.len() && c.name == n")))
case("c21_s_name5", "same", P, (D, NAME, """		let n: String = name.into();
		self.child_nodes.iter().filter_map(|x| x.as_element().ok()).filter(move |c| !(c.name != n))
"""))
case("c21_s_name6", "same", P, (D, NAME, """		let n: String = name.into();
		self.child_nodes.iter().filter_map(move |x| {
			if !x.is_element() { return None; }
			let e = x.as_element().expect("logic error");
			if e.name == n { Some(e) } else { None }
		})
"""))
case("c21_s_name7", "same", P, (D, NAME, """		let n: String = name.into();
		let v: Vec<&Element> = self.child_elements().filter(|c| c.name == n).collect();
		v.into_iter()
"""))
case("c21_s_name8", "same", P, (D, NAME, NAME.replace("move |c| c.name == n", "move |c| matches!(c.name.cmp(&n), std::cmp::Ordering::Equal)")))
case("c21_s_ns", "same", P, (D, NS, """		let ns: Option<String> = namespace.map(String::from);
		self.child_elements().filter(move |c| c.xmlns.as_deref() == ns.as_deref())
"""))
case("c21_s_ns2", "same", P, (D, NS, """		let ns = namespace.map(|s| s.to_string());
		self.child_elements().filter(move |c| match (&c.xmlns, &ns) {
			(None, None) => true,
			(Some(a), Some(b)) => a == b,
			_ => false,
		})
"""))
case("c21_s_ns3", "same", P, (D, NS, NS.replace("c.xmlns == ns", "c.namespace() == ns")))
case("c21_s_px", "same", P, (D, PX, PX.replace("c.xmlns_prefix == pfx", "c.namespace_prefix() == pfx")))
case("c21_s_px2", "same", P, (D, PXM, PXM.replace("c.xmlns_prefix == pfx", "c.xmlns_prefix.is_some() == pfx.is_some() && c.xmlns_prefix == pfx")))
case("c21_s_fe", "same", P, (D, FE, """		let n: String = name.into();
		self.child_elements().find(|e| e.name == n).ok_or_else(DoesNotExistError::default)
"""))
case("c21_s_fe2", "same", P, (D, FE, """		self.elements_by_name(name).next().ok_or(DoesNotExistError::default())
"""))
case("c21_s_fe3", "same", P, (D, FE, """		let n: String = name.into();
		for c in self.child_nodes.iter() {
			if let Ok(e) = c.as_element() {
				if e.name == n { return Ok(e); }
			}
		}
		Err(DoesNotExistError::default())
"""))
case("c21_s_fe4", "same", P, (D, FE, """		let n: String = name.into();
		let mut it = self.child_elements();
		while let Some(e) = it.next() {
			if e.name() != n { continue; }
			return Ok(e);
		}
		Err(DoesNotExistError::default())
"""))
case("c21_s_fe5", "same", P, (D, FEM, """		match self.elements_by_name_mut(name).next() {
			Some(e) => Ok(e),
			None => Err(DoesNotExistError::default())
		}
"""))
case("c21_s_fe6", "same", P, (D, FE, """		let n: String = name.into();
		for i in 0..self.child_nodes.len() {
			if let Ok(e) = self.child_nodes[i].as_element() {
				if e.name == n { return Ok(e); }
			}
		}
		Err(DoesNotExistError::default())
"""))
case("c21_s_ce", "same", P, (D, CE, "		self.child_nodes.iter().filter_map(|n| n.as_element().ok())\n"))
case("c21_s_ce2", "same", P, (D, CE, "		self.children().filter(|n| n.is_element()).map(|n| n.as_element().expect(\"logic error\"))\n"))
case("c21_s_ce3", "same", P, (D, CE, "		self.child_nodes.iter().flat_map(|n| n.as_element())\n"))
case("c21_s_cem", "same", P, (D, CEM, "		self.child_nodes.iter_mut().filter_map(|n| n.as_element_mut().ok())\n"))
case("c21_s_cr", "same", P, (D, CR, """		Box::new(
			self.child_nodes.iter()
			.chain(self.child_elements().flat_map(|e| e.children_recursive()))
		)
"""))
case("c21_s_cr2", "same", P, (D, CR, """		let own = self.child_nodes.iter();
		let deeper = self.child_nodes.iter()
			.filter_map(|n| n.as_element().ok())
			.flat_map(|e| e.children_recursive());
		Box::new(own.chain(deeper))
"""))
case("c21_s_cr3", "same", P, (D, CR, """		Box::new(
			self.child_elements().flat_map(|e| e.children_recursive()).chain(self.child_nodes.iter())
		)
"""))
case("c21_s_cr4", "same", P, (D, CR, """		Box::new(self.child_nodes.iter().flat_map(|n| {
			let deeper: Box<dyn Iterator<Item = &Box<dyn Node>>> = match n.as_element() {
				Ok(e) => e.children_recursive(),
				Err(_) => Box::new(std::iter::empty()),
			};
			std::iter::once(n).chain(deeper)
		}))
"""))
case("c21_s_se", "same", P, (D, SE, """			self.children_recursive().filter_map(|n| n.as_element().ok())
				.filter(predicate)
"""))
case("c21_s_sn", "same", P, (D, SN, """		let n: String = name.into();
		self.children_recursive()
			.filter(|x| x.is_element())
			.map(|x| x.as_element().expect("logic error"))
			.filter(move |e| e.name == n)
"""))
case("c21_s_st", "same", P, (D, ST, """			self.search(|n| !n.is_element() && n.is_text())
			.map(|n| n.as_text().expect("logic error"))
			.filter(predicate)
"""))
case("c21_s_st2", "same", P, (D, ST, """			self.all_children().filter_map(|n| n.as_text().ok())
			.filter(predicate)
"""))
case("c21_s_sc", "same", P, (D, SC, """			self.all_children()
				.filter_map(move |n| match n.as_comment() {
					Ok(c) if predicate(&c) => Some(c),
					_ => None,
				})
"""))
case("c21_s_all", "same", P, (D, "		self.search(|_| true)\n", "		self.children_recursive()\n"))
# ---- bugs
case("c21_b_name_ic", "bug", P, (D, NAME, NAME.replace("c.name == n", "c.name.eq_ignore_ascii_case(&n)")))
case("c21_b_name_tag", "bug", P, (D, NAMEM, NAMEM.replace("c.name == n", "c.tag_name() == n")))
case("c21_b_name_local", "bug", P, (D, NAME, NAME.replace("let n: String = name.into();", "let n: String = name.into();\n		let n = n.rsplit(':').next().unwrap_or_default().to_string();")))
case("c21_b_name_ends", "bug", P, (D, NAME, NAME.replace("c.name == n", "c.name.ends_with(&n)")))
case("c21_b_name_trim", "bug", P, (D, NAME, NAME.replace("c.name == n", "c.name == n.trim()")))
case("c21_b_name_star", "bug", P, (D, NAME, NAME.replace("c.name == n", "n == \"*\" || c.name == n")))
case("c21_b_name_pfx", "bug", P, (D, NAME, NAME.replace("c.name == n", "c.xmlns_prefix.is_none() && c.name == n")))
case("c21_b_name_cd", "bug", P, (D, CE, CE.replace("n.is_element()", "n.is_element() && !n.as_element().unwrap().child_nodes.is_empty()")))
case("c21_b_name_deep", "bug", P, (D, NAME, """		self.search_elements_by_name(name)
"""))
case("c21_b_name_rev", "bug", P, (D, NAMEM, """		let n: String = name.into();
		let v: Vec<&mut Element> = self.child_elements_mut().filter(move |c| c.name == n).collect();
		v.into_iter().rev()
"""))
case("c21_b_name_tw", "bug", P, (D, NAME, """		let n: String = name.into();
		let m = n.clone();
		self.child_elements().skip_while(move |c| c.name != m).take_while(move |c| c.name == n)
"""))
case("c21_b_ns_none", "bug", P, (D, NS, NS.replace("c.xmlns == ns", "ns.is_none() || c.xmlns == ns")))
case("c21_b_ns_def", "bug", P, (D, NSM, NSM.replace("c.xmlns == ns", "c.default_namespace() == ns")))
case("c21_b_ns_slash", "bug", P, (D, NS, NS.replace("|s| s.to_string()", "|s| s.trim_end_matches('/').to_string()")))
case("c21_b_ns_pre", "bug", P, (D, NS, """		let ns = namespace.map(|s| s.to_string());
		self.child_elements().filter(move |c| match (&c.xmlns, &ns) {
			(None, None) => true,
			(Some(a), Some(b)) => a.starts_with(b.as_str()),
			_ => false,
		})
"""))
case("c21_b_ns_empty", "bug", P, (D, NS, NS.replace("|s| s.to_string());", "|s| s.to_string()).filter(|s| !s.is_empty());")))
case("c21_b_px_ns", "bug", P, (D, PXM, PXM.replace("c.xmlns_prefix == pfx", "c.xmlns == pfx")))
case("c21_b_px_ctx", "bug", P, (D, PX, PX.replace("c.xmlns_prefix == pfx", "c.xmlns_prefix == pfx || pfx.as_ref().map_or(false, |p| c.xmlns_context.contains_key(p))")))
case("c21_b_fe_last", "bug", P, (D, FE, """		let n: String = name.into();
		let mut found = Err(DoesNotExistError::default());
		for e in self.child_elements() {
			if e.name() == n {
				found = Ok(e);
			}
		}
		found
"""))
case("c21_b_fe_rev", "bug", P, (D, FEM, """		let n: String = name.into();
		for c in self.child_nodes.iter_mut().rev() {
			if let Ok(e) = c.as_element_mut() {
				if e.name == n { return Ok(e); }
			}
		}
		Err(DoesNotExistError::default())
"""))
case("c21_b_fe_first", "bug", P, (D, FE, """		let n: String = name.into();
		match self.child_elements().next() {
			Some(e) if e.name == n => Ok(e),
			_ => Err(DoesNotExistError::default())
		}
"""))
case("c21_b_fe_deep", "bug", P, (D, FE, """		self.search_elements_by_name(name).next().ok_or(DoesNotExistError::default())
"""))
case("c21_b_fe_brk", "bug", P, (D, FE, """		let n: String = name.into();
		for c in self.child_nodes.iter() {
			match c.as_element() {
				Ok(e) => if e.name == n { return Ok(e); },
				Err(_) => if c.is_cdata() { break; },
			}
		}
		Err(DoesNotExistError::default())
"""))
case("c21_b_fe_ic", "bug", P, (D, FEM, FEM.replace("e.name() == n", "e.name().to_lowercase() == n.to_lowercase()")))
case("c21_b_fe_skip", "bug", P, (D, FE, FE.replace("self.child_elements()", "self.child_nodes.iter().skip(1).filter_map(|n| n.as_element().ok())")))
case("c21_b_cr_grand", "bug", P, (D, CR, """		Box::new(
			self.child_nodes.iter()
			.chain(self.child_elements().flat_map(|e| e.child_nodes.iter()))
		)
"""))
case("c21_b_cr_leaf", "bug", P, (D, CR, """		Box::new(
			self.child_nodes.iter().filter(|n| !n.is_element())
			.chain(self.child_elements().flat_map(|e| e.children_recursive()))
		)
"""))
case("c21_b_cr_one", "bug", P, (D, CR, """		Box::new(
			self.child_nodes.iter()
			.chain(self.child_elements().take(1).map(|e| e.children_recursive()).flatten())
		)
"""))
case("c21_b_cr_pfx", "bug", P, (D, CR, """		Box::new(
			self.child_nodes.iter()
			.chain(self.child_elements().filter(|e| e.child_nodes.len() > 1 || e.xmlns.is_none()).map(|e| e.children_recursive()).flatten())
		)
"""))
case("c21_b_cr_twice", "bug", P, (D, CR, """		Box::new(
			self.child_nodes.iter()
			.chain(self.child_elements().map(|e| e.child_nodes.iter()).flatten())
			.chain(self.child_elements().map(|e| e.children_recursive()).flatten())
		)
"""))
case("c21_b_se", "bug", P, (D, SE, """			self.child_elements()
				.filter(predicate)
"""))
case("c21_b_sn", "bug", P, (D, SN, SN.replace("e.name() == n", "e.tag_name() == n")))
case("c21_b_sn2", "bug", P, (D, SN, SN.replace("e.name() == n", "e.name().contains(&n)")))
case("c21_b_st", "bug", P, (D, ST, ST.replace("n.is_text()", "n.is_text() && !n.text().trim().is_empty()")))
case("c21_b_sc", "bug", P, (D, SC, SC.replace("n.is_comment()", "n.is_comment() && !n.text().is_empty()")))
case("c21_b_all", "bug", P, (D, "		self.search(|_| true)\n", "		self.search(|n| !n.is_comment())\n"))
case("c21_b_search", "bug", P, (D, "			self.children_recursive().filter(predicate)\n", "			self.child_nodes.iter().filter(predicate)\n"))
case("c21_b_ch", "bug", P, (D, """	pub fn children(&self) -> impl Iterator<Item = &Box<dyn Node>>{
		self.child_nodes.iter()
""", """	pub fn children(&self) -> impl Iterator<Item = &Box<dyn Node>>{
		self.child_nodes.iter().filter(|n| !n.is_comment())
"""))
