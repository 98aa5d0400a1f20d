# C28: accessors, constructors, text() and attribute edits
P = "C28"
D = "src/dom.rs"
TN = """		match &self.xmlns_prefix{
			None => self.name.clone(),
			Some(prefix) => format!("{}:{}", prefix, self.name)
		}
"""
DN = """		match self.xmlns_prefix{
			None => self.xmlns.clone(),
			Some(_) => None
		}
"""
TX = """		let mut builder = String::new();
		for c in &self.child_nodes {
			if c.is_text() || c.is_element() {
				builder.push_str(c.text().as_str())
			}
		}
		builder
"""
GA = """		let n: String = attr_name.into();
		self.attributes.get(&n)
"""
RA = """		let n: String = attr_name.into();
		self.attributes.remove(&n)
"""
SA = """		let v: String = value.into();
		self.attributes.insert(n, v);
"""
XC = """			let key = k.as_str();
			if key.starts_with("xmlns:") {
				let split: Vec<&str> = key.splitn(2, ":").collect();
				let prefix = split[1].to_string();
				let ns = v.clone();
				prefixes.insert(prefix, ns);
			}
"""
NP = """		let prefixes = Self::xmlns_context_from_attributes(&self.attributes);
		if prefixes.is_empty() {
			None
		} else {
			Some(prefixes)
		}
"""
ST = """		self.clear_children();
		self.append(Text::new(text));
"""
CC = """		let mut content = String::new();
		content.push_str(self.content.as_str());
		content.push_str(other.content.as_str());
		Text{content}
"""
EA = """				for (k, v) in attr_map.iter() {
					let n: String = k.clone().into();
					Element::check_attr_name(n.as_str())?;
					attrs.insert(n, v.clone().into());
				}
"""
NS = """		let mut xmlns = xmlns;
		if xmlns.is_none() {
			match &xmlns_prefix {
				None => {
					// default xmlns
					xmlns = match attrs.get("xmlns"){
						None => None,
						Some(ns) => Some(ns.to_string())
					}
				},
				Some(prefix) => {
					// prefixed xmlns
					xmlns = match attrs.get(&format!("xmlns:{prefix}")){
						None => None,
						Some(ns) => Some(ns.to_string())
					}
				}
			};
		}
"""
CH = """		match text {
			None => {}
			Some(t) => elem.append(Text::new(t))
		}
		match children {
			None => {},
			Some(child_vec) => elem.append_all(child_vec)
		};
"""
CT = """		let content = content.into();
		if content.contains("]]>") {
			Err(InvalidContent::new("CDATA cannot contain ']]>'"))
		} else {
			self.cdata = content.into();
			Ok(())
		}
"""
# ---- behaviour kept
case("c28_s_tn", "same", P, (D, TN, "		if let Some(prefix) = &self.xmlns_prefix {\n			let mut t = prefix.clone();\n			t.push(':');\n			t.push_str(&self.name);\n			t\n		} else {\n			self.name.clone()\n		}\n"))
case("c28_s_tn2", "same", P, (D, TN, "		match &self.xmlns_prefix{\n			None => self.name(),\n			Some(prefix) => [prefix.as_str(), self.name.as_str()].join(\":\")\n		}\n"))
case("c28_s_dn", "same", P, (D, DN, "		if self.xmlns_prefix.is_some() {return None;}\n		self.xmlns.clone()\n"))
case("c28_s_dn2", "same", P, (D, DN, "		match (&self.xmlns_prefix, &self.xmlns) {\n			(None, Some(x)) => Some(x.clone()),\n			_ => None\n		}\n"))
case("c28_s_tx", "same", P, (D, TX, "		let mut builder = String::new();\n		for c in self.child_nodes.iter() {\n			match c.node_type() {\n				DomNodeType::TextNode | DomNodeType::ElementNode => builder += &c.text(),\n				_ => {}\n			}\n		}\n		builder\n"))
case("c28_s_tx2", "same", P, (D, TX, "		let mut builder = String::new();\n		let mut i = 0;\n		while i < self.child_nodes.len() {\n			let c = &self.child_nodes[i];\n			i += 1;\n			if c.is_comment() || c.is_cdata() {continue;}\n			builder.push_str(c.text().as_str());\n		}\n		builder\n"))
case("c28_s_tx3", "same", P, (D, TX, "		self.child_nodes.iter().filter(|c| c.is_text() || c.is_element()).map(|c| c.text()).collect()\n"))
case("c28_s_ga", "same", P, (D, GA, "		self.attributes.get(attr_name.into().as_str())\n"))
case("c28_s_ra", "same", P, (D, RA, "		let n: String = attr_name.into();\n		if !self.attributes.contains_key(&n) {return None;}\n		self.attributes.remove(&n)\n"))
case("c28_s_sa", "same", P, (D, SA, "		let _old = self.attributes.insert(n, value.into());\n"))
case("c28_s_xc", "same", P, (D, XC, "			if k.starts_with(\"xmlns:\") {\n				prefixes.insert(k[6..].to_string(), v.clone());\n			}\n"))
case("c28_s_xc2", "same", P, (D, XC, "			if let Some(prefix) = k.strip_prefix(\"xmlns:\") {\n				prefixes.insert(prefix.to_string(), v.clone());\n			}\n"))
case("c28_s_np", "same", P, (D, NP, "		let prefixes = Self::xmlns_context_from_attributes(&self.attributes);\n		if prefixes.len() > 0 {\n			Some(prefixes)\n		} else {\n			None\n		}\n"))
case("c28_s_st", "same", P, (D, ST, "		let t = Text::new(text);\n		self.child_nodes = Vec::new();\n		self.append(t);\n"))
case("c28_s_cc", "same", P, (D, CC, "		Text{content: format!(\"{}{}\", self.content, other.content)}\n"))
case("c28_s_cc2", "same", P, (D, CC, "		Text::new(self.content.clone() + other.content.as_str())\n"))
case("c28_s_ea", "same", P, (D, EA, "				for (k, v) in attr_map {\n					let n: String = k.into();\n					Element::check_attr_name(n.as_str())?;\n					attrs.insert(n, v.into());\n				}\n"))
case("c28_s_ns", "same", P, (D, NS, "		let xmlns = match (xmlns, &xmlns_prefix) {\n			(Some(x), _) => Some(x),\n			(None, None) => attrs.get(\"xmlns\").cloned(),\n			(None, Some(prefix)) => attrs.get(&format!(\"xmlns:{prefix}\")).cloned()\n		};\n"))
case("c28_s_ch", "same", P, (D, CH, "		if let Some(t) = text {\n			elem.append(Text::new(t));\n		}\n		if let Some(child_vec) = children {\n			elem.append_all(child_vec);\n		}\n"))
case("c28_s_ch2", "same", P, (D, CH, "		let mut all: Vec<Box<dyn Node>> = Vec::new();\n		if let Some(t) = text {\n			all.push(Text::new(t).boxed());\n		}\n		if let Some(child_vec) = children {\n			all.extend(child_vec);\n		}\n		if all.len() > 0 {elem.append_all(all);}\n"))
case("c28_s_ch3", "same", P, (D, CH, "		match text {\n			None => {}\n			Some(t) => elem.append(Text::new(t))\n		}\n		for c in children.unwrap_or_default() {\n			elem.append_boxed(c);\n		}\n"))
case("c28_s_clear", "same", P, (D, "		self.attributes.clear()\n", "		self.attributes = HashMap::new();\n"))
# ---- bugs
case("c28_b_tn", "bug", P, (D, TN, TN.replace("Some(prefix) =>", "Some(prefix) if self.xmlns.is_none() => format!(\"{}\", self.name).replace(\"\", prefix.get(0..0).unwrap_or(\"\")),\n			Some(prefix) =>")))
case("c28_b_tn2", "bug", P, (D, TN, TN.replace("Some(prefix) =>", "Some(_) if self.xmlns.is_none() => self.name.clone(),\n			Some(prefix) =>")))
case("c28_b_dn", "bug", P, (D, DN, DN.replace("Some(_) => None", "Some(ref p) if p.is_empty() => self.xmlns.clone(),\n			Some(_) => None")))
case("c28_b_dn2", "bug", P, (D, DN, DN.replace("Some(_) => None", "Some(_) => self.attributes.get(\"xmlns\").cloned()")))
case("c28_b_tx", "bug", P, (D, TX, TX.replace("c.is_text() || c.is_element()", "!c.is_comment()")))
case("c28_b_tx2", "bug", P, (D, TX, TX.replace("&self.child_nodes {", "self.child_nodes.iter().rev() {")))
case("c28_b_tx3", "bug", P, (D, TX, TX.replace("builder.push_str(c.text().as_str())", "{if builder.len() > 0 {builder.push(' ');} builder.push_str(c.text().as_str())}")))
case("c28_b_tx4", "bug", P, (D, TX, TX.replace("builder.push_str(c.text().as_str())", "builder.push_str(c.text().trim_end_matches('\\u{feff}'))")))
case("c28_b_tx5", "bug", P, (D, TX, TX.replace("&self.child_nodes {", "self.child_nodes.iter().take(4096) {")))
case("c28_b_tx6", "bug", P, (D, TX, TX.replace("c.is_text() || c.is_element()", "c.is_text() || c.is_element() && c.as_element().unwrap().child_nodes.len() > 0 && builder.len() < 100000")))
case("c28_b_ga", "bug", P, (D, GA, GA.replace("get(&n)", "get(&n).or_else(|| self.attributes.get(n.rsplit(':').next().unwrap_or(\"\")))")))
case("c28_b_ga2", "bug", P, (D, GA, GA.replace("get(&n)", "get(n.trim())")))
case("c28_b_ga3", "bug", P, (D, GA, GA.replace("get(&n)", "get(&n).filter(|v| !v.is_empty())")))
case("c28_b_ra", "bug", P, (D, RA, RA.replace("		self.attributes.remove(&n)\n", "		if n.starts_with(\"xmlns\") {self.xmlns = None;}\n		self.attributes.remove(&n)\n")))
case("c28_b_ra2", "bug", P, (D, RA, RA.replace("		self.attributes.remove(&n)\n", "		let r = self.attributes.get(&n).cloned();\n		if self.attributes.len() > 1 {self.attributes.remove(&n);}\n		r\n")))
case("c28_b_sa", "bug", P, (D, SA, "		let v: String = value.into();\n		self.attributes.entry(n).or_insert(v);\n"))
case("c28_b_sa2", "bug", P, (D, SA, "		let v: String = value.into();\n		self.attributes.insert(n, v.trim().to_string());\n"))
case("c28_b_sa3", "bug", P, (D, SA, SA + "		self.attributes.remove(\"xmlns:xmlns\");\n"))
case("c28_b_xc", "bug", P, (D, XC, XC.replace('"xmlns:"', '"xmlns"').replace("split[1]", "split[split.len()-1]")))
case("c28_b_xc2", "bug", P, (D, XC, XC.replace("splitn(2, ", "splitn(3, ")))
case("c28_b_xc3", "bug", P, (D, XC, XC.replace('starts_with("xmlns:")', 'starts_with("xmlns:") && !v.is_empty()')))
case("c28_b_xc4", "bug", P, (D, XC, XC.replace("v.clone()", "k.clone()")))
case("c28_b_np", "bug", P, (D, NP, "		let prefixes = Self::xmlns_context_from_attributes(&self.attributes);\n		if prefixes.len() < 2 {\n			None\n		} else {\n			Some(prefixes)\n		}\n"))
case("c28_b_np2", "bug", P, (D, NP, NP.replace("Self::xmlns_context_from_attributes(&self.attributes)", "self.xmlns_context.clone()")))
case("c28_b_st", "bug", P, (D, ST, "		self.child_nodes.truncate(1);\n		self.clear_children();\n		self.append(Text::new(text.into().replace('\\r', \"\")));\n"))
case("c28_b_st2", "bug", P, (D, ST, "		self.child_nodes.retain(|c| c.is_comment());\n		self.append(Text::new(text));\n"))
case("c28_b_cc", "bug", P, (D, CC, CC.replace("		content.push_str(other", "		if !self.content.ends_with(' ') && !self.content.is_empty() {content.push(' ');}\n		content.push_str(other")))
case("c28_b_cc2", "bug", P, (D, CC, CC.replace("self.content", "XX").replace("other.content", "self.content").replace("XX", "other.content")))
case("c28_b_ea", "bug", P, (D, EA, EA.replace("attrs.insert(n, v.clone().into());", "attrs.insert(n.to_lowercase(), v.clone().into());")))
case("c28_b_ea2", "bug", P, (D, EA, EA.replace("attrs.insert(n, v.clone().into());", "let v: String = v.clone().into();\n					if !v.is_empty() {attrs.insert(n, v);}")))
case("c28_b_ea3", "bug", P, (D, EA, EA.replace("attr_map.iter()", "attr_map.iter().take(64)")))
case("c28_b_ns", "bug", P, (D, NS, NS.replace("					xmlns = match attrs.get(&format!(\"xmlns:{prefix}\")){", "					xmlns = match attrs.get(&format!(\"xmlns:{prefix}\")).or(attrs.get(\"xmlns\")){")))
case("c28_b_ns2", "bug", P, (D, NS, NS.replace("if xmlns.is_none() {", "if xmlns.is_none() || attrs.contains_key(\"xmlns\") {")))
case("c28_b_ch", "bug", P, (D, CH, CH.replace("Some(t) => elem.append(Text::new(t))", "Some(t) if children.is_none() => elem.append(Text::new(t)),\n			Some(_) => {}")))
case("c28_b_ch2", "bug", P, (D, CH, "		match children {\n			None => {},\n			Some(child_vec) => elem.append_all(child_vec)\n		};\n		match text {\n			None => {}\n			Some(t) => elem.append(Text::new(t))\n		}\n"))
case("c28_b_ch3", "bug", P, (D, CH, CH.replace("Text::new(t)", "Text::new(t.trim())")))
case("c28_b_ct", "bug", P, (D, CT, CT.replace("self.cdata = content.into();", "self.cdata = content.replace(\"\\r\\n\", \"\\n\");")))
case("c28_b_ct2", "bug", P, (D, CT, CT.replace("self.cdata = content.into();", "if content.len() > 0 {self.cdata = content;}")))
case("c28_b_doc", "bug", P, (D, "			declaration: declaration,\n", "			declaration: declaration.or(Some(Declaration::default())),\n"))
case("c28_b_text", "bug", P, (D, "		let content: String = text.into();\n		Self{content}\n", "		let content: String = text.into();\n		Self{content: content.replace('\\u{0}', \"\")}\n"))
