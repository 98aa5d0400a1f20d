# C09: checks before stores
P = "C09"
D = "src/dom.rs"
CN = """		let content: String = comment.into();
		if content.contains("-->") {
			Err(InvalidContent::new("Comments cannot contain '-->'"))
		} else {
			Ok(Self { comment: content })
		}
"""
CS = """		let content = content.into();
		if content.contains("-->") {
			Err(InvalidContent::new("Comments cannot contain '-->'"))
		} else {
			self.comment = content.into();
			Ok(())
		}
"""
DN = """		let content: String = cdata.into();
		if content.contains("]]>") {
			Err(InvalidContent::new("CDATA cannot contain ']]>' as content"))
		} else {
			Ok(Self { cdata: content })
		}
"""
DS = """		let content = content.into();
		if content.contains("]]>") {
			Err(InvalidContent::new("CDATA cannot contain ']]>'"))
		} else {
			self.cdata = content.into();
			Ok(())
		}
"""
SA = """		Element::check_attr_name(n.as_str())?;
		let v: String = value.into();
		self.attributes.insert(n, v);
		Ok(())
"""
EN = """		Element::check_elem_name(name.as_str())?;
		if let Some(prefix) = &xmlns_prefix {
			Element::check_prefix(prefix.as_str())?;
		}
"""
EA = """					Element::check_attr_name(n.as_str())?;
					attrs.insert(n, v.clone().into());
"""
NF = """		Element::check_elem_name(name)?;
		Ok(Self {
			name: name.to_string(),
			..Default::default()
		})
"""
AC = """		if checker.is_match(name) {
			Ok(())
		} else {
			Err(InvalidAttributeName::new("""
NC = """		if checker.is_match(name) {
			Ok(())
		} else {
			Err(InvalidElementName::new("""
CA = "		self.attributes.clear()\n"
NM = "	pub fn name(&self) -> String {"

# --- same
case("c09_s_cn1", "same", P, (D, CN, """		let content: String = comment.into();
		if !content.contains("-->") {
			return Ok(Self { comment: content });
		}
		Err(InvalidContent::new("Comments cannot contain '-->'"))
"""))
case("c09_s_cn2", "same", P, (D, CN, """		let content: String = comment.into();
		match content.find("-->") {
			Some(_) => Err(InvalidContent::new("Comments cannot contain '-->'")),
			None => Ok(Self { comment: content })
		}
"""))
case("c09_s_cn3", "same", P, (D, CN, """		let mut c = Self { comment: String::new() };
		c.set_content(comment)?;
		Ok(c)
"""))
case("c09_s_cn4", "same", P, (D, CN, """		let content: String = comment.into();
		if content.matches("-->").next().is_some() {
			Err(InvalidContent::new("Comments cannot contain '-->'"))
		} else {
			Ok(Self { comment: content })
		}
"""))
case("c09_s_cn5", "same", P, (D, CN, """		let content: String = comment.into();
		if content.split("-->").count() > 1 {
			Err(InvalidContent::new("Comments cannot contain '-->'"))
		} else {
			Ok(Self { comment: content })
		}
"""))
case("c09_s_cn6", "same", P, (D, CN, """		let content: String = comment.into();
		if content.contains("--") && content.contains("-->") {
			Err(InvalidContent::new("Comments cannot contain '-->'"))
		} else {
			Ok(Self { comment: content })
		}
"""))
case("c09_s_cs1", "same", P, (D, CS, """		*self = Comment::new(content)?;
		Ok(())
"""))
case("c09_s_cs2", "same", P, (D, CS, """		self.comment = Self::checked(content.into())?;
		Ok(())
"""), (D, """	/// Gets the content of this comment
""", """	fn checked(s: String) -> Result<String, InvalidContent> {
		if s.contains("-->") {
			return Err(InvalidContent::new("Comments cannot contain '-->'"));
		}
		Ok(s)
	}
	/// Gets the content of this comment
"""))
case("c09_s_cs3", "same", P, (D, CS, """		let content: String = content.into();
		if content.contains("-->") {
			return Err(InvalidContent::new("Comments cannot contain '-->'"));
		}
		self.comment.clear();
		self.comment.push_str(&content);
		Ok(())
"""))
case("c09_s_cs4", "same", P, (D, CS, """		let content: String = content.into();
		if content.contains("-->") {
			return Err(InvalidContent::new("Comments cannot contain '-->'"));
		}
		let _ = std::mem::replace(&mut self.comment, content);
		Ok(())
"""))
case("c09_s_cs5", "same", P, (D, CS, """		let content: String = content.into();
		if content.contains("-->") {
			return Err(InvalidContent::new("Comments cannot contain '-->'"));
		}
		self.put(content);
		Ok(())
"""), (D, """	/// Gets the content of this comment
""", """	fn put(&mut self, s: String) {
		self.comment = s;
	}
	/// Gets the content of this comment
"""))
case("c09_s_cd1", "same", P, (D, DN, """		let cdata: String = cdata.into();
		let bad = cdata.contains("]]>");
		if bad {
			return Err(InvalidContent::new("CDATA cannot contain ']]>' as content"));
		}
		Ok(Self { cdata })
"""))
case("c09_s_cd2", "same", P, (D, DS, """		let content = content.into();
		if content.to_string().contains("]]>") {
			return Err(InvalidContent::new("CDATA cannot contain ']]>'"));
		}
		self.cdata = content.trim_start_matches("").to_string();
		Ok(())
"""))
case("c09_s_sa1", "same", P, (D, SA, """		match Element::check_attr_name(&n) {
			Ok(()) => { self.attributes.insert(n, value.into()); Ok(()) }
			Err(e) => Err(e)
		}
"""))
case("c09_s_sa2", "same", P, (D, SA, """		Element::check_attr_name(n.as_str())?;
		*self.attributes.entry(n).or_insert_with(String::new) = value.into();
		Ok(())
"""))
case("c09_s_sa3", "same", P, (D, SA, """		Element::check_attr_name(n.as_str())?;
		let v: String = value.into();
		match self.attributes.get_mut(&n) {
			Some(old) => { *old = v; }
			None => { self.attributes.insert(n, v); }
		}
		Ok(())
"""))
case("c09_s_sa4", "same", P, (D, SA, """		Element::check_attr_name(n.as_str()).map(|_| {
			self.attributes.insert(n, value.into());
		})
"""))
case("c09_s_en1", "same", P, (D, EN, """		Element::check_elem_name(&name)?;
		match &xmlns_prefix {
			Some(prefix) => Element::check_prefix(prefix)?,
			None => ()
		}
"""))
case("c09_s_en2", "same", P, (D, EN, """		xmlns_prefix.as_ref().map(|x| Element::check_prefix(x)).transpose()?;
		Element::check_elem_name(name.as_str())?;
"""))
case("c09_s_en3", "same", P, (D, EN, """		if xmlns_prefix.is_some() {
			Element::check_prefix(xmlns_prefix.as_ref().unwrap())?;
		}
		Element::check_elem_name(name.as_str())?;
"""))
case("c09_s_ea1", "same", P, (D, EA, """					let v: String = v.clone().into();
					if let Err(e) = Element::check_attr_name(&n) {
						return Err(e.into());
					}
					attrs.insert(n.clone(), v);
"""))
case("c09_s_ea2", "same", P, (D, """				for (k, v) in attr_map.iter() {
					let n: String = k.clone().into();
					Element::check_attr_name(n.as_str())?;
					attrs.insert(n, v.clone().into());
				}
""", """				let list: Vec<(String, String)> = attr_map.into_iter().map(|(k, v)| (k.into(), v.into())).collect();
				for (n, v) in list {
					Element::check_attr_name(n.as_str())?;
					attrs.insert(n, v);
				}
"""))
case("c09_s_ea3", "same", P, (D, """				for (k, v) in attr_map.iter() {
					let n: String = k.clone().into();
					Element::check_attr_name(n.as_str())?;
					attrs.insert(n, v.clone().into());
				}
""", """				for (k, v) in attr_map.into_iter() {
					attrs.insert(k.into(), v.into());
				}
				for n in attrs.keys() {
					Element::check_attr_name(n.as_str())?;
				}
"""))
case("c09_s_nf1", "same", P, (D, NF, """		Element::check_elem_name(name)?;
		let mut e = Self::default();
		e.name = name.to_owned();
		Ok(e)
"""))
case("c09_s_nf2", "same", P, (D, NF, """		Self::new(name, None, Option::<HashMap<String,String>>::None, None, None, None)
"""))
case("c09_s_ac", "same", P, (D, AC, """		let bad = |c: char| c.is_whitespace() || "<>&\\"'=/".contains(c);
		let starts = name.chars().next().map(|c| c == '_' || c.is_ascii_alphabetic()).unwrap_or(false);
		if starts && !name.contains(bad) && checker.is_match(name) {
			Ok(())
		} else {
			Err(InvalidAttributeName::new("""))
case("c09_s_nc", "same", P, (D, NC, """		if !checker.is_match(name) {
			return Err(InvalidElementName::new(format!("'{}' is not a valid name", name)));
		}
		if name.len() > 0 {
			Ok(())
		} else {
			Err(InvalidElementName::new("""))
case("c09_s_rename", "same", P, (D, NM, """	/// renames this element
	pub fn rename(&mut self, name: &str) -> Result<(), InvalidElementName> {
		Element::check_elem_name(name)?;
		self.name = name.to_string();
		Ok(())
	}
	/// the name
	pub fn name(&self) -> String {"""))

# --- bug
case("c09_b_cn1", "bug", P, (D, CN, CN.replace("content.contains", "content.trim().ends_with")))
case("c09_b_cn2", "bug", P, (D, CN, CN.replace('content.contains("-->")', 'content.contains("--->")')))
case("c09_b_cn3", "bug", P, (D, CN, CN.replace('content.contains("-->")', 'content.lines().next().unwrap_or("").contains("-->")')))
case("c09_b_cn4", "bug", P, (D, CN, CN.replace('content.contains("-->")', 'content.contains("-->") && !content.contains("<!--")')))
case("c09_b_cn5", "bug", P, (D, CN, CN.replace('comment: content', 'comment: content.replace("- ", "-")')))
case("c09_b_cn6", "bug", P, (D, CN, CN.replace('content.contains("-->")', 'content.len() < 4096 && content.contains("-->")')))
case("c09_b_cn7", "bug", P, (D, CN, CN.replace('content.contains("-->")', 'content[..content.len().saturating_sub(3)].contains("-->")')))
case("c09_b_cs1", "bug", P, (D, CS, """		self.comment = content.into();
		if self.comment.contains("-->") {
			Err(InvalidContent::new("Comments cannot contain '-->'"))
		} else {
			Ok(())
		}
"""))
case("c09_b_cs2", "bug", P, (D, CS, """		let content = content.into();
		if self.comment.contains("-->") {
			Err(InvalidContent::new("Comments cannot contain '-->'"))
		} else {
			self.comment = content;
			Ok(())
		}
"""))
case("c09_b_cs3", "bug", P, (D, CS, CS.replace("self.comment = content.into();", "self.comment.push_str(&content);")))
case("c09_b_cs4", "bug", P, (D, CS, CS.replace("		if content", "		if self.comment != content && content.starts_with('-') && content")))
case("c09_b_cd1", "bug", P, (D, DS, DS.replace("]]>", "]] >")))
case("c09_b_cd2", "bug", P, (D, DS, DS.replace('content.contains("]]>")', 'content.ends_with("]]>")')))
case("c09_b_cd3", "bug", P, (D, DN, DN.replace('content.contains("]]>")', 'content.find("]]>").map(|i| i > 0).unwrap_or(false)')))
case("c09_b_sa1", "bug", P, (D, SA, """		let v: String = value.into();
		if self.attributes.len() > 0 {
			Element::check_attr_name(n.as_str())?;
		}
		self.attributes.insert(n, v);
		Ok(())
"""))
case("c09_b_sa2", "bug", P, (D, SA, """		Element::check_attr_name(n.trim())?;
		let v: String = value.into();
		self.attributes.insert(n, v);
		Ok(())
"""))
case("c09_b_sa3", "bug", P, (D, SA, """		let v: String = value.into();
		if let Some(local) = n.strip_prefix("xmlns:") {
			Element::check_attr_name("xmlns")?;
			self.attributes.insert(n, v);
			return Ok(());
		}
		Element::check_attr_name(n.as_str())?;
		self.attributes.insert(n, v);
		Ok(())
"""))
case("c09_b_sa4", "bug", P, (D, SA, """		let v: String = value.into();
		self.attributes.insert(n.clone(), v);
		Element::check_attr_name(n.as_str())?;
		Ok(())
"""))
case("c09_b_sa5", "bug", P, (D, SA, """		Element::check_attr_name(n.split(':').next().unwrap_or(""))?;
		let v: String = value.into();
		self.attributes.insert(n, v);
		Ok(())
"""))
case("c09_b_en1", "bug", P, (D, EN, """		Element::check_elem_name(name.as_str())?;
		if let Some(prefix) = &xmlns_prefix {
			if xmlns.is_none() { Element::check_prefix(prefix.as_str())?; }
		}
"""))
case("c09_b_en2", "bug", P, (D, EN, """		Element::check_elem_name(name.trim())?;
		if let Some(prefix) = &xmlns_prefix {
			Element::check_prefix(prefix.as_str())?;
		}
"""))
case("c09_b_en3", "bug", P, (D, EN, """		Element::check_elem_name(name.as_str())?;
		if let Some(prefix) = &xmlns_prefix {
			Element::check_prefix(name.as_str())?;
		}
"""))
case("c09_b_ea1", "bug", P, (D, EA, EA.replace("					Element::check_attr", "					if !n.starts_with(\"xmlns\") { Element::check_attr").replace(")?;", ")?; }")))
case("c09_b_ea2", "bug", P, (D, EA, EA.replace("n.as_str()", "name.as_str()")))
case("c09_b_nf1", "bug", P, (D, NF, NF.replace("(name)?", "(name.split_once(':').map(|x| x.1).unwrap_or(name))?")))
case("c09_b_nf2", "bug", P, (D, NF, NF.replace("		Element::check_elem_name(name)?;\n", "")))
case("c09_b_ac1", "bug", P, (D, AC, AC.replace("checker.is_match(name)", "checker.is_match(name) || name.starts_with(\"xml\")")))
case("c09_b_ac2", "bug", P, (D, AC, AC.replace("checker.is_match(name)", "checker.is_match(name.trim_end())")))
case("c09_b_nc1", "bug", P, (D, NC, NC.replace("checker.is_match(name)", "name.split(' ').all(|x| checker.is_match(x))")))
case("c09_b_nc2", "bug", P, (D, NC, NC.replace("checker.is_match(name)", "name.is_ascii() || checker.is_match(name)")))
case("c09_b_mut", "bug", P, (D, NM, """	/// mutable access to the name
	pub fn name_mut(&mut self) -> &mut String {
		&mut self.name
	}
	/// the name
	pub fn name(&self) -> String {"""))
case("c09_b_amut", "bug", P, (D, NM, """	/// mutable access to the attributes
	pub fn attributes_mut(&mut self) -> &mut HashMap<String, String> {
		&mut self.attributes
	}
	/// the name
	pub fn name(&self) -> String {"""))
case("c09_b_aiter", "bug", P, (D, NM, """	/// copies all attributes
	pub fn set_attributes(&mut self, m: HashMap<String, String>) {
		self.attributes = m;
	}
	/// the name
	pub fn name(&self) -> String {"""))
case("c09_b_ext", "bug", P, (D, NM, """	/// copies all attributes
	pub fn add_attributes(&mut self, m: Vec<(String, String)>) {
		for (k, v) in m {
			self.attributes.insert(k, v);
		}
	}
	/// the name
	pub fn name(&self) -> String {"""))
case("c09_b_ext2", "bug", P, (D, NM, """	/// copies all attributes
	pub fn add_attributes(&mut self, m: HashMap<String, String>) {
		self.attributes.extend(m);
	}
	/// the name
	pub fn name(&self) -> String {"""))
case("c09_b_cs5", "bug", P, (D, CS, CS.replace("self.comment = content.into();", "self.comment = format!(\"{}>\", content);")))
case("c09_b_pub", "bug", P, (D, "	/// The text of the comment\n	comment: String", "	/// The text of the comment\n	pub comment: String"))
