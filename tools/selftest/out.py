# C06, C16: serializers
D = "src/dom.rs"
L = "src/lib.rs"


def c(id, kind, props, *edits):
    case(id, kind, props, *[(D, a, b) for a, b in edits])


ATTR = '''			out.push_str(crate::attribute_escape(v).as_str());
			out.push_str("\\"");
'''
LOOP = '''		for (k, v) in attrs {
			out.push_str(" ");
			out.push_str(k.as_str());
			out.push_str("=\\"");
''' + ATTR + '''		}
'''
COLLECT = '''		let mut attrs: Vec<(&String, &String)> = self.attributes().iter().map(|kv| (kv.0, kv.1)).collect();
		attrs.sort_by(crate::attribute_order);  // ensure consistent and predictable attribute ordering
'''
SORT = "		attrs.sort_by(crate::attribute_order);  // ensure consistent and predictable attribute ordering\n"
CLOSE2 = '''			if !inline {out.push_str(prefix);}
			out.push_str("</");
			out.push_str(tag_name.as_str());
			out.push_str(">");
'''
INL = '''			out.push_str(">");
			out.push_str(&self.child_nodes[0].to_string_with_indent(""));
			out.push_str("</");
			out.push_str(tag_name.as_str());
			out.push_str(">");
'''
TXT = '''					let text = crate::text_escape(c.text());
					out.push_str(text.as_str());
'''
OTHER = "					out.push_str(c.to_string_with_indent(indent).as_str());\n"

# --- refactorings
c("c06_s_format", "same", "C06 C16", (LOOP, '''		for (k, v) in attrs {
			out.push_str(&format!(" {}=\\"{}\\"", k, crate::attribute_escape(v)));
		}
'''))
c("c06_s_write", "same", "C06 C16", (LOOP, '''		use std::fmt::Write;
		for (k, v) in attrs {
			write!(out, " {k}=\\"{}\\"", crate::attribute_escape(v.as_str())).unwrap();
		}
'''))
c("c06_s_index", "same", "C06 C16", (LOOP, '''		let mut i = 0;
		while i < attrs.len() {
			let (k, v) = attrs[i];
			out.push(' ');
			out += k;
			out += "=\\"";
			out += &crate::attribute_escape(v.clone());
			out.push('"');
			i += 1;
		}
'''))
c("c06_s_keys", "same", "C06 C16", (COLLECT + LOOP, '''		let mut names: Vec<&String> = self.attributes().keys().collect();
		names.sort_by(|a, b| (!a.starts_with("xmlns"), a.as_str()).cmp(&(!b.starts_with("xmlns"), b.as_str())));
		for k in names {
			let v = &self.attributes[k];
			out.push_str(" ");
			out.push_str(k);
			out.push_str("=\\"");
			out.push_str(crate::attribute_escape(v).as_str());
			out.push_str("\\"");
		}
'''))
c("c06_s_helper", "same", "C06 C16", (LOOP, '''		for (k, v) in attrs {
			Self::write_attribute(&mut out, k, v);
		}
'''), ('''	/// Implementation of writing DOM to XML string
''', '''	fn write_attribute(out: &mut String, k: &str, v: &str) {
		out.push(' ');
		out.push_str(k);
		out.push_str("=\\"");
		out.push_str(&crate::attribute_escape(v));
		out.push('"');
	}

	/// Implementation of writing DOM to XML string
'''))
c("c06_s_inline_escape", "same", "C06 C16", (ATTR, '''			out.push_str(&v.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\\"", "&quot;").replace("'", "&apos;"));
			out.push_str("\\"");
'''))
c("c06_s_char_escape", "same", "C06 C16", (ATTR, '''			for ch in v.chars() {
				match ch {
					'&' => out.push_str("&amp;"),
					'<' => out.push_str("&lt;"),
					'>' => out.push_str("&gt;"),
					'"' => out.push_str("&quot;"),
					'\\'' => out.push_str("&apos;"),
					other => out.push(other)
				}
			}
			out.push_str("\\"");
'''))
c("c06_s_sortkey", "same", "C06 C16", (SORT, '''		attrs.sort_by_key(|kv| (!kv.0.starts_with("xmlns"), kv.0.clone()));
'''))
c("c06_s_unstable", "same", "C06 C16", (SORT, '''		attrs.sort_unstable_by(crate::attribute_order);
'''))
c("c06_s_cmp_inline", "same", "C06 C16", (SORT, '''		attrs.sort_by(|x, y| {
			match (x.0.starts_with("xmlns"), y.0.starts_with("xmlns")) {
				(true, false) => std::cmp::Ordering::Less,
				(false, true) => std::cmp::Ordering::Greater,
				_ => x.0.cmp(y.0)
			}
		});
'''))
c("c06_s_cmp_then", "same", "C06 C16", (SORT, '''		attrs.sort_by(|x, y| y.0.starts_with("xmlns").cmp(&x.0.starts_with("xmlns")).then(x.0.cmp(y.0)).then_with(|| x.1.cmp(y.1)));
'''))
c("c06_s_opentag", "same", "C06 C16", ('''		out.push_str("<");
		out.push_str(tag_name.as_str());

''', '''		out.push_str(&format!("<{}", tag_name));

'''))
c("c06_s_close_recompute", "same", "C06 C16", (CLOSE2, '''			if !inline {out.push_str(prefix);}
			out.push_str(&format!("</{}>", self.tag_name()));
'''))
c("c06_s_match", "same", "C06 C16", ('''				} else {
					// other
					if !(inline) {out.push_str(next_prefix.as_str());}
''' + OTHER, '''				} else if let Ok(com) = c.as_comment() {
					if !(inline) {out.push_str(next_prefix.as_str());}
					out.push_str("<!--");
					out.push_str(com.text().as_str());
					out.push_str("-->");
				} else {
					if !(inline) {out.push_str(next_prefix.as_str());}
					out.push_str(c.to_string_with_indent(indent).as_str());
'''))
c("c06_s_quote", "same", "C06 C16", (LOOP, LOOP.replace('out.push_str("=\\"");', "out.push_str(\"='\");").replace('out.push_str("\\"");', "out.push_str(\"'\");")))
c("c06_s_body", "same", "C06 C16", (INL, '''			let body = self.child_nodes[0].to_string_with_indent("");
			out = format!("{}>{}</{}>", out, body, tag_name);
'''))
c("c06_s_vec_join", "same", "C06 C16", (LOOP, '''		let parts: Vec<String> = attrs.iter().map(|(k, v)| format!(" {}=\\"{}\\"", k, crate::attribute_escape(v.as_str()))).collect();
		out.push_str(&parts.concat());
'''))
c("c06_s_fold", "same", "C06 C16", (LOOP, '''		attrs.iter().for_each(|(k, v)| {
			out.push(' ');
			out.push_str(k);
			out.push_str("=\\"");
			out.push_str(&crate::attribute_escape(v.as_str()));
			out.push('"');
		});
'''))
c("c06_s_nested", "same", "C06 C16", ('''		// children (or not)
		let child_count = self.child_nodes.len();
''', '''		if self.child_nodes.is_empty() {
			out.push_str("/>");
			return out;
		}
		let child_count = self.child_nodes.len();
'''))
# --- bugs
c("c06_b_raw_attr", "bug", "C06", (ATTR, '''			out.push_str(v.as_str());
			out.push_str("\\"");
'''))
c("c06_b_text_esc", "bug", "C06", ("crate::attribute_escape(v)", "crate::text_escape(v)"))
c("c06_b_guard", "bug", "C06", ("out.push_str(crate::attribute_escape(v).as_str());", "if v.contains('&') { out.push_str(crate::attribute_escape(v).as_str()); } else { out.push_str(v); }"))
c("c06_b_xmlns_raw", "bug", "C06", ("out.push_str(crate::attribute_escape(v).as_str());", "if k.starts_with(\"xmlns\") { out.push_str(v); } else { out.push_str(crate::attribute_escape(v).as_str()); }"))
c("c06_b_twice", "bug", "C06", ("crate::attribute_escape(v)", "crate::attribute_escape(crate::escape(v))"))
c("c06_b_squote", "bug", "C06", ("crate::attribute_escape(v)", "crate::text_escape(v).replace(\"'\", \"&apos;\")"))
c("c06_b_order", "bug", "C06", ("crate::attribute_escape(v)", "v.replace(\"<\", \"&lt;\").replace(\"\\\"\", \"&quot;\").replace(\"&\", \"&amp;\")"))
c("c06_b_close_name", "bug", "C06", (CLOSE2, CLOSE2.replace("tag_name.as_str()", "self.name.as_str()")))
c("c06_b_close_trim", "bug", "C06", (INL, INL.replace("tag_name.as_str()", "self.name().as_str()")))
c("c06_b_no_close", "bug", "C06", ('''		if child_count == 0 {
			out.push_str("/>");''', '''		if child_count == 0 {
			out.push_str(if self.name == "br" { ">" } else { "/>" });'''))
c("c06_b_text_raw", "bug", "C06", (TXT, "					out.push_str(c.text().as_str());\n"))
c("c06_b_text_long", "bug", "C06", (TXT, '''					let t = c.text();
					if t.contains('<') || t.contains('&') { out.push_str(&crate::text_escape(t)); } else { out.push_str(&t); }
'''))
c("c06_b_text_twice", "bug", "C06", (TXT, "					out.push_str(&crate::text_escape(c.to_string_with_indent(\"\")));\n"))
c("c06_b_cdata_inline", "bug", "C06", (OTHER, '''					if inline && c.is_cdata() { out.push_str(&crate::text_escape(c.text())); } else { out.push_str(c.to_string_with_indent(indent).as_str()); }
'''))
c("c06_b_comment_trim", "bug", "C06", ('''format!("<!--{}-->", self.comment)''', '''format!("<!-- {} -->", self.comment.trim())'''))
c("c06_b_cdata_esc", "bug", "C06", ('''format!("<![CDATA[{}]]>", self.cdata)''', '''format!("<![CDATA[{}]]>", crate::text_escape(self.cdata.as_str()))'''))
c("c06_b_cdata_end", "bug", "C06", ('''format!("<![CDATA[{}]]>", self.cdata)''', '''format!("<![CDATA[{}]>", self.cdata)'''))
c("c06_b_nospace", "bug", "C06", (LOOP, '''		let mut first = true;
		for (k, v) in attrs {
			if first || self.attributes.len() < 8 { out.push(' '); }
			first = false;
			out.push_str(k.as_str());
			out.push_str("=\\"");
''' + ATTR + '''		}
'''))
c("c06_b_empty_value", "bug", "C06", (LOOP, '''		for (k, v) in attrs {
			out.push_str(" ");
			out.push_str(k.as_str());
			if v.is_empty() { continue; }
			out.push_str("=\\"");
''' + ATTR + '''		}
'''))
c("c06_b_xmlns_field", "bug", "C06", ('''		// children (or not)
''', '''		if let Some(ns) = &self.xmlns {
			if !self.attributes.contains_key("xmlns") && prefix.is_empty() {
				out.push_str(" xmlns=\\"");
				out.push_str(ns);
				out.push_str("\\"");
			}
		}
'''))
c("c06_b_break", "bug", "C06", ('''				if c.is_text() {
					// text is always inline
''', '''				if c.is_text() && c.text().is_empty() {
					return out;
				} else if c.is_text() {
					// text is always inline
'''))
case("c06_b_esc_fn", "bug", "C06", (L, '''		.replace("\\"", "&quot;")
''', '''		.replace("\\"", "\\\\\\"")
'''))
case("c06_b_text_fn", "bug", "C06", (D, "crate::text_escape(self.content.clone())", "self.content.clone()"))
# C16
c("c16_b_nosort", "bug", "C16", (SORT, ""), ("let mut attrs: Vec<(&String, &String)>", "let attrs: Vec<(&String, &String)>"))
c("c16_b_direct", "bug", "C16", (COLLECT, ""), ("for (k, v) in attrs {", "for (k, v) in &self.attributes {"))
c("c16_b_small", "bug", "C16", (SORT, "		if attrs.len() < 16 { attrs.sort_by(crate::attribute_order); }\n"))
c("c16_b_len", "bug", "C16", (SORT, "		attrs.sort_by(|a, b| a.0.len().cmp(&b.0.len()));\n"))
c("c16_b_value", "bug", "C16", (SORT, "		attrs.sort_by(|a, b| a.1.cmp(b.1));\n"))
c("c16_b_key_len", "bug", "C16", (SORT, "		attrs.sort_by_key(|a| a.0.len());\n"))
c("c16_b_lower", "bug", "C16", (SORT, "		attrs.sort_by_key(|a| (!a.0.starts_with(\"xmlns\"), a.0.to_lowercase()));\n"))
c("c16_b_rev", "bug", "C16", (SORT, SORT + "		attrs.reverse();\n"))
CMP = '''		return a.cmp(&b);
'''
case("c16_b_xmlns_equal", "bug", "C16", (L, '''	if a.starts_with("xmlns") && !b.starts_with("xmlns") {
		return Ordering::Less;
''', '''	if a.starts_with("xmlns") && b.starts_with("xmlns") {
		return Ordering::Equal;
	} else if a.starts_with("xmlns") && !b.starts_with("xmlns") {
		return Ordering::Less;
'''))
case("c16_b_icase", "bug", "C16", (L, CMP, "		return a.to_lowercase().cmp(&b.to_lowercase());\n"))
case("c16_b_desc", "bug", "C16", (L, CMP, "		return b.cmp(&a);\n"))
case("c16_b_always_less", "bug", "C16", (L, '''	if a.starts_with("xmlns") && !b.starts_with("xmlns") {
		return Ordering::Less;''', '''	if a.starts_with("xmlns") {
		return Ordering::Less;'''))
case("c16_s_cmp", "same", "C06 C16", (L, '''	if a == b {
		return kv_tup1.1.cmp(&kv_tup2.1);
	}
''', ""))
case("c16_s_cmp2", "same", "C06 C16", (L, '''	if a == b {
		return kv_tup1.1.cmp(&kv_tup2.1);
	}
	if a.starts_with("xmlns") && !b.starts_with("xmlns") {
		return Ordering::Less;
	} else if !a.starts_with("xmlns") && b.starts_with("xmlns") {
		return Ordering::Greater;
	} else {
		return a.cmp(&b);
	}
''', '''	let (na, nb) = (a.starts_with("xmlns"), b.starts_with("xmlns"));
	nb.cmp(&na).then_with(|| a.cmp(b)).then_with(|| kv_tup1.1.cmp(kv_tup2.1))
'''))

case("c16_s_pfx_len", "same", "C16", (L, CMP, """		let n = a.len().min(b.len());
		return a.as_bytes()[..n].cmp(&b.as_bytes()[..n]).then(a.len().cmp(&b.len()));
"""))
case("c16_s_pfx_len2", "same", "C16", (L, CMP, """		let n = a.len().min(b.len());
		match a.as_bytes()[..n].cmp(&b.as_bytes()[..n]) {
			Ordering::Equal => if a.len() < b.len() { return Ordering::Less; } else { return Ordering::Greater; },
			x => return x
		}
"""))
case("c16_s_len_dead", "same", "C16", (L, CMP, """		if a.len() == b.len() { return a.cmp(b); }
		return a.cmp(&b);
"""))
case("c16_b_pfx", "bug", "C16", (L, CMP, """		let n = a.len().min(b.len());
		return a.as_bytes()[..n].cmp(&b.as_bytes()[..n]);
"""))
case("c16_b_pfx_len", "bug", "C16", (L, CMP, """		return a.len().cmp(&b.len());
"""))
case("c16_b_len_eq", "bug", "C16", (L, CMP, """		if a.len() == b.len() { return Ordering::Equal; }
		return a.cmp(&b);
"""))
c("c16_b_ns_const", "bug", "C16", (SORT, "		attrs.sort_by_key(|kv| if kv.0.starts_with(\"xmlns\") { (0, \"\") } else { (1, kv.0.as_str()) });\n"))
c("c16_s_ns_const", "same", "C16", (SORT, "		attrs.sort_by_key(|kv| if kv.0.starts_with(\"xmlns\") { (0, kv.0.as_str()) } else { (1, kv.0.as_str()) });\n"))
