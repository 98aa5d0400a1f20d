L = "src/lib.rs"
# ---------------------------------------------------------------- C07 escapes
TE = '''	let buffer: String = text.into();
	buffer.replace("&", "&amp;")
		.replace("<", "&lt;")
		.replace(">", "&gt;")
}
'''
ES = '''	let buffer: String = text.into();
	buffer.replace("&", "&amp;")
		.replace("<", "&lt;")
		.replace(">", "&gt;")
		.replace("'", "&apos;")
		.replace("\\"", "&quot;")
}
'''
AE = '''pub fn attribute_escape(text: impl Into<String>) -> String {
	escape(text)
}
'''
def loop(arms, head="", it="chars()"):
    return '''	let buffer: String = text.into();
%s	let mut out = String::with_capacity(buffer.len());
	for c in buffer.%s {
		match c {
%s			_ => out.push(c)
		}
	}
	out
}
''' % (head, it, "".join("			%r => out.push_str(\"%s\"),\n" % (k, v) for k, v in arms))
T3 = [("&", "&amp;"), ("<", "&lt;"), (">", "&gt;")]
case("c07_e_loop", "same", "C07", (L, TE, loop(T3)))
case("c07_e_ascii", "bug", "C07", (L, TE, loop(T3).replace("out.push(c)", "out.push(c.to_ascii_lowercase())")))
case("c07_e_ctrl", "bug", "C07", (L, TE, loop(T3).replace("			_ =>", "			c if c == '\\u{feff}' => {},\n			_ =>")))
case("c07_e_loopbug", "bug", "C07", (L, TE, loop(T3[:2])))
case("c07_e_early", "same", "C07", (L, TE, loop(T3, "	if !buffer.contains('&') && !buffer.contains('<') && !buffer.contains('>') { return buffer; }\n")))
case("c07_e_early2", "same", "C07", (L, TE, TE.replace(";\n	buffer", ";\n	if !buffer.contains(&['&', '<', '>'][..]) { return buffer; }\n	buffer", 1)))
case("c07_e_early3", "same", "C07", (L, TE, TE.replace(";\n	buffer", ";\n	if !buffer.contains(|c| c == '&' || c == '<' || c == '>') { return buffer; }\n	buffer", 1)))
case("c07_e_earlybug", "bug", "C07", (L, TE, TE.replace(";\n	buffer", ";\n	if !buffer.contains('&') && !buffer.contains('<') { return buffer; }\n	buffer", 1)))
case("c07_e_earlybug2", "bug", "C07", (L, TE, TE.replace(";\n	buffer", ";\n	if !buffer.contains(|c| c == '&' || c == '<') { return buffer; }\n	buffer", 1)))
case("c07_e_chr", "same", "C07", (L, TE, TE.replace('"<", ', "'<', ")))
case("c07_e_order", "bug", "C07", (L, TE, TE.replace('buffer.replace("&", "&amp;")\n		.replace("<", "&lt;")', 'buffer.replace("<", "&lt;")\n		.replace("&", "&amp;")')))
case("c07_e_reorder", "same", "C07", (L, ES, ES.replace('''		.replace("'", "&apos;")
		.replace("\\"", "&quot;")
''', '''		.replace("\\"", "&quot;")
		.replace("'", "&apos;")
''')))
case("c07_e_guard", "bug", "C07", (L, ES, ES.replace(";\n	buffer", ";\n	if buffer.contains(\"&amp;\") { return buffer; }\n	buffer", 1)))
case("c07_e_len", "bug", "C07", (L, ES, ES.replace(";\n	buffer", ";\n	if buffer.len() < 3 { return buffer; }\n	buffer", 1)))
case("c07_e_empty", "same", "C07", (L, ES, ES.replace(";\n	buffer", ";\n	if buffer.is_empty() { return buffer; }\n	buffer", 1)))
case("c07_e_helper", "same", "C07", (L, ES, ES.replace("	buffer.replace(\"&\", \"&amp;\")\n		.replace(\"<\", \"&lt;\")\n		.replace(\">\", \"&gt;\")\n", "	text_escape(buffer)\n")))
case("c07_e_helperbug", "bug", "C07", (L, ES, ES.replace("	buffer.replace", "	text_escape(buffer).replace")))
case("c07_e_map", "same", "C07", (L, TE, '''	let buffer: String = text.into();
	buffer.chars().map(|c| match c {
		'&' => "&amp;".to_string(),
		'<' => "&lt;".to_string(),
		'>' => "&gt;".to_string(),
		c => c.to_string()
	}).collect()
}
'''))
case("c07_e_fold", "same", "C07", (L, TE, '''	let buffer: String = text.into();
	buffer.chars().fold(String::new(), |mut acc, c| {
		match c {
			'&' => acc.push_str("&amp;"),
			'<' => acc.push_str("&lt;"),
			'>' => acc.push_str("&gt;"),
			c => acc.push(c)
		}
		acc
	})
}
'''))
case("c07_e_const", "same", "C07", (L, TE, '''	const PAIRS: [(&str, &str); 3] = [("&", "&amp;"), ("<", "&lt;"), (">", "&gt;")];
	let mut buffer: String = text.into();
	for (a, b) in PAIRS {
		buffer = buffer.replace(a, b);
	}
	buffer
}
'''))
case("c07_e_split", "same", "C07", (L, TE, '''	let buffer: String = text.into();
	let amp: Vec<&str> = buffer.split('&').collect();
	amp.join("&amp;").replace("<", "&lt;").replace(">", "&gt;")
}
'''))
case("c07_e_run", "same", "C07", (L, TE, '''	let buffer: String = text.into();
	let mut out = String::new();
	let mut last = 0;
	for (i, c) in buffer.char_indices() {
		let r = match c {
			'&' => "&amp;",
			'<' => "&lt;",
			'>' => "&gt;",
			_ => continue
		};
		out.push_str(&buffer[last..i]);
		out.push_str(r);
		last = i + 1;
	}
	out.push_str(&buffer[last..]);
	out
}
'''))
case("c07_e_runbug", "bug", "C07", (L, TE, '''	let buffer: String = text.into();
	let mut out = String::new();
	let mut last = 0;
	for (i, c) in buffer.char_indices() {
		let r = match c {
			'&' => "&amp;",
			'<' => "&lt;",
			'>' => "&gt;",
			_ => continue
		};
		out.push_str(&buffer[last..i]);
		out.push_str(r);
		last = i + c.len_utf8() + 1;
		if last > buffer.len() { last = buffer.len(); }
	}
	while !buffer.is_char_boundary(last) { last += 1; }
	out.push_str(&buffer[last..]);
	out
}
'''))
case("c07_e_text", "same", "C07", (L, AE, '''pub fn attribute_escape(text: impl Into<String>) -> String {
	let buffer = text_escape(text);
	buffer.replace('"', "&quot;").replace('\\'', "&apos;")
}
'''))
case("c07_e_apos", "bug", "C07", (L, AE, '''pub fn attribute_escape(text: impl Into<String>) -> String {
	let buffer = text_escape(text);
	buffer.replace('"', "&quot;")
}
'''))
case("c07_e_trim", "bug", "C07", (L, AE, '''pub fn attribute_escape(text: impl Into<String>) -> String {
	let t: String = text.into();
	escape(t.trim_end_matches('\\0'))
}
'''))
# ---------------------------------------------------------------- C07 unescape
def lines(a, b):
    return "\n".join(SRC[a - 1:b]) + "\n"
SRC = open("/repo/src/lib.rs", newline="").read().replace("\r\n", "\n").split("\n")
i0 = next(i for i, x in enumerate(SRC) if x.startswith("pub fn unescape"))
i1 = next(i for i in range(i0, len(SRC)) if SRC[i] == "}")
UN = "\n".join(SRC[i0:i1 + 1]) + "\n"
def un(body):
    return "pub fn unescape(text: impl Into<String>) -> String {\n" + body + "}\n"
case("c07_u_match", "same", "C07", (L, UN, un('''	let buffer: String = text.into();
	let mut out = String::with_capacity(buffer.len());
	let mut pos = 0;
	while let Some(i) = buffer[pos..].find('&') {
		let start = pos + i;
		out.push_str(&buffer[pos..start]);
		pos = start + 1;
		let decoded = match buffer[start..].find(';') {
			None => None,
			Some(j) => {
				let r = match &buffer[start + 1..start + j] {
					"amp" => Some('&'),
					"lt" => Some('<'),
					"gt" => Some('>'),
					"apos" => Some('\\''),
					"quot" => Some('"'),
					other => match other.strip_prefix('#') {
						Some(n) => u32::from_str_radix(n, 16).ok().and_then(char::from_u32),
						None => None
					}
				};
				r.map(|c| (c, start + j + 1))
			}
		};
		match decoded {
			Some((c, end)) => { out.push(c); pos = end; },
			None => out.push('&')
		}
	}
	out.push_str(&buffer[pos..]);
	out
''')))
BASE = '''	let buffer: String = text.into();
	let mut out = String::new();
	let mut rest = buffer.as_str();
	while let Some(i) = rest.find('&') {
		out.push_str(&rest[..i]);
		rest = &rest[i..];
		if rest.starts_with("&amp;") { out.push('&'); rest = &rest[5..]; }
		else if rest.starts_with("&lt;") { out.push('<'); rest = &rest[4..]; }
		else if rest.starts_with("&gt;") { out.push('>'); rest = &rest[4..]; }
		else if rest.starts_with("&apos;") { out.push('\\''); rest = &rest[6..]; }
		else if rest.starts_with("&quot;") { out.push('"'); rest = &rest[6..]; }
		else {
			let mut done = false;
			if rest.starts_with("&#") {
				if let Some(j) = rest.find(';') {
					if let Some(c) = u32::from_str_radix(&rest[2..j], 16).ok().and_then(char::from_u32) {
						out.push(c);
						rest = &rest[j + 1..];
						done = true;
					}
				}
			}
			if !done { out.push('&'); rest = &rest[1..]; }
		}
	}
	out.push_str(rest);
	out
'''
case("c07_u_rest", "same", "C07", (L, UN, un(BASE)))
case("c07_u_restgt", "bug", "C07", (L, UN, un(BASE.replace('''		else if rest.starts_with("&gt;") { out.push('>'); rest = &rest[4..]; }
''', ""))))
case("c07_u_restskip", "bug", "C07", (L, UN, un(BASE.replace("out.push('<'); rest = &rest[4..];", "out.push('<'); rest = &rest[3..];"))))
case("c07_u_skipunk", "bug", "C07", (L, UN, un(BASE.replace("if !done { out.push('&'); rest = &rest[1..]; }", "if !done { let n = rest.find(';').map(|x| x + 1).unwrap_or(1); out.push_str(&rest[..n]); rest = &rest[n..]; }"))))
case("c07_u_case", "bug", "C07", (L, UN, UN.replace('if slice == "&lt"', 'if slice.eq_ignore_ascii_case("&lt")')))
case("c07_u_reread", "bug", "C07", (L, UN, UN.replace("last_i = i+char_size;", "last_i = i;").replace("					break;\n", "					char_size = 0; break;\n").replace("				last_i = i;", "				last_i = i + if buffer[i..].starts_with(\"&amp;\") { 0 } else { 1 };")))
case("c07_u_skip2", "bug", "C07", (L, UN, UN.replace('string_insert(&mut buffer, (start, end), "&");', 'string_insert(&mut buffer, (start, end), "&");\n							char_size = 2.min(buffer.len() - start);\n							while !buffer.is_char_boundary(start + char_size) { char_size += 1; }')))
case("c07_u_limit", "bug", "C07", (L, UN, UN.replace("in slice.char_indices() {", "in slice.char_indices().take(5) {")))
case("c07_u_swap", "bug", "C07", (L, UN, UN.replace('if slice == "&gt"', 'if slice == "&gte" || slice == "&gt"')))
case("c07_u_amp", "bug", "C07", (L, UN, UN.replace('slice == "&apos"', 'slice == "&#39"')))
case("c07_u_brk", "bug", "C07", (L, UN, UN.replace("None => break,", "None => break,\n			Some(i) if i > 65535 => break,")))
case("c07_u_while", "same", "C07", (L, UN, UN.replace("	loop {\n		if last_i >= buffer.len(){break;}\n", "	while last_i < buffer.len() {\n")))
case("c07_u_table", "same", "C07", (L, UN, un('''	const NAMES: [(&str, &str); 5] = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&apos;", "'"), ("&quot;", "\\"")];
	let buffer: String = text.into();
	let mut out = String::new();
	let mut rest = buffer.as_str();
	'scan: while let Some(i) = rest.find('&') {
		out.push_str(&rest[..i]);
		rest = &rest[i..];
		for (e, c) in NAMES {
			if let Some(r) = rest.strip_prefix(e) {
				out.push_str(c);
				rest = r;
				continue 'scan;
			}
		}
		if let Some(j) = rest.find(';') {
			if let Some(n) = rest[..j].strip_prefix("&#") {
				if let Some(c) = u32::from_str_radix(n, 16).ok().and_then(char::from_u32) {
					out.push(c);
					rest = &rest[j + 1..];
					continue 'scan;
				}
			}
		}
		out.push('&');
		rest = &rest[1..];
	}
	out.push_str(rest);
	out
''')))
