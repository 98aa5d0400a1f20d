"""C08"""
L, D = "src/lib.rs", "src/dom.rs"


def c(i, k, *eds):
    case(i, k, "C08", *[(L, a, b) for a, b in eds])


TX = "				parse_stack.append(dom::Text::new(content))\n"
RT = "	Some(unescape(text))\n"
RX = 'Regex::new(r#"^\\s*$"#).unwrap()'
BL = '''	if matcher.is_match(text) {
		return None;
	}
'''
AT = "		attrs.insert(k.to_string(), unescape(v.to_string()));\n"
QV = "		v = &v[1..(v.len()-1)]; // remove quotes\n"
SP = '		let (k, mut v) = kv.split_once("=").unwrap();\n'
CM = "parse_stack.append(dom::Comment::new(&slice[begin..end])?)"
CD = "parse_stack.append(dom::CData::new(&slice[9 .. slice.len().saturating_sub(3)])?)"
# ---- text
c("c08_b_trim", "bug", (TX, "				parse_stack.append(dom::Text::new(content.trim()))\n"))
c("c08_b_trimend", "bug", ("match real_text(text) {", "match real_text(text.trim_end()) {"))
c("c08_b_crlf", "bug", (TX, '				parse_stack.append(dom::Text::new(content.replace("\\r\\n", "\\n")))\n'))
c("c08_b_crlf2", "bug", ("match real_text(text) {", 'match real_text(text.replace("\\r\\n", "\\n").as_str()) {'))
c("c08_b_raw", "bug", (TX, "				parse_stack.append(dom::Text::new(text))\n"))
c("c08_b_twice", "bug", (TX, "				parse_stack.append(dom::Text::new(unescape(content)))\n"))
c("c08_b_rawhelp", "bug", (RT, "	Some(text.to_string())\n"))
c("c08_b_twicehelp", "bug", (RT, "	Some(unescape(unescape(text)))\n"))
c("c08_b_if", "bug", (RT, "	if text.contains(';') { Some(unescape(text)) } else { Some(text.trim().to_string()) }\n"))
c("c08_b_decodeif", "bug", (RT, '	if text.contains("&#") { Some(unescape(unescape(text))) } else { Some(unescape(text)) }\n'))
c("c08_b_multi", "bug", (RX, 'Regex::new(r#"(?m)^\\s*$"#).unwrap()'))
c("c08_b_nostart", "bug", (RX, 'Regex::new(r#"\\s*$"#).unwrap()'))
c("c08_b_ctl", "bug", (RX, 'Regex::new(r#"^[\\s\\x00-\\x1f]*$"#).unwrap()'))
c("c08_b_lower", "bug", (RT, "	Some(unescape(text.to_lowercase()))\n"))
c("c08_s_trimtest", "same", (BL, "	let _ = matcher;\n	if text.trim().is_empty() {\n		return None;\n	}\n"))
c("c08_s_all", "same", (BL, "	let _ = matcher;\n	if text.chars().all(|c| c.is_whitespace()) {\n		return None;\n	}\n"))
c("c08_s_if", "same", (RT, "	let decoded = if text.contains('&') { unescape(text) } else { text.to_string() };\n	Some(decoded)\n"))
c("c08_s_some", "same", (BL, "	let blank = matcher.is_match(text);\n	if blank {\n		return None;\n	}\n"))
c("c08_s_az", "same", (RX, 'Regex::new(r#"\\A\\s*\\z"#).unwrap()'))
c("c08_s_own", "same", (RT, "	let owned = String::from(text);\n	Some(unescape(owned))\n"))
c("c08_s_inline", "same", (TX, "				let node = dom::Text::new(content.as_str());\n				parse_stack.append(node)\n"))
# ---- comments, CDATA
c("c08_b_ctrim", "bug", (CM, "parse_stack.append(dom::Comment::new(slice[begin..end].trim())?)"))
c("c08_b_cunesc", "bug", (CM, "parse_stack.append(dom::Comment::new(unescape(&slice[begin..end]))?)"))
c("c08_b_coff", "bug", ("			let begin = 4;\n", "			let begin = if slice.len() > 7 && slice[4..].starts_with(' ') { 5 } else { 4 };\n"))
c("c08_b_cdunesc", "bug", (CD, "parse_stack.append(dom::CData::new(unescape(&slice[9 .. slice.len().saturating_sub(3)]))?)"))
c("c08_b_cdtrim", "bug", (CD, "parse_stack.append(dom::CData::new(slice[9 .. slice.len().saturating_sub(3)].trim_start())?)"))
c("c08_b_cdtrimm", "bug", (CD, "parse_stack.append(dom::CData::new(slice[9 ..].trim_end_matches(\"]]>\"))?)"))
c("c08_b_cdnl", "bug", (CD, "parse_stack.append(dom::CData::new(slice[9 .. slice.len().saturating_sub(3)].replace(\"\\r\\n\", \"\\n\"))?)"))
c("c08_s_cdstrip", "same", (CD, "parse_stack.append(dom::CData::new(slice.strip_prefix(\"<![CDATA[\").and_then(|x| x.strip_suffix(\"]]>\")).unwrap_or(\"\"))?)"))
c("c08_s_cdlen", "same", (CD, "parse_stack.append(dom::CData::new(&slice[\"<![CDATA[\".len() .. slice.len() - \"]]>\".len()])?)"))
c("c08_s_cvar", "same", (CM, "parse_stack.append(dom::Comment::new(String::from(&slice[begin..end]))?)"))
c("c08_s_cabs", "same", (CM, "parse_stack.append(dom::Comment::new(&buffer[tag_span.0 + begin..tag_span.1 - 3])?)"))
# ---- attributes
c("c08_b_atrim", "bug", (AT, "		attrs.insert(k.to_string(), unescape(v.trim().to_string()));\n"))
c("c08_b_araw", "bug", (AT, "		attrs.insert(k.to_string(), v.to_string());\n"))
c("c08_b_atwice", "bug", (AT, "		attrs.insert(k.to_string(), unescape(unescape(v)));\n"))
c("c08_b_anl", "bug", (AT, "		attrs.insert(k.to_string(), unescape(v).replace('\\n', \" \"));\n"))
c("c08_b_anl2", "bug", (AT, "		attrs.insert(k.to_string(), unescape(v.replace('\\n', \" \")));\n"))
c("c08_b_aempty", "bug", (AT, "		if !v.is_empty() { attrs.insert(k.to_string(), unescape(v.to_string())); }\n"))
c("c08_b_akey", "bug", (AT, "		attrs.insert(k.to_lowercase(), unescape(v.to_string()));\n"))
c("c08_b_quotes", "bug", (QV, "		v = v.trim_matches(|c| c == '\"' || c == '\\'');\n"))
c("c08_b_quotes2", "bug", (QV, "		v = v.trim_matches('\"').trim_matches('\\'');\n"))
c("c08_b_rsplit", "bug", (SP, '		let (k, mut v) = kv.rsplit_once("=").unwrap();\n'))
c("c08_b_ifkind", "bug", (AT, "		if kv.ends_with('\\'') { attrs.insert(k.to_string(), v.to_string()); } else { attrs.insert(k.to_string(), unescape(v.to_string())); }\n"))
c("c08_b_skip2", "bug", ("	for i in 1..components.len() {\n", "	for i in 2..components.len() {\n"))
c("c08_s_aiter", "same", ("	for i in 1..components.len() {\n		let kv = &components[i];\n", "	for kv in components.iter().skip(1) {\n"))
c("c08_s_aif", "same", (AT, "		let value = unescape(v);\n		attrs.insert(String::from(k), value);\n"))
c("c08_s_find", "same", (SP, '		let at = kv.find(\'=\').unwrap();\n		let (k, mut v) = (&kv[..at], &kv[at + 1..]);\n'))
c("c08_s_strip", "same", (QV, "		v = v.strip_prefix('\"').and_then(|x| x.strip_suffix('\"')).or_else(|| v.strip_prefix('\\'').and_then(|x| x.strip_suffix('\\''))).unwrap_or(v);\n"))
# ---- splitting
INQ = '''			// quoted text
			builder.push(c);
'''
WS = "		} else if c.is_whitespace() {\n"
QS = "		if !in_quote && (c == '\\'' || c == '\"') {\n"
c("c08_b_qws", "bug", (INQ, "			// quoted text\n			builder.push(if c.is_whitespace() { ' ' } else { c });\n"))
c("c08_b_qcr", "bug", (INQ, "			// quoted text\n			if c != '\\r' {builder.push(c);}\n"))
c("c08_b_qany", "bug", (INQ + "			if c == quote_char {\n", INQ + "			if c == '\"' || c == '\\'' {\n"))
c("c08_b_qdouble", "bug", (QS, "		if !in_quote && c == '\"' {\n"))
c("c08_b_qlow", "bug", (INQ, "			// quoted text\n			builder.push(c.to_ascii_lowercase());\n"))
c("c08_s_qmatch", "same", (QS, "		if !in_quote && matches!(c, '\\'' | '\"') {\n"))
c("c08_s_qopt", "same", ('''	let mut in_quote = false;
	let mut quote_char = '\\0';
	for (_i, c) in text.char_indices() {
		if !in_quote && (c == '\\'' || c == '"') {
			// start of quoted text
			in_quote = true;
			quote_char = c;
			builder.push(c);
		} else if in_quote {
			// quoted text
			builder.push(c);
			if c == quote_char {
				// end of quoted text
				in_quote = false;
			}
''', '''	let mut quote: Option<char> = None;
	for c in text.chars() {
		if quote.is_none() && (c == '\\'' || c == '"') {
			// start of quoted text
			quote = Some(c);
			builder.push(c);
		} else if let Some(q) = quote {
			// quoted text
			builder.push(c);
			if c == q {
				quote = None;
			}
'''))
J1 = "			comp.push_str(components.pop_front().expect(\"logic error\").as_str());\n			// check"
c("c08_b_jspace", "bug", (J1, "			comp.push_str(components.pop_front().expect(\"logic error\").trim_matches('\\''));\n			// check"))
c("c08_b_jlose", "bug", ("				comp.push_str(components.pop_front().expect(\"logic error\").as_str());\n			}\n", "				components.pop_front();\n			}\n"))
c("c08_s_join", "same", (J1, "			let next = components.pop_front().expect(\"logic error\");\n			comp += &next;\n			// check"))
# ---- ends
c("c08_b_cend", "bug", ('(&sub_buffer[4..]).find("-->").map(|i|i+start_index+7)', '(&sub_buffer[4..]).rfind("-->").map(|i|i+start_index+7)'))
c("c08_b_cend5", "bug", ('(&sub_buffer[4..]).find("-->").map(|i|i+start_index+7)', '(&sub_buffer[5..]).find("-->").map(|i|i+start_index+8)'))
c("c08_b_cdend", "bug", ('sub_buffer.find("]]>").map(|i|i+start_index+3)', 'quote_aware_find(sub_buffer, "]]>", 9).map(|i|i+start_index+3)'))
c("c08_b_tagend", "bug", ('quote_aware_find(sub_buffer, ">", 1).map(|i|i+start_index+1)', 'sub_buffer.find(">").map(|i|i+start_index+1)'))
c("c08_b_findq", "bug", ('''			} else if c == '\\'' { // start of single-quoted field
				quote_char = '\\'';
				in_quote = true;
			} else if text[(from + i)..].starts_with(pattern) {
''', '''			} else if text[(from + i)..].starts_with(pattern) {
'''))
c("c08_b_findclose", "bug", ('''			if c == quote_char { // end of quoted field
				in_quote = false;
			}
		} else {
			if c == '"' { // start of double-quoted field
				quote_char = '"';
				in_quote = true;
			} else if c == '\\'' { // start of single-quoted field
				quote_char = '\\'';
				in_quote = true;
			} else if text''', '''			if c == '"' || c == '\\'' { // end of quoted field
				in_quote = false;
			}
		} else {
			if c == '"' { // start of double-quoted field
				quote_char = '"';
				in_quote = true;
			} else if c == '\\'' { // start of single-quoted field
				quote_char = '\\'';
				in_quote = true;
			} else if text'''))
c("c08_s_cdend", "same", ('sub_buffer.find("]]>").map(|i|i+start_index+3)', 'sub_buffer[9..].find("]]>").map(|i|i+9+start_index+3)'))
c("c08_s_cend", "same", ('(&sub_buffer[4..]).find("-->").map(|i|i+start_index+7)', '(&sub_buffer[4..]).find("-->").map(|i|i + start_index + "<!--".len() + "-->".len())'))
# ---- constructors and the rest
case("c08_b_cdata", "bug", "C08", (D, "		let content: String = cdata.into();\n", "		let content: String = cdata.into();\n		let content = content.replace('\\r', \"\");\n"))
case("c08_b_eattr", "bug", "C08", (D, "					attrs.insert(n, v.clone().into());\n", "					let v: String = v.clone().into();\n					attrs.insert(n, v.trim().to_string());\n"))
case("c08_b_eattrdrop", "bug", "C08", (D, "					attrs.insert(n, v.clone().into());\n", "					let v: String = v.clone().into();\n					if !v.is_empty() { attrs.insert(n, v); }\n"))
c("c08_b_strip", "bug", ('	if tag.ends_with("/") {tag = &tag[..tag.len().saturating_sub(1)];}\n', '	while tag.ends_with("/") || tag.ends_with("\\"") {tag = &tag[..tag.len().saturating_sub(1)];}\n'))
c("c08_s_strip", "same", ('	if tag.ends_with(">") {tag = &tag[..tag.len().saturating_sub(1)];}\n', '	tag = tag.strip_suffix(">").unwrap_or(tag);\n'))
