"""C05, C08, C22 (parser)"""
L, P = "src/lib.rs", "src/parsing.rs"


def c(i, k, props, *eds):
    case(i, k, props, *[(L, a, b) for a, b in eds])


EOFB = '''			// EoF
			if real_text(&buffer[tag_span.1..]).is_some() {
				let (line, col) = line_and_column(&buffer, tag_span.1);
				return Err(errors::ParsingError::new(format!(
					"Text outside the root element is not supported (syntax error on line {line}, column {col})"
				)).into());
			}
			break
'''
CMP = '''				let open_tagname = active_element.tag_name();
				if tag_def != open_tagname {
'''
ROOTED = '''			if parse_stack.empty_stack() {
				// root element already closed, next tag not allowed
'''
FIN = '''	if ! parse_stack.empty_stack() {
		return Err(errors::ParsingError::new(format!(
			"root element not closed"
		)).into());
	}
'''
TXT = '''		match real_text(text) {
			None => {},
			Some(content) => {
				parse_stack.append(dom::Text::new(content))
					.map_err(|e|{
						let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
						errors::ParsingError::new(format!(
							"{} (syntax error on line {line}, column {col})", e
						))
					})?;
			}
		};
'''
PRE = '''		if real_text(text_between).is_some() {
			let'''
SELF = '''				if slice.ends_with("/>") {
					// self-closing
					parse_stack.append(new_element).map_err(|e| {
						let (line, col) = line_and_column(&buffer, tag_span.0);
						errors::ParsingError::new(format!(
							"{} (syntax error on line {line}, column {col})", e
						))
					})?;
				} else {
					parse_stack.push(new_element);
				}
'''
CHK = '''			check_element_tag(slice).map_err(|e| {
				let (line, col) = line_and_column(&buffer, tag_span.0);
				errors::ParsingError::new(format!(
					"{} (syntax error on line {line}, column {col})", e
				))
			})?;
'''
c("c05_s_cmp", "same", "C05 C08 C22", (CMP, '''				let open_tagname = active_element.tag_name();
				if !tag_def.eq(&open_tagname) {
'''))
c("c05_s_cmp2", "same", "C05 C08 C22", (CMP, '''				let open_tagname = match active_element.namespace_prefix() {
					Some(p) => format!("{}:{}", p, active_element.name()),
					None => active_element.name()
				};
				let matching = open_tagname.as_str() == tag_def.as_str();
				if !matching {
'''))
c("c05_s_cmp3", "same", "C05 C08 C22", ('''				let active_element = parse_stack.top_element()
''', '''				let closed_name = tag_def;
				let active_element = parse_stack.top_element()
'''), (CMP, CMP.replace("tag_def", "closed_name")))
c("c05_s_self", "same", "C05 C08 C22", (SELF, '''				parse_stack.push(new_element);
				if slice.ends_with("/>") {
					parse_stack.pop()?;
				}
'''))
c("c05_s_self2", "same", "C05 C08 C22", (SELF, '''				let self_closing = slice.ends_with("/>");
				if !self_closing {
					parse_stack.push(new_element);
					continue;
				}
				parse_stack.append(new_element)?;
'''))
c("c05_s_txt", "same", "C05 C08 C22", (TXT, '''		if let Some(content) = real_text(text) {
			parse_stack.append(dom::Text::new(content))?;
		}
'''))
c("c05_s_txt2", "same", "C05 C08 C22", (TXT, '''		add_text(&mut parse_stack, text)?;
'''), ('''/// abbreviates long''', '''fn add_text(stack: &mut parsing::ParseTree, text: &str) -> Result<(), KissXmlError> {
	match real_text(text) {
		Some(content) => stack.append(dom::Text::new(content)),
		None => Ok(())
	}
}
/// abbreviates long'''))
c("c05_s_eof", "same", "C05 C08 C22", (EOFB, '''			let rest = &buffer[tag_span.1..];
			match real_text(rest) {
				None => break,
				Some(_) => return Err(errors::ParsingError::new("text outside the root").into())
			}
'''))
c("c05_s_eof2", "same", "C05 C08 C22", (EOFB, '''			break
'''), (FIN, '''	if ! parse_stack.empty_stack() {
		return Err(errors::ParsingError::new("root element not closed").into());
	}
	if real_text(&buffer[tag_span.1..]).is_some() {
		return Err(errors::ParsingError::new("text outside the root").into());
	}
'''))
c("c05_s_fin", "same", "C05 C08 C22", (FIN, '''	if parse_stack.top_element().is_some() {
		return Err(errors::ParsingError::new("root element not closed").into());
	}
'''))
c("c05_s_pre", "same", "C05 C08 C22", (PRE, '''		if let Some(_) = real_text(text_between) {
			let'''))
c("c05_s_rooted", "same", "C05 C08 C22", (ROOTED, '''			if parse_stack.top_element().is_none() {
'''))
c("c05_s_kind", "same", "C05 C08 C22", ('''			let begin = 4;
			let end = slice.len().saturating_sub(3);
			if begin < end {
				// well-formatted comment
				parse_stack.append(dom::Comment::new(&slice[begin..end])?)
''', '''			let begin = "<!--".len();
			let end = slice.len().saturating_sub("-->".len());
			if end > begin {
				// well-formatted comment
				let content = &slice[begin..end];
				parse_stack.append(dom::Comment::new(content)?)
'''))
c("c05_b_prefix", "bug", "C05", (CMP, '''				let open_tagname = active_element.name();
				if tag_def.rsplit(':').next().unwrap_or("") != open_tagname {
'''))
c("c05_b_prefix2", "bug", "C05", (CMP, '''				let open_tagname = active_element.name();
				if tag_def != open_tagname && tag_def != active_element.tag_name() {
'''))
c("c05_b_case", "bug", "C05", (CMP, '''				let open_tagname = active_element.tag_name();
				if !tag_def.eq_ignore_ascii_case(&open_tagname) {
'''))
c("c05_b_lower", "bug", "C05", (CMP, '''				let open_tagname = active_element.tag_name();
				if tag_def.to_lowercase() != open_tagname.to_lowercase() {
'''))
c("c05_b_starts", "bug", "C05", (CMP, '''				let open_tagname = active_element.tag_name();
				if !tag_def.starts_with(&open_tagname) {
'''))
c("c05_b_len", "bug", "C05", (CMP, '''				let open_tagname = active_element.tag_name();
				if tag_def.len() != open_tagname.len() {
'''))
c("c05_b_empty", "bug", "C05", (CMP, '''				let open_tagname = active_element.tag_name();
				if !tag_def.is_empty() && tag_def != open_tagname {
'''))
c("c05_b_nocmp", "bug", "C05", (CMP, '''				let open_tagname = active_element.tag_name();
				if tag_def.contains('<') {
'''))
c("c05_b_eof", "bug", "C05", (EOFB, "			break\n"))
c("c05_b_eof2", "bug", "C05", (EOFB, EOFB.replace("real_text(&buffer[tag_span.1..]).is_some()", "real_text(&buffer[tag_span.1..]).is_some() && !parse_stack.empty_stack()")))
c("c05_b_rooted", "bug", "C05", (ROOTED, '''			if parse_stack.empty_stack() && !buffer[next_span.0.unwrap()..].starts_with("<a") {
'''))
c("c05_b_rooted2", "bug", "C05", (ROOTED, '''			if parse_stack.empty_stack() && buffer[next_span.0.unwrap()..].starts_with("<!") {
'''))
c("c05_b_fin", "bug", "C05", (FIN, ""))
c("c05_b_fin2", "bug", "C05", (FIN, FIN.replace("! parse_stack.empty_stack()", "! parse_stack.empty_stack() && !buffer.ends_with('>')")))
c("c05_s_txt3", "same", "C05", (TXT, '''		match real_text(text) {
			None => {},
			Some(content) => { let _ = parse_stack.append(dom::Text::new(content)); }
		};
'''))
c("c05_b_txtdrop", "bug", "C05", (TXT, TXT.replace("Some(content) => {", "Some(content) if content.len() > 1 => {").replace("			}\n		};", "			}\n			_ => {}\n		};")))
c("c05_b_pre", "bug", "C05", (PRE, PRE.replace("real_text(text_between).is_some()", "real_text(text_between).is_some() && decl.is_none()")))
c("c05_b_pre2", "bug", "C05", (PRE, PRE.replace("real_text(text_between).is_some()", "real_text(text_between).is_some() && tag_span.1 == 0")))
c("c05_b_self", "bug", "C05", (SELF, SELF.replace('slice.ends_with("/>")', 'slice.ends_with("/>") || slice.ends_with("/ >")')))
c("c05_b_self2", "bug", "C05", (SELF, SELF.replace('slice.ends_with("/>")', 'slice.ends_with(" />")')))
if 0: c("c05_b_chk", "bug", "C05", (CHK, ""))
if 0: c("c05_b_chk2", "bug", "C05", (CHK, "			let _ = check_element_tag(slice);\n"))
c("c05_b_skip", "bug", "C05", ('''		if slice.starts_with("<!--") && slice.ends_with("-->") {
			// comment
''', '''		if slice.starts_with("<?") {
			continue;
		} else if slice.starts_with("<!--") && slice.ends_with("-->") {
			// comment
'''))
c("c05_b_skipcd", "bug", "C05", ('''			// other unsupported thing
			let (line''', '''			// other unsupported thing
			if slice.starts_with("<!E") { continue; }
			let (line'''))
c("c05_b_tolerant", "bug", "C05", ('''				parse_stack.pop()?;
			} else {
				// add''', '''				parse_stack.pop()?;
				if parse_stack.empty_stack() && real_text(&buffer[tag_span.1..]).is_none() { break; }
				if parse_stack.empty_stack() { break; }
			} else {
				// add'''))
c("c05_b_prologel", "bug", "C05", ('''		} else if slice.starts_with("</") {
			// bad XML
''', '''		} else if slice.starts_with("</") && decl.is_some() {
			// tolerate
		} else if slice.starts_with("</") {
			// bad XML
'''))
c("c05_b_prologpi", "bug", "C05", ('''			eprintln!("WARNING: Ignoring {slice} (not supported outside root element)");
		} else if slice.starts_with("</") {
''', '''			eprintln!("WARNING: Ignoring {slice} (not supported outside root element)");
		} else if slice.len() < 4 && !slice.ends_with("/>") {
			eprintln!("WARNING: Ignoring {slice} (not supported outside root element)");
		} else if slice.starts_with("</") {
'''))
