# C25: positions in errors
P = "C25"
L = "src/lib.rs"
LC = """	let mut line = 1;
	let mut col = 1;
	for (i, c) in text.char_indices(){
		if i >= pos {break;}
		col += 1;
		if c == '\\n' {
			line += 1;
			col = 1;
		}
	}
	(line, col)
"""
case("c25_s_lt", "same", P, (L, LC, """	let (mut line, mut col) = (1, 1);
	for (i, c) in text.char_indices() {
		if i < pos {
			if c == '\\n' {
				line += 1;
				col = 1;
			} else {
				col += 1;
			}
		}
	}
	(line, col)
"""))
case("c25_s_count", "same", P, (L, LC, """	let before = &text[..pos];
	let line = before.matches('\\n').count() + 1;
	let col = before.chars().rev().take_while(|c| *c != '\\n').count() + 1;
	(line, col)
"""))
case("c25_s_zero", "same", P, (L, LC, """	let mut line = 0;
	let mut col = 0;
	for (i, c) in text.char_indices() {
		if pos <= i {break;}
		match c {
			'\\n' => {line += 1; col = 0;}
			_ => col += 1
		}
	}
	(line + 1, col + 1)
"""))
case("c25_s_while", "same", P, (L, LC, """	let mut line = 1;
	let mut col = 1;
	let mut it = text.char_indices();
	while let Some((i, c)) = it.next() {
		if i >= pos {return (line, col);}
		col = if c == '\\n' {1} else {col + 1};
		if c == '\\n' {line += 1;}
	}
	(line, col)
"""))
case("c25_s_tw", "same", P, (L, LC, LC.replace("text.char_indices(){", "text.char_indices().take_while(|(i, _)| *i < pos) {").replace("		if i >= pos {break;}\n", "").replace("(i, c) in", "(_, c) in")))
case("c25_s_sl", "same", P, (L, LC, LC.replace("text.char_indices(){", "text[..pos].chars() {").replace("		if i >= pos {break;}\n", "").replace("(i, c) in", "c in")))
ONE = """			let (line, col) = line_and_column(&buffer, tag_start);
			return Err(errors::ParsingError::new(format!(
				"cannot start with closing tag (syntax error on line {line}, column {col})"
			)).into());
"""
case("c25_s_help", "same", P, (L, ONE, """			return Err(at_position("cannot start with closing tag", &buffer, tag_start));
"""), (L, "/// get line and column number for index", """fn at_position(msg: &str, text: &String, pos: usize) -> KissXmlError {
	let (line, col) = line_and_column(text, pos);
	errors::ParsingError::new(format!("{msg} (syntax error on line {line}, column {col})")).into()
}

/// get line and column number for index"""))
case("c25_s_tuple", "same", P, (L, ONE, """			let at = line_and_column(&buffer, tag_start);
			let place = format!("line {}, column {}", at.0, at.1);
			return Err(errors::ParsingError::new(format!("cannot start with closing tag (syntax error on {place})")).into());
"""))
ATT = """			let (line, col) = line_and_column(&buffer, tag_span.0);
			return Err(errors::ParsingError::new(format!(
				"invalid XML syntax on line {line}, column {col}: no content after ="
"""
case("c25_s_start", "same", P, (L, ATT, ATT.replace("			let (line, col) = line_and_column(&buffer, tag_span.0);", "			let (start, _) = *tag_span;\n			let (line, col) = line_and_column(buffer, start);")))
CL = """					let (line, col) = line_and_column(&buffer, tag_span.0);
					return Err(errors::ParsingError::new(format!(
						"closing tag {slice} does"""
case("c25_s_cl", "same", P, (L, CL, CL.replace("tag_span.0", "next_span.0.unwrap()")))
case("c25_s_text", "same", P, (L, "				let (line, col) = line_and_column(&buffer, tag_span.1);\n", "				let text_start = tag_span.1;\n				let (line, col) = line_and_column(&buffer, text_start);\n"))

case("c25_b_gt", "bug", P, (L, LC, LC.replace("i >= pos", "i > pos")))
case("c25_b_old", "bug", P, (L, LC, LC.replace("		if i >= pos {break;}\n", "").replace("			col = 1;\n		}\n", "			col = 1;\n		}\n		if i >= pos {break;}\n")))
case("c25_b_reset", "bug", P, (L, LC, LC.replace("			col = 1;\n", "			col = 0;\n")))
case("c25_b_noreset", "bug", P, (L, LC, LC.replace("			col = 1;\n", "")))
case("c25_b_cr", "bug", P, (L, LC, LC.replace("		if c == '\\n' {", "		if c == '\\n' || c == '\\r' {")))
case("c25_b_enum", "bug", P, (L, LC, LC.replace("text.char_indices()", "text.chars().enumerate()")))
case("c25_b_bytes", "bug", P, (L, LC, LC.replace("text.char_indices()", "text.bytes().enumerate()").replace("'\\n'", "b'\\n'")))
case("c25_b_w", "bug", P, (L, LC, LC.replace("col += 1", "col += c.len_utf8()")))
case("c25_b_tab", "bug", P, (L, LC, LC.replace("col += 1", "col += if c == '\\t' {4} else {1}")))
case("c25_b_swap", "bug", P, (L, ATT, ATT.replace("(line, col)", "(col, line)")))
case("c25_b_end", "bug", P, (L, ATT, ATT.replace("tag_span.0", "tag_span.1")))
case("c25_b_tc", "bug", P, (L, ATT, ATT.replace("&buffer, tag_span.0", "&tag_content.to_string(), 0")))
case("c25_b_prev", "bug", P, (L, CL, CL.replace("tag_span.0", "last_span.0")))
case("c25_b_prev2", "bug", P, (L, CL, CL.replace("tag_span.0", "last_span.1")))
case("c25_b_one", "bug", P, (L, ONE, ONE.replace("tag_start)", "tag_span.1)")))
case("c25_b_one2", "bug", P, (L, ONE, ONE.replace("&buffer, tag_start)", "&slice.to_string(), 0)")))
case("c25_b_one3", "bug", P, (L, ONE, ONE.replace("tag_start)", "tag_end)")))
case("c25_b_root", "bug", P, (L, "strip_tag(root_slice).as_str(), &buffer, &tag_span, None", "strip_tag(root_slice).as_str(), &buffer, &(0, tag_span.1), None"))
case("c25_b_elem", "bug", P, (L, "parse_new_element(tag_def.as_str(), &buffer, &tag_span, parse_stack", "parse_new_element(tag_def.as_str(), &buffer, &last_span, parse_stack"))
case("c25_b_only", "bug", P, (L, """				let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
				return Err(errors::ParsingError::new(format!(
					"only 1""", """				let (line, col) = line_and_column(&buffer, tag_span.0);
				return Err(errors::ParsingError::new(format!(
					"only 1"""))
