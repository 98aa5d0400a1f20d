L, D, P = "src/lib.rs", "src/dom.rs", "src/parsing.rs"
case("next_tag_match", "same", "C01", (L, '''	if start.is_none() {
		return (None, None);
	}
	let start_index = start.expect("logic error");
''', '''	let start_index = match start {
		None => return (None, None),
		Some(s) => s
	};
'''))
case("qaf_while", "same", "C01", (L, '''	let mut in_quote = false;
	let mut quote_char = '\\0';
	for (i, c) in text[from..].char_indices() {
		if in_quote {
			if c == quote_char { // end of quoted field
				in_quote = false;
			}
		} else {
			if c == '"' { // start of double-quoted field
				quote_char = '"';
				in_quote = true;
			} else if c == '\\'' { // start of single-quoted field
				quote_char = '\\'';
				in_quote = true;
			} else if text[(from + i)..].starts_with(pattern) {
''', '''	let mut in_quote = false;
	let mut quote_char = '\\0';
	let tail = &text[from..];
	let mut it = tail.char_indices();
	while let Some((i, c)) = it.next() {
		if in_quote {
			in_quote = c != quote_char;
		} else {
			if c == '"' || c == '\\'' {
				quote_char = c;
				in_quote = true;
			} else if tail[i..].starts_with(pattern) {
'''))
case("pne_iter", "same", "C01", (L, '''	for i in 1..components.len() {
		let kv = &components[i];
''', '''	for kv in components.iter().skip(1) {
'''))
case("pne_while", "same", "C01", (L, '''	for i in 1..components.len() {
		let kv = &components[i];
''', '''	let mut i = 0;
	while i + 1 < components.len() {
		i += 1;
		let kv = &components[i];
'''))
case("pne_splitonce", "same", "C01", (L, '''		if !kv.contains("=") {
			let (line, col) = line_and_column(&buffer, tag_span.0);
			return Err(errors::ParsingError::new(format!(
				"invalid XML syntax on line {line}, column {col}: attributes must be in the form 'key=\\"value\\"'"
			)).into());
		}
		let (k, mut v) = kv.split_once("=").unwrap();
''', '''		let (k, mut v) = match kv.split_once("=") {
			Some(pair) => pair,
			None => {
				let (line, col) = line_and_column(&buffer, tag_span.0);
				return Err(errors::ParsingError::new(format!(
					"invalid XML syntax on line {line}, column {col}: attributes must be in the form 'key=\\"value\\"'"
				)).into());
			}
		};
'''))
case("strip_tag_prefix", "same", "C01", (L, '''	let mut tag = tag;
	if tag.starts_with("<") {tag = &tag[1..];}
	if tag.starts_with("/") {tag = &tag[1..];}
	if tag.ends_with(">") {tag = &tag[..tag.len().saturating_sub(1)];}
	if tag.ends_with("/") {tag = &tag[..tag.len().saturating_sub(1)];}
	tag.trim().to_string()
''', '''	let tag = tag.strip_prefix("<").unwrap_or(tag);
	let tag = tag.strip_prefix("/").unwrap_or(tag);
	let tag = tag.strip_suffix(">").unwrap_or(tag);
	let tag = tag.strip_suffix("/").unwrap_or(tag);
	tag.trim().to_string()
'''))
case("strip_tag_len", "same", "C01", (L, '''	if tag.ends_with("/") {tag = &tag[..tag.len().saturating_sub(1)];}
''', '''	if tag.ends_with('/') {
		let n = tag.len();
		tag = &tag[0..n - 1];
	}
'''))
case("join_while_let", "same", "C01", (L, '''	while !components.is_empty() {
		let mut comp = components.pop_front().expect("logic error");
''', '''	while let Some(mut comp) = components.pop_front() {
'''))
case("join_front_match", "same", "C01", (L, '''		if !components.is_empty() && (comp.ends_with("=") || components.front().expect("logic error").starts_with("=")) {
			comp.push_str(components.pop_front().expect("logic error").as_str());
			// check''', '''		let merge = match components.front() {
			None => false,
			Some(next) => comp.ends_with('=') || next.starts_with('=')
		};
		if merge {
			comp.push_str(components.pop_front().expect("logic error").as_str());
			// check'''))
case("comment_guard", "same", "C01", (L, '''			let begin = 4;
			let end = slice.len().saturating_sub(3);
			if begin < end {
				// well-formatted comment
				parse_stack.append(dom::Comment::new(&slice[begin..end])?)
''', '''			let (begin, end) = (4, slice.len() - 3);
			if begin < end {
				// well-formatted comment
				let body = &slice[begin..end];
				parse_stack.append(dom::Comment::new(body)?)
'''))
case("syntax_helper", "same", "C01", (L, '''			// broken tag?
			let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
			return Err(errors::ParsingError::new(format!(
				"invalid XML syntax on line {line}, column {col}"
			)).into());
''', '''			// broken tag?
			return Err(syntax_error(&buffer, next_span.0.unwrap()));
'''), (L, '''/// handles new element
''', '''fn syntax_error(buffer: &String, pos: usize) -> KissXmlError {
	let (line, col) = line_and_column(buffer, pos);
	errors::ParsingError::new(format!(
		"invalid XML syntax on line {line}, column {col}"
	)).into()
}

/// handles new element
'''))
case("span_tuple", "same", "C01", (L, '''			last_span = tag_span;
			tag_span = (next_span.0.unwrap(), next_span.1.unwrap());
		}
''', '''			last_span = tag_span;
			if let (Some(a), Some(b)) = next_span {
				tag_span = (a, b);
			}
		}
'''))
case("cdata_strip", "same", "C01", (L, '''			parse_stack.append(dom::CData::new(&slice[9 .. slice.len().saturating_sub(3)])?)
''', '''			let inner = slice.strip_prefix("<![CDATA[").and_then(|s| s.strip_suffix("]]>")).unwrap_or("");
			parse_stack.append(dom::CData::new(inner)?)
'''))
case("text_helper", "same", "C01", (L, '''		match real_text(text) {
			None => {},
			Some(content) => {
				parse_stack.append(dom::Text::new(content))
					.map_err(|e|{
						let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
						errors::ParsingError::new(format!(
							"{} (syntax error on line {line}, column {col})", e
						))
					})?;
			}
		};
''', '''		append_text(&mut parse_stack, text, &buffer, tag_span.0)?;
'''), (L, '''/// handles new element
''', '''fn append_text(stack: &mut parsing::ParseTree, text: &str, buffer: &String, pos: usize) -> Result<(), KissXmlError> {
	if let Some(content) = real_text(text) {
		if let Err(e) = stack.append(dom::Text::new(content)) {
			let (line, col) = line_and_column(buffer, pos);
			return Err(errors::ParsingError::new(format!(
				"{} (syntax error on line {line}, column {col})", e
			)).into());
		}
	}
	Ok(())
}

/// handles new element
'''))
case("todom_while", "same", "C01", (P, '''		for i in (1..self.data.len()).rev() {
			let mut node''', '''		let mut i = self.data.len();
		while i > 1 {
			i -= 1;
			let mut node'''))
case("todom_iflet", "same", "C01", (P, '''			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
				.value.as_element_mut().expect("logic error: parent is not an Element")
				.append_boxed(node.value);
''', '''			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
			let slot = self.data.get_mut(&parent_index).expect("logic error: parent is missing");
			let owner = slot.value.as_element_mut().expect("logic error: parent is not an Element");
			owner.append_boxed(node.value);
'''))
case("cleanup_for", "same", "C01 C02", (D, '''		let mut index = self.child_nodes.len() - 1;
		loop {
			if self.child_nodes[index].is_text()
				&& self.child_nodes[index]
				.as_text().expect("logic error").is_whitespace() {
				self.child_nodes.remove(index);
			}
			if index == 0 {break;}
			index = index.wrapping_sub(1);
		}
''', '''		for index in (0..self.child_nodes.len()).rev() {
			if self.child_nodes[index].is_text()
				&& self.child_nodes[index]
				.as_text().expect("logic error").is_whitespace() {
				self.child_nodes.remove(index);
			}
		}
'''))
case("cleanup_retain", "same", "C01 C02", (D, '''		let mut index = self.child_nodes.len() - 1;
		loop {
			if self.child_nodes[index].is_text()
				&& self.child_nodes[index]
				.as_text().expect("logic error").is_whitespace() {
				self.child_nodes.remove(index);
			}
			if index == 0 {break;}
			index = index.wrapping_sub(1);
		}
''', '''		self.child_nodes.retain(|n| match n.as_text() {
			Ok(t) => !t.is_whitespace(),
			Err(_) => true
		});
'''))
case("cleanup_merge_helper", "same", "C01 C02", (D, '''				let back = self.child_nodes.remove(index);
				let front = self.child_nodes.remove(index-1);
				let merged = Text::concat(front.as_text().expect("logic error"), back.as_text().expect("logic error"));
				self.child_nodes.insert(index-1, merged.boxed());
''', '''				self.merge_pair(index - 1);
'''), (D, '''	/** Discards merges sequential text nodes and then whitespace-only text nodes */
''', '''	fn merge_pair(&mut self, at: usize) {
		let back = self.child_nodes.remove(at + 1);
		let merged = Text::concat(
			self.child_nodes[at].as_text().expect("logic error"),
			back.as_text().expect("logic error")
		);
		self.child_nodes[at] = merged.boxed();
	}
	/** Discards merges sequential text nodes and then whitespace-only text nodes */
'''))
case("abbrev_early", "same", "C01", (L, '''	if limit < 4 || length <= limit {
		text.to_string()
	} else {
		let mut buffer: String = text.chars().take(limit / 2 - 1).collect();
		buffer.push_str("…");
		buffer.extend(text.chars().skip(length - limit / 2));
		buffer
	}
''', '''	if limit < 4 || length <= limit {
		return text.to_string();
	}
	let half = limit / 2;
	let head: String = text.chars().take(half - 1).collect();
	let tail: String = text.chars().skip(length - half).collect();
	format!("{head}…{tail}")
'''))
case("unwrap_slices", "bug", "C01", (L, '''			let end = slice.len().saturating_sub(3);
			if begin < end {''', '''			let end = slice.len().saturating_sub(3);
			if begin != end {'''))
case("b_pne_len", "bug", "C01", (L, "v.len() < 2 || !((v", "!((v"))
case("b_strip_bytes", "bug", "C01", (L, '''	if tag.starts_with("/") {tag = &tag[1..];}
''', '''	if tag.starts_with("/") {tag = &tag[2..];}
'''))
case("b_join", "bug", "C01", (L, '''			if !components.is_empty() && (comp.ends_with("=") || components.front().expect("logic error").starts_with("=")) {
				comp''', '''			if comp.ends_with("=") || components.front().map(|c| c.starts_with("=")).unwrap_or(false) {
				comp'''))
case("b_line", "bug", "C01", (L, '''	for (i, c) in text.char_indices(){
		col += 1;''', '''	for (i, c) in text[..pos + 1].char_indices(){
		col += 1;'''))
