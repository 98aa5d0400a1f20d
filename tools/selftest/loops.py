L, D, P = "src/lib.rs", "src/dom.rs", "src/parsing.rs"
case("c03_unescape_noadvance", "bug", "C03", (L, "				last_i = i+char_size;\n", "				last_i = if char_size > 1 { i+char_size } else { i };\n"))
case("c03_prologue_comment", "bug", "C03", (L, "			no_comment_warn += 1;\n", "			no_comment_warn += 1;\n			if slice == \"<!---->\" { continue; }\n"))
case("c03_cleanup_again", "same", "C03", (D, '''				self.child_nodes.remove(index);
			}
			if index == 0 {break;}''', '''				self.child_nodes.remove(index);
				if index > 0 && index < self.child_nodes.len() {continue;}
			}
			if index == 0 {break;}'''))
case("c03_join_pushback", "bug", "C03", (L, '''		// push component to result list
		result.push(comp);
''', '''		// push component to result list
		if comp.ends_with("=") {components.push_front(comp);} else {result.push(comp);}
'''))
case("c03_eq_self", "bug", "C03", (D, '''			n1.as_element().unwrap() == n2.as_element().unwrap(),''', '''			node_eq(n1, n2),'''))
case("c03_rangefrom", "bug", "C03", (D, '''			for i in 0..self.child_nodes.len() {
				if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {
					return false;
				}
			}
			return true;''', '''			for i in 0usize.. {
				if i < self.child_nodes.len() && !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {
					return false;
				}
				if self.child_nodes.len() > 0 && i == self.child_nodes.len() {break;}
			}
			return true;'''))
case("c03_unescape_while", "same", "C03", (L, '''	loop {
		if last_i >= buffer.len(){break;}
		match (&buffer[last_i..])''', '''	while last_i < buffer.len() {
		match (&buffer[last_i..])'''))
case("c03_unescape_tail", "same", "C03", (L, '''			None => break,
			Some(i) => {
				let i = i+last_i;''', '''			None => { last_i = buffer.len(); }
			Some(offset) => {
				let i = last_i + offset;'''))
case("c03_cleanup_rev", "same", "C03", (D, '''		let mut index = self.child_nodes.len() - 1;
		while index > 0 {
			if''', '''		for index in (1..self.child_nodes.len()).rev() {
			if'''), (D, '''				self.child_nodes.insert(index-1, merged.boxed());
			}
			index -= 1;
''', '''				self.child_nodes.insert(index-1, merged.boxed());
			}
'''))
case("c03_cleanup_while", "same", "C03", (D, '''		let mut index = self.child_nodes.len() - 1;
		loop {
			if self.child_nodes[index].is_text()
				&& self.child_nodes[index]
				.as_text().expect("logic error").is_whitespace() {
				self.child_nodes.remove(index);
			}
			if index == 0 {break;}
			index = index.wrapping_sub(1);
		}''', '''		let mut index = self.child_nodes.len();
		while index > 0 {
			index -= 1;
			let blank = match self.child_nodes[index].as_text() {
				Ok(t) => t.is_whitespace(),
				Err(_) => false
			};
			if blank {
				self.child_nodes.remove(index);
			}
		}'''))
case("c03_cleanup_retain", "same", "C03", (D, '''		let mut index = self.child_nodes.len() - 1;
		loop {
			if self.child_nodes[index].is_text()
				&& self.child_nodes[index]
				.as_text().expect("logic error").is_whitespace() {
				self.child_nodes.remove(index);
			}
			if index == 0 {break;}
			index = index.wrapping_sub(1);
		}''', '''		self.child_nodes.retain(|n| !(n.is_text() && n.as_text().expect("logic error").is_whitespace()));'''))
case("c03_join_while_let", "same", "C03", (L, '''	while !components.is_empty() {
		let mut comp = components.pop_front().expect("logic error");
''', '''	while let Some(mut comp) = components.pop_front() {
'''))
case("c03_next_tag_helper", "same", "C03", (L, '''	loop {
		// find next tag
		let next_span = next_tag(&buffer, tag_span.1);
		if next_span.0.is_none() {
			// EoF''', '''	loop {
		// find next tag
		let from = tag_span.1;
		let next_span = next_tag(&buffer, from);
		if let None = next_span.0 {
			// EoF'''))
case("c03_eq_while", "same", "C03", (D, '''			for i in 0..self.child_nodes.len() {
				if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {
					return false;
				}
			}
			return true;''', '''			let mut i = 0;
			while i < self.child_nodes.len() {
				if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {
					return false;
				}
				i += 1;
			}
			return true;'''))
case("c03_eq_zip", "same", "C03", (D, '''			for i in 0..self.child_nodes.len() {
				if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {
					return false;
				}
			}
			return true;''', '''			return self.child_nodes.iter().zip(other.child_nodes.iter()).all(|(a, b)| node_eq(a, b));'''))
case("c03_text_iter", "same", "C03", (D, '''		for c in &self.child_nodes {
			if c.is_text() || c.is_element() {
				builder.push_str(c.text().as_str())
			}
		}
		builder''', '''		self.child_nodes.iter()
			.filter(|c| c.is_text() || c.is_element())
			.for_each(|c| builder.push_str(&c.text()));
		builder'''))
case("c03_indent_rec", "same", "C03", (D, '''				self.to_string_with_prefix_and_indent("", "  ", false)
			}''', '''				self.to_string_with_indent("  ")
			}'''))
case("c03_flag_loop", "same", "C03", (L, '''	while !components.is_empty() {
		let mut comp''', '''	let mut done = components.is_empty();
	while !done {
		let mut comp'''), (L, '''		result.push(comp);
	}
	result
''', '''		result.push(comp);
		done = components.is_empty();
	}
	result
'''))
