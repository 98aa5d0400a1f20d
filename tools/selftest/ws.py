# C26: whitespace put in by the serializer
P = "C26"
D = "src/dom.rs"
ANY = "			inline = inline || self.child_nodes.iter().any(|n| n.is_text());\n"
NL = "			if !inline{out.push('\\n');}\n"
REC = ".to_string_with_prefix_and_indent(next_prefix.as_str(), indent, inline).as_str()"
OTHER = "					if !(inline) {out.push_str(next_prefix.as_str());}\n"
CNL = "				if !inline {out.push('\\n');}\n"
CLOSE = "			// closing tag\n			if !inline {out.push_str(prefix);}\n"
NP = "			let mut next_prefix = String::from(prefix);\n			next_prefix.push_str(indent);\n"
OPEN = "		if !inline {out.push_str(prefix)}\n"
SINGLE = "		} else if child_count == 1 && !self.child_nodes[0].is_element() {\n"
case("c26_b_first", "bug", P, (D, ANY, "			inline = inline || self.child_nodes[0].is_text();\n"))
case("c26_b_all", "bug", P, (D, ANY, "			inline = inline || self.child_nodes.iter().all(|n| n.is_text());\n"))
case("c26_b_skip", "bug", P, (D, ANY, "			inline = inline || self.child_nodes.iter().skip(1).any(|n| n.is_text());\n"))
case("c26_b_reset", "bug", P, (D, ANY, "			inline = self.child_nodes.iter().any(|n| n.is_text());\n"))
case("c26_b_never", "bug", P, (D, ANY, ""))
case("c26_b_elem", "bug", P, (D, ANY, "			inline = inline || self.child_nodes.iter().any(|n| n.is_text() || n.is_comment());\n"))
case("c26_b_short", "bug", P, (D, ANY, "			inline = inline || self.child_nodes.iter().any(|n| n.is_text() && !n.text().is_empty() && n.text().len() > 1);\n"))
case("c26_b_rec", "bug", P, (D, REC, ".to_string_with_prefix_and_indent(next_prefix.as_str(), indent, false).as_str()"))
case("c26_b_rec2", "bug", P, (D, REC, ".to_string_with_prefix_and_indent(next_prefix.as_str(), indent, true).as_str()"))
case("c26_b_rec3", "bug", P, (D, REC, ".to_string_with_prefix_and_indent(prefix, indent, inline).as_str()"))
case("c26_b_rec4", "bug", P, (D, REC, ".to_string_with_prefix_and_indent(indent, indent, inline).as_str()"))
case("c26_b_rec5", "bug", P, (D, REC, ".to_string_with_prefix_and_indent(next_prefix.as_str(), next_prefix.as_str(), inline).as_str()"))
case("c26_b_nl", "bug", P, (D, NL, "			out.push('\\n');\n"))
case("c26_b_nonl", "bug", P, (D, NL, ""))
case("c26_b_other", "bug", P, (D, OTHER, "					out.push_str(next_prefix.as_str());\n"))
case("c26_b_other2", "bug", P, (D, OTHER, "					if !(inline) {out.push_str(prefix);}\n"))
case("c26_b_other3", "bug", P, (D, OTHER, ""))
case("c26_b_cnl", "bug", P, (D, CNL, "				if !inline || c.is_comment() {out.push('\\n');}\n"))
case("c26_b_cnl2", "bug", P, (D, CNL, "				if !inline && !c.is_cdata() {out.push('\\n');}\n"))
case("c26_b_close", "bug", P, (D, CLOSE, "			out.push_str(prefix);\n"))
case("c26_b_close2", "bug", P, (D, CLOSE, ""))
case("c26_b_close3", "bug", P, (D, CLOSE, "			if !inline {out.push_str(indent);}\n"))
case("c26_b_np", "bug", P, (D, NP, "			let next_prefix = String::from(indent);\n"))
case("c26_b_np2", "bug", P, (D, NP, "			let mut next_prefix = String::from(prefix);\n			next_prefix.push_str(indent);\n			next_prefix.push_str(indent);\n"))
case("c26_b_open", "bug", P, (D, OPEN, "		out.push_str(prefix);\n"))
case("c26_b_open2", "bug", P, (D, OPEN, ""))
case("c26_b_single", "bug", P, (D, SINGLE, "		} else if self.child_nodes.len() == 1 && self.child_nodes[0].is_text() {\n"))
case("c26_b_real", "bug", P, ("src/lib.rs", "fn real_text(text: &str) -> Option<String> {", "fn real_text(text: &str) -> Option<String> {\n	if text.trim().len() == 1 {return None;}"))
case("c26_b_real2", "bug", P, ("src/lib.rs", "fn real_text(text: &str) -> Option<String> {", "fn real_text(text: &str) -> Option<String> {\n	let text = text.trim();"))
# same
case("c26_s_if", "same", P, (D, ANY, "			if !inline {\n				inline = self.child_nodes.iter().any(|n| n.is_text());\n			}\n"))
case("c26_s_loop", "same", P, (D, ANY, "			for n in self.child_nodes.iter() {\n				if n.is_text() {\n					inline = true;\n					break;\n				}\n			}\n"))
case("c26_s_loop2", "same", P, (D, ANY, "			for n in &self.child_nodes {\n				inline |= n.is_text();\n			}\n"))
case("c26_s_or", "same", P, (D, ANY, "			let mixed = self.child_nodes.iter().any(|n| n.is_text());\n			inline = mixed || inline;\n"))
case("c26_s_find", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().find(|n| n.is_text()).is_some();\n"))
case("c26_s_pos", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().position(|n| n.is_text()).is_some();\n"))
case("c26_s_all", "same", P, (D, ANY, "			inline = inline || !self.child_nodes.iter().all(|n| !n.is_text());\n"))
case("c26_s_rev", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().rev().any(|n| n.is_text());\n"))
case("c26_s_cast", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().any(|n| n.as_text().is_ok());\n"))
case("c26_s_helper", "same", P, (D, ANY, "			inline = inline || self.has_text();\n"),
     (D, "	/// Implementation of writing DOM to XML string\n", "	fn has_text(&self) -> bool {\n		self.child_nodes.iter().any(|n| n.is_text())\n	}\n\n	/// Implementation of writing DOM to XML string\n"))
case("c26_s_np", "same", P, (D, NP, "			let next_prefix = format!(\"{prefix}{indent}\");\n"))
case("c26_s_np2", "same", P, (D, NP, "			let next_prefix = prefix.to_string() + indent;\n"))
case("c26_s_np3", "same", P, (D, NP, "			let next_prefix = [prefix, indent].concat();\n"))
case("c26_s_nl", "same", P, (D, "			out.push('>');\n", ""), (D, NL, "			out.push_str(if inline {\">\"} else {\">\\n\"});\n"))
case("c26_s_close", "same", P, (D, CLOSE, "			if inline == false {\n				out += prefix;\n			}\n"))
case("c26_s_cnl", "same", P, (D, CNL, "				if inline {continue;}\n				out += \"\\n\";\n"))
case("c26_s_idx", "same", P, (D, "			for c in &self.child_nodes {\n				if c.is_text() {\n					// text is always", "			for i in 0..self.child_nodes.len() {\n				let c = &self.child_nodes[i];\n				if c.is_text() {\n					// text is always"))
case("c26_s_foreach", "same", P, (D, "					if !(inline) {out.push_str(next_prefix.as_str());}\n					out.push_str(c.to_string_with_indent(indent).as_str());\n", "					let s = c.to_string_with_indent(indent);\n					if inline {\n						out += &s;\n					} else {\n						out += &format!(\"{}{}\", next_prefix, s);\n					}\n"))
case("c26_s_shadow", "same", P, (D, "indent: &str, mut inline: bool) -> String {\n", "indent: &str, inline: bool) -> String {\n"), (D, ANY, "			let inline = inline || self.child_nodes.iter().any(|n| n.is_text());\n"))
case("c26_s_single", "same", P, (D, SINGLE, "		} else if self.child_nodes.len() == 1 && !self.child_nodes[0].is_element() {\n"))
case("c26_s_early", "same", P, (D, "		if child_count == 0 {\n			out.push_str(\"/>\");\n		} else if child_count == 1", "		if self.child_nodes.is_empty() {\n			out.push_str(\"/>\");\n			return out;\n		}\n		if child_count == 1"))
case("c26_s_break", "same", P, (D, NL, "			if !inline{out.push_str(\"\\n\");}\n"))
case("c26_s_take", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().take(child_count).any(|n| n.is_text());\n"))
case("c26_s_filter", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().filter(|n| n.is_text()).count() > 0;\n"))
case("c26_s_filter2", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().filter(|n| n.is_text()).next().is_some();\n"))
case("c26_s_map", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().map(|n| n.is_text()).any(|b| b);\n"))
case("c26_s_fold", "same", P, (D, ANY, "			inline = self.child_nodes.iter().fold(inline, |a, n| a || n.is_text());\n"))
case("c26_s_while", "same", P, (D, ANY, "			let mut i = 0;\n			while !inline && i < child_count {\n				inline = self.child_nodes[i].is_text();\n				i += 1;\n			}\n"))
case("c26_s_split", "same", P, (D, ANY, "			inline = inline || self.child_nodes[0].is_text() || self.child_nodes[1..].iter().any(|n| n.is_text());\n"))
case("c26_s_windows", "same", P, (D, ANY, "			inline = inline || self.child_nodes.iter().step_by(2).any(|n| n.is_text()) || self.child_nodes.iter().skip(1).step_by(2).any(|n| n.is_text());\n"))
case("c26_s_children", "same", P, (D, ANY, "			inline = inline || self.children().any(|n| n.is_text());\n"))
case("c26_s_elemonly", "same", P, (D, ANY, "			if child_count > 1 || !self.child_nodes[0].is_element() {\n				inline = inline || self.child_nodes.iter().any(|n| n.is_text());\n			}\n"))
case("c26_b_take", "bug", P, (D, ANY, "			inline = inline || self.child_nodes.iter().take(6).any(|n| n.is_text());\n"))
case("c26_b_step", "bug", P, (D, ANY, "			inline = inline || self.child_nodes.iter().step_by(2).any(|n| n.is_text());\n"))
