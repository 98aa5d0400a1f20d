"""C17, C18, C19, C22"""
D, L = "src/dom.rs", "src/lib.rs"


def c(i, k, props, *eds):
    case(i, k, props, *[(D, a, b) for a, b in eds])


TS = '''		self.to_string_with_indent("  ")
	}

	/**
	Produces'''
WFP = '''		fs::write(path, self.to_string_with_indent(indent))
'''
WF = '''		write!(out, "{}", self.to_string_with_indent(indent))
'''
DISP = '''impl std::fmt::Display for Document{
	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
		write!(f, "{}", self.to_string_with_indent("  "))
'''
DBG = DISP.replace("Display", "Debug")
MK = '''		match path.as_ref().parent(){
			None => {}
			Some(dir) => fs::create_dir_all(dir)?
		};
'''
RD = '''	let content = fs::read_to_string(path_ref)?;
	parse_str(content)
'''
RS = '''	let mut buffer = String::new();
	reader.read_to_string(&mut buffer)?;
	parse_str(buffer)
'''


def dp(x):
    return DISP.split("\n")[0] + "\n" + DISP.split("\n")[1] + "\n" + x


def db(x):
    return dp(x).replace("Display", "Debug")


# ---- C17
c("c17_s_disp", "same", "C17", (DISP, dp('		f.write_str(&self.to_string())\n')))
c("c17_s_disp2", "same", "C17", (DISP, dp('		f.write_str(self.to_string_with_indent("  ").as_str())\n')))
c("c17_s_dbg", "same", "C17", (DBG, db('		write!(f, "{self}")\n')))
c("c17_s_dbg2", "same", "C17", (DBG, db('		std::fmt::@::fmt(self, f)\n').replace("@", "Display")))
c("c17_s_file", "same", "C17 C19", (WFP, '''		use std::io::Write;
		let mut f = fs::File::create(path)?;
		f.write_all(self.to_string_with_indent(indent).as_bytes())
'''))
c("c17_s_file2", "same", "C17 C19", (WFP, '''		use std::io::Write;
		let mut f = std::io::BufWriter::new(fs::File::create(path)?);
		f.write_all(self.to_string_with_indent(indent).as_bytes())?;
		f.flush()
'''))
c("c17_s_file3", "same", "C17 C19", (WFP, '''		let mut f = fs::File::create(path)?;
		self.write_to_file_with_indent(&mut f, indent)
'''))
c("c17_s_file4", "same", "C17 C19", (WFP, '''		let mut f = fs::OpenOptions::new().write(true).create(true).truncate(true).open(path)?;
		self.write_to_file_with_indent(&mut f, indent)
'''))
c("c17_s_stream", "same", "C17 C19", (WF, '''		let text = self.to_string_with_indent(indent);
		out.write_all(text.as_bytes())?;
		Ok(())
'''))
c("c17_s_ts", "same", "C17 C19", (TS, TS.replace('"  "', 'String::from("  ")')))
c("c17_b_ts", "bug", "C17", (TS, TS.replace('"  "', '"\\t"')))
c("c17_b_trim", "bug", "C17", (DISP, dp('		write!(f, "{}", self.to_string_with_indent("  ").trim_end())\n')))
c("c17_b_nl", "bug", "C17", (DISP, dp('		writeln!(f, "{}", self.to_string_with_indent("  "))\n')))
c("c17_b_alt", "bug", "C17", (DBG, db('		if f.alternate() { write!(f, "{}", self.to_string_with_indent("    ")) } else { write!(f, "{}", self.to_string()) }\n')))
c("c17_b_wr", "bug", "C17", (WF, '''		writeln!(out, "{}", self.to_string_with_indent(indent))
'''))
c("c17_b_wr2", "bug", "C17", ('''		self.write_to_file_with_indent(out, "  ")
''', '''		self.write_to_file_with_indent(out, "    ")
'''))
c("c17_b_ignore", "bug", "C17", (WF, '''		let _ = indent.into();
		write!(out, "{}", self.to_string())
'''))
c("c17_b_append", "bug", "C17", (WFP, '''		let mut f = fs::OpenOptions::new().write(true).create(true).append(true).open(path)?;
		self.write_to_file_with_indent(&mut f, indent)
'''))
c("c17_b_leftover", "bug", "C17 C19", (WFP, '''		let mut f = fs::OpenOptions::new().write(true).create(true).open(path)?;
		self.write_to_file_with_indent(&mut f, indent)
'''))
# ---- C19
c("c19_b_mkdir", "bug", "C19", (MK, '''		if let Some(dir) = path.as_ref().parent() {
			let _ = fs::create_dir_all(dir);
		}
'''))
c("c19_b_mkdir2", "bug", "C19", (MK, '''		if let Some(dir) = path.as_ref().parent() {
			fs::create_dir_all(dir).ok();
		}
'''))
c("c19_b_mkdir3", "bug", "C19", (MK, '''		if let Some(dir) = path.as_ref().parent() {
			if fs::create_dir_all(dir).is_err() {
				eprintln!("cannot create the directory");
			}
		}
'''))
c("c19_s_mkdir", "same", "C19 C17", (MK, '''		if let Some(dir) = path.as_ref().parent() {
			if let Err(e) = fs::create_dir_all(dir) {
				return Err(e);
			}
		}
'''))
c("c19_s_mkdir2", "same", "C19 C17", (MK, '''		if let Some(dir) = path.as_ref().parent() {
			if !dir.exists() {
				fs::create_dir_all(dir)?;
			}
		}
'''))
c("c19_b_write1", "bug", "C19", (WF, '''		let text = self.to_string_with_indent(indent);
		out.write(text.as_bytes())?;
		Ok(())
'''))
c("c19_b_buf", "bug", "C19", (WFP, '''		use std::io::Write;
		let mut f = std::io::BufWriter::new(fs::File::create(path)?);
		f.write_all(self.to_string_with_indent(indent).as_bytes())
'''))
c("c19_b_drop", "bug", "C19", (WFP, '''		if let Err(e) = fs::write(path, self.to_string_with_indent(indent)) {
			eprintln!("{e}");
		}
		Ok(())
'''))
case("c19_s_rd", "same", "C19", (L, RD, '''	match fs::read_to_string(path_ref) {
		Ok(content) => parse_str(content),
		Err(e) => Err(e.into())
	}
'''))
case("c19_s_rd2", "same", "C19", (L, RD, '''	let f = fs::File::open(path_ref)?;
	parse_stream(f)
'''))
case("c19_s_rd3", "same", "C19", (L, RD, '''	let f = fs::File::open(path_ref)?;
	parse_stream(std::io::BufReader::new(f))
'''))
case("c19_s_rs", "same", "C19", (L, RS, '''	let mut bytes = Vec::new();
	reader.read_to_end(&mut bytes)?;
	let text = String::from_utf8(bytes).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;
	parse_str(text)
'''))
case("c19_s_rs2", "same", "C19", (L, RS, '''	let text = std::io::read_to_string(reader)?;
	parse_str(text)
'''), (L, "pub fn parse_stream(mut reader", "pub fn parse_stream(reader"))
case("c19_b_lossy", "bug", "C19", (L, RS, '''	let mut bytes = Vec::new();
	reader.read_to_end(&mut bytes)?;
	parse_str(String::from_utf8_lossy(&bytes).into_owned())
'''))
case("c19_b_lossy2", "bug", "C19", (L, RD, '''	let bytes = fs::read(path_ref)?;
	parse_str(String::from_utf8_lossy(&bytes))
'''))
case("c19_b_take", "bug", "C19", (L, RS, '''	let mut buffer = String::new();
	reader.take(1 << 20).read_to_string(&mut buffer)?;
	parse_str(buffer)
'''), (L, "pub fn parse_stream(mut reader", "pub fn parse_stream(reader"))
case("c19_b_ok", "bug", "C19", (L, RS, '''	let mut buffer = String::new();
	reader.read_to_string(&mut buffer).ok();
	parse_str(buffer)
'''))
case("c19_b_default", "bug", "C19", (L, RD, '''	let content = fs::read_to_string(path_ref).unwrap_or_default();
	parse_str(content)
'''))
case("c19_b_kind", "bug", "C19", (L, RD, '''	let content = fs::read_to_string(path_ref).map_err(|_| errors::ParsingError::new("cannot read"))?;
	parse_str(content)
'''))
case("c19_b_read1", "bug", "C19", (L, RS, '''	let mut bytes = vec![0u8; 1 << 20];
	let n = reader.read(&mut bytes)?;
	bytes.truncate(n);
	parse_str(String::from_utf8(bytes).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?)
'''))
case("c19_b_interrupted", "bug", "C19", (L, RS, '''	let mut buffer = String::new();
	if let Err(e) = reader.read_to_string(&mut buffer) {
		if e.kind() != std::io::ErrorKind::UnexpectedEof {
			return Err(e.into());
		}
	}
	parse_str(buffer)
'''))

# ---- C18
VI = """	if indent == "\\t" {return Ok(());}
	for c in indent.chars() {
		if c != ' ' {
			return Err(());
		}
	}
	Ok(())
"""
VD = """		let mut indent = indent.into();
		match crate::validate_indent(indent.as_str()){
			Ok(_) => {},
			Err(_) => {
				eprintln!("WARNING: {:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent);
				indent = "  ".to_string();
			}
		};
"""
VE = """		match crate::validate_indent(indent){
			Ok(_) => self.to_string_with_prefix_and_indent("", indent, false),
			Err(_) => {
				eprintln!("WARNING: {:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent);
				self.to_string_with_prefix_and_indent("", "  ", false)
			}
		}
"""
case("c18_s_all", "same", "C18", (L, VI, """	if indent == "\\t" || indent.chars().all(|c| c == ' ') {
		Ok(())
	} else {
		Err(())
	}
"""))
case("c18_s_any", "same", "C18", (L, VI, """	if indent != "\\t" && indent.chars().any(|c| c != ' ') {
		return Err(());
	}
	Ok(())
"""))
case("c18_s_bytes", "same", "C18", (L, VI, """	if indent == "\\t" {return Ok(());}
	for b in indent.bytes() {
		if b != b' ' { return Err(()); }
	}
	Ok(())
"""))
case("c18_s_trim", "same", "C18", (L, VI, """	if indent == "\\t" {return Ok(());}
	if indent.trim_matches(' ').is_empty() { Ok(()) } else { Err(()) }
"""))
case("c18_s_match", "same", "C18", (L, VI, """	match indent {
		"\\t" => Ok(()),
		s if s.chars().all(|c| c == ' ') => Ok(()),
		_ => Err(())
	}
"""))
case("c18_s_while", "same", "C18", (L, VI, """	if indent == "\\t" {return Ok(());}
	let mut it = indent.chars();
	while let Some(c) = it.next() {
		if c != ' ' { return Err(()); }
	}
	Ok(())
"""))
c("c18_s_dif", "same", "C18", (VD, """		let indent: String = indent.into();
		let indent = if crate::validate_indent(&indent).is_ok() {
			indent
		} else {
			eprintln!("WARNING: bad indent {:?}", indent);
			String::from("  ")
		};
"""))
c("c18_s_eif", "same", "C18", (VE, """		let used = if crate::validate_indent(indent).is_err() { "  " } else { indent };
		self.to_string_with_prefix_and_indent("", used, false)
"""))
c("c18_s_dnone", "same", "C18", (VD, """		let indent = indent.into();
"""))
c("c18_s_help", "same", "C18", (VE, """		self.to_string_with_prefix_and_indent("", usable(indent), false)
"""), ("impl Node for Element {", """fn usable(indent: &str) -> &str {
	match crate::validate_indent(indent) {
		Ok(_) => indent,
		Err(_) => "  "
	}
}

impl Node for Element {"""))
case("c18_b_ws", "bug", "C18", (L, VI, """	if indent.chars().all(|c| c.is_whitespace()) { Ok(()) } else { Err(()) }
"""))
case("c18_b_tabs", "bug", "C18", (L, "		if c != ' ' {", "		if c != ' ' && c != '\\t' {"))
case("c18_b_first", "bug", "C18", (L, VI, """	if indent == "\\t" || indent.is_empty() || indent.starts_with(' ') { Ok(()) } else { Err(()) }
"""))
case("c18_b_trim", "bug", "C18", (L, VI, """	if indent.trim().is_empty() { Ok(()) } else { Err(()) }
"""))
case("c18_b_ascii", "bug", "C18", (L, VI, """	if indent.bytes().all(|b| b.is_ascii_whitespace()) { Ok(()) } else { Err(()) }
"""))
case("c18_b_take", "bug", "C18", (L, "for c in indent.chars() {", "for c in indent.chars().take(8) {"))
case("c18_b_skip", "bug", "C18", (L, "for c in indent.chars() {", "for c in indent.chars().skip(1) {"))
c("c18_b_el", "bug", "C18", (VE, """		self.to_string_with_prefix_and_indent("", indent, false)
"""))
c("c18_b_warn", "bug", "C18", (VE, """		if crate::validate_indent(indent).is_err() {
			eprintln!("WARNING: {:?} is not a valid indentation", indent);
		}
		self.to_string_with_prefix_and_indent("", indent, false)
"""))
c("c18_b_def", "bug", "C18", (VE, VE.replace('"  ", false', '"\\t", false')))
c("c18_b_trimmed", "bug", "C18", (VE, """		match crate::validate_indent(indent.trim_end_matches(char::is_alphanumeric)) {
			Ok(_) => self.to_string_with_prefix_and_indent("", indent, false),
			Err(_) => self.to_string_with_prefix_and_indent("", "  ", false)
		}
"""))
c("c18_b_worker", "bug", "C18", ("			next_prefix.push_str(indent);", "			next_prefix.push_str(indent); next_prefix.push_str(\"\\t\");"))

# ---- C22
DF = '''		match buffer.strip_prefix("<?").and_then(|s| s.strip_suffix("?>")) {
			Some(content) => Ok(Self{decl_str: content.to_string()}),
			None => Err(ParsingError::new("Invalid XML declaration syntax").into())
		}
'''
TF = '''		if buffer.starts_with("<!DOCTYPE") && buffer.ends_with(">"){
			Ok(Self{dtd_str: buffer.strip_prefix("<!DOCTYPE").unwrap().strip_suffix(">").unwrap().to_string()})
		} else {
			Err(ParsingError::new("Invalid DTD syntax").into())
		}
'''
TD = '''impl std::fmt::Display for DTD {
	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
		write!(f, "<!DOCTYPE{}>", self.dtd_str)
'''
DD = '''impl std::fmt::Display for Declaration {
	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
		write!(f, "<?{}?>", self.decl_str)
'''
TL = '''		for dtd in &self.dtds {
			builder.push_str(dtd.to_string().as_str());
			builder.push_str("\\n");
		}
'''
DL = '''		match &self.declaration{
			None => {},
			Some(decl) => {
				builder.push_str(decl.to_string().as_str());
				builder.push_str("\\n");
			}
		}
'''
SD = '''		match dtds {
			None => self.dtds = Vec::with_capacity(1),
			Some(dlist) => self.dtds = Vec::from(dlist)
		}
'''
ND = '''			dtds: match dtd{
				None => Vec::with_capacity(1),
				Some(dtds) => Vec::from(dtds)
			},
'''
c("c22_s_df", "same", "C22", (DF, '''		if let Some(a) = buffer.strip_prefix("<?") {
			if let Some(b) = a.strip_suffix("?>") {
				return Ok(Self{decl_str: b.to_owned()});
			}
		}
		Err(ParsingError::new("Invalid XML declaration syntax").into())
'''))
c("c22_s_df2", "same", "C22", (DF, '''		if buffer.len() >= 4 && buffer.starts_with("<?") && buffer.ends_with("?>") {
			return Ok(Self{decl_str: buffer[2..buffer.len() - 2].to_string()});
		}
		Err(ParsingError::new("Invalid XML declaration syntax").into())
'''))
c("c22_s_tf", "same", "C22", (TF, '''		match buffer.strip_prefix("<!DOCTYPE").and_then(|s| s.strip_suffix(">")) {
			Some(x) => Ok(DTD{dtd_str: String::from(x)}),
			None => Err(ParsingError::new("Invalid DTD syntax").into())
		}
'''))
c("c22_s_td", "same", "C22", (TD, TD.replace('write!(f, "<!DOCTYPE{}>", self.dtd_str)', 'f.write_str("<!DOCTYPE")?;\n\t\tf.write_str(&self.dtd_str)?;\n\t\tf.write_str(">")')))
c("c22_s_tl", "same", "C22", (TL, '''		for i in 0..self.dtds.len() {
			builder += &format!("{}\\n", self.dtds[i]);
		}
'''))
c("c22_s_tl2", "same", "C22", (TL, '''		self.dtds.iter().for_each(|d| { builder.push_str(&d.to_string()); builder.push('\\n'); });
'''))
c("c22_s_tl3", "same", "C22", (TL, '''		let lines: Vec<String> = self.dtds.iter().map(|d| format!("{d}\\n")).collect();
		builder.push_str(&lines.concat());
'''))
c("c22_s_tl4", "same", "C22", (TL, '''		let lines: String = self.dtds.iter().map(|d| d.to_string() + "\\n").collect();
		builder.push_str(&lines);
'''))
c("c22_s_dl", "same", "C22", (DL, '''		if let Some(decl) = self.declaration.as_ref() {
			builder = format!("{decl}\\n");
		}
'''))
c("c22_s_dl2", "same", "C22", (DL, '''		self.prolog(&mut builder);
'''), ('''	pub fn write_to_filepath(&self,''', '''	fn prolog(&self, builder: &mut String) {
		if self.declaration.is_none() { return; }
		builder.push_str(&self.declaration.as_ref().unwrap().to_string());
		builder.push('\\n');
	}
	/// x
	pub fn write_to_filepath(&self,'''))
c("c22_s_sd", "same", "C22", (SD, '''		self.dtds = dtds.map(|d| d.to_vec()).unwrap_or_default();
'''))
c("c22_s_sd2", "same", "C22", (SD, '''		self.dtds.clear();
		if let Some(d) = dtds { self.dtds.extend_from_slice(d); }
'''))
c("c22_s_sd3", "same", "C22", (SD, '''		self.dtds = Vec::new();
		for d in dtds.unwrap_or(&[]) { self.dtds.push(d.clone()); }
'''))
c("c22_s_nd", "same", "C22", (ND, '''			dtds: dtd.unwrap_or(&[]).to_vec(),
'''))
c("c22_s_parse", "same", "C22", (TL, TL.replace("dtd in &self.dtds", "dtd in self.doctype_defs()")))
c("c22_b_dftrim", "bug", "C22", (DF, DF.replace("content.to_string()", "content.trim().to_string()")))
c("c22_b_dflow", "bug", "C22", (DF, DF.replace("content.to_string()", 'content.replace("\'", "\\"")')))
c("c22_b_dfend", "bug", "C22", (DF, DF.replace("content.to_string()", 'content.trim_end().to_string()')))
c("c22_b_tftrim", "bug", "C22", (TF, TF.replace('.unwrap().to_string()', '.unwrap().trim_end().to_string()')))
c("c22_b_tfmatches", "bug", "C22", (TF, TF.replace('strip_suffix(">").unwrap()', "trim_end_matches('>')")))
c("c22_b_tflines", "bug", "C22", (TF, TF.replace('.unwrap().to_string()', r'''.unwrap().replace("\r\n", "\n")''')))
c("c22_b_td", "bug", "C22", (TD, TD.replace("DOCTYPE{}", "DOCTYPE {}")))
c("c22_b_tdl", "bug", "C22", (TD, TD.replace("DOCTYPE{}", "doctype{}")))
c("c22_b_dd", "bug", "C22", (DD, DD.replace("<?{}?>", "<?{} ?>")))
c("c22_b_ddtrim", "bug", "C22", (DD, DD.replace("self.decl_str", "self.decl_str.trim_end()")))
c("c22_b_tlrev", "bug", "C22", (TL, TL.replace("&self.dtds", "self.dtds.iter().rev()")))
c("c22_b_tlskip", "bug", "C22", (TL, TL.replace("&self.dtds", "self.dtds.iter().skip(1)")))
c("c22_b_tltake", "bug", "C22", (TL, TL.replace("&self.dtds", "self.dtds.iter().take(8)")))
c("c22_b_tlfirst", "bug", "C22", (TL, '''		if let Some(dtd) = self.dtds.first() {
			builder.push_str(dtd.to_string().as_str());
			builder.push_str("\\n");
		}
'''))
c("c22_b_tldup", "bug", "C22", (TL, '''		let mut last: Option<&DTD> = None;
		for dtd in &self.dtds {
			if last == Some(dtd) { continue; }
			builder.push_str(dtd.to_string().as_str());
			builder.push_str("\\n");
			last = Some(dtd);
		}
'''))
c("c22_b_tlnl", "bug", "C22", (TL, '''		for dtd in &self.dtds {
			builder.push_str(dtd.to_string().as_str());
		}
		if !self.dtds.is_empty() { builder.push_str("\\n"); }
'''))
c("c22_b_tlsort", "bug", "C22", (TL, '''		let mut v = self.dtds.clone();
		v.sort();
		for dtd in &v {
			builder.push_str(dtd.to_string().as_str());
			builder.push_str("\\n");
		}
'''))
c("c22_b_order", "bug", "C22", (DL, ""), (TL, TL + DL))
c("c22_b_dlnl", "bug", "C22", (DL, DL.replace('				builder.push_str("\\n");\n', '')))
c("c22_b_dlcond", "bug", "C22", (DL, DL.replace("None => {},", "None => { if !self.dtds.is_empty() { builder.push_str(\"<?xml version=\\\"1.0\\\"?>\\n\"); } },")))
c("c22_b_dlskip", "bug", "C22", (DL, DL.replace("Some(decl) => {", "Some(decl) if *decl == Declaration::default() && self.dtds.len() > 1 => {},\n\t\t\tSome(decl) => {")))
c("c22_b_sdnone", "bug", "C22", (SD, SD.replace("None => self.dtds = Vec::with_capacity(1)", "None => {}")))
c("c22_b_sdext", "bug", "C22", (SD, SD.replace("self.dtds = Vec::from(dlist)", "self.dtds.extend_from_slice(dlist)")))
c("c22_b_sdrev", "bug", "C22", (SD, SD.replace("Vec::from(dlist)", "dlist.iter().rev().cloned().collect()")))
c("c22_b_sdtrunc", "bug", "C22", (SD, SD.replace("Vec::from(dlist)", "dlist.iter().take(1).cloned().collect()")))
c("c22_b_nd", "bug", "C22", (ND, ND.replace("Vec::from(dtds)", "dtds.iter().filter(|d| !d.dtd_str.is_empty()).cloned().collect()")))
c("c22_b_ndecl", "bug", "C22", ("			declaration: declaration,\n", "			declaration: declaration.or_else(|| Some(Declaration::default())),\n"))
c("c22_b_sdecl", "bug", "C22", ("		self.declaration = decl\n", "		if decl.is_some() { self.declaration = decl }\n"))
c("c22_b_iter", "bug", "C22", ("		self.dtds.iter()\n", "		self.dtds.iter().rev()\n"))
c("c22_b_root", "bug", "C22", ('''		builder.push_str(&self.root_element.to_string_with_indent(indent.as_str()));
		builder.push_str("\\n");
''', '''		builder.push_str(&self.root_element.to_string_with_indent(indent.as_str()));
'''))
c("c17_s_chunks", "same", "C17 C19", (WF, '''		let text = self.to_string_with_indent(indent);
		for chunk in text.split_inclusive('\\n') {
			write!(out, "{}", chunk)?;
		}
		Ok(())
'''))
c("c17_s_chunks2", "same", "C17 C19", (WF, '''		let text = self.to_string_with_indent(indent);
		for chunk in text.as_bytes().chunks(4096) {
			out.write_all(chunk)?;
		}
		Ok(())
'''))
c("c17_s_loopwrite", "same", "C17 C19", (WF, '''		let text = self.to_string_with_indent(indent);
		let mut rest = text.as_bytes();
		while !rest.is_empty() {
			let n = out.write(rest)?;
			if n == 0 { return Err(std::io::ErrorKind::WriteZero.into()); }
			rest = &rest[n..];
		}
		Ok(())
'''))
c("c17_b_lines", "bug", "C17", (WF, '''		for line in self.to_string_with_indent(indent).lines() {
			writeln!(out, "{}", line)?;
		}
		Ok(())
'''))
c("c22_s_sd4", "same", "C22", (SD, '''		self.dtds = Vec::new();
		if let Some(list) = dtds {
			for d in list { self.dtds.push(d.clone()); }
		}
'''))
c("c22_b_sddedup", "bug", "C22", (SD, '''		self.dtds = Vec::new();
		if let Some(list) = dtds {
			for d in list { if !self.dtds.contains(d) { self.dtds.push(d.clone()); } }
		}
'''))
