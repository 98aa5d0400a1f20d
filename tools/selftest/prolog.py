"""C22, parser side"""
L = "src/lib.rs"


def c(i, k, *eds):
    case(i, k, "C22", *[(L, a, b) for a, b in eds])


DT = "			dtds.push(dtd);\n"
DE = "			decl = Some(dom::Declaration::from_str(slice)?);\n"
FS = "			let dtd = dom::DTD::from_string(slice)?;\n"
OUT = "		decl,\n		Some(&dtds)\n"
c("c22_b_pfront", "bug", (DT, "			dtds.insert(0, dtd);\n"))
c("c22_b_pfirst", "bug", (DT, "			if dtds.is_empty() {dtds.push(dtd);}\n"))
c("c22_b_plast", "bug", (DT, "			dtds = vec![dtd];\n"))
c("c22_b_prep", "bug", (FS, "			let dtd = dom::DTD::from_string(slice.replace('\\n', \" \").as_str())?;\n"))
c("c22_b_ptrim", "bug", (FS, "			let dtd = dom::DTD::from_string(slice.trim_end_matches('>').trim())?;\n"))
c("c22_b_pdecl", "bug", (DE, "			dom::Declaration::from_str(slice)?;\n"))
c("c22_b_pdeclif", "bug", (DE, "			let d = dom::Declaration::from_str(slice)?;\n			if slice.contains(\"encoding\") {decl = Some(d);}\n"))
c("c22_b_pdeclnorm", "bug", (DE, "			decl = Some(dom::Declaration::from_str(slice.replace('\\'', \"\\\"\").as_str())?);\n"))
c("c22_b_pout", "bug", (OUT, "		decl,\n		None\n"))
c("c22_b_pout2", "bug", (OUT, "		None,\n		Some(&dtds)\n"))
c("c22_b_prev", "bug", (OUT, "		decl,\n		Some(&dtds.into_iter().rev().collect::<Vec<_>>())\n"))
c("c22_b_pcase", "bug", ("		} else if slice.starts_with(\"<!DOCTYPE\") {\n", "		} else if slice.starts_with(\"<!DOCTYPE\") && dtds.len() < 2 {\n"))
c("c22_b_preset", "bug", ("			no_comment_warn += 1;\n", "			no_comment_warn += 1;\n			decl = None;\n"))
c("c22_s_own", "same", (DT, "			dtds.push(dtd.clone());\n"))
c("c22_s_let", "same", (DE, "			let parsed = dom::Declaration::from_str(slice)?;\n			decl.replace(parsed);\n"))
c("c22_s_slice", "same", (OUT, "		decl,\n		Some(dtds.as_slice())\n"))
c("c22_s_setter", "same", ("	Ok(dom::Document::new_with_decl_dtd(\n		parse_stack.to_dom()?,\n" + OUT + "	))\n", "	let root = parse_stack.to_dom()?;\n	let defs = if dtds.is_empty() {None} else {Some(dtds.as_slice())};\n	Ok(dom::Document::new_with_decl_dtd(root, decl, defs))\n"))
