#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L, D, E_, PR = "src/lib.rs", "src/dom.rs", "src/errors.rs", "src/parsing.rs"

p("C01", "Parsing never panics",
  "For every input, parse_str, parse_stream and parse_filepath return either a Document or an error value: no input text (any length, any Unicode content, any malformed markup) makes them panic, and every slice, index, subtraction, removal, unwrap and expect they reach is safe on every path.",
  ["inputs"], "all UTF-8 strings, all readers, all files",
  "no_panic tests try the truncations and single-character deletions of one ASCII document; multi-byte text, odd delimiters and byte-offset arithmetic on other inputs are never tried.",
  [L, PR, D], [("offset arithmetic over the input buffer", "src/lib.rs parse_str, next_tag, unescape, strip_tag, abbreviate"), ("parse arena lookups", "src/parsing.rs ParseTree"), ("text-node merge loop", "src/dom.rs Element::cleanup_text_nodes")],
  observe=["parse_str", "parse_stream", "parse_filepath"])
p("C02", "Editing, querying, serializing and escaping never panic",
  "No public constructor, accessor, query, search, insertion, removal, comparison, serialization or escaping function of the crate panics, whatever arguments it is given and whatever DOM it is called on (nodes being the crate's four kinds); bad arguments are reported by error values. The only exceptions are the From conversions into Comment and CData, which have no error channel.",
  ["inputs", "histories"], "all argument values and all DOM states reachable by the public API",
  "tests call each operation with a handful of arguments on small fixed DOMs.",
  [D, L], [("index guards before Vec insert/remove", "src/dom.rs Element::insert, remove, remove_element, remove_by, remove_elements"), ("kind test before cast", "src/dom.rs child_elements, clone_node, node_eq, search_*")])
p("C03", "Every loop of the library terminates",
  "Every loop the library runs while parsing, escaping, editing or serializing either consumes a finite iterator or strictly moves a measure towards a bound on every iteration, and every recursive call works on a proper part of the caller's argument, so every call returns for every input.",
  ["inputs"], "all inputs of all public functions",
  "a loop that stalls only on one malformed construct hangs only on inputs that contain it; the tests parse a few dozen documents.",
  [L, D, PR], [("tag cursor advances past each tag", "src/lib.rs parse_str / next_tag"), ("unescape cursor", "src/lib.rs unescape"), ("backwards merge scans", "src/dom.rs cleanup_text_nodes")])
p("C04", "Parsing uses bounded call-stack depth",
  "Parsing does not recurse: the call depth used by parse_str, parse_stream and parse_filepath is bounded by a constant however deeply the input's elements nest.",
  ["inputs"], "all nesting depths",
  "tests nest at most a few levels; stack overflow needs tens of thousands.",
  [L, PR, D], [("id-keyed arena instead of recursive descent", "src/parsing.rs ParseTree")])
p("C05", "Only single-rooted, properly nested documents are accepted",
  "A parse succeeds only if the text has exactly one root element, every closing tag's full name (prefix included) equals that of the element open at that point, the root is closed at the end of input, and no non-blank text stands before or after the root; anything else is reported as an error rather than dropped or repaired.",
  ["inputs"], "all input texts", "the tests contain one unclosed document and no mismatched, multi-root or trailing-text document.",
  [L, PR], [("stack-emptiness test before success", "src/lib.rs parse_str"), ("closing-tag name comparison", "src/lib.rs parse_str"), ("text outside root rejected", "src/lib.rs parse_str")])
p("C06", "Serialized elements are balanced, quoted and escaped",
  "For every element, the serialized text is lexically well formed: an opening tag and a closing tag of the same name around the children (or one empty-element tag); each attribute written as a name, an equals sign and a quoted value in which &, < and the quote cannot appear raw; text written with &, < and > escaped exactly once; and comments and CDATA written verbatim inside their own delimiters.",
  ["inputs"], "all element trees, all attribute values and texts",
  "tests serialize a few documents; one missing escape on one branch (inline, single child, mixed content) shows only for content that needs it.",
  [D, L], [("to_string_with_prefix_and_indent", "src/dom.rs"), ("text_escape / attribute_escape", "src/lib.rs"), ("Text/Comment/CData to_string_with_indent", "src/dom.rs")])
p("C07", "Escaping and unescaping agree character by character",
  "escape and attribute_escape replace each of &, <, >, ' and \", and text_escape each of &, < and >, by its XML entity and change nothing else; unescape replaces these five entities and the numeric character references by their characters and nothing else, decodes each entity of its input exactly once from left to right, never re-reads text it has produced, never skips input, and leaves every unknown entity as it is.",
  ["inputs"], "all strings",
  "tests use one string holding each character once; ordering and cursor errors depend on adjacency and on multi-byte neighbours.",
  [L], [("replace chain", "src/lib.rs escape, text_escape"), ("cursor in unescape", "src/lib.rs unescape")])
p("C08", "Parsed content is decoded exactly once, delimiters exactly removed",
  "While parsing, text between tags and attribute values become DOM content by unescaping exactly once; comment and CDATA content is copied verbatim, exactly the characters between the opening and closing delimiter, and attribute values exactly those between the quotes.",
  ["inputs"], "all input texts", "a handful of literal documents are compared.",
  [L], [("real_text", "src/lib.rs"), ("comment/CDATA slicing", "src/lib.rs parse_str"), ("attribute value slicing", "src/lib.rs parse_new_element")])
p("C09", "No construction or mutation path stores invalid content or names",
  "Whatever sequence of constructors and setters is called, a Comment never holds '-->', a CData never holds ']]>', and no Element ever holds an element name, namespace prefix or attribute name containing whitespace, quotes, '<', '>', '&', '/' or '=': every path that stores such a string first checks that very string and reports an error otherwise.",
  ["inputs", "histories"], "all constructor and setter arguments, all call sequences",
  "tests check one bad name per validator; a new or alternative path that stores without checking is never exercised.",
  [D], [("contains checks", "src/dom.rs Comment::new, set_content, CData::new, set_text"), ("check_elem_name, check_attr_name", "src/dom.rs")])
p("C10", "A failed edit leaves the object unchanged",
  "Whenever a mutating method of Element, Comment or CData returns an error, the object is exactly as it was before the call.",
  ["inputs", "histories"], "all failing calls",
  "tests assert that the call fails, never that nothing changed.",
  [D], [("check before write", "src/dom.rs set_attr, insert, remove, remove_element, set_content, set_text")])
p("C11", "Positional edits succeed exactly for valid positions and hit that position",
  "insert succeeds exactly when the index is at most the number of children, remove exactly when it is less than that number, and remove_element exactly when it is less than the number of child elements; on success the node is placed at, or removed from, exactly that position and the removed node is returned, and otherwise an index error carrying the requested index is returned.",
  ["inputs"], "all indices, all child lists", "tests use two or three indices.",
  [D], [("bounds guards", "src/dom.rs Element::insert, remove, remove_element")])
p("C12", "Every way of adding a child applies namespace inheritance to that child",
  "append, append_boxed, append_all, insert, the constructors that take children, and the parser each pass the parent's default namespace and prefix table to every element they add, and to that element rather than to another.",
  ["inputs", "histories"], "all insertion operations, positions and child lists", "tests check append only.",
  [D, PR], [("apply_xmlns_context_to_child_node", "src/dom.rs append_boxed, append_all, insert"), ("set_namespace_context", "src/dom.rs, src/lib.rs parse_new_element")])
p("C13", "Every way of adding a child re-normalizes text nodes",
  "After append, append_boxed, append_all, insert or a constructor that takes text or children succeeds, adjacent text nodes have been merged and whitespace-only text nodes dropped: no path returns after adding a child without running the normalization after the addition.",
  ["inputs", "histories"], "all insertion operations", "tests do not insert adjacent text nodes.",
  [D], [("cleanup_text_nodes", "src/dom.rs")])
p("C14", "Node kind tests, casts and type tags always agree",
  "For each of the four node kinds exactly one kind test is true, node_type reports that kind, the checked cast to a kind succeeds (shared and mutable alike) exactly when its kind test is true and then returns the node itself, and boxing or viewing a node as Node or Any never changes it.",
  ["inputs"], "all nodes of all kinds", "test_typecast_error covers the shared casts of one node per kind.",
  [D], [("Node impls", "src/dom.rs")])
p("C15", "Clone, equality and hash cover the same content",
  "Cloning an element or boxed node copies every part of it deeply; two elements compare equal only if name, namespace, prefix, attributes and all children in order are equal; equal values always hash equally; and comparing documents covers declaration, DTDs and root.",
  ["inputs"], "all pairs of nodes and documents", "tests compare a few hand-built pairs.",
  [D], [("Clone/PartialEq/Hash impls, clone_node, node_eq", "src/dom.rs")])
p("C16", "Serialization is deterministic",
  "The serialized text is a function of the DOM alone: attributes are always written in one total order (namespace declarations first, then by name), never in hash-map order, and nothing else of the output depends on hash-map iteration order, time, addresses or randomness.",
  ["inputs", "schedules"], "all attribute maps, all hash seeds", "a test sees one or two hash seeds.",
  [D, L], [("sort by attribute_order before writing", "src/dom.rs to_string_with_prefix_and_indent"), ("attribute_order", "src/lib.rs")])
p("C17", "All output routes of a document produce the same text",
  "to_string, Display, Debug, write_to_file, write_to_filepath and their with_indent forms all emit exactly the text of to_string_with_indent for the same document and indent, the default indent being two spaces everywhere, and add or drop nothing.",
  ["inputs", "configurations"], "all documents, indents and routes", "tests compare two routes on one document.",
  [D], [("delegation to to_string_with_indent", "src/dom.rs Document")])
p("C18", "Invalid indents never reach the output",
  "Only a single tab or a string consisting solely of spaces is ever used as indentation; any other indent given to a document or an element is replaced by the two-space default before anything is written with it.",
  ["inputs"], "all indent strings", "no test passes an invalid indent.",
  [D, L], [("validate_indent", "src/lib.rs"), ("fallback", "src/dom.rs to_string_with_indent")])
p("C19", "I/O failures and bad encodings are reported, data never truncated",
  "parse_stream and parse_filepath read to end of input, require valid UTF-8, and return any read error as the crate's I/O error; the write functions write the complete text and return any error of creating the directory or writing; no I/O error is discarded and no lossy decoding or partial read or write is used.",
  ["fault_sequences", "inputs"], "all I/O failures and short reads/writes", "tests use only successful local files.",
  [L, D], [("? on io::Result", "src/lib.rs parse_filepath, parse_stream; src/dom.rs write_to_*")])
p("C20", "The library has no hidden effects and no unsafe code",
  "The library contains no unsafe code and keeps no mutable global state; parsing from strings and readers, editing and serializing to strings touch no file, network, environment, process, thread, clock or random source (warnings on standard error excepted); the only file-system effects are reading the file given to parse_filepath and creating the parent directory of and writing the path given to the write functions.",
  ["inputs", "schedules", "histories"], "all calls", "tests cannot observe effects they do not look for.",
  [L, D, PR, E_], [("call graph of the crate", "src/*.rs")])
p("C21", "Query methods select exactly the matching nodes, in both forms",
  "elements_by_name, elements_by_namespace and elements_by_namespace_prefix yield exactly the child elements whose name, namespace or prefix equals the argument, first_element_by_name the first such child, each mutable twin selects the same elements as its shared form, and the recursive searches visit every descendant and filter by nothing but node kind and the given predicate.",
  ["inputs"], "all trees, names and predicates", "tests query small trees; a filter that differs on one field or depth passes.",
  [D], [("filter predicates", "src/dom.rs elements_by_*"), ("children_recursive", "src/dom.rs")])
p("C22", "Declaration and DTDs are preserved verbatim and in order",
  "The XML declaration and every document type definition read from the input or set by the user are stored and written back verbatim with their delimiters, each on its own line, declaration first, DTDs in order, then the root element.",
  ["inputs"], "all prologs", "no test serializes a document with a DTD.",
  [D, L], [("Display of Declaration and DTD", "src/dom.rs"), ("prolog loop", "src/lib.rs parse_str")])
p("C23", "Bulk removal removes exactly the matching nodes and counts them",
  "remove_by, remove_elements, remove_elements_by_name, remove_all and remove_all_elements remove every node in their scope for which the predicate holds and no other, evaluate the predicate on every candidate, leave the remaining nodes in their order, and return the number removed.",
  ["inputs"], "all trees and predicates", "tests remove one or two nodes.",
  [D], [("index collection and descending removal", "src/dom.rs remove_by, remove_elements")])
p("C24", "Serialize-then-parse returns an equal document",
  "For every document whose strings are valid, parsing its serialized text yields an equal document.",
  ["inputs"], "all documents", "one round trip is tested.",
  [D, L], [("serializer and parser", "src/dom.rs, src/lib.rs")])
p("C25", "The line and column in a parse error are those of the tag or text at fault",
  "Every parse error that names a line and a column names, for whatever input, the position of the start of the tag it is about (for text outside the root: the start of that text, i.e. the end of the tag before it) in the whole input. Lines and columns count from 1: the line is 1 plus the number of line breaks ('\\n') before the position, the column is 1 plus the number of characters (not bytes) between the last line break before the position, or the start of the input, and the position. The first number of the message is the line, the second the column.",
  ["inputs"], "all malformed inputs: any error, any number of lines before it, any multi-byte characters", "no test checks positions; one message or one byte/character mix-up goes unnoticed.",
  [L], [("line_and_column", "src/lib.rs"), ("parse_str error sites", "src/lib.rs"), ("parse_new_element error sites", "src/lib.rs")])

p("C26", "Whitespace is added only where no text is next to it, and only blank text is dropped",
  "Writing an element with an indent: inside an element that has a text child, and inside everything nested in such an element at whatever depth, no whitespace is added anywhere between the tags and the children. An element whose only child is not an element is written with that child directly between its tags. Otherwise (an element with several children none of which is a text, or with one element child) every child stands on a line of its own, indented by one indent more than its parent, and the closing tag stands on a line of its own at the indentation of its opening tag. Reading: a run of text between two tags gives no text node only if it is blank (whitespace only); any other run is kept whole, with the whitespace at its ends. Adding and removing children drops a text node only if it is blank.",
  ["inputs"], "all trees (any depth, number, order and mix of kinds of children), any indent; all runs of text between tags", "one mixed-content document is tested; a text that is not the first child, or an element two levels below a text, is not.",
  [L, D], [("to_string_with_prefix_and_indent", "src/dom.rs"), ("real_text", "src/lib.rs"), ("cleanup_text_nodes", "src/dom.rs")])

p("C27", "The parsed tree holds every node once, under its own parent, in document order",
  "Parsing turns each element, text run, comment and CDATA section inside the root element into exactly one node, which is a child of the element that was open at that point of the input; the children of every element are in document order, and no node is lost, duplicated, replaced or moved to another parent, whatever the depth, width and mix of nodes. (Text that is only whitespace may be dropped.)",
  ["inputs"], "all documents: any depth, any number of siblings, any mix of kinds", "tests parse a few small documents; a lost or reordered node at one depth, count or kind passes.",
  [PR, L, D], [("push, append, pop, to_dom", "src/parsing.rs ParseTree"), ("tag loop", "src/lib.rs parse_str"), ("reverse_children, append_boxed", "src/dom.rs")])

p("C28", "Accessors, constructors, text() and attribute edits report and change exactly the stored content",
  "For every object, name() / tag_name() / namespace() / namespace_prefix() / default_namespace() / namespace_prefixes() / attributes() / get_attr() / children() of an element, the content of a text, comment or CDATA node, and the declaration, DTDs and root of a document report exactly what the object holds: get_attr(n) is the value stored under n or None, tag_name() is prefix:name or the name, default_namespace() is the namespace when there is no prefix, namespace_prefixes() has an entry p with the attribute's value for each attribute xmlns:p and no other. Element::text() is the concatenation, in document order, of the contents of its text nodes at any depth, without comments and CDATA and with nothing between them. A constructor stores the name, text, attributes, namespace, prefix and children given (text before children; without an explicit namespace, that of the attribute xmlns, or xmlns:prefix if a prefix is given), unchanged. set_attr, remove_attr, clear_attributes, clear_children, set_text and the content setters change that one part as said (remove_attr returns the removed value) and nothing else.",
  ["inputs"], "all names, texts, attribute maps, prefixes and trees", "tests use a handful of elements; a special value, an unusual name, an empty string or a deeper tree passes.",
  [D], [("Element constructors and accessors", "src/dom.rs Element"), ("Element::text", "src/dom.rs"), ("xmlns_context_from_attributes", "src/dom.rs"), ("Document constructors and accessors", "src/dom.rs Document"), ("Text, Comment, CData", "src/dom.rs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
