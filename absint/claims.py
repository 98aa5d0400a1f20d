"""What is claimed, by which method, with what assurance."""
COMMON = " Trusted: the rustc front end that produces the MIR, the dump driver, the analyser and its models of std/regex/dyn_clone functions."
CLAIMS = {
    "C01": ("abstract interpretation of the optimised-off MIR (symbolic values, linear inequalities, string-boundary and map facts), loops by fixpoint",
            "Every panic site reachable from parse_str/parse_stream/parse_filepath is an obligation discharged for arbitrary input. Assumes no allocation failure and no overflow of usize additions." + COMMON),
    "C02": ("abstract interpretation of the MIR of every public function and trait method on arbitrary arguments and documents",
            "As C01; returned iterators are advanced from an arbitrary position; From<&str>/From<String> for Comment and CData, documented to panic, are left out." + COMMON),
    "C03": ("loop rule on the MIR CFG (next() of a finite iterator on every cycle) plus measures found and proved by abstract interpretation; recursion on proper parts",
            "Every loop and recursive call of the crate is an obligation. User-supplied closures, iterators, readers and writers are assumed to return." + COMMON),
    "C04": ("acyclicity of the resolved MIR call graph from the parse entry points",
            "Sound for calls the crate makes, including trait dispatch to all implementors and library callbacks; drop glue is not counted." + COMMON),
    "C10": ("abstract interpretation of every public Result-returning method on &mut: content of the receiver at each error exit compared with its content at entry",
            "Covers all paths (loops by fixpoint); a differing part that the domain cannot name is reported as undecided, not as a violation." + COMMON),
    "C11": ("abstract interpretation of insert, remove and remove_element on arbitrary arguments: index facts and list terms at each exit",
            "Decides the positions and conditions symbolically; the element-counting loop is judged by its transfer relation. Index sources the rule does not recognise are undecided." + COMMON),
    "C12": ("abstract interpretation of every function that adds children, with the inheritance function summarised, and of that function itself (namespace decision table)",
            "The namespace data given to each added element and the positions it is applied to are compared with the parent's; loops by their transfer relation." + COMMON),
    "C13": ("abstract interpretation of every function that adds children (normaliser applied last) and of the normaliser's two scans",
            "Scan start, step, end, merge and drop conditions are judged from the loops' transfer relations." + COMMON),
    "C20": ("effect inference over the MIR call graph, inventory of unsafe code and statics",
            "Every public function's transitive external callees are classified; anything outside the allowed file functions is reported." + COMMON),
    "C23": ("abstract interpretation of the five bulk removals: transfer relations of their scan, removal and descent loops",
            "The predicate is an uninterpreted pure function; scan range, taken/kept conditions, removal order, count and descent are judged for arbitrary trees; recursion by induction on the child." + COMMON),
    "C27": ("abstract interpretation: transitions of the tag loop over an uninterpreted stack, the stack's operations on an arbitrary table of nodes, and the transfer relation of the loop that moves nodes into their parents (an induction over node numbers)",
            "Tables of any size: numbers are terms, not samples. That the tag scanner delimits tags and text correctly is C08's; Element::append_boxed is C12/C13's." + COMMON),
    "C28": ("abstract interpretation of each accessor, constructor and attribute edit on an arbitrary object; result and object afterwards compared on every path with the term its documentation gives (loops by their transfer relation, recursion by induction)",
            "Values, maps and lists are terms of any size. Argument checks are C09's, namespace inheritance and merging of texts C12/C13's." + COMMON),
    "C25": ("abstract interpretation: transfer relation of the loop that turns a byte position into line and column; provenance of the position in every message that names one, with the tag finder as an uninterpreted function",
            "Every call that builds a parse error in the parser is an obligation on every path. Messages without a position carry none. That the tag finder delimits tags is C08's." + COMMON),
    "C05": ("abstract interpretation of the parser with its helpers and tree operations as uninterpreted terms: a stack typestate over the tag loop, and the facts known on every accepting path",
            "Every transition of the prolog and element loops is an obligation; the helpers the argument leans on (blank test, full name, stack emptiness, tag check) are obligations of their own." + COMMON),
    "C08": ("provenance of every stored text, comment, CDATA section and attribute value as an exact slice of the input with a count of decodings (abstract interpretation of the parser, its helpers and the constructors); quote automaton of the scanners read off their loops",
            "Each function is judged with the others as uninterpreted terms; that unescape itself is right is C07. What counts as a name or tag is not judged here." + COMMON),
    "C06": ("abstract interpretation of every serializer; the string it builds, as literals, stored texts and loops, is run through an XML lexer with a stack of open names (loops by fixpoint)",
            "All element shapes, any depth by induction over the recursive call; names are assumed free of markup (C09). Text whose origin the domain cannot name is undecided." + COMMON),
    "C16": ("provenance of every attribute written (abstract interpretation) and a case table of the comparison its list was sorted by; effect inference for clocks, randomness and environment",
            "The comparison is evaluated symbolically for every relation two different names can have. Hash-map order is assumed to reach the text only through iteration." + COMMON),
    "C07": ("abstract interpretation of the escape functions (character homomorphism read off replace chains, tables and loops) and of unescape (copy/decode/left-to-right facts on every transition of its loop)",
            "Covers strings of any length. Loop shapes other than the recognised ones (in-place rewrite, output plus position, output plus rest) are reported as undecided." + COMMON),
    "C17": ("provenance of the text every output function returns, formats or hands to the writer (abstract interpretation with the text function as an uninterpreted term)",
            "The text of a document is the value of the single text function at some indent; each output form must be exactly that value, on every path." + COMMON),
    "C18": ("indent taint: every place the indent reaches the text or the recursive serializer, with the facts known there (abstract interpretation), judged against a concrete table of indents",
            "Valid and invalid indents are told apart by symbolic evaluation of the validator's loop; byte loops are undecided." + COMMON),
    "C19": ("abstract interpretation of the I/O functions with every fallible call failing or not; error provenance and completeness of what is read or written",
            "std::fs and std::io calls are modelled by their documented contracts (partial write, partial read, interrupted, buffered writers)." + COMMON),
    "C22": ("provenance: stored prolog text as slices of the input, displayed form, field-by-field setters, and the document text as a token sequence with loop transfer relations",
            "All prologs, from the slice of the input stored to the text written; which characters end a DTD in the input (the quote- and bracket-aware scan) is not judged." + COMMON),
    "C21": ("evaluation of the returned iterator term on one arbitrary child or descendant (abstract interpretation of the closures): facts where a node is yielded or left out, compared with the selection; recursion by induction",
            "All 19 query methods, shared and mutable; an iterator adaptor or a comparison the rule does not know is undecided." + COMMON),
    "C09": ("abstract interpretation of every function whose MIR constructs a guarded type or can write a guarded field: the facts known about the very string stored, checked against forbidden samples; escape of mutable references; field privacy",
            "Which strings the facts exclude is decided by evaluating the fact terms (contains, starts_with, regex match, comparisons) on a table of forbidden samples enriched with the constants the path mentions, so an exclusion that depends on a string outside the table is not seen. Checks written as character loops are undecided." + COMMON),
    "C14": ("abstract interpretation of every kind test, cast, view and type tag of the four node kinds on an arbitrary receiver",
            "All methods of the Node trait for all four implementing types; constants, cast targets and reported tags read off the interpreted returns." + COMMON),
    "C15": ("abstract interpretation of the Clone, PartialEq and Hash implementations: field-by-field provenance, equality facts on every accepting path, loop transfer relations for children",
            "Recursion on children by induction; std's equality, clone and hash of String, Option, HashMap and Vec are trusted." + COMMON),
    "C26": ("abstract interpretation of the recursive serializer (its recursion and the other serializers as uninterpreted functions): per path, pieces written against flag and kinds of children; loop transfer relations; search for a list of children that fits the facts of a path and contradicts its layout",
            "Nested elements by induction over the flag, prefix and indent passed down; the text test and the text normaliser as in C08 and C13. Mixed-content tests written with a flag collected over a loop are undecided." + COMMON),
}
NA = {
    "C24": "relates the whole serializer to the whole parser over all document values; no static rule in reach bounds it (pieces are covered by C06, C07, C08, C22)",
}
