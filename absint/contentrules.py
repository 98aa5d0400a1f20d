"""C08: what the parser stores for text, comments, CDATA and attribute values."""
from terms import *
from semlib import Run, short, parallel
from domlib import *
from domrules import incomplete
from summ import s_pure, ufn
from parserules import *
from parserules import _n
import rx

CHANGES = ("replace", "replacex", "strfn", "lossy", "tostr", "retain", "repeat", "join", "dbg")
NONBLANK = ("x", " x", "x ", "\nx", "x\n", "\n x \n", "&", "\u00e9", "0", ".", "_", "x\n\n", "\n\nx", " \n\nx y\n", "\x01", "x\n ", "-", ";", "\u200b", "\ufeff", "\u3042")
BLANK = ("", " ", "\n", "\t \r\n", "  \n  ")


def trimmed(v):
    return any(z.op in ("trimlo", "trimhi") for z in subs(v))


def fsubs(t):
    """terms inside t, not looking into the helper functions it was found by"""
    yield t


def content_opts(p):
    o = parse_opts(p)
    if "unescape" in p.by_path:
        o["summaries"][p.by_path["unescape"]] = s_pure("p:unescape")
    return o


def split_helpers(p):
    S = sigs(p)
    V = ("Vec", "str", ("Global",))
    return {"split": pick(p, S, ("str",), V, "quote_aware_split"), "join": pick(p, S, (V,), V, "join_spaced_attributes"),
            "qfind": pick(p, S, ("str", "str", "usize"), ("Option", "usize"), "quote_aware_find"),
            "nfind": pick(p, S, ("str", "usize"), ("Option", "usize"), "nested_quote_aware_find_close")}


class Exact:
    """is x exactly what it should be?  raises Bad / Unknown"""

    def __init__(self, s, B):
        self.s, self.B = s, B

    def changed(self, x, what):
        """x is a visibly changed form of the input"""
        if x.op in ("replace", "replacex", "strfn", "retain"):
            raise Bad("changed", f"{what} is changed before it is stored ({short(show(x), 60)})")
        if iscall(x, "p:unescape"):
            raise Bad("decoded", f"{what} is decoded although it must be copied as it is")
        raise Unknown(f"{what}: {short(show(x), 80)}")

    def span(self, x, lo, hi, what):
        s = self.s
        if x.op == "lit" and x.a[0] == "":
            if s.same(lo, hi):
                return
            if s.entails(lsub(lsub(hi, lo), num(1))):
                raise Bad("lost", f"{what} is dropped")
            raise Unknown(f"whether {what} is empty")
        b, l, h = sbase(x)
        if b is not self.B:
            self.changed(b if b is not x else x, what)
        if s.same(l, lo) and s.same(h, hi):
            return
        if trimmed(l) or trimmed(h):
            raise Bad("trimmed", f"{what} is trimmed")
        d1, d2 = lsub(l, lo), lsub(h, hi)
        for d, w in ((d1, "start"), (d2, "end")):
            if isconst(d) and constval(d) != 0:
                raise Bad("delimiter", f"{what} is cut {abs(constval(d))} byte(s) {'too far in' if (constval(d) > 0) == (w == 'start') else 'too far out'} at its {w}")
        raise Unknown(f"bounds of {what}")


def isconst(v):
    return v.op == "lin" and not v.a[1]


def constval(v):
    return v.a[0]


class Content(Parse):
    def stored(self):
        if not self.prepare():
            return self.f.items
        for l, tree, pos in self.main:
            for (s, nv), (_, pv) in zip(l.nexts(tree), l.nexts(pos)):
                self.say(self.round, Iter(self, s, self.endof(pv), atom(pos)), tree, nv)
        return self.f.items

    def say(self, f, *a):
        said = self.__dict__.setdefault("said", set())
        try:
            r = f(*a)
        except Unknown as x:
            r = ("?", str(x))
        except Bad as x:
            r = x.args
        for q in (r if isinstance(r, list) else [r]):
            if q is None or q in said:
                continue
            said.add(q)
            if isinstance(q, str):
                self.ok(q)
            elif q[0] == "?":
                self.und(q[1])
            else:
                self.bad(*q)

    def arg(self):
        return self.args()[0]

    def args(self):
        seen = {}
        for s, v in self.run.outs:
            for t in [self.e.deep(s, v)] + list(s.bools) + list(s.var):
                for z in subs(t):
                    if z.op == "sym" and str(z).startswith("$None.arg.a"):
                        seen[str(z)] = z
        if not seen:
            raise Unknown("argument")
        return [seen[k] for k in sorted(seen)]

    def round(self, it, tree, nv):
        out = []
        for op in self.unwind(nv, tree):
            if op[0] != "append":
                continue
            x = op[1][0]
            if iscall(x, "dom::Text::new"):
                self.text(it, x.a[1][0])
                out.append("text between tags is stored as decoded by the text helper, once")
            elif x.op == "fld" and iscall(x.a[0], "dom::Comment::new"):
                self.verbatim(it, x.a[0].a[1][0], "<!--", "-->", "the content of a comment")
                out.append("a comment's content is the text between '<!--' and '-->'")
            elif x.op == "fld" and iscall(x.a[0], "dom::CData::new"):
                self.verbatim(it, x.a[0].a[1][0], "<![CDATA[", "]]>", "the content of CDATA")
                out.append("CDATA content is the text between '<![CDATA[' and ']]>'")
        return out

    def verbatim(self, it, x, a, z, what):
        if it.lo is None or it.hi is None:
            raise Unknown("where the tag is")
        Exact(it.s, it.B).span(x, lplus(it.lo, len(a)), lplus(it.hi, -len(z)), what)
        for c, w, d in ((it.starts(a), "start", a), (it.ends(z), "end", z)):
            if c is False:
                raise Bad("delimiter", f"cuts {len(d)} bytes from {what} at its {w} that are not {d!r}")
            if c is None:
                raise Unknown(f"the delimiter at the {w} of {what}")

    def text(self, it, x):
        what = "text between tags"
        if x.op == "slice" and x.a[0] is it.B and not noamp(it.s, x):
            raise Bad("undecoded", f"{what} is stored without being decoded")
        n, y = 0, x
        while True:
            if iscall(y, "p:unescape"):
                n, y = n + 1, y.a[1][0]
            elif y.op == "fld" and iscall(y.a[0], "p:real"):
                n, y = n + 1, y.a[0].a[1][0]
            else:
                break
        if n == 0 and x.op == "slice" and x.a[0] is it.B:
            n = 1
        if n == 0:
            b, l, h = sbase(x)
            if b is not x and b.op == "fld" and iscall(b.a[0], "p:real"):
                if trimmed(l) or trimmed(h):
                    raise Bad("trimmed", f"{what} is trimmed before it is stored")
                raise Unknown(f"part of {what}")
            if x.op in ("replace", "replacex", "strfn", "retain"):
                raise Bad("changed", f"{what} is changed before it is stored ({short(show(x), 60)})")
            raise Unknown(f"stored text {short(show(x), 80)}")
        if n > 1:
            raise Bad("twice", f"{what} is decoded {n} times")
        Exact(it.s, it.B).span(y, it.pos, it.lo, what)


# ------------------------------------------------------------------ the text helper
class Real(Content):
    def judge(self):
        if incomplete(self.run, self.f):
            return self.f.items
        for s, v in self.run.outs:
            self.say(self.one, s, self.e.deep(s, v))
        return self.f.items

    def one(self, s, v):
        A = self.arg()
        o = v.a[2] if v.op == "agg" else None
        if o == "None":
            return self.blank(s, A)
        if o == "Some":
            y, n = v.a[3][0], 0
            while iscall(y, "p:unescape"):
                n, y = n + 1, y.a[1][0]
            if n == 0 and (y is A or sbase(y)[0] is A) and noamp(s, y):
                n = 1
            if n == 0:
                if y is A or sbase(y)[0] is A:
                    raise Bad("undecoded", "text between tags is not decoded")
                if y.op in ("replace", "replacex", "strfn", "retain"):
                    raise Bad("changed", f"text between tags is changed ({short(show(y), 60)})")
                raise Unknown(f"text {short(show(y), 80)}")
            if n > 1:
                raise Bad("twice", f"text between tags is decoded {n} times")
            Exact(s, A).span(y, num(0), slen(A), "text between tags")
            return "text is decoded exactly once, whole"
        raise Unknown(f"result {short(show(v), 80)}")

    def blank(self, s, A):
        """text that is dropped must be blank"""
        facts = [(b, v) for b, v in s.bools.items()]
        for b, v in facts:
            if b.op == "pr" and b.a[0] == "re" and v:
                if b.a[1].op != "regex" or b.a[1].a[0].op != "lit":
                    raise Unknown("pattern for blank text")
                pat = b.a[1].a[0].a[0]
                x, l, h = sbase(b.a[2])
                if x is not A:
                    continue
                rxp = rust_re(pat)
                if rxp is None:
                    raise Unknown(f"pattern {pat!r}")
                if trimmed(l) or trimmed(h) or (s.same(l, num(0)) and s.same(h, slen(A))):
                    bad = [t for t in NONBLANK if rxp.search(t if not (trimmed(l) or trimmed(h)) else t.strip())]
                    if bad:
                        raise Bad("dropped", f"text such as {bad[0]!r} is dropped as if it were blank (pattern {pat!r})")
                    return "only blank text is dropped"
            x = None
            if b.op == "eq" and v:
                x = next((q for q in b.a if q.op == "slice" and sbase(q)[0] is A), None)
                if x is not None and any(q.op == "lit" and q.a[0] == "" for q in b.a) and trimmed(x):
                    return "only blank text is dropped"
        for z in {z for k in s.lin for t, _ in k for z in subs(t) if z.op in ("trimlo", "trimhi")}:
            if sbase(z.a[0])[0] is A and z.op == "trimhi":
                return self.trimempty(s, A, z)
        if s.same(slen(A), num(0)):
            return None
        raise Unknown("which text is dropped")

    def trimempty(self, s, A, z):
        for k in list(s.lin):
            los = [t for t, _ in k if t.op == "trimlo"]
            his = [t for t, _ in k if t.op == "trimhi"]
            for a in los:
                for b in his:
                    if s.same(atom(a), atom(b)):
                        return "only blank text is dropped"
        raise Unknown("which text is dropped")


def rust_re(pat):
    """like rx.to_py, with Rust's meaning of $ (the very end)"""
    import re
    m = re.match(r"\(\?([a-z]+)\)", pat)
    multi = bool(m and "m" in m.group(1))
    if not multi:
        out, i, cls = "", 0, False
        while i < len(pat):
            c = pat[i]
            if c == "\\":
                out += pat[i:i + 2]
                i += 2
                continue
            if c == "[":
                cls = True
            elif c == "]":
                cls = False
            out += "\\Z" if c == "$" and not cls else c
            i += 1
        pat = out
    return rx.to_py(pat)


def peel(v):
    """(the empty map below, entries added to it)"""
    n = 0
    while v is not None and v.op == "minsert":
        n, v = n + 1, v.a[0]
    return (v, n) if v is not None and v.op == "mempty" else (None, n)


def noamp(s, x):
    """no '&' in this text: decoding it changes nothing"""
    b, l, h = sbase(x)
    for f, v in s.bools.items():
        if f.op == "pr" and f.a[0] == "contains" and not v and (f.a[2].op == "lit" and f.a[2].a[0] == "&" or f.a[2].op == "ch" and f.a[2].a[0] == 38):
            b2, l2, h2 = sbase(f.a[1])
            if b2 is b and s.entails(lsub(l, l2)) and s.entails(lsub(h2, h)):
                return True
    return False


# ------------------------------------------------------------------ attributes of a tag
class Attrs(Content):
    def judge(self):
        incomplete(self.run, self.f)
        self.lv = loops(self.run)
        maps = []
        for l in self.lv:
            for c in l.loc:
                t = type_of(c)
                if t and t[0] == "adt" and t[1].endswith("HashMap") and l.entries(c) and all(peel(v)[0] is not None for _, v in l.entries(c)):
                    maps.append((l, c))
        if not maps:
            self.und("the loop over attributes is not recognised")
            return self.f.items
        for l, c in maps:
            for s, v in l.nexts(c):
                self.say(self.round, s, c, v)
            for s, v in l.entries(c):
                if v.op == "minsert":
                    self.say(self.round, s, v.a[0], v)
            self.say(self.visits, l, c)
        self.say(self.used, [c for _, c in maps])
        return self.f.items

    def used(self, cs):
        calls = {z for s, v in self.run.outs for t in [self.e.deep(s, v)] + list(s.var) for z in subs(t) if iscall(z, "dom::Element::new")}
        if not calls:
            raise Unknown("how the element is made")
        for z in calls:
            if not any(y in cs for y in subs(z.a[1][2])):
                raise Unknown("the attributes given to the element")
            if z.a[1][1] is not None and z.a[1][1].op == "agg" and z.a[1][1].a[2] == "Some":
                raise Bad("text", "gives the new element text that is not in the input")
        return "the element gets the attributes read"

    def visits(self, l, c):
        """every component after the first is read"""
        idx = None
        for s, v in l.nexts(c):
            for z in subs(v):
                if z.op == "elem" and cell(z.a[1]) is not None and cell(z.a[1]) in l.loc:
                    idx = cell(z.a[1])
        if idx is None:
            raise Unknown("which components of a tag are read as attributes")
        peeled = {id(s): peel(v)[1] for s, v in l.entries(c)}
        for s, v in l.entries(idx):
            if v is None or not isconst(v):
                raise Unknown("the first component read as an attribute")
            if constval(v) - peeled.get(id(s), 0) > 1:
                raise Bad("skipped", "does not read the first attribute")
        for s, v in l.nexts(idx):
            if v is None or not isconst(lsub(v, atom(idx))):
                raise Unknown("how the components of a tag are visited")
            if constval(lsub(v, atom(idx))) != 1:
                raise Bad("skipped", "skips attributes")
        return "every component after the name is read as an attribute"

    def round(self, s, c, v):
        n, m = 0, v
        while m is not None and m.op == "minsert" and n < 3:
            n, m = n + 1, m.a[0]
        if v is None or m is not c:
            raise Unknown("what happens to the attributes")
        if n == 0:
            raise Bad("dropped", "passes over an attribute without storing it")
        if n > 1:
            raise Unknown("two attributes stored at once")
        k, x = v.a[1], v.a[2]
        n, y = 0, x
        while iscall(y, "p:unescape"):
            n, y = n + 1, y.a[1][0]
        what = "the value of an attribute"
        if y.op in ("replace", "replacex", "strfn", "retain"):
            raise Bad("changed", f"{what} is changed ({short(show(y), 60)})")
        C, lo, hi = sbase(y)
        if C.op != "elem":
            raise Unknown(f"{what}: {short(show(y), 80)}")
        if n == 0 and noamp(s, y):
            n = 1
        if n == 0:
            raise Bad("undecoded", f"{what} is not decoded")
        if n > 1:
            raise Bad("twice", f"{what} is decoded {n} times")
        if C.a[0].op == "collected" and C.a[0].a[0].op == "agg" and C.a[0].a[0].a[0] == "it:split":
            sp = C.a[0].a[0]
            raise Unknown(f"{what}: {short(show(sp), 80)}")
        f = [z for z in subs(lo) if z.op in ("find", "rfind")]
        if not f:
            raise Unknown(f"where {what} starts")
        e = f[0]
        if e.op == "rfind" and e.a[0] is C:
            raise Bad("equals", f"{what} is taken to start at the last '=', which may stand inside the value")
        if e.op != "find" or sbase(e.a[0])[0] is not C or not (e.a[1].op == "lit" and e.a[1].a[0] == "=" or e.a[1].op == "ch" and e.a[1].a[0] == 61):
            raise Unknown(f"where {what} starts")
        eq = atom(e)
        kb, kl, kh = sbase(k)
        if k.op in ("strfn", "replace", "replacex"):
            raise Bad("name", "the name of an attribute is changed")
        if kb is not C:
            raise Unknown(f"the name of an attribute: {short(show(k), 80)}")
        Exact(s, C).span(k, num(0), eq, "the name of an attribute")
        Exact(s, C).span(y, lplus(eq, 2), lplus(slen(C), -1), what)
        q1 = {q for b, off, q in s.occ for q in [q if isinstance(q, str) else q.a[0] if q.op == "lit" else None] if b is C and s.same(off, lplus(eq, 1))}
        q2 = {q for b, off, q in s.occ for q in [q if isinstance(q, str) else q.a[0] if q.op == "lit" else None] if b is C and s.same(off, lplus(slen(C), -1))}
        if not (q1 & q2 & {'"', "'"}):
            raise Unknown("the quotes around an attribute value")
        return "an attribute's value is the text between its quotes, decoded once; its name the text before the first '='"


# ------------------------------------------------------------------ splitting a tag into its components
class Split(Content):
    """every character inside quotes reaches exactly one component"""

    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        self.lv = loops(self.run)
        self.cells = []
        for l in self.lv:
            strs = [c for c in l.loc if self.isstr(c) and l.nexts(c)]
            for c in strs:
                self.cells.append((l, c))
        if not self.cells:
            self.und("the loop over the characters of a tag is not recognised")
            return self.f.items
        for l, c in self.cells:
            for s, v in l.nexts(c):
                self.say(self.round, l, s, c, v)
        return self.f.items

    def isstr(self, c):
        t = type_of(c)
        return bool(t) and (t == ("str",) or t[0] == "adt" and t[1].endswith("::String"))

    def quoted(self, l, s):
        """this round is one inside quotes"""
        A = Automaton.of(l)
        if not A.inside:
            return None
        h = l.src.get(id(s)) or set()
        r = {x in A.inside for x in h}
        return r.pop() if len(r) == 1 else None

    def round(self, l, s, c, v):
        cur = {z for b in s.bools for z in subs(b) if z.op == "charat"}
        if v is None:
            raise Unknown("the component being read")
        q = self.quoted(l, s)
        ws = any(b.op == "pr" and b.a[0] == "ch" and b.a[1] == "whitespace" and x for b, x in s.bools.items())
        if v is c:
            if q:
                raise Bad("quoted", "drops a character inside quotes")
            if ws and q is False:
                return "outside quotes only blanks are left out"
            if q is None:
                raise Unknown("whether a character inside quotes is dropped")
            raise Unknown("which characters are left out")
        if v.op == "lit" and v.a[0] == "":
            if q:
                raise Bad("quoted", "ends a component inside quotes")
            lists = [x for x in l.loc if type_of(x) and type_of(x)[0] == "adt" and type_of(x)[1].endswith("::Vec")]
            for x in lists:
                for s2, nv in l.nexts(x):
                    if s2 is s and nv is not None and nv.op == "vpush" and nv.a[1] is c:
                        return "a component is ended at a blank outside quotes and kept"
            raise Unknown("how a component is ended")
        ps = list(v.a[0]) if v.op == "cat" else []
        if len(ps) == 2 and ps[0] is c:
            x = ps[1]
            if x.op == "chstr" and x.a[0].op == "charat":
                return "a character is added to the component as it is"
            if x.op == "lit":
                if any(b.op == "eq" and y and any(z.op == "ch" and chr(z.a[0]) == x.a[0] for z in b.a) for b, y in s.bools.items()):
                    return "a character is added to the component as it is"
                if q:
                    raise Bad("quoted", f"puts {x.a[0]!r} in place of a character inside quotes")
            if x.op == "chstr" and x.a[0].op == "charfn" and any(z.op == "charat" for z in subs(x)):
                raise Bad("quoted", f"changes a character of a component ({x.a[0].a[0]})")
            if q and x.op in ("strfn", "replace"):
                raise Bad("quoted", "changes a character inside quotes")
        raise Unknown(f"component {short(show(v), 80)}")


class Join(Content):
    """joining components loses none of them"""

    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        n = 0
        for l in loops(self.run):
            vecs = [c for c in l.loc if type_of(c) and type_of(c)[0] == "adt" and type_of(c)[1].split("::")[-1] in ("Vec", "VecDeque") and l.nexts(c)]
            for r in vecs:
                for q in vecs:
                    a, b = l.nexts(r), l.nexts(q)
                    if r is q or not all(v is not None and v.op == "vpush" and v.a[0] is r for _, v in a):
                        continue
                    for (s, v), (_, w) in zip(a, b):
                        n += 1
                        self.say(self.round, s, r, v, q, w)
        if not n:
            self.und("the loop that joins components is not recognised")
        return self.f.items

    def round(self, s, r, v, q, w):
        k, t = 0, w
        while t is not None and t.op == "vremove" and s.same(t.a[1], num(0)):
            k, t = k + 1, t.a[0]
        if t is not q or not k:
            raise Unknown("how components are consumed")
        x = v.a[1]
        ps = list(x.a[0]) if x.op == "cat" else [x]
        got = []
        for y in ps:
            if y.op == "elem" and y.a[0] is q and isconst(y.a[1]):
                got.append(constval(y.a[1]))
            elif y.op == "slice" and y.a[0].op == "elem" and y.a[0].a[0] is q and (trimmed(y.a[1]) or trimmed(y.a[2])):
                raise Bad("joined", "cuts something off a part of an attribute")
            elif y.op == "lit":
                raise Bad("joined", f"puts {y.a[0]!r} between parts of an attribute")
            else:
                raise Unknown(f"joined component {short(show(x), 80)}")
        if got != list(range(k)):
            raise Bad("joined", "loses or reorders a part of an attribute")
        return "joining components keeps every part in order"


# ------------------------------------------------------------------ where a tag ends
class Ends(Content):
    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        for s, v in self.run.outs:
            self.say(self.one, s, self.e.deep(s, v))
        return self.f.items

    def one(self, s, v):
        if not (v.op == "tup" or v.op == "agg"):
            raise Unknown("result")
        xs = v.a[0] if v.op == "tup" else v.a[3]
        if len(xs) != 2 or xs[0].op != "agg" or xs[0].a[2] != "Some":
            return None
        if xs[1].op != "agg":
            raise Unknown("end of a tag")
        if xs[1].a[2] != "Some":
            return None
        lo, hi = xs[0].a[3][0], xs[1].a[3][0]
        B = None
        for b, off, q in s.occ:
            if s.same(off, lo):
                B = b
        if B is None:
            raise Unknown("start of a tag")
        kind = None
        st = self.lits(s, B, lo)
        for d, z in (("<!--", "-->"), ("<![CDATA[", "]]>")):
            if any(w.startswith(d) for w in st):
                return self.verbatim_end(s, B, lo, hi, d, z)
        if all(self.excluded(s, B, lo, d) for d in ("<!", "<?")):
            return self.tag_end(s, B, lo, hi)
        return None

    def lits(self, s, B, off):
        out = set()
        for b, o, q in s.occ:
            w = q if isinstance(q, str) else q.a[0] if q.op == "lit" else None
            if b is B and w and s.same(o, off):
                out.add(w)
        return out

    def excluded(self, s, B, lo, d):
        for b, v in s.bools.items():
            if b.op == "pr" and b.a[0] == "starts_with" and not v and b.a[2].op == "lit" and d.startswith(b.a[2].a[0]):
                x, l, h = sbase(b.a[1])
                if x is B and s.same(l, lo):
                    return True
        return False

    def verbatim_end(self, s, B, lo, hi, d, z):
        what = "a comment" if d == "<!--" else "CDATA"
        fs = [t for t, c in hi.a[1] if t.op in ("find", "rfind") and c == 1] if hi.op == "lin" else []
        fs = [f for f in fs if not any(y is f for y in subs(lo))]
        if len(fs) != 1:
            if any(iscall(y, "p:qfind") or iscall(y, "p:nfind") for y in subs(hi)):
                raise Bad("end", f"the end of {what} is looked for outside quotes only")
            raise Unknown(f"where {what} ends")
        f = fs[0]
        if f.a[1].op != "lit":
            raise Unknown(f"where {what} ends")
        if f.a[1].a[0] != z:
            raise Bad("end", f"{what} is taken to end at {f.a[1].a[0]!r}")
        if f.op == "rfind":
            raise Bad("end", f"{what} is taken to end at the last {z!r}")
        b, l, h = sbase(f.a[0])
        if b is not B or not s.same(h, slen(B)):
            raise Unknown(f"where the end of {what} is looked for")
        dl = lsub(l, lo)
        if not isconst(dl):
            raise Unknown(f"where the end of {what} is looked for")
        n = constval(dl)
        if n > len(d):
            raise Bad("end", f"the end of {what} is looked for {n - len(d)} byte(s) behind the start of its content")
        if n < len(d) and overlaps(d, n, z):
            raise Bad("end", f"the end of {what} is looked for inside its opening delimiter")
        e = ladd(ladd(l, atom(f)), num(len(z)))
        if not s.same(e, hi):
            raise Bad("end", f"{what} does not end right behind {z!r}")
        return f"{what} ends right behind the first {z!r} after its opening delimiter"

    def tag_end(self, s, B, lo, hi):
        fs = [t for t, c in hi.a[1] if t.op == "find" and c == 1] if hi.op == "lin" else []
        fs = [f for f in fs if not any(y is f for y in subs(lo))]
        if len(fs) == 1 and fs[0].a[1].op == "lit" and fs[0].a[1].a[0] == ">":
            raise Bad("quoted-end", "a tag is taken to end at the first '>', even inside a quoted attribute value")
        qs = [y for y in subs(hi) if iscall(y, "p:qfind")]
        if len(qs) != 1:
            raise Unknown("where a tag ends")
        t, pat, frm = qs[0].a[1]
        b, l, h = sbase(t)
        if b is not B or not s.same(l, lo) or not s.same(h, slen(B)) or not isconst(frm) or not (pat.op == "lit"):
            raise Unknown("where a tag ends")
        if pat.a[0] != ">" or constval(frm) != 1:
            raise Unknown("where a tag ends")
        r = self.e.payload(qs[0], 1)
        r = r if r.op == "lin" else atom(r)
        if not s.same(ladd(ladd(lo, r), num(1)), hi):
            raise Bad("end", "a tag does not end right behind its '>'")
        return "a tag ends right behind the first '>' outside quotes"


def overlaps(d, n, z):
    """z could begin at offset n inside d or run over its end"""
    for i in range(n, len(d)):
        if z.startswith(d[i:i + len(z)]):
            return True
    return False


QUOTES = (39, 34)


class Automaton:
    """rounds of a character loop, told apart by whether they are inside quotes"""

    def __init__(self, l):
        self.l = l
        self.inside = set()
        self.start = set()
        self.opens = {}
        if len(l.heads) < 2:
            return
        for s in l.entry:
            self.start |= l.dst.get(id(s)) or set()
        for s in l.backs:
            for i in l.src.get(id(s)) or ():
                for o in l.dst.get(id(s)) or ():
                    if i != o and i in self.start and o not in self.start:
                        q = self.lits(s)
                        if q:
                            self.inside.add(o)
                            self.opens.setdefault(o, set()).update(q)

    @staticmethod
    def of(l):
        if not hasattr(l, "automaton"):
            l.automaton = Automaton(l)
        return l.automaton

    def lits(self, s, val=True):
        return {z.a[0] for b, v in s.bools.items() if b.op == "eq" and v is val and any(y.op == "charat" for y in b.a) for z in b.a if z.op == "ch" and z.a[0] in QUOTES}

    def cells(self, s, val=True):
        """comparisons of a character with a stored one"""
        return [b for b, v in s.bools.items() if b.op == "eq" and v is val and any(y.op == "charat" for y in b.a) and any(y.op == "phi" for y in b.a)]

    def others(self, s):
        return any(v and (b.op == "eq" and any(y.op == "charat" for y in b.a) and any(y.op == "ch" and y.a[0] not in QUOTES for y in b.a) or b.op == "pr" and b.a[0] == "ch")
                   for b, v in s.bools.items())


class Quotes(Content):
    """the quote-aware scans: which characters open and close quotes"""

    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        n = 0
        for l in loops(self.run):
            if not any(z.op == "charat" for s in l.backs for b in s.bools for z in subs(b)):
                continue
            n += 1
            A = Automaton.of(l)
            if not A.inside:
                self.say(self.unclear)
                continue
            for s in l.backs:
                for i in l.src.get(id(s)) or ():
                    for o in l.dst.get(id(s)) or ():
                        self.say(self.move, A, s, i, o)
            self.say(self.found, l, A)
        if not n:
            self.und("the loop over characters is not recognised")
        return self.f.items

    def unclear(self):
        raise Unknown("how quotes are tracked")

    def name(self, c):
        return repr(chr(c))

    def move(self, A, s, i, o):
        a, b = i in A.inside, o in A.inside
        yes, no = A.lits(s), A.lits(s, False)
        if not a and i in A.start:
            if not b:
                if o not in A.start:
                    raise Unknown("how quotes are tracked")
                if yes:
                    raise Bad("opens", f"goes past {self.name(min(yes))} outside quotes without starting a quoted part")
                if A.others(s) or no == set(QUOTES):
                    return "outside quotes, either quote character starts a quoted part"
                if len(no) == 1:
                    raise Bad("opens", f"does not look for {self.name(next(q for q in QUOTES if q not in no))} outside quotes")
                raise Unknown("which characters start a quoted part")
            if yes:
                return "outside quotes, either quote character starts a quoted part"
            if no == set(QUOTES) or A.others(s):
                raise Bad("opens", "starts a quoted part at a character that is not a quote")
            raise Unknown("which characters start a quoted part")
        if a:
            Q = A.opens.get(i, set())
            if b and o == i:
                if A.cells(s, False) or len(Q) == 1 and no >= Q:
                    return "a quoted part goes on up to the quote character that started it"
                if yes and len(Q) == 2 and not A.cells(s):
                    raise Unknown("where a quoted part ends")
                if A.cells(s):
                    raise Bad("closes", "goes on with a quoted part behind its closing quote")
                raise Unknown("where a quoted part ends")
            if not b and o in A.start:
                if A.cells(s) or len(Q) == 1 and yes == Q:
                    return "a quoted part goes on up to the quote character that started it"
                if yes:
                    raise Bad("closes", "ends a quoted part at a quote character that may not be the one it started with")
                if A.cells(s, False):
                    raise Bad("closes", "ends a quoted part before its closing quote")
                raise Unknown("where a quoted part ends")
        raise Unknown("how quotes are tracked")

    def found(self, l, A):
        """a position returned is one outside quotes"""
        for s, v in self.run.outs:
            v = self.e.deep(s, v)
            if not (v.op == "agg" and v.a[2] == "Some"):
                continue
            hs = {l.headof[z] for z in subs(v.a[3][0]) if z.op == "phi" and z in getattr(l, "headof", {})}
            if hs & A.inside:
                raise Bad("found-inside", "finds what it looks for inside quotes")
            if not hs:
                raise Unknown("position returned")
        return "what is found lies outside quotes"


class Strip(Content):
    """a tag's inner text: nothing but its delimiters and blanks at its ends are cut off"""

    def judge(self):
        if incomplete(self.run, self.f):
            return self.f.items
        for s, v in self.run.outs:
            self.say(self.one, s, self.e.deep(s, v))
        return self.f.items

    def one(self, s, v):
        A = self.arg()
        if v.op in ("replace", "replacex", "strfn", "retain"):
            raise Bad("changed", f"the inner text of a tag is changed ({short(show(v), 60)})")
        b, l, h = sbase(v)
        if b is not A:
            raise Unknown(f"inner text of a tag: {short(show(v), 80)}")
        los = [t for t, c in l.a[1] if t.op == "trimlo" and c == 1]
        his = [t for t, c in h.a[1] if t.op == "trimhi" and c == 1]
        if los:
            x, l2, h2 = sbase(los[0].a[0])
            if x is not A or los[0].a[1] is None:
                raise Unknown("inner text of a tag")
            l = ladd(lsub(l, atom(los[0])), num(0))
            h = h2 if his else h
            l = l2
        elif his:
            x, l2, h = sbase(his[0].a[0])
        a, z = lsub(l, num(0)), lsub(slen(A), h)
        if not isconst(a) or not isconst(z):
            raise Unknown("inner text of a tag")
        a, z = constval(a), constval(z)
        for n, off, ok, w in [(i, num(i), ("<", "/"), "start") for i in range(a)] + [(i, lplus(slen(A), -1 - i), (">", "/"), "end") for i in range(z)]:
            got = None
            for bb, o, q in s.occ:
                q = q if isinstance(q, str) else q.a[0] if q.op == "lit" else None
                if bb is not A or q is None:
                    continue
                d = lsub(off, o)
                if isconst(d) and 0 <= constval(d) < len(q) and q.isascii():
                    got = q[constval(d)]
            if got is None:
                raise Unknown(f"what is cut off a tag at its {w}")
            if got not in ok:
                raise Bad("cut", f"cuts {got!r} off a tag at its {w}")
        if a > 2 or z > 2:
            raise Bad("cut", "cuts more than its delimiters off a tag")
        return "only delimiters and blanks are cut off a tag"


# ------------------------------------------------------------------ constructors store their argument
class Make(Real):
    def judge(self):
        if incomplete(self.run, self.f):
            return self.f.items
        for s, v in self.run.outs:
            self.say(self.one, s, self.e.deep(s, v))
        return self.f.items

    def one(self, s, v):
        if v.op == "agg" and v.a[0] == RES:
            if v.a[2] == "Err":
                return None
            v = v.a[3][0]
        x = next((y for n, y in sfields(self.e, v, self.out) if type_of(y) is None or True), None)
        fs = sfields(self.e, v, self.out)
        x = fs[0][1]
        A = self.args()[0]
        what = f"the content of a {self.out.split('::')[-1]}"
        if iscall(x, "p:unescape"):
            raise Bad("decoded", f"{what} is decoded by its constructor")
        Exact(s, A).span(x, num(0), slen(A), what)
        return f"{what} is stored as given"


class Store(Content):
    """an element is made with the names and attributes it is given"""

    def judge(self):
        incomplete(self.run, self.f)
        self.lv = loops(self.run)
        for s, v in self.run.outs:
            v = self.e.deep(s, v)
            if outcome(self.run, s, v) == "Ok":
                self.say(self.one, s, payload(self.run, s, v))
        return self.f.items

    def one(self, s, v):
        if not (v.op == "agg" and v.a[0] == ELEMENT):
            raise Unknown("the element made")
        fs = dict(sfields(self.e, v, ELEMENT))
        A = {str(z)[6:]: z for z in self.args()}
        m = fs["attributes"]
        if m.op == "mempty":
            g = next((t for t, vs in s.var.items() if vs == frozenset({1}) and str(t).startswith("$None.arg.a2")), None)
            empty = any(z.op == "mlen" for k in s.lin for t, _ in k for z in subs(t))
            if g is not None and not self.lv:
                raise Bad("attributes", "does not store the attributes it is given")
            return None
        l = next((l for l in self.lv if m in l.loc and l.nexts(m)), None)
        if l is None:
            if m.op == "fld":
                return "attributes are stored as given"
            raise Unknown("the attributes of a new element")
        for st, nv in l.nexts(m):
            if nv is m:
                raise Bad("attributes", "leaves out an attribute it is given")
            if nv is None or nv.op != "minsert" or nv.a[0] is not m:
                raise Unknown("the attributes of a new element")
            k, x = nv.a[1], nv.a[2]
            if k.op in ("strfn", "replace", "replacex"):
                raise Bad("attributes", "changes the name of an attribute")
            if k.op != "mkey":
                raise Unknown("the names of a new element's attributes")
            if x.op == "mval" and x.a[0] is k.a[0] and x.a[1] is k:
                continue
            if x.op in ("strfn", "replace", "replacex") or iscall(x, "p:unescape") or x.op == "slice" and (trimmed(x.a[1]) or trimmed(x.a[2])):
                raise Bad("attributes", f"changes the value of an attribute ({short(show(x), 60)})")
            raise Unknown("the values of a new element's attributes")
        return "attributes are stored as given"


DECL, DTD = "dom::Declaration", "dom::DTD"


class Prolog(Content):
    """C22, parser side: declaration and definitions read from the input reach the document, verbatim and in order"""

    def kept(self):
        if not self.prepare():
            return self.f.items
        self.given = set()
        for s, v in self.run.outs:
            v = self.e.deep(s, v)
            if outcome(self.run, s, v) == "Ok":
                d = dict(sfields(self.e, payload(self.run, s, v), "dom::Document"))["declaration"]
                self.given.add(d.a[2] if d.op == "agg" else "?")
        for l, pos in self.prolog:
            lists = [c for c in l.loc if self.listof(c, DTD)]
            decls = [c for c in l.loc if type_of(c) == ("adt", DECL, ())]
            for s, v in l.nexts(pos):
                it = Iter(self, s, self.endof(v), atom(pos))
                self.say(self.dtd, l, it, s, lists)
                self.say(self.decl, l, it, s, decls)
        for s, v in self.run.outs:
            v = self.e.deep(s, v)
            if outcome(self.run, s, v) == "Ok":
                self.say(self.final, s, payload(self.run, s, v))
        return self.f.items

    def listof(self, c, t):
        ty = type_of(c)
        return bool(ty) and ty[0] == "adt" and ty[1].split("::")[-1] == "Vec" and ("adt", t, ()) in ty[2]

    def exact(self, it, x, ctor, what):
        """x is what the constructor makes of exactly this tag"""
        if x.op == "agg" and len(x.a[3]) == 1 and x.a[3][0].op == "fld" and x.a[3][0].a[2] == 0:
            x = x.a[3][0].a[0]
        if x.op == "fld" and iscall(x.a[0], ctor):
            x = x.a[0]
        if not iscall(x, ctor):
            raise Unknown(f"{what} stored: {short(show(x), 80)}")
        a = x.a[1][0]
        if it.is_tag(a):
            return
        if a.op in ("replace", "replacex", "strfn", "retain") or iscall(a, "p:unescape") or iscall(a, "p:abbr"):
            raise Bad("changed", f"{what} is changed before it is stored ({short(show(a), 60)})")
        Exact(it.s, it.B).span(a, it.lo, it.hi, what)

    def dtd(self, l, it, s, lists):
        c = it.starts("<!DOCTYPE")
        what = "a document type definition"
        if not lists:
            if c:
                raise Unknown("where definitions are collected")
            return None
        for x in lists:
            if not l.from_head(s, x):
                continue
            v = l.at(s, x)
            if v is x:
                if c:
                    raise Bad("dtd-dropped", f"{what} read before the root element is not kept")
                if c is None and not self.plain(it):
                    raise Unknown("which tags are definitions")
                continue
            if c and v is not None and v.op == "vec" and not s.same(vlen(x), num(0)):
                raise Bad("dtd-dropped", "definitions read earlier are lost")
            if v is None or v.op not in ("vpush", "vinsert") or v.a[0] is not x:
                raise Unknown("what happens to the definitions read")
            if v.op == "vinsert":
                if s.same(v.a[1], num(0)):
                    raise Bad("dtd-order", "definitions are collected in reverse order")
                raise Unknown("order of the definitions read")
            if c is False:
                raise Bad("dtd-kind", "collects something as a definition that does not start with '<!DOCTYPE'")
            self.exact(it, v.a[1], "dom::DTD::from_string", what)
            if c is None:
                raise Unknown("which tags are definitions")
            return "each definition before the root element is added behind the earlier ones, whole"
        return None

    def decl(self, l, it, s, decls):
        c = it.starts("<?xml")
        if c is None:
            if self.plain(it) and it.starts("<?") is None:
                return None
            raise Unknown("which tags are declarations") if it.starts("<?") else None
        vals = [(x, l.at(s, x)) for x in decls]
        if c:
            new = [v for x, v in vals if v is not None and v is not x]
            if not new:
                if not decls and self.given != {"None"}:
                    raise Unknown("where the declaration is kept")
                raise Bad("decl-dropped", "the XML declaration is not kept")
            for v in new:
                self.exact(it, v, "dom::Declaration::from_str", "the XML declaration")
            return "the XML declaration is kept, whole"
        for x, v in vals:
            if l.from_head(s, x) and v is not x:
                raise Bad("decl-lost", "the XML declaration is lost or replaced by a later tag") if v is None else Unknown("what happens to the declaration")
        return None

    def final(self, s, d):
        fs = dict(sfields(self.e, d, "dom::Document"))
        dt, de = fs["dtds"], fs["declaration"]
        lists = {c: l for l, _ in self.prolog for c in l.loc if self.listof(c, DTD)}
        decls = {c: l for l, _ in self.prolog for c in l.loc if type_of(c) == ("adt", DECL, ())}
        if dt not in lists:
            if dt.op == "vec" and not dt.a[0] and any(s.same(vlen(c), num(0)) for c in lists):
                return None
            if dt.op == "collected" and dt.a[0].op == "agg" and dt.a[0].a[0] == "it:rev":
                raise Bad("dtd-order", "changes the order of the definitions")
            if dt.op == "vec" and not dt.a[0] and lists:
                raise Bad("dtds-lost", "returns a document without the definitions read")
            if dt.op in ("vrev", "sorted"):
                raise Bad("dtd-order", "changes the order of the definitions")
            raise Unknown(f"definitions of the returned document: {short(show(dt), 80)}")
        l = lists[dt]
        has = [c for c in decls if c in getattr(l, "headof", {}) and getattr(l, "headof", {}).get(dt) == l.headof[c]]
        if de.op == "agg" and de.a[2] == "None":
            if has:
                raise Bad("decl-lost", "returns a document without the declaration read")
        elif de.op == "agg" and de.a[2] == "Some":
            if de.a[3][0] not in decls:
                raise Unknown(f"declaration of the returned document: {short(show(de), 80)}")
        else:
            raise Unknown(f"declaration of the returned document: {short(show(de), 80)}")
        return "the document returned has the declaration and the definitions collected"


def jprolog(p):
    j = Prolog()
    j.setup(p, p.by_path[PARSE], content_opts(p))
    return j.kept()


def jcontent(p):
    j = Content()
    j.setup(p, p.by_path[PARSE], content_opts(p))
    return j.stored()


def jhelp(p, cls, key, own):
    j = cls()
    o = content_opts(p)
    o["summaries"].pop(key, None)
    for n, k in split_helpers(p).items():
        if k is not None and k != key:
            o["summaries"][k] = s_pure("p:" + n)
    if own == ELEMENT:
        for q in ("dom::Element::check_elem_name", "dom::Element::check_prefix", "dom::Element::check_attr_name", "dom::Element::xmlns_context_from_attributes"):
            if q in p.by_path:
                o["summaries"][p.by_path[q]] = s_pure(q)
    if own == "elem":
        for q in ("dom::Element::new", "dom::Element::set_namespace_context", "dom::Element::get_namespace_context", "dom::Element::default_namespace"):
            if q in p.by_path:
                o["summaries"][p.by_path[q]] = s_pure(q)
    j.out = own
    j.setup(p, key, o)
    return j.judge()


def c08(p, rep):
    """C08: parsed content is decoded exactly once, delimiters exactly removed"""
    if PARSE not in p.by_path:
        return rep.undecide("parse_str not found")
    H, S = helpers(p), split_helpers(p)
    work, names = [(jcontent, ())], [PARSE]

    def add(cls, k, own=None):
        if k is not None:
            work.append((jhelp, (cls, k, own)))
            names.append(p.bodies[k]["path"])
    add(Real, H.get("real"))
    add(Attrs, H.get("elem"), "elem")
    add(Split, S["split"])
    add(Join, S["join"])
    for h in ("split", "qfind", "nfind"):
        add(Quotes, S[h])
    add(Strip, H.get("strip"))
    add(Ends, H.get("tag"))
    for q, own in (("dom::Comment::new", "dom::Comment"), ("dom::CData::new", "dom::CData"), ("dom::Text::new", "dom::Text")):
        add(Make, p.by_path.get(q), own)
    add(Store, p.by_path.get("dom::Element::new"), ELEMENT)
    merge(rep, parallel(p, work), names)
    rep.cover["functions"] = names


CHECKS = {"C08": c08}
EXPLAIN = {"C08": "parse_str, the text helper, the attribute reader, the tag splitter, the tag finder and the node constructors interpreted with each other as uninterpreted functions: what is stored is compared with the exact slice of the input, decoded the right number of times."}
