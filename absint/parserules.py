"""C05, C08, C22 (parser side): parse_str over an abstract tag finder and an algebraic element stack."""
from terms import *
from semlib import Run, short, parallel
from domlib import *
from domrules import opts, incomplete
from summ import s_pure, ufn

TREE = "parsing::ParseTree"
OPS = ("push", "pop", "append", "top_element", "empty_stack", "to_dom", "new")
PARSE = "parse_str"


# ------------------------------------------------------------------ naming helpers by their type
def _n(t):
    """type with references and String/&str told apart no further"""
    while t[0] == "ref":
        t = t[2]
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if n == "String":
            return "str"
        return (n,) + tuple(_n(x) for x in t[2])
    if t[0] == "tuple":
        return ("tuple",) + tuple(_n(x) for x in t[1])
    if t[0] in ("str",):
        return "str"
    return str(t[1]) if len(t) > 1 and t[0] in ("int", "prim") else t[0]


def sigs(p):
    """name -> [body keys] of the parser's helper functions, found by signature among what parse_str reaches"""
    from graphprops import graph
    g = graph(p)
    out = {}
    if PARSE not in p.by_path:
        return out
    for k in g.reach([p.by_path[PARSE]]):
        b = p.bodies[k]
        if "inputs" not in b or "{closure" in b["path"] or "::" in b["path"]:
            continue
        ins = tuple(_n(p.ty(t)) for t in b["inputs"])
        o = _n(p.ty(b["output"]))
        out.setdefault((ins, o), []).append(k)
    return out


def pick(p, S, ins, out, name):
    ks = S.get((ins, out), [])
    if len(ks) > 1:
        ks = [k for k in ks if p.bodies[k]["path"] == name] or []
    return ks[0] if len(ks) == 1 else None


PAIR = ("tuple", ("Option", "usize"), ("Option", "usize"))


def helpers(p):
    S = sigs(p)
    RE = lambda t: ("Result", t, ("KissXmlError",))
    h = {"tag": pick(p, S, ("str", "usize"), PAIR, "next_tag"),
         "line": pick(p, S, ("str", "usize"), ("tuple", "usize", "usize"), "line_and_column"),
         "real": pick(p, S, ("str",), ("Option", "str"), "real_text"),
         "strip": pick(p, S, ("str",), "str", "strip_tag"),
         "check": pick(p, S, ("str",), RE(("tuple",)), "check_element_tag"),
         "abbr": pick(p, S, ("str", "usize"), "str", "abbreviate")}
    el = [k for (i, o), ks in S.items() if o == RE(("Element",)) for k in ks]
    if len(el) > 1:
        el = [k for k in el if p.bodies[k]["path"] == "parse_new_element"]
    h["elem"] = el[0] if len(el) == 1 else None
    return {a: k for a, k in h.items() if k is not None}


# ------------------------------------------------------------------ the stack of open elements as an algebra
def s_tree(op):
    from models import ok, err

    def f(eng, fr, st, blk, key, args, sub):
        out = eng.p.subst(eng.p.ty(eng.p.bodies[key]["output"]), sub)
        if op == "new":
            return [(st, ufn(eng, "t:new", [], out))]
        a = args[0]
        if op == "to_dom":
            return [(st, ufn(eng, "t:dom", [eng.deep(st, a)], out))]
        if a.op != "ref":
            return None
        T = eng.read(st, a.a[0], a.a[1])
        if op in ("top_element", "empty_stack"):
            t = T
            while t.op == "call" and t.a[0] == "t:append":
                t = t.a[1][0]
            return [(st, ufn(eng, "t:top" if op == "top_element" else "t:empty", [t], out))]
        tt = ("adt", TREE, ())
        x = [eng.deep(st, y) for y in args[1:]]
        eng.emit("tree", fr, st.fork(), blk, None, op=op, tree=T, args=x)
        z = T
        while z.op == "call" and z.a[0] == "t:append":
            z = z.a[1][0]
        open_ = any(b.op == "call" and b.a[0] == "t:empty" and b.a[1][0] is z and v is False for b, v in st.bools.items()) or any(
            t.op == "call" and t.a[0] == "t:top" and t.a[1][0] is z and vs == frozenset({1}) for t, vs in st.var.items()) or z is not T or (
            z.op == "call" and z.a[0] == "t:push")
        if op == "push":
            eng.write(st, a.a[0], a.a[1], ufn(eng, "t:push", [T] + x, tt))
            return [(st, tup())]
        b = st.fork()
        eng.write(st, a.a[0], a.a[1], ufn(eng, "t:" + op, [T] + x, tt))
        from models import inner
        e = eng.fresh(fr, blk, ("treeerr", op), inner(out, 1))
        return [(st, ok(UNIT))] if open_ else [(st, ok(UNIT)), (b, err(e))]
    return f


def parse_opts(p):
    o = opts(p)
    for a, k in helpers(p).items():
        o["summaries"][k] = s_pure("p:" + a)
    for op in OPS:
        k = p.by_path.get(f"{TREE}::{op}")
        if k:
            o["summaries"][k] = s_tree(op)
    for q in ("dom::Declaration::from_str", "dom::DTD::from_string", "dom::Comment::new", "dom::CData::new", "dom::Text::new"):
        if q in p.by_path:
            o["summaries"][p.by_path[q]] = s_pure(q)
    return o


# ------------------------------------------------------------------ the parser's two loops
class Unknown(Exception):
    pass


class Bad(Exception):
    pass


def iscall(t, name):
    return hasattr(t, "op") and t.op == "call" and t.a[0] == name


def unlin(v):
    """the atom of a plain integer value"""
    if v.op == "lin" and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1:
        return v.a[1][0][0]
    return v


class Iter:
    """one tag found by the tag finder, on one path: facts about the text before it and about the tag itself"""

    def __init__(self, P, s, N, pos):
        self.P, self.s, self.N, self.pos = P, s, N, pos
        e = P.e
        self.B = N.a[1][0]
        ps = [t for t in s.var if t.op == "fld" and t.a[0] is N]
        self.F = {t.a[2]: t for t in ps}
        self.found = {i: s.var[t] for i, t in self.F.items()}
        self.lo = self.end(0)
        self.hi = self.end(1)

    def end(self, i):
        f = self.F.get(i)
        if f is None:
            return None
        v = self.P.e.payload(f, 1)
        return v if v.op == "lin" else atom(v)

    def is_slice(self, x, lo, hi):
        b, l, h = sbase(x)
        return b is self.B and lo is not None and hi is not None and self.s.same(l, lo) and self.s.same(h, hi)

    def is_tag(self, x):
        return self.is_slice(x, self.lo, self.hi)

    def is_between(self, x):
        return self.is_slice(x, self.pos, self.lo)

    def starts(self, d):
        return self.test("starts_with", d)

    def ends(self, d):
        return self.test("ends_with", d)

    def test(self, kind, d):
        pre = (lambda a, b: a.startswith(b)) if kind == "starts_with" else (lambda a, b: a.endswith(b))
        for b, v in self.s.bools.items():
            if b.op == "pr" and b.a[0] == kind and b.a[2].op == "lit" and self.is_tag(b.a[1]):
                w = b.a[2].a[0]
                if v and pre(w, d):
                    return True
                if not v and pre(d, w):
                    return False
        for bb, off, q in self.s.occ:
            if bb is not self.B or not isinstance(q, str) and not hasattr(q, "op"):
                continue
            w = q if isinstance(q, str) else q.a[0] if q.op == "lit" else None
            if w is None:
                continue
            if kind == "starts_with" and self.lo is not None and self.s.same(off, self.lo):
                if w.startswith(d):
                    return True
                if not d.startswith(w[:len(d)]):
                    return False
            if kind == "ends_with" and self.hi is not None and self.s.same(lplus(off, utf8len(w)), self.hi):
                if w.endswith(d):
                    return True
        for b, v in self.s.bools.items():
            # one literal decides another
            if v and b.op == "pr" and b.a[0] == kind and b.a[2].op == "lit" and self.is_tag(b.a[1]):
                w = b.a[2].a[0]
                if not pre(d, w) and not pre(w, d):
                    return False
        return None

    def text(self):
        """None: not looked at; False: blank; the Option term: text present"""
        for t, vs in self.s.var.items():
            if iscall(t, "p:real") and self.is_between(t.a[1][0]):
                if vs == frozenset({0}):
                    return False
                if vs == frozenset({1}):
                    return t
        return None

    def mentions(self, lo, hi=None):
        """some fact is about text starting at lo"""
        def hit(x):
            for z in subs(x):
                if z.op == "slice" and z.a[0] is self.B and self.s.same(z.a[1], lo) and (hi is None or self.s.same(z.a[2], hi)):
                    return True
                if z.op == "trimlo" or z.op == "trimhi":
                    if any(hasattr(y, "op") and hit(y) for y in z.a if hasattr(y, "op") and y is not x):
                        return True
            return False
        return any(hit(b) for b in self.s.bools) or any(hit(t) for t in self.s.var) or any(hit(t) for k in self.s.lin for t, _ in k)


class Parse(Judge):
    def prepare(self):
        run = self.run
        if incomplete(run, self.f) and run.stopped:
            return False
        self.H = helpers(self.p)
        for n in ("tag", "real", "elem", "strip"):
            if n not in self.H:
                self.und(f"no function of the parser has the shape of its {n} helper")
                return False
        self.lv = loops(run)
        self.main, self.prolog = [], []
        for l in self.lv:
            trees = [t for t in l.loc if l.nexts(t) and type_of(t) == ("adt", TREE, ()) ]
            pos = self.positions(l)
            if trees and pos:
                for g in self.groups(l, trees, pos):
                    self.main.append((l,) + g)
            elif pos:
                for x in pos:
                    self.prolog.append((l, x))
        if not self.main:
            self.und("the loop over tags is not recognised")
            return False
        return True

    def positions(self, l):
        """cells that hold the end of the last tag"""
        out = []
        for t in l.loc:
            ns = l.nexts(t)
            if not ns or any(v is None for _, v in ns):
                continue
            if all(self.endof(v) is not None and unlin(self.endof(v).a[1][1]) is t for _, v in ns):
                out.append(t)
        return out

    def endof(self, v):
        """tag-finder call whose second result v is"""
        v = unlin(v)
        if v.op == "fld" and v.a[0].op == "fld" and iscall(v.a[0].a[0], "p:tag") and v.a[0].a[2] == 1:
            return v.a[0].a[0]
        return None

    def groups(self, l, trees, pos):
        """(tree cell, position cell) that change in the same rounds"""
        out = []
        for t in trees:
            for x in pos:
                if {id(s) for s, _ in l.nexts(t)} == {id(s) for s, _ in l.nexts(x)}:
                    out.append((t, x))
        return out

    def unwind(self, v, stop):
        """operations applied to the stack `stop`, oldest first"""
        ops = []
        while v is not stop:
            if v.op != "call" or not str(v.a[0]).startswith("t:") or v.a[0] in ("t:new",):
                raise Unknown(f"stack of open elements {short(show(v), 60)}")
            ops.insert(0, (v.a[0][2:], v.a[1][1:], v.a[1][0]))
            v = v.a[1][0]
        return ops

    # ---- C05
    def nested(self):
        if not self.prepare():
            return self.f.items
        said = set()

        def say(f, *a):
            try:
                r = f(*a)
            except Unknown as x:
                r = ("?", str(x))
            except Bad as x:
                r = x.args
            for q in ([r] if not isinstance(r, list) else r):
                if q in said:
                    continue
                said.add(q)
                if isinstance(q, str):
                    self.ok(q)
                elif q[0] == "?":
                    self.und(q[1])
                else:
                    self.bad(*q)
        for l, pos in self.prolog:
            for s, v in l.nexts(pos):
                say(self.prolog_step, Iter(self, s, self.endof(v), atom(pos)))
        for l, tree, pos in self.main:
            for (s, nv), (_, pv) in zip(l.nexts(tree), l.nexts(pos)):
                say(self.step, Iter(self, s, self.endof(pv), atom(pos)), tree, nv)
            for (s, v), (_, pv) in zip(l.entries(tree), l.entries(pos)):
                say(self.root, s, v, pv)
        for s, v in self.run.outs:
            v = self.e.deep(s, v)
            o = outcome(self.run, s, v)
            if o == "Ok":
                say(self.accept, s, payload(self.run, s, v))
            elif o is None:
                say(self.unclear, v)
        return self.f.items

    def unclear(self, v):
        raise Unknown(f"result {short(show(v), 60)}")

    def blank_before(self, it, key, what):
        r = it.text()
        if r is None:
            if it.mentions(it.pos):
                raise Unknown(f"whether {what} is looked at")
            raise Bad(key, f"goes on without looking at {what}")
        if r is not False:
            raise Bad(key, f"goes on although there is {what}")

    def prolog_step(self, it):
        self.blank_before(it, "text-before", "text before the root element")
        if it.starts("<!") or it.starts("<?"):
            return "before the root element only declarations, definitions and comments are passed over, with nothing but blanks between"
        if it.starts("<!") is False and (it.starts("<?") is False or it.starts("<?xml") is False):
            raise Bad("skips-element", "passes over a tag before the root element that is neither a declaration nor a comment")
        raise Unknown("which tags are passed over before the root element")

    def root(self, s, v, pv):
        N = self.endof(pv)
        if N is None:
            raise Unknown("where the first tag ends")
        start = N.a[1][1]
        it = Iter(self, s, N, start if start.op == "lin" else atom(start))
        z = v
        while iscall(z, "t:push") or iscall(z, "t:pop") or iscall(z, "t:append"):
            z = z.a[1][0]
        if not iscall(z, "t:new"):
            raise Unknown("the first stack of open elements")
        ops = self.unwind(v, z)
        self.blank_before(it, "text-before", "text before the root element")
        names = [o[0] for o in ops]
        if names[:1] != ["push"] or names[1:] not in ([], ["pop"]):
            raise Unknown("what is done with the first tag")
        self.element(it, ops[0][1][0])
        c = it.ends("/>")
        if c is None:
            raise Unknown("whether the root is self-closing")
        if c != (names[1:] == ["pop"]):
            raise Bad("root-open", "leaves a self-closing root open" if c else "closes a root that is not self-closing")
        return "the first tag is checked to be an opening tag and becomes the root, closed at once when self-closing"

    def element(self, it, x):
        """x is the element read from this tag, which was checked to be an opening tag"""
        if not (x.op == "fld" and iscall(x.a[0], "p:elem")):
            raise Unknown(f"element {short(show(x), 60)}")
        a = x.a[0].a[1]
        ok_ = iscall(a[0], "p:strip") and it.is_tag(a[0].a[1][0])
        if not ok_:
            raise Unknown("the text an element is read from")
        if "check" in self.H:
            if not any(iscall(t, "p:check") and it.is_tag(t.a[1][0]) and vs == frozenset({0}) for t, vs in it.s.var.items()):
                raise Unknown("the syntax check of a tag")
        c = it.starts("</")
        if c is True:
            raise Bad("closing-as-open", "makes an element of a closing tag")
        if c is None:
            if it.mentions(it.lo, it.hi):
                raise Unknown("whether the tag is a closing tag") if not self.plain(it) else Bad("closing-as-open", "makes an element of a tag that may be a closing tag")
            raise Bad("closing-as-open", "makes an element of a tag that may be a closing tag")

    def plain(self, it):
        """every fact about the tag is a literal test"""
        return all(b.op == "pr" and b.a[0] in ("starts_with", "ends_with") and b.a[2].op == "lit"
                   for b in it.s.bools if any(it.is_tag(z) for z in subs(b) if z.op == "slice"))

    def step(self, it, tree, nv):
        ops = self.unwind(nv, tree)
        out = []
        r = it.text()
        rest = ops
        if ops and ops[0][0] == "append" and self.is_text(ops[0][1][0]):
            if r is False:
                raise Bad("blank-text", "adds a text node for blank text")
            rest = ops[1:]
            if r is None and not it.mentions(it.pos):
                raise Unknown("when a text node is added")
            out.append("text between tags becomes a text node of the open element")
        elif r is None:
            if it.mentions(it.pos):
                raise Unknown("whether the text between tags is looked at")
            raise Bad("text-dropped", "goes on without looking at the text before the tag")
        elif r is not False:
            raise Bad("text-dropped", "drops text that stands before a tag")
        if any(self.is_text(o[1][0]) for o in rest if o[1]):
            raise Unknown("several text nodes for one tag")
        names = [o[0] for o in rest]
        if not names:
            raise Bad("tag-dropped", "goes on past a tag without recording anything and without an error")
        if names == ["append"]:
            x = rest[0][1][0]
            if x.op == "fld" and iscall(x.a[0], "p:elem"):
                self.element(it, x)
                if it.ends("/>") is False:
                    raise Bad("unclosed", "does not keep an element open whose tag is not self-closing")
                if it.ends("/>") is None:
                    if self.plain(it):
                        raise Bad("unclosed", "does not keep an element open although its tag may not be self-closing")
                    raise Unknown("whether the element is self-closing")
                out.append("a self-closing tag is added to the open element and not left open")
            elif x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0] in ("dom::Comment::new", "dom::CData::new"):
                out.append("comments and CDATA are added to the open element")
                d = "<!--" if "Comment" in x.a[0].a[0] else "<![CDATA["
                c = it.starts(d)
                if c is False:
                    raise Bad("kind", f"adds a {x.a[0].a[0].split('::')[1]} for a tag that does not start with {d!r}")
                if c is None:
                    raise Unknown("the kind of a tag")
            else:
                raise Unknown(f"node {short(show(x), 60)}")
        elif names in (["push"], ["push", "pop"]):
            self.element(it, rest[0][1][0])
            c = it.ends("/>")
            if c is None:
                if self.plain(it):
                    raise Bad("open", "leaves an element open whose tag may be self-closing" if names == ["push"] else "closes an element at once whose tag may not be self-closing")
                raise Unknown("whether the element is self-closing")
            if c != (names == ["push", "pop"]):
                raise Bad("open", "leaves a self-closing element open" if c else "closes an element at once whose tag is not self-closing")
            if len(ops) == len(rest):
                self.nonempty(it.s, rest[0][2])
            out.append("an opening tag is pushed below the open element; the root was not closed before")
        elif names == ["pop"]:
            c = it.starts("</")
            if c is False:
                raise Bad("pop", "closes the open element for a tag that is not a closing tag")
            if c is None:
                raise Unknown("whether the tag is a closing tag")
            self.matches(it, rest[0][2])
            out.append("a closing tag closes the open element only when its whole name equals that element's full name")
        else:
            raise Unknown(f"stack operations {names}")
        return out

    def is_text(self, x):
        return iscall(x, "dom::Text::new")

    def nonempty(self, s, T):
        while iscall(T, "t:append"):
            T = T.a[1][0]
        for b, v in s.bools.items():
            if iscall(b, "t:empty") and b.a[1][0] is T:
                if v is False:
                    return
                raise Bad("second-root", "opens another element after the root was closed")
        for t, vs in s.var.items():
            if iscall(t, "t:top") and t.a[1][0] is T and vs == frozenset({1}):
                return
        if any(iscall(z, "t:empty") or iscall(z, "t:top") for b in list(s.bools) + list(s.var) for z in subs(b) if z is not T and T in z.a[1:2] if False):
            raise Unknown("whether the root is closed")
        raise Bad("second-root", "opens another element without having made sure that the root is still open")

    def matches(self, it, T):
        while iscall(T, "t:append"):
            T = T.a[1][0]
        s = it.s
        tops = [t for t in s.var if iscall(t, "t:top") and t.a[1][0] is T]
        hits = []

        def about_top(x):
            return any(iscall(z, "t:top") and z.a[1][0] is T for z in subs(x))

        def about_tag(x):
            return any(z.op == "slice" and it.is_tag(z) for z in subs(x)) or any(z.op == "slice" and z.a[0] is it.B for z in subs(x))
        for b, v in s.bools.items():
            if about_top(b) and about_tag(b):
                hits.append((b, v))
        if not hits:
            if any(about_top(b) for b in list(s.bools) + list(s.ne or ()) if hasattr(b, "op")) or not tops and s.bools is None:
                raise Unknown("what a closing tag is compared with")
            raise Bad("close-unchecked", "closes the open element without comparing the names")
        for b, v in hits:
            if b.op == "eq" and v:
                x, y = (b.a[0], b.a[1]) if about_top(b.a[0]) else (b.a[1], b.a[0])
                return self.fullname(it, x, y, T)
        if all(b.op == "pr" for b, v in hits):
            if any(b.op == "pr" and b.a[0] == "eqic" and v for b, v in hits):
                raise Bad("close-case", "compares the name in a closing tag ignoring case")
            if all(v and b.op == "pr" and b.a[0] in ("starts_with", "ends_with", "contains") for b, v in hits):
                raise Bad("close-partial", f"closes the open element when {short(show(hits[0][0]), 120)}, not when the names are equal")
        if all(not v for b, v in hits if b.op == "eq") and all(b.op == "eq" for b, v in hits):
            raise Bad("close-mismatch", "closes the open element although the names differ")
        raise Unknown(f"what a closing tag is compared with: {short(show(hits[0][0]), 80)}")

    def fullname(self, it, x, y, T):
        """x: name of the open element, y: name in the closing tag"""
        from escrules import pieces
        s = it.s
        ps = pieces(x)

        def fld(z, n):
            return z.op == "fld" and z.a[3] == n and any(iscall(w, "t:top") and w.a[1][0] is T for w in subs(z))
        pf = [t for t, vs in s.var.items() if fld(t, "xmlns_prefix")]
        has = s.var[pf[0]] if pf else None
        good = False
        if len(ps) == 1 and fld(ps[0], "name"):
            if has == frozenset({0}):
                good = True
            elif has is None or has == frozenset({1}):
                raise Bad("close-prefix", "compares a closing tag with the name of the open element without its prefix")
        elif len(ps) == 3 and ps[0].op == "fld" and fld(ps[0].a[0], "xmlns_prefix") and ps[1].op == "lit" and ps[1].a[0] == ":" and fld(ps[2], "name"):
            good = True
        elif any(z.op in ("case", "strfn") for z in subs(x)):
            raise Bad("close-case", "compares the name in a closing tag ignoring case")
        if not good:
            raise Unknown(f"what a closing tag is compared with: {short(show(x), 80)}")
        if iscall(y, "p:strip") and it.is_tag(y.a[1][0]):
            return
        if any(z.op in ("case", "strfn") for z in subs(y)):
            raise Bad("close-case", "compares the name in a closing tag ignoring case")
        if y.op == "slice" and not any(z.op in ("phi", "sym") and z is not it.B and "p:tag" not in str(z) for z in subs(y)):
            b, lo, hi = sbase(y)
            if iscall(b, "p:strip") and not (s.same(lo, num(0)) and s.same(hi, slen(b))):
                raise Bad("close-part", "compares only a part of the name in a closing tag")
        raise Unknown(f"name in a closing tag {short(show(y), 80)}")

    def accept(self, s, d):
        fs = dict(sfields(self.e, d, "dom::Document"))
        r = fs["root_element"]
        if not (r.op == "fld" and iscall(r.a[0], "t:dom")):
            raise Unknown("the root element returned")
        T = r.a[0].a[1][0]
        z = T
        while iscall(z, "t:append"):
            z = z.a[1][0]
        closed = None
        for b, v in s.bools.items():
            if iscall(b, "t:empty") and b.a[1][0] is z:
                closed = v
        for t, vs in s.var.items():
            if iscall(t, "t:top") and t.a[1][0] is z:
                closed = vs == frozenset({0}) if len(vs) == 1 else None
        if closed is False or closed is None and z.op == "phi":
            raise Bad("unclosed-root", "succeeds although the root element may still be open" if closed is None else "succeeds although the root element is still open")
        if closed is None:
            raise Unknown("whether the root element is closed")
        base = z
        while base.op == "call" and str(base.a[0]) in ("t:append", "t:push", "t:pop"):
            base = base.a[1][0]
        its = [pos for l, tree, pos in self.main if tree is base]
        if not its:
            raise Unknown("where the last tag ended")
        pos = atom(its[0])
        seen = None
        for t, vs in s.var.items():
            if iscall(t, "p:real") and len(t.a[1]) == 1:
                b, lo, hi = sbase(t.a[1][0])
                if s.same(hi, slen(b)) and (s.same(lo, pos) or self.endof(lo) is not None):
                    seen = vs
        if seen is None:
            B = next((N.a[1][0] for t in s.var for N in subs(t) if iscall(N, "p:tag")), None)
            if B is not None and any(zz.op == "slice" and zz.a[0] is B and s.same(zz.a[2], slen(B)) for t in list(s.bools) + list(s.var) + [t for k in s.lin for t, _ in k] for zz in subs(t)):
                raise Unknown("whether text after the root element is looked at")
            raise Bad("text-after", "succeeds without looking at the text after the root element")
        if seen != frozenset({0}):
            raise Bad("text-after", "succeeds although there may be text after the root element")
        return "success only with the root closed and nothing but blanks behind it"


def jparse(p, what):
    j = Parse()
    j.setup(p, p.by_path[PARSE], parse_opts(p))
    return getattr(j, what)()


def c05(p, rep):
    """C05: only single-rooted, properly nested documents are accepted"""
    if PARSE not in p.by_path:
        return rep.undecide("parse_str not found")
    merge(rep, parallel(p, [(jparse, ("nested",))]), [PARSE])
    rep.cover["functions"] = [PARSE]


CHECKS = {"C05": c05}
EXPLAIN = {"C05": "parse_str interpreted with its tag finder and text test as uninterpreted functions and its stack of open elements as an algebra: every round of its loops and every successful exit is judged from the facts known there."}
