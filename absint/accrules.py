"""C28: accessors, constructors, text() and attribute edits report and change exactly the stored content.

Each function is interpreted on an arbitrary object; what it returns and what it leaves behind is compared, on every path, with the term
its documentation gives for it."""
from terms import *
from semlib import short, parallel
from domlib import *
from domrules import opts, incomplete, ASSUME
from parserules import Unknown, Bad, iscall
from summ import ELEMENT
from treerules import known, lin

DOC = "dom::Document"


class Acc(Judge):
    def __init__(self, p, key, spec):
        self.setup(p, key, opts(p), 120)
        self.spec = spec
        self.lv = loops(self.run)

    # ---------------------------------------------------------------- helpers
    def before(self, i=0):
        return self.e.deep(self.run.st0, self.run.args[i])

    def fields(self, s, v, name):
        return dict(sfields(self.e, v, name))

    def F(self, name=ELEMENT):
        return self.fields(self.run.st0, self.before(), name)

    def G(self, s, name=ELEMENT):
        return self.fields(s, self.e.deep(s, self.run.args[0]), name)

    def arg(self, s, i):
        return self.e.deep(s, self.run.args[i])

    def eqv(self, s, a, b):
        """True / False / None (not known)"""
        if same(self.e, s, a, b):
            return True
        oa, ob = self.opt(s, a), self.opt(s, b)
        if oa is not None and ob is not None:
            (x, p), (y, q) = oa, ob
            if x is not None and y is not None:
                return False if x != y else True if x == 0 else self.eqv(s, p, q)
            if (x is None) != (y is None):
                return False if known(a) and known(b) else None
        return False if known(a) and known(b) else None

    def opt(self, s, v):
        """(variant, payload) of an optional value; variant None when both are possible"""
        if v.op == "agg":
            return (v.a[1], v.a[3][0] if v.a[3] else None) if v.a[0] == OPT else None
        t = type_of(v)
        if not (t and t[0] == "adt" and t[1] == OPT):
            return None
        vs = s.var.get(v)
        if vs is not None and len(vs) == 1:
            k = next(iter(vs))
            return k, self.e.payload(v, 1) if k == 1 else None
        return None, None

    def want(self, s, got, exp, key, msg, good=None):
        r = self.eqv(s, got, exp)
        if r is False:
            raise Bad(key, msg)
        if r is None:
            raise Unknown(f"{msg}: {short(show(got), 70)}")

    def keep(self, s, name=ELEMENT, but=()):
        """all parts but the named ones are as before"""
        a, b = self.F(name), self.G(s, name)
        for n in a:
            if n not in but:
                self.want(s, b[n], a[n], "changes-" + n, f"changes the {n}")

    def judge(self):
        r = self.run
        if incomplete(r, self.f) and r.stopped:
            return self.f.items
        fn, a = SPEC[self.spec]
        said = set()
        for s, v in r.outs:
            try:
                for t, w in self.cases(s, self.e.deep(s, v)):
                    m = fn(self, t, w, *a)
                    if m not in said:
                        said.add(m)
                        self.ok(m)
            except Unknown as x:
                self.und(str(x))
            except Bad as x:
                self.bad(*x.args)
        return self.f.items

    def cases(self, s, v):
        """split on the cases of an optional result"""
        if v.op != "agg":
            t = type_of(v)
            if v.op == "fld" and t and t[0] == "adt" and t[1] == OPT:
                return [(s2, v) for s2, _ in self.e.split_variant(s, v)]
        return [(s, v)]

    # ---------------------------------------------------------------- loops
    def cells(self, f):
        for l in self.lv:
            for c in l.loc:
                if f(l, c):
                    yield l, c

    def scan(self, s, l, c, length, what, pos=None):
        """the loop visits every position"""
        idx = [(i, k, es) for i, k, es in l.counters() if k == 1]
        if pos is not None:
            idx = [x for x in idx if lin(pos) is atom(x[0])]
        if len(idx) > 1:
            mine = {id(s) for s, _ in l.nexts(c)}
            idx = [x for x in idx if {id(s) for s, _ in l.nexts(x[0])} & mine]
        down = [(i, k, es) for i, k, es in l.counters() if k == -1]
        if not idx and len(down) == 1 and pos is None and any(lin(v) is length for _, v in l.entries(down[0][0])):
            if what == "the children":
                raise Bad("order", f"{what} are taken in reverse order")
            return down[0][0]
        if len(idx) != 1:
            raise Unknown(f"the order of the scan of {what}")
        i, k, es = idx[0]
        for _, v in l.entries(i):
            if not (is_const(v) and cval(v) == 0):
                raise Bad("scan-start", f"{what}: the scan does not start at the first") if is_const(v) else Unknown(f"where the scan of {what} starts")
        x, L = atom(i), length
        if not s.entails(lsub(x, L)):
            if s.entails(lplus(lsub(L, x), -1)) or any(s.entails(lplus(lsub(x, L), k)) for k in range(1, 4)):
                raise Bad("scan-end", f"{what}: the scan may stop before the last")
            for r, _, _ in down:
                n = [v for _, v in l.entries(r)]
                if len(n) == 1 and is_const(n[0]) and not s.entails(lsub(n[0], L)) and any(u.entails(lneg(lin(l.at(u, r)))) for _, u in l.exits_of(r)):
                    raise Bad("scan-end", f"{what}: the scan stops after {cval(n[0])}")
            raise Unknown(f"where the scan of {what} ends")
        return i


# ------------------------------------------------------------------ what each function is
def field(A, s, v, name, own=ELEMENT):
    A.want(s, v, A.F(own)[name], "returns", f"does not return the stored {name}")
    if A.run.args[0].op == "ref" and A.run.args[0].a[2]:
        A.keep(s, own)
    return f"returns the stored {name}"


def default_ns(A, s, v):
    f = A.F()
    for t, k in A.e.split_variant(s, f["xmlns_prefix"]):
        A.want(t, v, NONE if k else f["xmlns"], "returns", "does not return the namespace exactly when there is no prefix")
    return "returns the namespace exactly when there is no prefix"


def tag_name(A, s, v):
    f = A.F()
    for t, k in A.e.split_variant(s, f["xmlns_prefix"]):
        exp = cat([A.e.payload(f["xmlns_prefix"], 1), lit(":"), f["name"]]) if k else f["name"]
        A.want(t, v, exp, "returns", "does not return prefix:name, or the name when there is no prefix")
    return "returns prefix:name, or the name when there is no prefix"


def get_attr(A, s, v):
    m, n = A.F()["attributes"], A.arg(s, 1)
    for t, b in A.e.split_bool(s, A.e.mhas(s, m, n)):
        A.want(t, v, some(A.e.mval(t, m, n)) if b else NONE, "returns", "does not return the value stored under the name given")
    return "returns the value stored under the name given"


def remove_attr(A, s, v):
    m, n = A.F()["attributes"], A.arg(s, 1)
    g = A.G(s)["attributes"]
    for t, b in A.e.split_bool(s, A.e.mhas(s, m, n)):
        A.want(t, v, some(A.e.mval(t, m, n)) if b else NONE, "returns", "does not return the value stored under the name given")
        if b and g is not mk("mremove", m, n) or not b and g is not m and g is not mk("mremove", m, n):
            if known(g):
                raise Bad("attributes", "does not remove exactly the attribute named")
            raise Unknown("the attributes afterwards")
    A.keep(s, but=("attributes",))
    return "removes exactly the attribute named and returns its value"


def set_attr(A, s, v):
    if outcome(A.run, s, v) != "Ok":
        return "an error (C09, C10)"
    m, n, x = A.F()["attributes"], A.arg(s, 1), A.arg(s, 2)
    g = A.G(s)["attributes"]
    if g is not mk("minsert", m, n, x):
        if known(g):
            raise Bad("attributes", "does not store exactly the value given under the name given")
        raise Unknown("the attributes afterwards")
    A.keep(s, but=("attributes",))
    return "stores the value given under the name given"


def cleared(A, s, v, name):
    g = A.G(s)[name]
    if not (g.op == "mempty" or g.op == "vec" and not g.a[0]):
        n = A.e.mlen(A.F()[name]) if name == "attributes" else vlen(A.F()[name])
        if not s.entails(lneg(lin(n))):
            if known(g):
                raise Bad("left", f"leaves some of the {name}")
            raise Unknown(f"the {name} afterwards")
    A.keep(s, but=(name,))
    return f"leaves no {name}"


def norm_of(v):
    if iscall(v, "norm"):
        return v.a[1][0], True
    return v, False


def isvec(v, n):
    return v.op == "vec" and len(v.a[0]) == n


def text_node(A, s, x, want):
    """x is a text node with the content wanted"""
    if x.op == "agg" and x.a[0] == "dom::Text":
        A.want(s, x.a[3][0], want, "text", "stores another text than the one given")
        return True
    return False


def set_text(A, s, v):
    g, n = norm_of(A.G(s)["child_nodes"])
    old = A.F()["child_nodes"]
    if isvec(g, 1) and text_node(A, s, g.a[0][0], A.arg(s, 1)):
        pass
    elif any(x is old for x in subs(g)) and g.op in ("vpush", "vset", "vinsert", "vremove", "fld"):
        raise Bad("children", "does not replace all children")
    elif isvec(g, 0):
        raise Unknown("no child is stored")
    else:
        raise Unknown(f"the children afterwards: {short(show(g), 60)}")
    A.keep(s, but=("child_nodes",))
    return "the children are replaced by the text given"


def concat(A, s, v):
    x = v.a[3][0] if v.op == "agg" and v.a[0] == "dom::Text" else None
    if x is None:
        raise Unknown("the result")
    a, b = (dict(sfields(A.e, A.before(i), "dom::Text"))["content"] for i in (0, 1))
    A.want(s, x, cat([a, b]), "concat", "does not join the two texts in order")
    return "joins the two texts in order"


def new_doc(A, s, v):
    d = A.fields(s, v, DOC)
    A.want(s, d["root_element"], A.arg(s, 0), "root", "does not store the root given")
    if len(A.run.args) > 1:
        A.want(s, d["declaration"], A.arg(s, 1), "declaration", "does not store the declaration given")
        for t, k in A.e.split_variant(s, A.arg(s, 2)):
            g = d["dtds"]
            if k == 0 and not isvec(g, 0) or k == 1 and g is not A.e.deep(t, A.e.payload(A.arg(s, 2), 1)) and not (g.op == "deref" and g.a[0] is A.e.payload(A.arg(s, 2), 1)):
                if known(g):
                    raise Bad("dtds", "does not store the document type definitions given")
                raise Unknown("the document type definitions stored")
    elif not isvec(d["dtds"], 0):
        raise Bad("dtds", "stores document type definitions although none are given") if known(d["dtds"]) else Unknown("the document type definitions stored")
    return "stores what is given"


def listed(A, s, v, name, own=ELEMENT):
    xs = A.F(own)[name]
    if v.op == "agg" and str(v.a[0]) == "it:slice":
        a = v.a[3]
        if a[0] is xs and is_const(lin(a[1])) and cval(lin(a[1])) == 0 and lin(a[2]) is lin(vlen(xs)):
            return f"iterates over all {name} in order"
        if all(known(x) for x in a[:3]):
            raise Bad("iterates", f"does not iterate over all {name}")
    raise Unknown(f"the iterator: {short(show(v), 70)}")


def text(A, s, v):
    xs = A.F()["child_nodes"]
    if v.op == "lit" and v.a[0] == "" and s.entails(lneg(lin(vlen(xs)))):
        return "without children the text is empty"
    if v.op != "phi":
        raise Unknown(f"the text: {short(show(v), 70)}")
    for l, c in A.cells(lambda l, c: c is v):
        for t, x in l.entries(c):
            if not (x.op == "lit" and x.a[0] == ""):
                raise Unknown(f"the text starts with {short(show(x), 60)}")
        i = A.scan(s, l, c, lin(vlen(xs)), "the children")
        kid = None
        for t, x in l.nexts(c):
            ks = [k for k in subs(x) if k.op == "elem" and k.a[0] is xs] or [k for k in t.kinds if k.op == "elem" and k.a[0] is xs]
            ks = [k for k in ks if lin(k.a[1]) is atom(i)] or ks
            if not ks:
                raise Unknown("the child looked at")
            kid = ks[0]
            kinds = A.e.kind_of(t, kid)
            if lin(kid.a[1]) is not atom(i):
                raise Unknown("the child looked at")
            if x is c:
                if kinds & {"Text", "Element"}:
                    if any(kid in set(subs(b)) for b in t.bools):
                        raise Unknown("when a child is left out")
                    raise Bad("left-out", f"leaves out the text of a child that may be {' or '.join(sorted(kinds & {'Text', 'Element'}))}")
                continue
            if not (x.op == "cat" and x.a[0][0] is c):
                if x.op == "cat" and x.a[0][-1] is c:
                    raise Bad("order", "puts the texts in reverse order")
                raise Unknown(f"the text so far becomes {short(show(x), 60)}")
            if kinds & {"Comment", "CData"}:
                raise Bad("foreign", "adds the content of comments or CDATA sections to the text of an element")
            rest = x.a[0][1:]
            if len(rest) != 1:
                if any(y.op == "lit" for y in rest):
                    raise Bad("separator", "adds something between the texts")
                raise Unknown("what is added for a child")
            y = rest[0]
            ok = y.op == "fld" and y.a[0] is kid and y.a[3] == "content" and "Text" in kinds or y.op == "call" and str(y.a[0]).endswith("::text") and tuple(y.a[1]) == (kid,)
            if not ok:
                pure = y.op in ("slice", "strfn", "fld", "lit", "replace", "cat") and known_in(y, i)
                raise Bad("other-text", "adds something else than the text of the child") if pure else Unknown(f"what is added for a child: {short(show(y), 60)}")
        return "the text of an element is that of its texts and elements, in order"
    raise Unknown("the text")


def suffix(A, key, v):
    """v is what follows xmlns: in the key"""
    if v.op == "slice" and v.a[0] is key:
        if lin(v.a[2]) is lin(slen(key)):
            return is_const(lin(v.a[1])) and cval(lin(v.a[1])) == 6
        return None
    if v.op == "elem" and v.a[0].op == "collected" and is_const(lin(v.a[1])):
        it = v.a[0].a[0]
        if it.op == "agg" and it.a[0] == "it:split" and it.a[3][0] is key and it.a[3][1] is lit("splitn:2") and it.a[3][4] is lit(":") and is_const(lin(it.a[3][2])) and cval(lin(it.a[3][2])) == 0:
            return cval(lin(v.a[1])) == 1
    return None


def prefixes(A, s, v, src):
    m = A.F()["attributes"] if src else A.before()
    o = A.opt(s, v) if src else None
    if src:
        if o is None or o[0] is None:
            raise Unknown("the result")
        if o[0] == 0:
            return prefix_none(A, s, m)
        v = o[1]
    if v.op != "phi":
        if v.op == "mempty":
            return prefix_none(A, s, m)
        if v in A.F().values():
            raise Bad("returns", "does not return what the attributes define")
        raise Unknown(f"the prefixes: {short(show(v), 70)}")
    for l, c in A.cells(lambda l, c: c is v):
        prefix_loop(A, s, l, c, m)
        return "every attribute xmlns:p, and no other, gives the prefix p with its value"
    raise Unknown("the prefixes")


def prefix_none(A, s, m):
    for l, c in A.cells(lambda l, c: any(x.op == "mempty" for _, x in l.entries(c)) and any(x is not c for _, x in l.nexts(c))):
        prefix_loop(A, s, l, c, m)
        if not s.entails(lneg(lin(A.e.mlen(c)))):
            if any(s.entails(lplus(lneg(lin(A.e.mlen(c))), k)) for k in (1, 2, 3)):
                raise Bad("none", "may return none although there is such an attribute")
            raise Unknown("when no prefixes are returned")
        return "none only when there is no such attribute"
    raise Unknown("when no prefixes are returned")


def prefix_loop(A, s, l, c, m):
    for t, x in l.entries(c):
        if x.op != "mempty":
            raise Unknown("the prefixes at the start")
    i = A.scan(s, l, c, lin(A.e.mlen(m)), "the attributes")
    for t, x in l.nexts(c):
        ks = [k for b in t.bools for k in subs(b) if k.op == "mkey" and k.a[0] is m and lin(k.a[1]) is atom(i)] + [k for k in subs(x) if k.op == "mkey" and k.a[0] is m]
        if not ks:
            raise Unknown("the attribute looked at")
        key = ks[0]
        f = t.eval(mk("pr", "starts_with", key, lit("xmlns:")))
        if x is c:
            if f is True:
                raise Bad("left-out", "leaves out an attribute that defines a prefix")
            if f is None:
                raise Unknown("when an attribute is left out")
            continue
        if x.op != "minsert" or x.a[0] is not c:
            raise Unknown(f"the prefixes become {short(show(x), 60)}")
        if f is not True:
            facts = [b for b in t.bools if b.op != "mhas" and key in set(subs(b))]
            weak = all(b.op == "pr" and b.a[0] == "starts_with" and b.a[1] is key and b.a[2].op == "lit" and "xmlns:".startswith(b.a[2].a[0]) for b in facts if t.eval(b) is True)
            raise Bad("foreign", "takes an attribute for a prefix definition that need not be one") if f is False or weak else Unknown("which attributes define prefixes")
        r = suffix(A, key, x.a[1])
        if r is not True:
            if r is False:
                raise Bad("prefix", "stores another part of the attribute's name as the prefix")
            raise Unknown(f"the prefix stored: {short(show(x.a[1]), 60)}")
        if x.a[2] is not A.e.mval(t, m, key):
            raise Bad("value", "stores another value than that of the attribute") if known_in(x.a[2], i) else Unknown("the value stored")


# ------------------------------------------------------------------ constructors
def built(A, s, v, roles):
    """Element constructors; roles: what each argument is"""
    if outcome(A.run, s, v) != "Ok":
        return "an error (C09)"
    d = A.fields(s, A.e.deep(s, payload(A.run, s, v)), ELEMENT)
    R = {r: A.arg(s, i) for i, r in enumerate(roles)}
    states = [s]
    for n in ("text?", "attrs?", "xmlns?", "prefix?", "children?"):
        if n in R:
            states = [t for st in states for t, _ in A.e.split_variant(st, R[n])]
    for t in states:
        def given(n):
            if n in R:
                return R[n]
            if n + "?" in R:
                x = A.opt(t, R[n + "?"])
                return x[1] if x[0] == 1 else None
            return None
        A.want(t, d["name"], R["name"], "name", "does not store the name given")
        pre, ns, att, txt, kids = (given(n) for n in ("prefix", "xmlns", "attrs", "text", "children"))
        A.want(t, d["xmlns_prefix"], NONE if pre is None else some(pre), "prefix", "does not store the prefix given")
        attributes(A, t, d["attributes"], att)
        if ns is not None:
            A.want(t, d["xmlns"], some(ns), "xmlns", "does not store the namespace given")
        else:
            n = lit("xmlns") if pre is None else cat([lit("xmlns:"), pre])
            m = d["attributes"]
            if m.op == "mempty":
                A.want(t, d["xmlns"], NONE, "xmlns", "stores a namespace although none is given")
            else:
                for u, b in A.e.split_bool(t, A.e.mhas(t, m, n)):
                    o = A.opt(u, d["xmlns"])
                    if o is None or o[0] is None:
                        raise Unknown("the namespace stored")
                    if o[0] == 1 and o[1].op == "mval" and (o[1].a[0] is m or att is not None and o[1].a[0] is att):
                        k = o[1].a[1]
                        if k is not n and known(k):
                            raise Bad("xmlns", f"takes the namespace from the attribute {short(show(k), 30)}")
                    elif o[0] == 1 and known(o[1]):
                        raise Bad("xmlns", "stores another namespace than the attributes define")
                    if b and o[0] == 0:
                        raise Bad("xmlns", "does not store the namespace the attributes define")
        children(A, t, d["child_nodes"], txt, kids, R.get("text?"))
    return "stores what is given"


def attributes(A, t, m, att):
    if att is None:
        if m.op != "mempty":
            raise Bad("attributes", "stores attributes although none are given") if known(m) else Unknown("the attributes stored")
        return
    if m is att:
        return
    if m.op == "mempty":
        if t.entails(lneg(lin(A.e.mlen(att)))):
            return
        raise Bad("attributes", "does not store the attributes given")
    if m.op != "phi":
        raise Unknown(f"the attributes stored: {short(show(m), 60)}")
    for l, c in A.cells(lambda l, c: c is m):
        if c in A.seen:
            return
        A.seen[c] = 1
        for u, x in l.entries(c):
            if x.op != "mempty":
                raise Unknown("the attributes at the start")
        i = A.scan(t, l, c, lin(A.e.mlen(att)), "the attributes given")
        for u, x in l.nexts(c):
            if x is c:
                raise Bad("attributes", "leaves out an attribute given") if byvalue(A, u, att, i) else Unknown("when an attribute is left out")
            if x.op != "minsert" or x.a[0] is not c:
                raise Unknown("the attributes stored")
            k, w = x.a[1], x.a[2]
            if not (k.op == "mkey" and k.a[0] is att and lin(k.a[1]) is atom(i)):
                raise Bad("attributes", "stores an attribute under another name") if k.op != "mkey" and known_in(k, i) else Unknown("the name of an attribute stored")
            if w is not A.e.mval(u, att, k):
                raise Bad("attributes", "stores another value for an attribute") if known_in(w, i) else Unknown("the value of an attribute stored")
        return
    raise Unknown("the attributes stored")


def byvalue(A, u, m, i):
    """what decides that nothing is stored is only the value of the attribute"""
    new = [b for b in u.bools] + [a for f in u.lin for a, _ in f]
    new = [b for b in new if any(x.op in ("mkey", "mval") and x.a[0] is m for x in subs(b))]
    new = [b for b in new if not (b.op == "mhas" and b.a[0] is m or b.op == "pr" and b.a[0] == "re" and u.eval(b) is True)]
    return bool(new) and all(any(x.op == "mval" and x.a[0] is m for x in subs(b)) and known_in(b, i) for b in new)


def known_in(t, i):
    return not any(x.op in ("fresh", "uninit") or x.op == "phi" and x is not i for x in subs(t))


def children(A, t, g, txt, kids, opt=None):
    g, _ = norm_of(g)
    if kids is None:
        if txt is None:
            if not isvec(g, 0):
                raise Bad("children", "stores children although none are given") if known(g) else Unknown("the children stored")
            return
        if isvec(g, 1) and text_node(A, t, g.a[0][0], txt):
            return
        if isvec(g, 0):
            raise Bad("children", "does not store the text given") if not any(x is txt for b in t.bools for x in subs(b)) else Unknown("when the text is stored")
        raise Unknown(f"the children stored: {short(show(g), 60)}")
    # children: a list filled from the one given, after the text
    if g is kids:
        if txt is not None:
            raise Bad("children", "does not store the text given")
        return
    n = 0
    while g.op == "phi" and n < 4:
        n += 1
        cs = list(A.cells(lambda l, c: c is g))
        if not cs:
            raise Unknown("the children stored")
        l, c = cs[0]
        push = [x for _, x in l.nexts(c) if x.op == "vpush" and x.a[0] is c]
        ents = [(u, norm_of(x)[0]) for u, x in l.entries(c)]
        if push:
            if c in A.seen:
                return
            A.seen[c] = 1
            for _, x in l.nexts(c):
                if x.op != "vpush" or x.a[0] is not c:
                    raise Unknown("the children stored")
                y = x.a[1]
                ps = [z.a[1] for z in subs(y) if z.op == "elem" and z.a[0] is kids]
                if not ps:
                    raise Unknown("the children stored")
            for u, x in ents:
                txt = first(A, u, opt, txt)
                if txt is None and not isvec(x, 0) or txt is not None and not (isvec(x, 1) and text_node(A, t, x.a[0][0], txt)):
                    raise Bad("children", "does not store the text before the children given") if known(x) else Unknown("what is stored before the children")
            A.scan(t, l, c, lin(vlen(kids)), "the children given", ps[0])
            return
        if len({id(x) for _, x in ents}) != 1 or any(x is not c and x.op != "vset" for _, x in l.nexts(c)):
            raise Unknown("the children stored")
        g = ents[0][1]
    if g.op == "vpush" and g.a[1].op == "agg" and g.a[1].a[0] == "dom::Text" and txt is not None:
        h = norm_of(g.a[0])[0]
        if filled(A, h, kids):
            raise Bad("children", "stores the text after the children given")
    raise Unknown(f"the children stored: {short(show(g), 60)}")


def filled(A, h, kids, n=0):
    """h is a list the children given were added to"""
    if h.op != "phi" or n > 4:
        return False
    for l, c in A.cells(lambda l, c: c is h):
        if any(x.op == "vpush" and any(z.op == "elem" and z.a[0] is kids for z in subs(x)) for _, x in l.nexts(c)):
            return True
        if any(filled(A, norm_of(x)[0], kids, n + 1) for _, x in l.entries(c) if x is not c):
            return True
    return False


def first(A, u, opt, txt):
    """the text given, on the paths of u"""
    if opt is None:
        return txt
    o = A.opt(u, opt)
    if o is None or o[0] is None:
        raise Unknown("whether a text is given where the children are stored")
    return o[1] if o[0] == 1 else None


def made(A, s, v, own, name):
    """constructor or conversion of a leaf: stores the text given"""
    if v.op == "agg" and v.a[0] == RES or type_of(v) and type_of(v)[:2] == ("adt", RES):
        o = outcome(A.run, s, v)
        if o == "Err":
            return "an error (C09)"
        if o != "Ok":
            raise Unknown("the result")
        v = A.e.deep(s, payload(A.run, s, v))
    if v.op != "agg" or v.a[0] != own:
        raise Unknown(f"the result: {short(show(v), 60)}")
    A.want(s, dict(sfields(A.e, v, own))[name], A.arg(s, 0), "stores", "does not store exactly the text given")
    return "stores exactly the text given"


def put(A, s, v, own, name):
    """setter of a leaf"""
    o = outcome(A.run, s, v)
    if o == "Err":
        return "an error (C09, C10)"
    if o != "Ok":
        raise Unknown("the result")
    A.want(s, A.G(s, own)[name], A.arg(s, 1), "stores", "does not store exactly the text given")
    return "stores exactly the text given"


E_ = ELEMENT + "::"
SPEC = {
    E_ + "name": (field, ("name",)),
    E_ + "namespace": (field, ("xmlns",)),
    E_ + "namespace_prefix": (field, ("xmlns_prefix",)),
    E_ + "default_namespace": (default_ns, ()),
    E_ + "tag_name": (tag_name, ()),
    E_ + "attributes": (field, ("attributes",)),
    E_ + "get_attr": (get_attr, ()),
    E_ + "set_attr": (set_attr, ()),
    E_ + "remove_attr": (remove_attr, ()),
    E_ + "clear_attributes": (cleared, ("attributes",)),
    E_ + "clear_children": (cleared, ("child_nodes",)),
    E_ + "set_text": (set_text, ()),
    E_ + "children": (listed, ("child_nodes",)),
    E_ + "children_mut": (listed, ("child_nodes",)),
    E_ + "namespace_prefixes": (prefixes, (True,)),
    E_ + "xmlns_context_from_attributes": (prefixes, (False,)),
    E_ + "new": (built, (("name", "text?", "attrs?", "xmlns?", "prefix?", "children?"),)),
    E_ + "new_from_name": (built, (("name",),)),
    E_ + "new_with_attributes": (built, (("name", "attrs"),)),
    E_ + "new_with_text": (built, (("name", "text"),)),
    E_ + "new_with_children": (built, (("name", "children"),)),
    E_ + "new_with_attributes_and_text": (built, (("name", "attrs", "text"),)),
    E_ + "new_with_attributes_and_children": (built, (("name", "attrs", "children"),)),
    "dom::Comment::get_content": (field, ("comment", "dom::Comment")),
    "dom::CData::get_content": (field, ("cdata", "dom::CData")),
    "dom::Text::concat": (concat, ()),
    f"<{ELEMENT} as dom::Node>::text": (text, ()),
    "<dom::Text as dom::Node>::text": (field, ("content", "dom::Text")),
    "<dom::Comment as dom::Node>::text": (field, ("comment", "dom::Comment")),
    "<dom::CData as dom::Node>::text": (field, ("cdata", "dom::CData")),
    "dom::Comment::set_content": (put, ("dom::Comment", "comment")),
    "dom::CData::set_text": (put, ("dom::CData", "cdata")),
    **{f: (made, (own, n)) for own, n in (("dom::Text", "content"), ("dom::Comment", "comment"), ("dom::CData", "cdata"))
       for f in (own + "::new", f"<{own} as std::convert::From<&str>>::from", f"<{own} as std::convert::From<std::string::String>>::from")},
    DOC + "::new": (new_doc, ()),
    DOC + "::new_with_decl_dtd": (new_doc, ()),
    DOC + "::root_element": (field, ("root_element", DOC)),
    DOC + "::root_element_mut": (field, ("root_element", DOC)),
    DOC + "::declaration": (field, ("declaration", DOC)),
    DOC + "::doctype_defs": (listed, ("dtds", DOC)),
    DOC + "::doctype_defs_mut": (listed, ("dtds", DOC)),
}


def jacc(p, key, spec):
    return Acc(p, key, spec).judge()


def c28(p, rep):
    jobs, names = [], []
    want = {ELEMENT: {"name", "child_nodes", "attributes", "xmlns", "xmlns_prefix", "xmlns_context"}, DOC: {"declaration", "dtds", "root_element"},
            "dom::Text": {"content"}, "dom::Comment": {"comment"}, "dom::CData": {"cdata"}}
    for n, fs in want.items():
        if n not in p.adts or {f["name"] for f in p.adts[n]["variants"][0]["fields"]} != fs:
            rep.undecide(f"struct {n} has other fields than expected")
            rep.assumptions += ASSUME
            return
    for n in SPEC:
        k = p.by_path.get(n)
        if k is None:
            if "xmlns_context_from" not in n and not n.startswith("<"):
                rep.undecide(f"there is no {n}")
            continue
        jobs.append((jacc, (k, n)))
        names.append(n)
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = names
    rep.assumptions += ASSUME


CHECKS = {"C28": c28}
EXPLAIN = {"C28": "Each accessor, constructor and attribute edit is interpreted on an arbitrary object; result and object afterwards are compared on every path with the term its documentation gives."}
