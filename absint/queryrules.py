"""C21: what the query methods select.

The iterator a query returns is a term: a source (a slice of the children, or the descendants of an element) under closures and
adaptors. It is evaluated on one arbitrary element of its source: which items come out, and what is known on the paths on which it
comes out or is left out."""
from terms import *
from semlib import Run, short, parallel
from domlib import *
from domrules import opts, incomplete, ASSUME
from parserules import Unknown, Bad
from summ import felem, fields_of, ufn, ftype, ET, ELEMENT
import models as M

NODE = ("adt", "std::boxed::Box", (("dyn", "dom::Node"), ("adt", "std::alloc::Global", ())))
Q = "dom::Element::"
# method -> (kind, selection, scope)
SPEC = {
    "children": (None, None, "child"), "children_mut": (None, None, "child"),
    "child_elements": ("Element", None, "child"), "child_elements_mut": ("Element", None, "child"),
    "elements_by_name": ("Element", "name", "child"), "elements_by_name_mut": ("Element", "name", "child"),
    "elements_by_namespace": ("Element", "xmlns", "child"), "elements_by_namespace_mut": ("Element", "xmlns", "child"),
    "elements_by_namespace_prefix": ("Element", "xmlns_prefix", "child"), "elements_by_namespace_prefix_mut": ("Element", "xmlns_prefix", "child"),
    "all_children": (None, None, "deep"), "search": (None, "pred", "deep"), "search_elements": ("Element", "pred", "deep"),
    "search_elements_by_name": ("Element", "name", "deep"), "search_text": ("Text", "pred", "deep"), "search_comments": ("Comment", "pred", "deep"),
}
FIRST = {"first_element_by_name": ("Element", "name", "child"), "first_element_by_name_mut": ("Element", "name", "child")}
WHAT = {"name": "name", "xmlns": "namespace", "xmlns_prefix": "namespace prefix", "pred": "predicate"}
SIMPLE = {"eq", "eqic", "pr", "app", "not", "ge", "eqz"}


def s_desc(eng, fr, st, blk, key, args, sub):
    """all descendants of an element, as a list of which nothing is known but where it comes from"""
    from engine import mkref
    x = eng.deep(st, args[0])
    v = ufn(eng, "desc", [x], ftype(eng.p, felem(eng.p)["child_nodes"]))
    i = agg("it:slice", 0, "", (mkref(("V", v), ()), num(0), vlen(v), mk("ety", NODE)))
    return [(st, agg("std::boxed::Box", 0, "Box", (i,)))]


def qopts(p):
    o = opts(p)
    o["nexts"] = True
    o["itloops"] = False
    k = p.by_path.get(Q + "children_recursive")
    if k is not None:
        o["summaries"][k] = s_desc
    return o


class Pipe:
    """evaluation of an iterator term on one arbitrary item of each of its sources"""

    def __init__(self, run, s):
        from engine import Frame
        self.run, self.e, self.n = run, run.e, 0
        key, b = run.key, run.body
        self.fr = Frame(self.e.ctx(0, key, "pipe%d" % id(s), None), key, b, b["body"], run.sub, key, self.e)
        self.span = b["span"]
        self.rev = False
        self.hav = False

    def tag(self):
        self.n += 1
        return "pq%d" % self.n

    def whole(self, st, f):
        """the vector an untouched slice iterator runs over"""
        from models2 import as_vec
        V = as_vec(self.e.read(st, f[0].a[0], f[0].a[1]))
        return self.span_of(st, V, f[1], f[2])

    def span_of(self, st, V, lo, hi):
        if not st.same(lo, num(0)):
            if st.entails(lplus(lo, -1)):
                raise Bad("part", "the first children are left out")
            raise Unknown(f"starts at {short(lo)}")
        if not st.same(hi, vlen(V)):
            if st.entails(lplus(lsub(vlen(V), hi), -1)):
                raise Bad("part", "the last children are left out")
            raise Unknown(f"ends at {short(hi)}")
        return V

    def unbox(self, st, w):
        for _ in range(4):
            if w.op == "ref":
                w = self.e.read(st, w.a[0], w.a[1])
            elif w.op == "agg" and w.a[0] == "std::boxed::Box" and w.a[3]:
                w = w.a[3][0]
        return w

    def parts(self, st, it, setup=None):
        """[(source vector, position, state with an arbitrary item, [(state, [marks])])]"""
        from models2 import itemref
        it = self.unbox(st, it)
        if it.op != "agg":
            raise Unknown(f"iterator {short(it)}")
        k, f = str(it.a[0]), it.a[3]
        e = self.e
        if k == "it:slice" or k == "it:vec":
            src = None
            if k == "it:slice":
                src = f[0]
                V = self.whole(st, f)
            else:
                V = f[0]
                if V.op == "collected" and V.a[0].op == "agg":
                    self.span_of(st, V, f[1], f[2])
                    return self.parts(st, V.a[0], setup)
                V = self.span_of(st, V, f[1], f[2])
                while V.op == "vrev":
                    self.rev, V = not self.rev, V.a[0]
            s = st.fork()
            q = mk("sym", (self.fr.ctx, 0), ("any", V))
            set_bounds(q, 0)
            q = atom(q)
            s.add_lin(lplus(lsub(vlen(V), q), -1))
            x = e.velem(s, V, q, NODE)
            from engine import mkref
            y = mkref(src.a[0], src.a[1] + (("idx", q, NODE),), src.a[2]) if src is not None else x
            outs = []
            for s2 in (setup(s, x) if setup else [s]):
                outs.append((s2, [("it", y)]))
            return [(V, x, s, outs)]
        if k in ("it:filter", "it:mapf", "it:filter_map", "it:inspect", "it:cloned", "it:enum"):
            out = []
            for V, x, s0, os in self.parts(st, f[0], setup):
                res = []
                for s, marks in os:
                    cur = [(s, [])]
                    for m in marks:
                        nxt = []
                        for s1, done in cur:
                            for s2, ms in self.through(s1, k, it, f, m):
                                nxt.append((s2, done + ms))
                        cur = nxt
                    res += cur
                out.append((V, x, s0, res))
            return out
        if k == "it:chain":
            return self.parts(st, f[0], setup) + self.parts(st, f[1], setup)
        if k == "it:rev":
            self.rev = not self.rev
            return self.parts(st, f[0], setup)
        if k == "it:flat":
            if len(f) > 2 and not (f[2].op == "agg" and not f[2].a[3]):
                raise Unknown("an iterator already advanced")
            out = []
            src = f[0]
            if f[1].op == "ref" or f[1].op == "agg" and str(f[1].a[0]).startswith("closure:") or f[1].op not in ("agg", "lin"):
                src = agg("it:mapf", 0, "", (f[0], f[1]))
            for V, x, s0, os in self.parts(st, src, setup):
                res = []
                for s, marks in os:
                    cur = [(s, [])]
                    for m in marks:
                        if m[0] != "it":
                            raise Unknown("nested lists")
                        nxt = []
                        for s1, done in cur:
                            for s2, ms in self.expand(s1, m[1]):
                                nxt.append((s2, done + ms))
                        cur = nxt
                    res += cur
                out.append((V, x, s0, res))
            return out
        if k in ("it:take", "it:skip", "it:step", "it:take_while", "it:skip_while", "it:map_while"):
            n = f[1] if len(f) > 1 else None
            if k in ("it:take_while", "it:map_while", "it:skip_while"):
                raise Bad("cut", f"the selection depends on where the first other item stands ({k[3:]})")
            if n is not None and is_const(n):
                if k == "it:skip" and cval(n) == 0 or k == "it:step" and cval(n) in (0, 1):
                    return self.parts(st, f[0], setup)
                raise Bad("cut", f"items are left out by their position ({k[3:]} {cval(n)})")
            raise Unknown(f"{k[3:]} {short(n)}")
        raise Unknown(f"iterator {k}")

    def expand(self, s, y):
        """marks of the items of a nested iterator or option"""
        w = self.unbox(s, y)
        if w.op == "agg" and str(w.a[0]).startswith("it:"):
            k, f = str(w.a[0]), w.a[3]
            if k == "it:slice":
                return [(s, [("all", self.whole(s, f))])]
            if k == "it:vec" and f[0].op == "vec" and is_const(f[1]) and is_const(f[2]):
                return [(s, [("it", y) for y in f[0].a[0][cval(f[1]):cval(f[2])]])]
            if k == "it:chain":
                return [(s2, a + b) for s1, a in self.expand(s, f[0]) for s2, b in self.expand(s1, f[1])]
            if k == "it:opt":
                out = []
                for s1, vi in self.e.split_variant(s, f[0]):
                    out.append((s1, [("it", self.e.payload(f[0], 1))] if vi == 1 else []))
                return out
            if k == "it:flat" or k == "it:mapf" or k == "it:filter":
                raise Unknown(f"nested {k}")
        t = type_of(w)
        own = w.a[0] if w.op == "agg" else t[1] if t and t[0] == "adt" else None
        if own in (OPT, RES):
            out = []
            full = 1 if own == OPT else 0
            for s1, vi in self.e.split_variant(s, w):
                if vi == full:
                    p = self.e.payload(w, full)
                    q = self.unbox(s1, p)
                    out += self.expand(s1, p) if q.op == "agg" and str(q.a[0]).startswith("it:") else [(s1, [("it", p)])]
                else:
                    out.append((s1, []))
            return out
        raise Unknown(f"nested {short(w)}")

    def through(self, s, k, it, f, m):
        from models2 import itemref
        e, fr = self.e, self.fr
        if m[0] != "it":
            raise Unknown("items of a nested list under another adaptor")
        x = m[1]
        if k == "it:cloned":
            return [(s, [("it", e.deep(s, x))])]
        if k == "it:enum":
            raise Unknown("numbered items")
        pre = s.fork()
        s = s.fork()
        root = ("CL", e.ctx(fr.ctx, "cl", 0, self.tag()))
        g = f[1]
        if g.op != "ref":
            s.mem[root] = f[1]
            from engine import mkref
            g = mkref(root, (), True)
        a = [itemref(e, fr, 0, s, x, self.tag())] if k in ("it:filter", "it:inspect") else [x]
        out = []
        for s2, y in M.callf(e, fr, 0, s, g, a, ("bool",) if k == "it:filter" else None, self.span, self.tag()):
            if s2.mem.get(root) is not None and f[1].op != "ref" and s2.mem[root] is not f[1]:
                self.hav = True
            for r, v in pre.mem.items():
                if r[0] not in ("T", "CL", "C") and s2.mem.get(r) is not v:
                    self.hav = True
            if k == "it:mapf":
                out.append((s2, [("it", y)]))
            elif k == "it:inspect":
                out.append((s2, [m]))
            elif k == "it:filter":
                for s3, b in e.split_bool(s2, y):
                    out.append((s3, [m] if b else []))
            else:
                for s3, vi in e.split_variant(s2, y):
                    out.append((s3, [("it", e.payload(y, 1))] if vi == 1 else []))
        return out


class Query(Judge):
    def __init__(self, p, key, spec, o=None):
        self.kind, self.sel, self.scope = spec
        self.setup(p, key, o or qopts(p), 150)
        F = felem(p)
        s0 = self.run.st0
        self.kids = fields_of(self.e, self.run.arg0(0))[F["child_nodes"]] if F else None
        self.F = F
        self.fixed = {x for a in self.run.args for x in list(subs(self.e.deep(s0, a))) + list(subs(a))}

    # ------------------------------------------------------- the selection
    def value(self, x, n):
        return fields_of(self.e, x)[self.F[n]]

    def match(self, s, x):
        """True / False / None of the selection on item x in state s"""
        if self.sel is None:
            return True
        if self.sel == "pred":
            P = self.run.args[1]
            vals = {v for b, v in s.bools.items() if b.op == "app" and any(self.item(s, y) is x for y in b.a[1])}
            return vals.pop() if len(vals) == 1 else None
        A = self.e.deep(s, self.run.args[1])
        f = self.value(x, self.sel)
        if self.sel == "name":
            return self.eq(s, f, A)
        va, vx = self.vars(s, A), self.vars(s, f)
        if not va & vx:
            return False
        if va == vx == frozenset({0}):
            return True
        for t, v in s.bools.items():
            if t.op == "eq" and set(t.a) == {A, f}:
                return v
        if va == vx == frozenset({1}):
            return self.eq(s, self.e.payload(f, 1), self.e.payload(A, 1))
        if va == frozenset({1}) or vx == frozenset({1}):
            m = self.eq(s, self.e.payload(f, 1), self.e.payload(A, 1))
            return False if m is False else None
        return None

    def vars(self, s, t):
        if t.op == "agg":
            return frozenset({t.a[1]})
        return s.var.get(t) or frozenset({0, 1})

    def eq(self, s, f, a):
        if f is a:
            return True
        for t, v in s.bools.items():
            if t.op == "eq" and set(t.a[:2]) == {f, a}:
                return v
            if v is False and t.op == "eqic" and {f, a} == set(t.a[:2]):
                return False
            if v is False and t.op == "pr" and {f, a} <= {y for y in t.a if hasattr(y, "op")}:
                return False
        return None

    def item(self, s, y):
        y = self.e.deep(s, y)
        while y.op == "agg" and y.a[0] == "std::boxed::Box" and y.a[3]:
            y = y.a[3][0]
        return y

    def isitem(self, s, y, x):
        y = self.item(s, y)
        return y is x or same(self.e, s, y, x)

    def plain(self, s, base, x):
        """is everything known on this path a simple fact about the item and the arguments"""
        for t in list(s.bools) + list(s.var):
            if t in base.bools or t in base.var:
                continue
            if t.op not in SIMPLE and t not in s.var:
                return False
            if any(z.op in ("phi", "fresh", "havoc", "uninit") for z in subs(t)):
                return False
        return True

    def foreign(self, t):
        """the term depends on something that is neither the arguments nor the item"""
        return any(z.op == "sym" and z not in self.fixed and "any" not in str(z.a[1]) for z in subs(t))

    def known(self, s, base):
        return not any(z.op in ("phi", "fresh", "havoc", "uninit") for t in list(s.bools) + list(s.var) if t not in base.bools and t not in base.var for z in subs(t))

    # ------------------------------------------------------- one item
    def taken(self, s, base, x, y):
        if not self.isitem(s, y, x):
            v = self.item(s, y)
            if v.op in ("agg", "elem", "fld") and not any(z.op in ("phi", "fresh") for z in subs(v)):
                raise Bad("other", f"something else than the node looked at is returned: {short(v, 80)}")
            raise Unknown(f"item {short(v, 90)}")
        if self.kind is not None:
            ks = self.e.kind_of(s, x)
            if self.kind not in ks:
                raise Bad("kind", f"a node of kind {sorted(ks)} is selected")
            if ks != {self.kind}:
                raise Unknown("kind of a selected node")
        m = self.match(s, x)
        if m is True:
            return
        w = WHAT[self.sel]
        if m is False:
            raise Bad("taken", f"a node is selected although its {w} does not match")
        if self.plain(s, base, x):
            raise Bad("taken", f"a node may be selected without its {w} equalling the argument" if self.sel != "pred" else "a node may be selected without asking the predicate")
        raise Unknown("whether a selected node matches")

    def left(self, s, base, x):
        if self.kind is not None:
            ks = self.e.kind_of(s, x)
            if self.kind not in ks:
                return
        m = self.match(s, x)
        if m is False:
            return
        w = WHAT.get(self.sel)
        if m is True:
            if self.plain(s, base, x) or self.sel is None and self.known(s, base):
                raise Bad("left", f"a node may be left out although its {w} matches" if w else "a node may be left out")
            raise Unknown("a matching node left out")
        if self.sel == "pred":
            if any(b.op == "app" and b not in base.bools for b in s.bools):
                raise Unknown("the predicate is asked about something else")
            raise Bad("left", "a node may be left out without asking the predicate")
        if self.plain(s, base, x) and not self.mentions(s, base, self.value(x, self.sel)):
            raise Bad("left", f"a node may be left out whatever its {w}")
        raise Unknown("whether a node left out matches")

    def mentions(self, s, base, f):
        """does anything learned on the path concern f in a way that is not understood"""
        seen = [t for t in s.bools if t not in base.bools and t.op != "eq"] + [t for t, v in s.var.items() if base.var.get(t) != v and t is not f]
        for k, v in s.lin.items():
            if base.lin.get(k) != v:
                seen += [a for a, _ in k]
        seen += [a for n in s.ne if n not in base.ne for a in ([n] if hasattr(n, "op") else [y for y in n if hasattr(y, "op")])]
        return any(z is f for t in seen for z in subs(t))

    def selects(self, s, it):
        """judge the items an iterator yields"""
        P = Pipe(self.run, s)
        parts = P.parts(s, it)
        V0 = self.source(s, parts)
        V, x, base, outs = parts[0]
        for s2, marks in outs:
            its = [m for m in marks if m[0] == "it"]
            if len(its) != len(marks):
                raise Unknown("nested lists")
            if len(its) > 1:
                raise Bad("twice", "a node is selected more than once")
            if its:
                self.taken(s2, base, x, its[0][1])
            else:
                self.left(s2, base, x)
        if P.rev and self.scope == "child":
            raise Bad("order", "the nodes come in reverse order")
        if P.hav:
            raise Unknown("a closure changes what it captured")

    def source(self, s, parts):
        if len(parts) != 1:
            raise Unknown(f"{len(parts)} sources")
        V = parts[0][0]
        if self.scope == "child":
            if V is self.kids:
                return
            if V.op == "call" and V.a[0] == "desc":
                raise Bad("source", "the descendants are searched instead of the children")
        else:
            if V.op == "call" and V.a[0] == "desc":
                a = V.a[1][0]
                if a is self.run.arg0(0) or same(self.e, s, a, self.run.arg0(0)):
                    return
            if V is self.kids:
                raise Bad("source", "only the children are searched, not their descendants")
        raise Unknown(f"source {short(V)}")

    def judge(self):
        r = self.run
        if incomplete(r, self.f):
            return self.f.items
        if not r.outs:
            self.und("does not return")
        for s, v in r.outs:
            try:
                self.selects(s, v)
                self.ok("selects exactly the " + (f"{self.kind} " if self.kind else "") + ("descendants" if self.scope == "deep" else "children") + (f" whose {WHAT[self.sel]} matches" if self.sel else ""))
            except Bad as x:
                self.bad(x.args[0], x.args[1])
            except Unknown as x:
                self.und(str(x))
        return self.f.items


class Recursive(Query):
    """children_recursive: every child, and for each child element its descendants"""

    def judge(self):
        r = self.run
        if incomplete(r, self.f):
            return self.f.items
        for s, v in r.outs:
            try:
                for K in ({"Element"}, {"Text", "Comment", "CData"}):
                    self.of(s, v, frozenset(K))
            except Bad as x:
                self.bad(x.args[0], x.args[1])
            except Unknown as x:
                self.und(str(x))
        return self.f.items

    def of(self, s, it, K):
        def setup(st, x):
            st = st.fork()
            if not self.e.restrict_kinds(st, x, K):
                return []
            return [st]
        P = Pipe(self.run, s)
        tot = []
        for V, x, base, outs in P.parts(s, it, setup):
            if V is not self.kids:
                if V.op == "call" and V.a[0] == "desc":
                    raise Unknown("another way of recursion")
                raise Unknown(f"source {short(V)}")
            alts = set()
            for s2, marks in outs:
                l = []
                for m in marks:
                    if m[0] == "it" and self.isitem(s2, m[1], x):
                        l.append("node")
                    elif m[0] == "all" and m[1].op == "call" and m[1].a[0] == "desc" and self.isitem(s2, m[1].a[1][0], x):
                        l.append("desc")
                    elif m[0] == "all" and m[1] is fields_of(self.e, x)[self.F["child_nodes"]]:
                        l.append("kids")
                    else:
                        raise Unknown(f"yields {short(m[1])}")
                alts.add((tuple(sorted(l)), self.plain(s2, base, x)))
            if len({a for a, _ in alts}) != 1:
                if all(b for _, b in alts):
                    raise Bad("left", "whether a node or its descendants are visited depends on more than its kind")
                raise Unknown("what is visited")
            tot += next(iter(alts))[0]
        want = ["desc", "node"] if K == {"Element"} else ["node"]
        if P.hav:
            raise Unknown("a closure changes what it captured")
        if sorted(tot) == want:
            self.ok(f"{'an element and its descendants are' if len(want) > 1 else 'any other node is'} visited exactly once")
        elif "kids" in tot:
            raise Bad("depth", "the recursion ends at the grandchildren")
        else:
            raise Bad("visit", f"visits {sorted(tot) or 'nothing'} of a child of kind {sorted(K)}, not {want}")


class First(Query):
    def judge(self):
        r = self.run
        if incomplete(r, self.f):
            return self.f.items
        nx = [x for x in self.e.events if x.kind == "next"]
        begun = False
        for ev in nx:
            it = ev.data["it"]
            if self.begun(ev.st, it):
                begun = True
                try:
                    self.partial(ev.st, it)
                    self.ok("the children are looked at from the first on, leaving out none that matches")
                except Bad as x:
                    self.bad(x.args[0], x.args[1])
                except Unknown as x:
                    self.und(str(x))
        for l in loops(r):
            for s in l.entry:
                if "nx" in s.ghost:
                    continue
                for root, v in list(s.mem.items()):
                    if root[0] != "V" and v.op == "agg" and str(v.a[0]).startswith("it:") and self.begun(s, v):
                        begun = True
                        try:
                            self.partial(s, v)
                            self.ok("the loop looks at the children from the first on")
                        except Bad as x:
                            self.bad(x.args[0], x.args[1])
                        except Unknown as x:
                            self.und(str(x))
        if not begun:
            self.und("no iteration over the children recognised")
        for l in loops(r):
            for s in list(l.backs) + list(l.entry):
                n = s.ghost.get("nx")
                if n is None:
                    if any(s is b for b in l.backs):
                        self.und("what an iteration looked at")
                    continue
                self.go(s, n)
        for s, v in r.outs:
            o = outcome(r, s, v)
            n = s.ghost.get("nx")
            try:
                if o == "Ok":
                    y = self.e.payload(v, 0)
                    x = self.item(s, y)
                    if x.op != "elem" or x.a[0] is not self.kids:
                        raise Unknown(f"result {short(x)}")
                    if n is not None and n[0] == "some" and not self.isitem(s, n[1], x):
                        raise Unknown("another element than the last one looked at")
                    self.taken(s, r.st0, x, y)
                    self.ok("the element returned is a child of that name")
                elif o == "Err":
                    if n == ("none",):
                        self.ok("fails only after looking at all children")
                    elif n is not None and n[0] == "some":
                        raise Bad("early", "fails although there are children not looked at")
                    elif s.entails(lsub(num(0), vlen(self.kids))):
                        self.ok("fails without children")
                    else:
                        raise Unknown("what a failing path looked at")
                else:
                    raise Unknown("outcome")
            except Bad as x:
                self.bad(x.args[0], x.args[1])
            except Unknown as x:
                self.und(str(x))
        return self.f.items

    def go(self, s, n):
        if n[0] != "some":
            return
        try:
            x = self.item(s, n[1])
            if x.op != "elem" or x.a[0] is not self.kids:
                raise Unknown(f"looks at {short(x)}")
            self.left(s, self.run.st0, x)
            self.ok("the search goes on only when the name differs")
        except Bad as x:
            self.bad(x.args[0], x.args[1])
        except Unknown as x:
            self.und(str(x))

    def begun(self, s, it):
        for _ in range(12):
            if it.op == "ref":
                it = self.e.read(s, it.a[0], it.a[1])
            if not (it.op == "agg" and it.a[3]):
                return False
            k = str(it.a[0])
            if k == "it:slice":
                return is_const(it.a[3][1]) and not any(x.op in ("phi", "sym") and "any" not in str(x.a[1]) and x not in self.fixed for x in subs(it.a[3][2]))
            if not k.startswith("it:") and k != "std::boxed::Box":
                return False
            it = it.a[3][0]
        return False

    def partial(self, s, it):
        """an iterator that may still filter less than the name"""
        P = Pipe(self.run, s)
        parts = P.parts(s, it)
        self.source(s, parts)
        V, x, base, outs = parts[0]
        for s2, marks in outs:
            if not marks:
                self.left(s2, base, x)
            elif len(marks) > 1 or marks[0][0] != "it" or not self.isitem(s2, marks[0][1], x):
                raise Unknown("items looked at")
        if P.rev:
            raise Bad("order", "the last such element is returned instead of the first")
        if P.hav:
            raise Unknown("a closure changes what it captured")


def j21(p, key, spec):
    return Query(p, key, spec).judge()


def j21f(p, key, spec):
    return First(p, key, spec).judge()


def j21r(p, key):
    return Recursive(p, key, (None, None, "child")).judge()


def c21(p, rep):
    jobs, names = [], []

    def add(fn, n, *a):
        k = p.by_path.get(Q + n)
        if k is None:
            rep.undecide(f"{n} not found")
            return
        jobs.append((fn, (k,) + a))
        names.append(n)
    for n, sp in SPEC.items():
        add(j21, n, sp)
    for n, sp in FIRST.items():
        add(j21f, n, sp)
    add(j21r, "children_recursive")
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = names
    rep.assumptions += ASSUME


CHECKS = {"C21": c21}
EXPLAIN = {"C21": "Every query method interpreted on an arbitrary element; the iterator it returns is evaluated on one arbitrary child or descendant: the facts known where that node is yielded or left out are compared with the selection, recursion by induction on the child."}
