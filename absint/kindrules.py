"""C14: kind tests, casts and type tags of the node types agree. C15: clone, equality and hash."""
from terms import *
from semlib import Run, short, parallel, is_fn
from summ import felem, fields_of, ELEMENT, ufn
from domlib import *
from domrules import opts, incomplete, ASSUME

TESTS = {"is_element": "Element", "is_text": "Text", "is_comment": "Comment", "is_cdata": "CData"}
CASTS = {"as_element": "Element", "as_text": "Text", "as_comment": "Comment", "as_cdata": "CData"}
VIEWS = ("as_node", "as_node_mut", "as_any", "as_any_mut")
TAG = {"Element": "ElementNode", "Text": "TextNode", "Comment": "CommentNode", "CData": "CDataNode"}


def impl(k, trait, m):
    return f"<dom::{k} as {trait}>::{m}"


# ------------------------------------------------------------------ C14
class Kind(Judge):
    def __init__(self, p, key, kind, m, sub=None):
        o = opts(p)
        o["recsum"] = r_cast
        self.setup(p, key, o)
        self.kind, self.m = kind, m
        if sub is not None:
            self.run = Run(p, key, o, tl=250, sub=sub)
            self.e = self.run.e

    def judge(self):
        run, m = self.run, self.m
        if incomplete(run, self.f):
            if run.stopped:
                return self.f.items
        if not run.outs:
            self.und("never returns")
        for s, v in run.outs:
            if m in TESTS:
                self.test(s, v, TESTS[m] == self.kind)
            elif m.replace("_mut", "") in CASTS:
                self.cast(s, v, CASTS[m.replace("_mut", "")] == self.kind)
            elif m in VIEWS:
                self.view(s, v)
            elif m == "boxed":
                self.boxed(s, v)
            elif m == "node_type":
                self.tag(s, v, self.kind)
            if m != "boxed" and run.args and run.args[0].op == "ref":
                a, b = run.arg0(0), run.arg1(s, 0)
                if not same(self.e, s, a, b):
                    (self.bad if certain_change(b, a) else lambda k, t: self.und(t))("changes", "changes the node")
        return self.f.items

    def test(self, s, v, want):
        for s2, b in self.e.split_bool(s, v):
            if b == want:
                self.ok(f"is {str(want).lower()}")
            elif any(x.op == "fresh" for x in subs(v)) or self.e.unknown:
                self.und(f"result {short(v)}")
            else:
                self.bad("test", f"may return {str(b).lower()} for a {self.kind}")

    def target(self, s, v):
        """does the reference lead to self"""
        a = self.run.args[0]
        for _ in range(4):
            if v.op == "ref" and a.op == "ref" and v.a[0] == a.a[0] and v.a[1] == a.a[1]:
                return True
            if v.op == "agg" and v.a[0] == "std::boxed::Box" and v.a[3]:
                v = v.a[3][0]
                continue
            if v.op == "ref":
                try:
                    w = self.e.read(s, v.a[0], v.a[1])
                except Exception:
                    return None
                if w.op == "ref":
                    v = w
                    continue
                return False if v.a[0] != a.a[0] or v.a[1] != a.a[1] else True
            return None
        return None

    def cast(self, s, v, want):
        o = outcome(self.run, s, v)
        if o is None:
            self.und(f"result {short(v)}")
        elif (o == "Ok") != want:
            if self.e.unknown:
                self.und("outcome depends on calls without a model")
            else:
                self.bad("cast", f"may return {o} for a {self.kind}")
        elif want:
            t = self.target(s, self.e.payload(v, 0))
            if t:
                self.ok("the cast returns the node itself")
            elif t is False:
                self.bad("cast-other", "the cast returns something other than the node itself")
            else:
                self.und(f"cast to {short(v)}")
        else:
            self.ok("the cast is refused")

    def view(self, s, v):
        t = self.target(s, v)
        if t:
            self.ok("a view of the node itself")
        elif t is False:
            self.bad("view", "views something other than the node itself")
        else:
            self.und(f"view {short(v)}")

    def boxed(self, s, v):
        w = self.e.deep(s, v)
        if w.op == "agg" and w.a[0] == "std::boxed::Box" and w.a[3]:
            w = w.a[3][0]
        a = self.run.arg0(0)
        if same(self.e, s, a, w):
            self.ok("boxing keeps the node unchanged")
        elif certain_change(w, a):
            self.bad("boxed", f"boxing changes the node: {[n for n, _, _ in diffs(self.e, s, a, w)]}")
        else:
            self.und(f"boxed {short(w)}")

    def tag(self, s, v, kind):
        n = outname(v)
        if n is None:
            self.und(f"tag {short(v)}")
        elif n == TAG[kind]:
            self.ok(f"{kind} is reported as {n}")
        else:
            self.bad("tag", f"{kind} may be reported as {n}")


def r_cast(eng, fr, st, blk, key, args, sub):
    """casts of other nodes: judged on their own"""
    path = eng.p.bodies[key]["path"]
    m = path.split("::")[-1]
    if m.replace("_mut", "") in CASTS and len(args) == 1 and " as dom::Node>::" in path:
        if path == impl(CASTS[m.replace("_mut", "")], "dom::Node", m):
            return [(st, mk("agg", RES, 0, "Ok", (args[0],)))]
    return None


def j14(p, key, kind, m, sub=None):
    return Kind(p, key, kind, m, sub).judge()


class From(Kind):
    """DomNodeType::from on an arbitrary boxed node"""

    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        x = self.run.arg0(0)
        seen = set()
        for s, v in self.run.outs:
            for k in self.e.kind_of(s, x):
                seen.add(k)
                self.tag(s, v, k)
        for k in set(NODEKINDS) - seen:
            self.und(f"no result for a {k}")
        return self.f.items


def j14f(p, key):
    return From(p, key, None, None).judge()


def c14(p, rep):
    jobs, names = [], []
    for k in NODEKINDS:
        for m in list(TESTS) + list(CASTS) + [c + "_mut" for c in CASTS] + list(VIEWS) + ["boxed"]:
            key = p.by_path.get(impl(k, "dom::Node", m))
            if key is None:
                rep.undecide(f"{impl(k, 'dom::Node', m)} not found")
                continue
            jobs.append((j14, (key, k, m)))
            names.append(impl(k, "dom::Node", m))
        key = p.by_path.get(impl(k, "dom::Node", "node_type"))
        if key is not None:
            jobs.append((j14, (key, k, "node_type")))
            names.append(impl(k, "dom::Node", "node_type"))
        else:
            key = p.by_path.get("dom::Node::node_type")
            if key is None:
                rep.undecide("node_type not found")
                continue
            jobs.append((j14, (key, k, "node_type", {0: ("adt", "dom::" + k, ())})))
            names.append("dom::Node::node_type for " + k)
    for path, key in p.by_path.items():
        if path.startswith("<dom::DomNodeType as std::convert::From<"):
            jobs.append((j14f, (key,)))
            names.append(path)
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = names
    rep.assumptions += ASSUME


# ------------------------------------------------------------------ C15
def s_clone(eng, fr, st, blk, key, args, sub):
    return [(st, eng.deep(st, args[0]))]


def s_eq(eng, fr, st, blk, key, args, sub):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    return [(st, TRUE if a is b else mk("eq", *sorted((a, b), key=str)))]


def r_clone(eng, fr, st, blk, key, args, sub):
    b = eng.p.bodies[key]
    if len(args) == 1 and len(b.get("inputs") or ()) == 1 and b["path"] == impl("Element", "std::clone::Clone", "clone"):
        return s_clone(eng, fr, st, blk, key, args, sub)
    return None


def r_eq(eng, fr, st, blk, key, args, sub):
    if eng.p.bodies[key]["path"] in (impl("Element", "std::cmp::PartialEq", "eq"), "dom::node_eq"):
        return s_eq(eng, fr, st, blk, key, args, sub)
    return None


def aligned(x, y, a, b):
    """y is x with a replaced by b"""
    return str(x).replace(str(a), str(b)) == str(y) and x is not y


def eq_true(e, s, x, y, d=0):
    """equality of the two values is established in s"""
    if same(e, s, x, y):
        return True
    for t, v in s.bools.items():
        if v and t.op == "eq" and {x, y} <= {z for z in t.a}:
            return True
    if x.op == "lin" and y.op == "lin":
        return s.same(x, y)
    if d > 3:
        return False
    ty = type_of(x)
    if ty and ty[0] == "adt" and ty[1] in (OPT, RES):
        vx, vy = s.var.get(x), s.var.get(y)
        if vx is not None and vy is not None and len(vx) == 1 and vx == vy:
            i = next(iter(vx))
            if ty[1] == OPT and i == 0:
                return True
            return eq_true(e, s, e.payload(x, i), e.payload(y, i), d + 1)
    return False


def mentions(t, x):
    return any(y is x for y in subs(t))


WEAK = {"lower", "upper", "trim", "len", "vlen", "mlen", "slower", "supper", "asciilower", "strfn", "slice"}


class Eq(Judge):
    def __init__(self, p, key, ty):
        o = opts(p)
        o["recsum"], o["markloops"] = r_eq, True
        for n in (impl("Element", "std::cmp::PartialEq", "eq"), "dom::node_eq"):
            k = p.by_path.get(n)
            if k is not None and k != key:
                o["summaries"][k] = s_eq
        self.setup(p, key, o)
        self.ty = ty

    def judge(self):
        run = self.run
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        a, b = run.arg0(0), run.arg0(1)
        self.compared = set()
        first = True
        for s, v in run.outs:
            for s2, t in self.e.split_bool(s, v):
                if t:
                    got = self.equal(s2, a, b)
                    self.compared = got if first else self.compared & got
                    first = False
                else:
                    self.unequal(s2, a, b)
        return self.f.items

    def equal(self, s, a, b):
        got = set()
        if eq_true(self.e, s, a, b):
            return {n for n, _ in sfields(self.e, a, self.ty)}
        fa, fb = sfields(self.e, a, self.ty), sfields(self.e, b, self.ty)
        for (n, x), (_, y) in zip(fa, fb):
            if self.ty == ELEMENT and n == "xmlns_context":
                if eq_true(self.e, s, x, y):
                    got.add(n)
                continue
            if self.ty == ELEMENT and n == "child_nodes":
                if self.children(s, x, y):
                    got.add(n)
                continue
            if eq_true(self.e, s, x, y):
                got.add(n)
                self.ok(f"values are equal only if '{n}' is equal")
                continue
            rel = [t for t, v in list(s.bools.items()) if mentions(t, x) and mentions(t, y)]
            part = [t for t in list(s.bools) + list(s.var) if mentions(t, x) or mentions(t, y)]
            if self.e.unknown or rel and not all(v and t.op == "eq" and any(z.op in WEAK for z in subs(t)) for t, v in s.bools.items() if t in rel):
                self.und(f"comparison of '{n}' by {short(rel)}")
            elif rel:
                self.bad(f"eq-{n}", f"values can be equal although '{n}' differs: only {short(rel[0])} is compared")
            elif not part or all(t.op in WEAK for t in part):
                self.bad(f"eq-{n}", f"values can be equal although '{n}' differs")
            elif x in s.var and y in s.var or any(mentions(z, x) for z in s.var) or any(mentions(z, x) for z in s.bools):
                self.bad(f"eq-{n}", f"values can be equal although '{n}' differs: nothing compares the two")
            else:
                self.und(f"comparison of '{n}'")
        return got

    def node_equal(self, s, x, y):
        if eq_true(self.e, s, x, y):
            return True
        kx, ky = self.e.kind_of(s, x), self.e.kind_of(s, y)
        if kx == ky and len(kx) == 1:
            k = next(iter(kx))
            for t, v in s.bools.items():
                if v and t.op == "eq" and len(t.a) == 2:
                    p_, q = t.a
                    for u, w in ((p_, q), (q, p_)):
                        if mentions(u, x) and mentions(w, y) and aligned(u, w, x, y):
                            if u is x or k != "Element" and u.op == "fld":
                                return True
                            if u.op in WEAK or any(z.op in WEAK for z in subs(u)):
                                return "weak"
            for t, v in s.bools.items():
                if v and t.op == "piecewise" and mentions(t, x) and mentions(t, y) and str(t.a[2].a[0]) in ("lines", "split_whitespace", "split_ascii_whitespace") and not any(
                        w for u, w in s.bools.items() if u is not t and mentions(u, x) and mentions(u, y)):
                    return "weak"
        elif not (kx & ky):
            return "kinds"
        return False

    def children(self, s, x, y):
        """all children compared in order"""
        if eq_true(self.e, s, x, y):
            self.ok("values are equal only if 'child_nodes' is equal")
            return True
        le = lens_equal(s, x, y)
        if le and s.entails(lsub(num(0), vlen(x))):
            self.ok("no children on either side")
            return True
        found = None
        for l in loops(self.run):
            for ph, step, es in l.counters():
                if step not in (1, -1) or not l.own(ph):
                    continue
                q = self.position(l, ph, x, y)
                if q is None:
                    continue
                found = l
                if self.differ(s, x, y, q):
                    self.bad("eq-children", "values can be equal although two children differ")
                    return False
                key = ("scan", id(l.ev))
                if key not in self.seen:
                    self.seen[key] = True
                    self.scan(l, ph, step, es, q, x, y)
                if (str(l.ev.fr.ctx), str(l.ev.blk)) not in (s.ghost.get("past") or ()):
                    self.bad("eq-children", "values can be equal without comparing the children")
                    return False
                break
            if found:
                break
        if not found:
            rel = [t for t in s.bools if mentions(t, x) and mentions(t, y)]
            lps = [l for l in loops(self.run) if any(mentions(t, x) for b in l.backs for t in b.bools)]
            if rel or lps or self.e.unknown or any(str(ev.kind) in ("query", "reduce", "collect") for ev in self.e.events):
                self.und("comparison of the children")
            else:
                self.bad("eq-children", "values can be equal although the children differ")
            return False
        if not le:
            if self.e.unknown:
                self.und("number of children")
            else:
                self.bad("eq-count", "values can be equal although the numbers of children differ")
            return False
        self.ok("values are equal only if the numbers of children are equal")
        return True

    def position(self, l, ph, x, y):
        for b in l.backs:
            for t in list(b.bools) + list(b.kinds):
                for z in subs(t):
                    if z.op == "elem" and z.a[0] in (x, y) and z.a[1].op == "lin" and is_const(lsub(z.a[1], atom(ph))):
                        return z.a[1]
        return None

    def differ(self, s, x, y, q):
        """the pair at q is known to differ"""
        u, w = self.e.velem(s, x, q), self.e.velem(s, y, q)
        if not (self.e.kind_of(s, u) & self.e.kind_of(s, w)):
            return True
        return any(not v and mentions(t, u) and mentions(t, w) for t, v in s.bools.items())

    def handled(self, s, x, y, q):
        return self.node_equal(s, self.e.velem(s, x, q), self.e.velem(s, y, q)) is True

    def scan(self, l, ph, step, es, q, x, y):
        off = lsub(q, atom(ph))
        self.coverage(l, ph, q, [(z, ladd(v, off)) for z, v in zip(l.entries(ph), es)], step, lambda s: vlen(x) if s.entails(lsub(vlen(x), vlen(y))) or not s.entails(lsub(vlen(y), vlen(x))) else vlen(x),
                      "the comparison of the children", lambda st: self.handled(st, x, y, q), lambda st: self.differ(st, x, y, q))
        for b, _ in l.nexts(ph):
            r = self.node_equal(b, self.e.velem(b, x, q), self.e.velem(b, y, q))
            if r is True:
                self.ok("the scan goes on only when the two children are equal")
            elif r == "weak":
                self.bad("eq-child", "the scan may go on although the children differ: their content is compared only in part")
            elif r == "kinds":
                self.bad("eq-child", "the scan may go on although the children are of different kinds")
            elif self.e.unknown or any(t.op not in ("eq",) and (mentions(t, x) or mentions(t, y)) for t in b.bools):
                self.und("comparison of two children")
            elif any(v and t.op == "eq" and mentions(t, x) and mentions(t, y) for t, v in b.bools.items()):
                self.und("comparison of two children")
            else:
                self.bad("eq-child", "the scan may go on without comparing two children")

    def unequal(self, s, a, b):
        fa, fb = sfields(self.e, a, self.ty), sfields(self.e, b, self.ty)
        if any(not v for t, v in s.bools.items()) or self.e.unknown:
            self.ok("unequal after a comparison failed")
            return
        if any(z.op == "phi" for t in list(s.bools) + list(s.kinds) + list(s.var) for z in subs(t)):
            self.ok("unequal children")
            return
        s2 = s.fork()
        for (n, x), (_, y) in zip(fa, fb):
            tx = type_of(x)
            if tx and tx[0] == "adt" and tx[1] == OPT:
                u, w = s.variants(x, 2), s.variants(y, 2)
                if not (set(u) & set(w)):
                    self.ok("unequal: one part is missing")
                    return
            if E_is_list(x):
                d = lsub(vlen(x), vlen(y))
                r = [t for t in self.e.assume(s2, mk("eqz", d), True)]
                if not r:
                    self.ok("unequal: different numbers")
                    return
        self.und("reason for being unequal")


def E_is_list(x):
    t = type_of(x)
    return bool(t and t[0] == "adt" and t[1].endswith("::Vec"))


def j15eq(p, key, ty):
    return Eq(p, key, ty).judge()


class NodeEq(Eq):
    def judge(self):
        run = self.run
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        x, y = run.arg0(0), run.arg0(1)
        for s, v in run.outs:
            for s2, t in self.e.split_bool(s, v):
                r = self.node_equal(s2, x, y)
                if t and r is True:
                    self.ok("nodes are equal only if kind and content are equal")
                elif t and r in ("kinds", "weak"):
                    self.bad("node-eq", "nodes of different kinds can be equal" if r == "kinds" else "nodes can be equal although their content differs")
                elif t:
                    rel = [z for z in s2.bools if mentions(z, x) and mentions(z, y)]
                    if rel or self.e.unknown:
                        self.und(f"comparison by {short(rel)}")
                    else:
                        self.bad("node-eq", "nodes can be equal without comparing their content")
                elif r is True:
                    self.bad("node-ne", "nodes can be unequal although kind and content are equal")
                else:
                    self.ok("unequal after a comparison failed")
        return self.f.items


def j15neq(p, key):
    return NodeEq(p, key, None).judge()


class Clone(Judge):
    def __init__(self, p, key, ty):
        o = opts(p)
        o["recsum"] = r_clone
        for n in (impl("Element", "std::clone::Clone", "clone"), "dom::clone_node"):
            k = p.by_path.get(n)
            if k is not None and k != key:
                o["summaries"][k] = s_clone
        self.setup(p, key, o)
        self.ty = ty

    def judge(self):
        run = self.run
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        a = run.arg0(0)
        for s, v in run.outs:
            w = self.e.deep(s, v)
            if w.op == "agg" and w.a[0] == "std::boxed::Box" and w.a[3]:
                w = w.a[3][0]
            if self.ty is None:
                self.part("the node", s, a, w)
                continue
            for (n, x), (_, y) in zip(sfields(self.e, a, self.ty), sfields(self.e, w, self.ty)):
                self.part(f"'{n}'", s, x, y)
        return self.f.items

    def part(self, n, s, x, y):
        if same(self.e, s, x, y):
            self.ok(f"{n} is copied")
            return
        if self.ty is None:
            k = self.e.kind_of(s, x)
            if y.op == "agg" and len(k) == 1 and str(y.a[0]).split("::")[-1] in k:
                for z, f in enumerate(y.a[3]):
                    if not (f.op == "fld" and mentions(f, x)):
                        (self.bad if certain_change(f, x) or f.op in ("mempty", "none", "slice") else lambda k_, t: self.und(t))("copy", f"part of {n} is not copied: {short(f)}")
                        return
                self.ok(f"{n} is copied")
                return
        c = cell(y)
        if E_is_list(x) and E_is_list(y) and s.entails(lsub(num(0), vlen(x))) and s.entails(lsub(num(0), vlen(y))):
            self.ok(f"{n} is copied: nothing there")
            return
        k = self.explicit(s, y, x) if E_is_list(x) else None
        if k is not None and s.entails(lplus(lsub(num(0), vlen(x)), k)):
            self.ok(f"{n} is copied item by item")
            return
        l = loop_of(self.run, c) if c is not None else None
        if l is not None and E_is_list(x):
            self.list(n, l, c, x)
            return
        if y.op in ("vec", "mempty", "lit") or y.op == "agg" or certain_change(y, x) and y.op != "call":
            self.bad(f"clone-{n}", f"{n} of the clone is {short(y, 80)}")
        else:
            self.und(f"{n} of the clone is {short(y)}")

    def explicit(self, b, v, x):
        """number of leading items of x that v lists one by one, or None"""
        k, w = 0, v
        while w is not None and w.op == "vpush":
            k, w = k + 1, w.a[0]
        if w is None or w.op != "vec" or w.a[0]:
            return None
        n = k
        while v.op == "vpush":
            k -= 1
            el = self.e.velem(b, x, num(k))
            if not same(self.e, b, el, v.a[1]) and not self.eta(b, el, v.a[1]):
                return None
            v = v.a[0]
        return n

    def list(self, n, l, c, x):
        pre = {}
        for b, v in l.entries(c):
            pre[id(b)] = self.explicit(b, v, x)
            if pre[id(b)] is None:
                self.und(f"copy of {n} starts as {short(v)}")
                return
        cnt = [z for z in l.counters() if z[1] in (1, -1)]
        used = [z for z in cnt if any(v is not None and v.op == "vpush" and any(w is z[0] for w in subs(v.a[1])) for _, v in l.nexts(c))]
        cnt = used or cnt
        if len(cnt) != 1:
            self.und(f"copy of {n}: counter")
            return
        ph, step, es = cnt[0]
        if step == -1:
            if used and all(v is not None and (v is c or v.op == "vpush" and v.a[0] is c) for _, v in l.nexts(c)):
                self.bad("clone-order", f"items of {n} are copied in reverse order")
            else:
                self.und(f"copy of {n} from the end")
            return
        q = atom(ph)
        for b, v in l.nexts(c):
            if v is not None and v.op in ("vpush",) and v.a[0] is c:
                for z in subs(v.a[1]):
                    if z.op == "elem" and z.a[0] is x and z.a[1].op == "lin" and is_const(lsub(z.a[1], atom(ph))):
                        q = z.a[1]
        off = lsub(q, atom(ph))
        self.coverage(l, c, q, [(z, lplus(ladd(v, off), -pre.get(id(z[0]), 0))) for z, v in zip(l.entries(ph), es)], step, lambda s: vlen(x), f"the copy of {n}", lambda st: l.at(st, c) is not c)
        for b, v in l.nexts(c):
            if v is c:
                self.bad("clone-skip", f"an item of {n} may be left out")
            elif v is not None and v.op == "vpush" and v.a[0] is c:
                el = self.e.velem(b, x, q)
                if same(self.e, b, el, v.a[1]) or self.eta(b, el, v.a[1]):
                    self.ok(f"each item of {n} is copied in order")
                elif v.a[1].op == "agg" or certain_change(v.a[1], el):
                    self.bad("clone-item", f"an item of {n} is copied as {short(v.a[1], 80)}")
                else:
                    self.und(f"item of {n} copied as {short(v.a[1])}")
            elif v is not None and v.op == "vinsert" and v.a[0] is c:
                self.bad("clone-order", f"items of {n} are copied in another order")
            else:
                self.und(f"copy step {short(v)}")

    def eta(self, s, el, v):
        k = self.e.kind_of(s, el)
        return v.op == "agg" and len(k) == 1 and str(v.a[0]).split("::")[-1] in k and all(f.op == "fld" and f.a[0] is el and f.a[2] == i for i, f in enumerate(v.a[3])) and bool(v.a[3])


def j15cl(p, key, ty):
    return Clone(p, key, ty).judge()


class Hash(Judge):
    def __init__(self, p, key, ty, eqkey):
        self.setup(p, key, opts(p))
        self.ty, self.eqkey = ty, eqkey

    def judge(self):
        run = self.run
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        eq = Eq(self.p, self.eqkey, self.ty)
        eq.judge()
        if eq.run.stopped:
            self.und("equality not analysed")
            return self.f.items
        comp = getattr(eq, "compared", set())
        a = run.arg0(0)
        fs = sfields(self.e, a, self.ty)
        h0 = run.arg0(1)
        todo, done = [(s, run.arg1(s, 1)) for s, v in run.outs], set()
        while todo:
            s, h = todo.pop()
            while h.op == "hpush":
                self.hashed(s, h.a[1], fs, comp, a)
                h = h.a[0]
            if h is h0 or h in done:
                continue
            done.add(h)
            c = cell(h)
            l = loop_of(run, c) if c is not None else None
            if l is None:
                self.und(f"hasher state {short(h)}")
                continue
            todo += [(b, v) for b, v in l.entries(c) + l.nexts(c) if v is not None]
        if not any(k == "ok" or k == "bad" for k, _, _ in self.f.items) and run.outs:
            self.ok("nothing is hashed")
        return self.f.items

    def hashed(self, s, c, fs, comp, a):
        used = set()
        for t in subs(c):
            for n, x in fs:
                if t is x:
                    used.add(n)
        if any(t.op in ("mkey", "mval") or t.op == "elem" and t.a[0].op == "collected" and any(str(z.a[0]) == "it:map" for z in subs(t) if z.op == "agg") for t in subs(c)) and not any(
                t.op in ("vsort",) for t in subs(c)):
            self.bad("hash-order", f"the hash depends on the iteration order of a hash map")
        elif used - comp:
            self.bad("hash-extra", f"the hash depends on {sorted(used - comp)}, which equality does not compare")
        elif used or is_const(c) if c.op == "lin" else used or c.op == "lit":
            self.ok(f"hashes {sorted(used)}, compared by equality")
        else:
            self.und(f"hashes {short(c)}")


def j15h(p, key, ty, eqkey):
    return Hash(p, key, ty, eqkey).judge()


def c15(p, rep):
    jobs, names = [], []

    def add(fn, path, *a):
        k = p.by_path.get(path)
        if k is None:
            rep.undecide(f"{path} not found")
            return
        jobs.append((fn, (k,) + a))
        names.append(path)
    for k in ("Element", "Text", "Comment", "CData", "Declaration", "DTD"):
        ty = "dom::" + k
        add(j15cl, impl(k, "std::clone::Clone", "clone"), ty)
        add(j15eq, impl(k, "std::cmp::PartialEq", "eq"), ty)
        eqk = p.by_path.get(impl(k, "std::cmp::PartialEq", "eq"))
        if eqk is not None:
            add(j15h, impl(k, "std::hash::Hash", "hash"), ty, eqk)
    add(j15eq, impl("Document", "std::cmp::PartialEq", "eq"), "dom::Document")
    if "dom::clone_node" in p.by_path:
        add(j15cl, "dom::clone_node", None)
    if "dom::node_eq" in p.by_path:
        add(j15neq, "dom::node_eq")
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = names
    rep.assumptions += ASSUME


CHECKS = {"C14": c14, "C15": c15}
EXPLAIN = {"C14": "Every Node method of the four node types interpreted on an arbitrary receiver: constant outcome of each kind test, success and target of each cast and view, type tag per kind.",
           "C15": "Clone: every field of the result compared with the original (children by the loop's transfer relation). Equality: facts established on every path that answers true. Hash: only parts that equality compares reach the hasher."}
