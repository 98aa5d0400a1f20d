"""C26: whitespace.

Writing: the element serializer is interpreted with itself and the other serializers as uninterpreted functions. Its recursion carries a
flag; on every path the pieces written are compared with what the flag and the kinds of the children demand: nothing added inside mixed
content, one child per line otherwise. Reading: the text test and the text normaliser, judged as in C08 and C13."""
import itertools
import re
from terms import *
from semlib import short, parallel
from domlib import *
from domrules import opts, incomplete, ASSUME, find_norm, j13norm
from parserules import Unknown, Bad, iscall, helpers
from contentrules import Real, jhelp, Ends, Make
from posrules import s_watch
from summ import ELEMENT, s_pure
from treerules import known, lin

ALL = frozenset({"Text", "Element", "Comment", "CData"})
PURE = (ELEMENT + "::tag_name", "text_escape", "attribute_escape")
ITER = {"iter", "into_iter", "next", "any", "all", "find", "position", "map", "collect", "enumerate", "skip", "sort_by", "first", "last", "get", "len", "is_empty", "push", "index", "cloned", "copied"}
SHOW = f"<{ELEMENT} as dom::Node>::to_string_with_indent"


def ws_opts(p, key):
    o = opts(p)
    o["summaries"][key] = s_watch("rec")
    for q in PURE:
        if q in p.by_path:
            o["summaries"][p.by_path[q]] = s_pure(q)
    for q in ("Element", "Text", "Comment", "CData"):
        for m, n in (("to_string_with_indent", "ser:"), ("text", "text:")):
            k = p.by_path.get(f"<dom::{q} as dom::Node>::{m}")
            if k and k != key:
                o["summaries"][k] = s_pure(n + q)
    return o


def serializer(p):
    """the recursive function behind Element's to_string_with_indent"""
    from graphprops import graph
    g = graph(p)
    k = p.by_path.get(SHOW)
    if k is None:
        return None
    ks = [x for x in g.edges.get(k, {}) if x in p.bodies and x in g.edges.get(x, {}) and "inputs" in p.bodies[x]]
    ks = [x for x in ks if [p.ty(t) for t in p.bodies[x]["inputs"]].count(("bool",)) == 1]
    return ks[0] if len(ks) == 1 else None


class Root(Judge):
    """the call from outside: no prefix, the indent, nothing inline"""
    def roles(self):
        r = self.run
        if r.stopped:
            return None
        out = set()
        ind = self.e.deep(r.st0, r.args[1])
        for ev in r.e.events:
            if ev.kind == "watch" and ev.data["name"] == "rec":
                a = ev.data["args"]
                pre = [i for i, x in enumerate(a) if x.op == "lit" and x.a[0] == ""]
                idt = [i for i, x in enumerate(a) if x is ind or x.op == "lit" and x.a[0] and not x.a[0].strip(" \t")]
                fl = [(i, show(x)) for i, x in enumerate(a) if show(x) in ("true", "false")]
                if len(pre) != 1 or len(idt) != 1 or len(fl) != 1:
                    return None
                out.add((pre[0], idt[0], *fl[0]))
        return out.pop() if len(out) == 1 else None


def flat(v):
    return list(v.a[0]) if v.op == "cat" else [v]


class Writer(Judge):
    def __init__(self, p, key, roles):
        self.setup(p, key, ws_opts(p, key), 200)
        pre, ind, fl, loose = roles
        A = lambda i: self.e.deep(self.run.st0, self.run.args[i])
        self.ip, self.ii, self.fl = pre, ind, fl
        self.prefix, self.indent, self.flag = A(pre), A(ind), A(fl)
        self.loose = loose == "true"
        self.me = A(0)
        self.kids = dict(sfields(self.e, self.me, ELEMENT))["child_nodes"]
        self.lv = loops(self.run)
        self.opaque = None

    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        said, self.done = set(), {}
        for s, v in self.run.outs:
            try:
                for m in self.out(s, self.e.deep(s, v)):
                    if m not in said:
                        said.add(m)
                        self.ok(m)
            except Unknown as x:
                self.und(str(x))
            except Bad as x:
                self.bad(*x.args)
        return self.f.items

    # ---- pieces
    def ws(self, x):
        """a piece that is only whitespace put in by the serializer"""
        return x is self.prefix or x is self.indent or x.op == "lit" and x.a[0] != "" and not x.a[0].strip(" \t\n\r")

    def child(self, x):
        """child a piece stands for, or None"""
        for y in subs(x):
            if y.op == "elem" and y.a[0] is self.kids:
                return y
        return None

    def cell(self, v):
        for l in self.lv:
            if l.own(v) and l.nexts(v):
                return l
        return None

    def lists(self, s):
        """short lists of kinds of children that agree with everything known in s"""
        if self.opaque is None:
            from graphprops import graph
            g = graph(self.p)
            ks, todo = set(), [self.key]
            while todo:
                k = todo.pop()
                if k not in ks:
                    ks.add(k)
                    todo += [c for c in g.edges.get(k, {}) if not self.p.bodies[c]["path"].startswith("<") and self.p.bodies[c]["path"] not in PURE]
            self.opaque = sorted({q.rsplit("::", 1)[1] for k in ks for q, _, _ in g.ext.get(k, ()) if re.search(r"Iterator::\w+$|::iter::|slice::<impl|\bslice::\w+::|Vec::<", q)} - ITER)
        if self.opaque:
            raise Unknown(f"the children are looked at with {self.opaque[0]}")
        for b in s.bools:
            if b is self.flag or b.op == "not" and b.a[0] is self.flag:
                continue
            if any(y is self.kids for y in subs(b)) or any(y.op == "phi" for y in subs(b)):
                raise Unknown("whether the content is mixed")
        n = mk("vlen", self.kids)
        idle, scans = [], []  # (first position looked at, kinds while going on, counter)
        for l in self.lv:
            seen = set()
            for c in l.loc:
                for t, _ in l.nexts(c):
                    seen |= {k for k in t.kinds if k.op == "elem" and k.a[0] is self.kids and not is_const(lin(k.a[1])) and self.owned(l, k.a[1])}
            if not seen and not any(any(a is n for a, _ in co) and any(self.owned(l, a) for a, _ in co) for c in l.loc for t, _ in l.nexts(c) for co in t.lin):
                continue
            if any(self.child(y) is not None for c in l.loc for _, x in l.nexts(c) if x is not None and x.op == "cat" for y in flat(x)):
                continue  # the loop that writes the children
            cs = [(i, es) for i, k, es in l.counters() if k == 1 and any(lin(x.a[1]) is atom(i) for x in seen)]
            if len(cs) != 1:
                raise Unknown("a loop over the children")
            i, es = cs[0]
            st = {cval(lin(v)) if is_const(lin(v)) else None for v in es}
            if st - {0, 1, 2, 3} or len(st) != 1:
                raise Unknown("a loop over the children")
            if not self.used(s, l):
                if not s.entails(lplus(lneg(vlen(self.kids)), min(st))):
                    idle.append(i.a[0])
                continue
            at = set().union(*(self.kind_at(t, i) for c in l.loc for t, _ in l.nexts(c)))
            lo = st.pop()
            before = [set().union(*(self.e.kind_of(u, mkelem(self, j)) for u, _ in l.entries(i))) for j in range(lo)]
            scans.append((lo, before, at, i))
        if any(h not in {i.a[0] for _, _, _, i in scans} for h in idle):
            raise Unknown("a loop over the children")
        out = []
        for m in range(1, 7):
            if not self.fits(s, {n: m}):
                continue
            for ks in itertools.product(("Text", "Element", "Comment", "CData")[:4 if m < 4 else 2], repeat=m):
                if self.agrees(s, ks, n, scans):
                    out.append(ks)
        return out

    def used(self, s, l):
        return any(self.owned(l, a) for co in s.lin for a, _ in co) or any(self.owned(l, k.a[1]) for k in s.kinds if k.op == "elem")

    @staticmethod
    def owned(l, t):
        return any(y.op == "phi" and l.own(y) for y in subs(t))

    def fits(self, s, val):
        for co, c in s.lin.items():
            if all(a in val for a, _ in co) and sum(k * val[a] for a, k in co) + c < 0:
                return False
        return True

    def agrees(self, s, ks, n, scans):
        for k, v in s.kinds.items():
            if k.op == "elem" and k.a[0] is self.kids:
                x = lin(k.a[1])
                own = {i for _, _, _, i in scans}
                if any(t in own for t, _ in x.a[1]):
                    continue
                j = x.a[0]
                for t, c in x.a[1]:
                    if t is n:
                        j += c * len(ks)
                    elif t.op == "div" and lin(t.a[0]) is atom(n) and isinstance(t.a[1], int) and t.a[1] > 0:
                        j += c * (len(ks) // t.a[1])
                    else:
                        raise Unknown("which child is looked at")
                if not 0 <= j < len(ks) or ks[j] not in v:
                    return False
        vals = [{n: len(ks)}]
        for lo, before, at, i in scans:
            if len(ks) < lo or any(ks[j] not in before[j] for j in range(lo)):
                return False
            vals = [{**v, i: j} for v in vals for j in range(lo, len(ks) + 1)
                    if all(ks[x] in at for x in range(lo, j)) and (j >= len(ks) or ks[j] in self.kind_at(s, i, ALL))]
        return any(self.fits(s, v) for v in vals)

    def check_mode(self, s, style):
        f = s.eval(self.flag)
        if style == "loose" and f is not None and f is not self.loose:
            raise Bad("mixed-start", "whitespace is written after the opening tag in mixed content")
        m = self.mode(s)
        if m == "tight" and style == "loose":
            raise Bad("mixed-start", "whitespace is written between the children of an element with a text")
        if m == style:
            try:
                one = [ks for ks in self.lists(s) if len(ks) == 1 and ks[0] != "Element"] if m == "loose" else ()
            except Unknown:
                return
            if one:
                raise Bad("single", f"line breaks are written around a single child that is no element ({one[0][0]})")
            return
        ls = self.lists(s)
        if f is None and ls:
            if style == "loose":
                raise Bad("mixed-start", "whitespace is written after the opening tag in mixed content")
            raise Unknown("whether the element stands in mixed content")
        for ks in ls:
            w = " ".join(ks)
            if style == "loose" and "Text" in ks:
                raise Bad("mixed-some", f"whitespace is written between the children of an element with a text (children: {w})")
            if style == "tight" and "Text" not in ks:
                raise Bad("unmixed", f"no line breaks are written although no child is a text (children: {w})")
            if style == "loose" and len(ks) == 1 and ks[0] != "Element":
                raise Bad("single", f"line breaks are written around a single child that is no element ({w})")
        if not s.entails(lplus(lneg(vlen(self.kids)), 3)):
            raise Unknown("whether the content is mixed")

    def mode(self, s):
        """'tight': inside mixed content; 'loose': not, and none of the children is a text"""
        f = s.eval(self.flag)
        if f is not None and f is not self.loose:
            return "tight"
        for k, v in s.kinds.items():
            if k.op == "elem" and k.a[0] is self.kids and v == frozenset({"Text"}):
                return "tight"
        if f is None:
            return None
        # every child was looked at and none is a text
        for l in self.lv:
            for i, k, es in l.counters():
                if k != 1 or not s.entails(lsub(atom(i), vlen(self.kids))):
                    continue
                st = [lin(v) for _, v in l.entries(i)]
                if not all(is_const(v) and cval(v) in (0, 1) for v in st):
                    continue
                if any(cval(v) == 1 for v in st) and not all("Text" not in self.e.kind_of(u, mkelem(self, 0)) for u, _ in l.entries(i)):
                    continue
                ns = l.nexts(i)
                if ns and all("Text" not in self.kind_at(t, i) for t, _ in ns):
                    return "loose"
        return None

    def kind_at(self, t, i, other=frozenset({"Text"})):
        for k, v in t.kinds.items():
            if k.op == "elem" and k.a[0] is self.kids and lin(k.a[1]) is atom(i):
                return v
        return other

    def out(self, s, v):
        ps = flat(v)
        said = []
        base, rest = ps[0], ps[1:]
        l = self.cell(base) if base.op == "phi" else None
        if l is None:
            if base.op == "phi":
                self.opening(base, said)
            return self.short(s, rest, said)
        body = [x for _, x in l.nexts(base) if any(self.child(y) is not None for y in flat(x)[1:])]
        if not body:
            self.opening(base, said)
            return self.short(s, rest, said)
        m = self.loop(l, base, said)
        # closing tag
        first = rest[0] if rest else None
        if m == "tight" and first is not None and (self.ws(first) or first.op == "lit" and first.a[0][:1] in " \t\n\r"):
            raise Bad("mixed-close", "whitespace is written before the closing tag in mixed content")
        if m == "loose":
            if first is not self.prefix:
                if first is not None and (self.ws(first) or first.op == "lit" and first.a[0].startswith("</")):
                    raise Bad("close", "the closing tag is not indented like its element")
                raise Unknown(f"what stands before the closing tag: {short(show(first), 40) if first is not None else ''}")
            if len(rest) < 2 or not (rest[1].op == "lit" and rest[1].a[0].startswith("</")):
                raise Unknown("the closing tag")
        elif not (first is not None and first.op == "lit" and first.a[0].startswith("</")):
            raise Unknown("the closing tag")
        said.append("the closing tag follows " + ("the content directly" if m == "tight" else "on its own line, after the prefix"))
        return said

    def short(self, s, rest, said):
        """no loop over children: none, or one child that is not an element"""
        kids = [x for x in rest if self.child(x) is not None]
        if any(self.ws(x) for x in rest) or any(x.op == "lit" and (x.a[0] != x.a[0].strip(" \t\n\r") or "\n" in x.a[0]) for x in rest if kids or x.a[0] not in (" />",)):
            ks = self.e.kind_of(s, self.child(kids[0])) if kids else {}
            if kids and "Text" in ks:
                raise Bad("mixed-single", "whitespace is written around a text")
            raise Unknown("whitespace in an element without elements")
        if kids:
            if any("Element" in self.e.kind_of(s, self.child(x)) for x in kids):
                raise Unknown("an element written without a loop over the children")
            if len(kids) != 1 or not s.entails(lplus(lneg(vlen(self.kids)), 1)):
                raise Unknown("more than one child written without a loop")
            said.append("a single child that is no element is written directly between the tags")
        else:
            if not s.entails(lneg(lin(vlen(self.kids)))):
                raise Unknown("children that are not written")
            said.append("no children: nothing between the tags")
        return said

    def opening(self, base, said):
        """what is written before <name"""
        n = 0
        while base.op == "phi" and n < 4:
            n += 1
            l = [x for x in self.lv if x.own(base)]
            if not l:
                raise Unknown("the opening tag")
            nxt = None
            for s, x in l[0].entries(base):
                ps = flat(x)
                if ps[0].op == "phi":
                    nxt = ps[0]
                    continue
                self.open1(s, ps, said)
            if nxt is None or nxt is base:
                return
            base = nxt

    def open1(self, s, ps, said):
        f = s.eval(self.flag)
        while ps and ps[0].op == "lit" and ps[0].a[0] == "":
            ps = ps[1:]
        if f is None:
            raise Unknown("whether the element stands in mixed content")
        if f is not self.loose:
            if self.ws(ps[0]) or ps[0].op == "lit" and ps[0].a[0][:1] in " \t\n\r":
                raise Bad("mixed-open", "whitespace is written before an element in mixed content")
            if not (ps[0].op == "lit" and ps[0].a[0].startswith("<")):
                raise Unknown("the opening tag")
            said.append("in mixed content nothing is written before the tag")
        else:
            if ps[0] is not self.prefix:
                if ps[0].op == "lit" and ps[0].a[0].startswith("<"):
                    raise Bad("open", "an element on a line of its own is not indented")
                raise Unknown("what stands before the tag")
            said.append("on a line of its own the prefix is written before the tag")

    def loop(self, l, c, said):
        if c in self.done:
            if isinstance(self.done[c], Exception):
                raise self.done[c]
            return self.done[c]
        try:
            m = self.loop1(l, c, said)
        except (Unknown, Bad) as x:
            self.done[c] = x
            raise
        self.done[c] = m
        return m

    def loop1(self, l, c, said):
        modes, late = set(), None
        for s, x in l.entries(c):
            ps = flat(x)
            last = ps[-1]
            m = "loose" if last.op == "lit" and last.a[0].endswith("\n") or self.ws(last) else "tight"
            try:
                self.check_mode(s, m)
            except Unknown as y:
                late = late or y
            modes.add(m)
            if ps[0].op == "phi":
                self.opening(ps[0], said)
            else:
                self.open1(s, ps, said)
            tail = last.a[0] if last.op == "lit" else ""
            if not tail.endswith(">" if m == "tight" else ">\n"):
                raise Unknown("the end of the opening tag")
        if late is not None:
            raise late
        if len(modes) != 1:
            raise Unknown("mixed and other content in one loop")
        m = modes.pop()
        for s, x in l.nexts(c):
            ps = flat(x)
            if ps[0] is not c:
                raise Unknown("the output so far")
            ps = ps[1:]
            kid = next((self.child(y) for y in ps if self.child(y) is not None), None)
            if kid is None:
                if not ps:
                    raise Unknown("a child that is not written")
                raise Unknown("a piece without a child")
            kinds = set(self.e.kind_of(s, kid))
            if m == "loose":
                kinds.discard("Text")
                if not kinds:
                    continue
            self.turn(s, m, ps, kinds)
        said.append("mixed content: nothing is added between the children" if m == "tight" else "each child stands on a line of its own, indented one step more")
        return m

    def turn(self, s, m, ps, kinds):
        rec = [x for x in ps if iscall(x, "rec")]
        for x in rec:
            f = x.a[1][self.fl]
            f = {"true": True, "false": False}.get(show(f), s.eval(f))
            if f is None:
                raise Unknown("whether nested content counts as mixed")
            if m == "tight" and f is self.loose:
                raise Bad("mixed-nested", "an element nested in mixed content is written with indentation")
            if m == "loose":
                if f is not self.loose:
                    raise Bad("nested", "an element that does not stand in mixed content is written as if it did")
                if flat(x.a[1][self.ip]) != [self.prefix, self.indent] or x.a[1][self.ii] is not self.indent:
                    if known(x.a[1][self.ip]) and known(x.a[1][self.ii]):
                        raise Bad("depth", "a child element is not indented one step more than its parent")
                    raise Unknown("the indentation of a child element")
        pads = [x for x in ps if self.ws(x)]
        if m == "tight":
            if pads or any(x.op == "lit" and x.a[0] for x in ps):
                if pads:
                    raise Bad("mixed", f"whitespace is written between the children of mixed content")
                raise Unknown("what is written besides a child")
            return
        if not (ps[-1].op == "lit" and ps[-1].a[0] == "\n"):
            if not any(x.op == "lit" and "\n" in x.a[0] for x in ps):
                raise Bad("line", "no line break is written after a child")
            raise Unknown("what is written after a child")
        head = ps[:-2]
        if rec:
            if head:
                raise Bad("twice", "an element is indented twice") if all(self.ws(x) for x in head) else Unknown("what is written before a child")
        elif head != [self.prefix, self.indent]:
            if all(self.ws(x) for x in head):
                raise Bad("depth", "a child is not indented one step more than its parent")
            raise Unknown("what is written before a child")


def mkelem(A, i):
    for l in A.lv:
        for t, _ in [(u, v) for c in l.loc for u, v in l.entries(c)]:
            for k in t.kinds:
                if k.op == "elem" and k.a[0] is A.kids and is_const(lin(k.a[1])) and cval(lin(k.a[1])) == i:
                    return k
    return mk("elem", A.kids, const(i))


def jroot(p, key):
    j = Root()
    j.setup(p, p.by_path[SHOW], ws_opts(p, key), 60)
    return j.roles()


def jwrite(p, key, roles):
    return Writer(p, key, roles).judge()


def c26(p, rep):
    key = serializer(p)
    roles = None
    if key is not None:
        roles = parallel(p, [(jroot, (key,))])[0]
    if roles is None:
        rep.undecide("the element serializer does not carry a prefix, an indent and a flag through its recursion")
        rep.assumptions += ASSUME
        return
    jobs, names = [(jwrite, (key, roles))], [p.bodies[key]["path"]]
    H = helpers(p)
    for cls, k, own in ((Real, H.get("real"), None), (Make, p.by_path.get("dom::Text::new"), "dom::Text")):
        if k is not None:
            jobs.append((jhelp, (cls, k, own)))
            names.append(p.bodies[k]["path"])
    for k in find_norm(p):
        jobs.append((j13norm, (k,)))
        names.append(p.bodies[k]["path"])
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = [SHOW] + names
    rep.assumptions += ASSUME


CHECKS = {"C26": c26}
EXPLAIN = {"C26": "The element serializer interpreted with its recursion as an uninterpreted function: pieces written on every path compared with what the flag and the kinds of the children demand; the text test and text normaliser as in C08, C13."}
