"""C25: positions in parse errors.

The helper that turns a byte position into line and column is judged by the transfer relation of its loop; every error message that
names a line and column is judged where it is built: the position handed to the helper must be the start of the tag just found, or the
start of the text after the previous tag when that text is what the error is about."""
from terms import *
from semlib import short, parallel
from domlib import *
from domrules import opts, incomplete, ASSUME
from parserules import Unknown, Bad, iscall, Parse, Iter, parse_opts, helpers, unlin, PARSE
from summ import ufn
from treerules import known, lin
from accrules import known_in

MESSAGES = ("errors::ParsingError::new", "errors::NotSupportedError::new")


def s_watch(name):
    """as s_pure, but the facts known at the call are kept"""
    def f(eng, fr, st, blk, key, args, sub):
        out = eng.p.subst(eng.p.ty(eng.p.bodies[key]["output"]), sub)
        c = tuple(eng.deep(st, x) for x in args)
        eng.emit("watch", fr, st.fork(), blk, None, name=name, callee=key, args=c)
        return [(st, ufn(eng, name, c, out))]
    return f


def pos_opts(p, key):
    o = parse_opts(p)
    h = helpers(p)
    for q in MESSAGES:
        if q in p.by_path:
            o["summaries"][p.by_path[q]] = s_watch("msg")
    if h.get("elem") == key:
        o["summaries"].pop(key, None)
    elif "elem" in h:
        o["summaries"][h["elem"]] = s_watch("p:elem")
    return o


# ------------------------------------------------------------------ byte position -> line and column
class Line(Judge):
    def __init__(self, p, key):
        self.setup(p, key, opts(p), 120)
        self.lv = loops(self.run)

    def judge(self):
        r = self.run
        if incomplete(r, self.f) and r.stopped:
            return self.f.items
        said = set()
        for s, v in r.outs:
            try:
                m = self.out(s, self.e.deep(s, v))
                if m not in said:
                    said.add(m)
                    self.ok(m)
            except Unknown as x:
                self.und(str(x))
            except Bad as x:
                self.bad(*x.args)
        return self.f.items

    def split(self, v):
        """(cell, constant)"""
        v = lin(v)
        if v.op == "lin" and len(v.a[1]) == 1 and v.a[1][0][1] == 1 and v.a[1][0][0].op == "phi":
            return v.a[1][0][0], v.a[0]
        return None

    def out(self, s, v):
        if v.op != "agg" or len(v.a[3]) != 2:
            raise Unknown(f"the result {short(show(v), 60)}")
        text, pos = self.run.st0, None
        T, pos = self.e.deep(self.run.st0, self.run.args[0]), lin(self.e.deep(self.run.st0, self.run.args[1]))
        a, b = (self.split(x) for x in v.a[3])
        if a is None or b is None:
            raise Unknown(f"the result {short(show(v), 60)}")
        for l in self.lv:
            if not (l.own(a[0]) and l.own(b[0])):
                continue
            return self.relate(s, l, a, b, T, pos)
        raise Unknown("the loop that counts lines and columns")

    def relate(self, s, l, a, b, T, pos):
        at = None
        for c in l.loc:
            ns = l.nexts(c)
            if ns and all(any(x.op == "w" or x.op == "charat" for x in subs(v)) and any(x is c for x in subs(v)) for _, v in ns):
                at = c
        if at is None:
            byte = [x for t, _ in l.nexts(b[0]) for f in list(t.bools) + [y for q in t.lin for y, _ in q] for x in subs(f) if x.op in ("byte", "byteat") and x.a[0] is T]
            ns = [lin(v) for _, v in l.nexts(b[0])]
            if byte and len({x.a[1] for x in byte}) == 1 and lplus(atom(b[0]), 1) in ns and all(is_const(v) or v is lplus(atom(b[0]), 1) for v in ns):
                raise Bad("column-step", "the column counts bytes, not characters")
            raise Unknown("the position of the scan")
        ch = None
        for _, v in l.nexts(at):
            for x in subs(v):
                if x.op == "charat":
                    ch = x
        if ch is None or ch.a[0] is not T or lin(ch.a[1]) is not atom(at):
            raise Unknown("the characters the scan visits")
        for _, v in l.entries(at):
            if not (is_const(lin(v)) and cval(lin(v)) == 0):
                raise Unknown("where the scan starts")
        for (c, k), what in ((a, "line"), (b, "column")):
            for _, v in l.entries(c):
                v = lplus(lin(v), k)
                if not is_const(v):
                    raise Unknown(f"the {what} at the start")
                if cval(v) != 1:
                    raise Bad(what + "-start", f"the {what} of the first character is {cval(v)}, not 1" if not k or k < 0 else
                              f"the {what} counts the character at the position itself")
            for t, v in l.nexts(c):
                if t.entails(lsub(atom(at), pos)):
                    if lin(v) is not atom(c):
                        raise Bad(what + "-step", f"the {what} changes with a character that does not stand before the position") if known_in(v, c) else Unknown(f"the {what} after the position")
                    continue
                nl = self.newline(t, ch)
                w = lin(v)
                if nl is None:
                    raise Unknown("whether the character is a line break")
                if what == "line" or not nl:
                    exp = atom(c) if what == "line" and not nl else lplus(atom(c), 1)
                    if w is not exp:
                        d = lsub(w, exp)
                        if is_const(d) or is_const(w) or not any(x.op in ("fresh", "uninit") or x.op == "phi" and x is not c and x is not at for x in subs(w)):
                            raise Bad(what + "-step", f"the {what} is wrong after {'a line break' if nl else 'another character'}")
                        raise Unknown(f"the {what} after {'a line break' if nl else 'another character'}")
                else:
                    w = lplus(w, k)
                    if not is_const(w):
                        if self.split(v) and self.split(v)[0] is c:
                            raise Bad("column-step", "the column is not reset after a line break")
                        raise Unknown("the column after a line break")
                    if cval(w) != 1:
                        raise Bad("column-step", f"the column after a line break is {cval(w)}, not 1")
        B = atom(at)
        for t, _ in l.nexts(at):
            if not t.entails(lplus(lsub(pos, B), -1)) and not t.entails(lsub(B, pos)):
                if any(t.entails(lplus(lsub(pos, B), k)) for k in (0, 1, 2)):
                    raise Bad("stop", "the character at the position itself may be counted")
                for c, k, _ in l.counters():
                    if c is not at and k == 1 and t.entails(lplus(lsub(pos, atom(c)), -1)):
                        raise Bad("stop", "a count of characters is compared with the byte position")
                raise Unknown("whether the characters counted stand before the position")
        outs = l.exits_of(at)
        for _, t in outs or [(None, s)]:
            if not (t.entails(lsub(B, pos)) or t.entails(lsub(B, slen(T)))):
                if any(t.entails(lplus(lsub(B, pos), k)) for k in (1, 2, 3, 4)):
                    raise Bad("stop", "the last character before the position may not be counted")
                for c, k, _ in l.counters():
                    if c is not at and k == 1 and t.entails(lsub(atom(c), pos)):
                        raise Bad("stop", "a count of characters is compared with the byte position")
                raise Unknown("whether every character before the position is counted")
        return "line = 1 + line breaks before the position, column = 1 + characters since the last one"

    def newline(self, t, ch):
        for b, v in t.bools.items():
            if v and b.op == "eq" and ch in b.a and any(x.op == "ch" and x.a[0] not in (10, "\n") for x in b.a):
                return False
        for b, v in t.bools.items():
            if b.op == "eq" and ch in b.a:
                o = b.a[0] if b.a[1] is ch else b.a[1]
                if o.op == "ch" and o.a[0] in (10, "\n"):
                    return v
        return None


# ------------------------------------------------------------------ messages
class Messages(Parse):
    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        self.H = helpers(self.p)
        self.parse = self.path == PARSE
        if "line" not in self.H:
            self.und("no helper from byte position to line and column")
            return self.f.items
        if self.parse and not self.prepare():
            return self.f.items
        if self.parse:
            self.T = self.e.deep(self.run.st0, self.run.args[0])
        said = set()
        for ev in self.run.e.events:
            if ev.kind != "watch":
                continue
            try:
                f = self.message if ev.data["name"] == "msg" else self.call
                r = f(ev.st, ev.data["args"])
                if r and r not in said:
                    said.add(r)
                    self.ok(r)
            except Unknown as x:
                self.und(str(x))
            except Bad as x:
                self.bad(*x.args)
        return self.f.items

    def message(self, s, args):
        m = args[0]
        parts = m.a[0] if m.op == "cat" else (m,)
        head = "".join(x.a[0] for x in parts if x.op == "lit")
        name = f"'{short(head, 60)}'"
        where, before, r = [], "", None
        for x in parts:
            if x.op == "lit":
                before = x.a[0]
                continue
            if x.op == "istr":
                n = unlin(x.a[0])
                which = "line" if before.rstrip().endswith("line") else "column" if before.rstrip().endswith("column") else None
                at = [y for y in subs(n) if iscall(y, "p:line")]
                if which and not at and known(n):
                    raise Bad("number", f"{name}: names a {which} that is not that of a position in the input")
                if which and at:
                    i = ("line", "column").index(which)
                    if not (n.op == "fld" and n.a[0] is at[0]):
                        raise Bad("number", f"{name}: names another {which} than that of the position") if known(n) else Unknown(f"{name}: the {which}")
                    if n.a[2] != i:
                        raise Bad("swapped", f"{name}: names the {('line', 'column')[1 - i]} as the {which}")
                    r = self.position(s, at[0], name)
            before = ""
        return r

    def position(self, s, c, name):
        text, pos = c.a[1][0], lin(c.a[1][1])
        if not self.parse:
            return self.inside(s, text, pos, name)
        if text is not self.T:
            if any(x is self.T for x in subs(text)):
                raise Bad("text", f"{name}: the position is looked up in another text than the whole input")
            raise Unknown(f"{name}: the text the position is looked up in")
        it, old = self.current(s)
        if it is None:
            raise Unknown(f"{name}: the tag it is about")
        if it.lo is not None and pos is it.lo:
            return f"{name}: the start of the tag"
        if pos is it.pos:
            for v, k in s.var.items():
                if iscall(v, "p:real") and k == frozenset({1}) or iscall(v, "p:real") and set(k) == {1}:
                    b, l, h = self.cut(v.a[1][0])
                    if b is it.B and l is it.pos:
                        return f"{name}: the start of the text"
            raise Bad("position", f"{name}: names the end of the previous tag, not the start of the tag it is about")
        if it.hi is not None and pos is it.hi:
            raise Bad("position", f"{name}: names the end of the tag")
        if is_const(pos):
            raise Bad("position", f"{name}: names a fixed position")
        d = lsub(pos, it.lo) if it.lo is not None else None
        if d is not None and is_const(d):
            raise Bad("position", f"{name}: names a position {cval(d)} after the start of the tag")
        for o in old:
            if any(pos is lin(x) for x in (o.lo, o.hi) if x is not None):
                raise Bad("position", f"{name}: names the position of an earlier tag")
        if self.before_tag(pos):
            raise Bad("position", f"{name}: names the start of the tag before")
        raise Unknown(f"{name}: the position {short(show(pos), 60)}")

    def before_tag(self, pos):
        """pos is the start of the tag of the round before"""
        a = unlin(pos)
        for l in self.lv:
            if a.op == "phi" and l.own(a):
                ns = l.nexts(a)
                if any(self.startof(v) is not None for _, v in ns) and all(self.startof(v) is not None or lin(v) is atom(a) for _, v in ns):
                    return True
        return False

    def startof(self, v):
        v = unlin(v)
        if v.op == "fld" and v.a[0].op == "fld" and iscall(v.a[0].a[0], "p:tag") and v.a[0].a[2] == 0:
            return v.a[0].a[0]
        return None

    def cut(self, x):
        return sbase(x)

    def current(self, s):
        """(the tag found in this turn, earlier ones)"""
        calls = {t.a[0] for t in s.var if t.op == "fld" and iscall(t.a[0], "p:tag")}
        main = {pos for _, _, pos in self.main}
        pro = {pos for _, pos in self.prolog}
        its = [(unlin(c.a[1][1]), c) for c in calls]
        for cells in (main, pro):
            mine = [(x, c) for x, c in its if x in cells]
            if mine:
                if len(mine) != 1:
                    return None, []
                x, c = mine[0]
                return Iter(self, s, c, atom(x)), [Iter(self, s, d, lin(d.a[1][1])) for y, d in its if d is not c]
        return None, []

    # ---- the element helper: its text and the span it was given
    def roles(self):
        span = [i for i, a in enumerate(self.run.args) if self.tuple_of(i) is not None]
        return span[0] if len(span) == 1 else None

    def tuple_of(self, i):
        t = self.p.ty(self.run.body["inputs"][i])
        while t and t[0] == "ref":
            t = t[-1] if isinstance(t[-1], tuple) else t[1]
        return t if t and t[0] == "tuple" and len(t) == 3 or t and t[0] == "tuple" and len(t[1]) == 2 else None

    def inside(self, s, text, pos, name):
        i = self.roles()
        if i is None:
            raise Unknown(f"{name}: the span of the tag")
        v = self.e.deep(self.run.st0, self.run.args[i])
        j = [k for k, a in enumerate(self.run.args) if self.e.deep(self.run.st0, a) is text]
        if not j:
            if any(self.e.deep(self.run.st0, a) in set(subs(text)) for a in self.run.args):
                raise Bad("text", f"{name}: the position is looked up in another text than the whole input")
            raise Unknown(f"{name}: the text the position is looked up in")
        if j[0] == 0:
            raise Bad("text", f"{name}: the position is looked up in the tag, not in the whole input")
        a = unlin(pos)
        ends = [lin(x) for x in v.a[3]] if v.op == "agg" else [None, None]
        if pos is ends[0]:
            return f"{name}: the start of the span given"
        if pos is ends[1]:
            raise Bad("position", f"{name}: names the end of the tag")
        if is_const(pos) or ends[0] is not None and any(is_const(lsub(pos, x)) for x in ends):
            raise Bad("position", f"{name}: names another position than the start of the tag")
        raise Unknown(f"{name}: the position {short(show(pos), 60)}")

    def call(self, s, args):
        """the span handed to the element helper is that of the tag"""
        tag = [x for x in args if iscall(x, "p:strip")]
        span = [x for x in args if x.op == "agg" and len(x.a[3]) == 2 and str(x.a[0]) == "tuple"]
        if len(tag) != 1 or len(span) != 1 or self.T not in args:
            raise Unknown("what the element helper is given")
        b, l, h = sbase(tag[0].a[1][0])
        lo, hi = (lin(x) for x in span[0].a[3])
        if b is not self.T:
            raise Unknown("the tag the element helper is given")
        if lo is l and hi is h:
            return "the element helper is given the span of its tag"
        if lo is not l and (known(lo) or self.startof(l) is not None and self.before_tag(lo)):
            raise Bad("span", "the element helper is given another position than that of its tag")
        if lo is l:
            return "the element helper is given the span of its tag"
        raise Unknown("the span the element helper is given")


def jline(p, key):
    return Line(p, key).judge()


def jmsg(p, key):
    m = Messages()
    m.setup(p, key, pos_opts(p, key))
    return m.judge()


def c25(p, rep):
    h = helpers(p)
    if PARSE not in p.by_path or "line" not in h or "elem" not in h:
        rep.undecide("parse_str, or the helpers it uses for elements and positions, are not recognised")
        rep.assumptions += ASSUME
        return
    keys = [h["line"], p.by_path[PARSE], h["elem"]]
    merge(rep, parallel(p, [(jline, (keys[0],)), (jmsg, (keys[1],)), (jmsg, (keys[2],))]), [p.bodies[k]["path"] for k in keys])
    rep.cover["functions"] = [p.bodies[k]["path"] for k in keys]
    rep.assumptions += ASSUME


CHECKS = {"C25": c25}
EXPLAIN = {"C25": "Transfer relation of the loop that turns a byte position into line and column; every message that names a line and column judged where it is built."}
