"""C07: escaping is the character homomorphism of the entity table; unescaping consumes its input once."""
from terms import *
from semlib import Run, short, parallel
from domlib import *
from domrules import opts, incomplete
from state import char_pred, is_str

ENT = {"&": "&amp;", "<": "&lt;", ">": "&gt;", "'": "&apos;", '"': "&quot;"}
SPEC = {"text_escape": "&<>", "escape": "&<>'\"", "attribute_escape": "&<>'\""}
ALPHA = [chr(i) for i in range(32, 127)] + ["\t", "\n", "\r", "\u00e9", "\u4e2d", "\ufeff", "\U0001f600"]


def ident():
    return {c: c for c in ALPHA}


def compose(m, f):
    """apply the character map f to the outputs of m"""
    return {c: "".join(f.get(x, x) for x in o) for c, o in m.items()}


class Unknown(Exception):
    pass


class Wrong(Exception):
    def __init__(self, key, text):
        Exception.__init__(self, text)
        self.key = key


def about(b, c):
    return any(x is c for x in subs(b))


def feasible(s, c, k):
    """may the character term c be k in state s: (possible, certain-knowledge)"""
    sure = True
    v = s.cst.get(c)
    if v is not None:
        return (v.op == "ch" and chr(v.a[0]) == k), True
    for b, val in s.bools.items():
        if not about(b, c):
            continue
        r = evalc(b, c, k)
        if r is None:
            sure = False
        elif r != val:
            return False, True
    w = wchar(c)
    n = utf8len(k)
    if s.entails(lplus(lsub(w, num(n)), -1)) or s.entails(lplus(lsub(num(n), w), -1)):
        return False, True
    for l in (lsub(w, num(n)), lsub(num(n), w)):
        pass
    for kk in list(s.lin):
        for t, _ in kk:
            if t.op == "cast" and about(t, c):
                sure = False
    return True, sure


def evalc(b, c, k):
    o = b.op
    if o == "eq":
        x, y = b.a
        if x is c and y.op == "ch":
            return chr(y.a[0]) == k
        if y is c and x.op == "ch":
            return chr(x.a[0]) == k
        if y.op == "chstr" and y.a[0] is c and x.op == "lit" or x.op == "chstr" and x.a[0] is c and y.op == "lit":
            return (x if x.op == "lit" else y).a[0] == k
        return None
    if o == "pr" and b.a[0] == "ch" and b.a[2] is c:
        return char_pred(b.a[1], ord(k))
    if o == "or":
        rs = [evalc(x, c, k) for x in b.a]
        return True if True in rs else None if None in rs else False
    if o == "and":
        rs = [evalc(x, c, k) for x in b.a]
        return False if False in rs else None if None in rs else True
    if o == "not":
        r = evalc(b.a[0], c, k)
        return None if r is None else not r
    return None


def pieces(t):
    return list(t.a[0]) if t.op == "cat" else [] if t.op == "lit" and t.a[0] == "" else [t]


def strip_front(st, new, old):
    """pieces of new after its prefix old"""
    a, b = pieces(new), pieces(old)
    while b:
        if not a:
            return None
        x, y = a[0], b[0]
        if x is y:
            a, b = a[1:], b[1:]
            continue
        if x.op == "lit" and y.op == "lit" and x.a[0].startswith(y.a[0]):
            a = [lit(x.a[0][len(y.a[0]):])] + a[1:]
            b = b[1:]
            continue
        bx, lx, hx = sbase(x)
        by, ly, hy = sbase(y)
        if bx is by and st.same(lx, ly):
            if st.same(hx, hy):
                a, b = a[1:], b[1:]
                continue
            if st.entails(lsub(hx, hy)):
                a = [mkslice(bx, hy, hx)] + a[1:]
                b = b[1:]
                continue
        if st.same(slen(y), num(0)):
            b = b[1:]
            continue
        if st.same(slen(x), num(0)):
            a = a[1:]
            continue
        return None
    return [x for x in a if not st.same(slen(x), num(0))]


class Homo:
    """the character map a term applies to its base string"""

    def __init__(self, run):
        self.run = run
        self.loops = {}
        self.extra = set()

    def of(self, s, t, d=0):
        """-> (base term, map)"""
        if d > 12:
            raise Unknown("nesting")
        if t.op == "replace" and t.a[1].op == "lit" and t.a[2].op == "lit":
            p, r = t.a[1].a[0], t.a[2].a[0]
            if len(p) != 1:
                if p and len(set(p) & set(ENT)) == 0 and not any(ch_ in "&;" for ch_ in p):
                    raise Wrong("pattern", f"replaces {p!r}, which is not one of the special characters")
                raise Wrong("pattern", f"replaces {p!r} as a whole")
            b, m = self.of(s, t.a[0], d + 1)
            return b, compose(m, {p: r})
        if t.op == "join" and t.a[0].op == "collected" and t.a[1].op == "lit":
            i = t.a[0].a[0]
            if i.op == "agg" and str(i.a[0]) == "it:split":
                f = i.a[3]
                src, mode, lo, hi, pat = f[0], f[1], f[2], f[3], f[4]
                q = pat.a[0] if pat.op == "lit" else chr(pat.a[0]) if pat.op == "ch" else None
                if mode.op == "lit" and mode.a[0] == "split" and q and len(q) == 1 and is_const(lo) and cval(lo) == 0 and s.same(hi, slen(src)):
                    b, m = self.of(s, src, d + 1)
                    return b, compose(m, {q: t.a[1].a[0]})
        c = self.lead(t)
        if c is not None:
            return self.looped(s, t, c, d)
        return t, ident()

    def lead(self, t):
        ps = pieces(t)
        if ps and ps[0].op == "phi" and loop_of(self.run, ps[0]) is not None:
            return ps[0]
        return None

    def looped(self, s, t, c, d):
        l = loop_of(self.run, c)
        ns = l.nexts(c)
        if all(v is not None and v.op == "replace" and v.a[0] is c for _, v in ns) and t is c:
            return self.table(l, c, d)
        # accumulator over the characters of a string
        X, pos = None, None
        for k in l.ints():
            for b, v in l.nexts(k):
                w = lsub(v, atom(k)) if v is not None and v.op == "lin" else None
                if w is not None and len(w.a[1]) == 1 and w.a[0] == 0 and w.a[1][0][1] == 1:
                    u = w.a[1][0][0]
                    if u.op == "w" and u.a[0].op == "charat" and u.a[0].a[1] is atom(k):
                        X, pos = u.a[0].a[0], k
        if X is None:
            raise Unknown(f"text built by the loop at {short(l.ev.span)}")
        ch_ = typed(mk("charat", X, atom(pos)), ("char",))
        tail = pieces(t)[1:]
        if tail and not (len(tail) == 1 and tail[0].op == "slice" and tail[0].a[0] is X and s.same(tail[0].a[2], slen(X)) and cell(tail[0].a[1]) is not None and l.own(cell(tail[0].a[1]))):
            raise Unknown(f"text {show(t)}")
        A = cell(tail[0].a[1]) if tail else None

        def done(vacc, va, vpos):
            return cat([vacc] + ([mkslice(X, va, vpos)] if A is not None else []))
        m = {}
        H = l.heads[0]
        before = done(c, atom(A) if A is not None else None, atom(pos))
        alpha = list(ALPHA)
        for b, _ in ns:
            for z in list(b.bools):
                if about(z, ch_):
                    for y in subs(z):
                        if y.op == "ch" and chr(y.a[0]) not in alpha:
                            alpha.append(chr(y.a[0]))
        for b, v in ns:
            p2 = l.at(b, pos)
            if v is None or p2 is None or not b.same(lsub(p2, atom(pos)), wchar(ch_)):
                raise Unknown("a step that does not advance by one character")
            after = done(v, l.at(b, A) if A is not None else None, p2)
            self.step(b, ch_, strip_front(b, after, before), alpha, m)
        for e, v in l.entries(c):
            p0 = l.at(e, pos)
            a0 = l.at(e, A) if A is not None else None
            if v is None or p0 is None:
                raise Unknown("entry of the loop")
            v = done(v, a0, p0)
            c0 = typed(mk("charat", X, num(0)), ("char",))
            if is_const(p0) and cval(p0) == 0:
                if pieces(v):
                    raise Wrong("prefix", f"writes {show(v)} before the first character")
            elif e.same(p0, wchar(c0)):
                self.step(e, c0, pieces(v), alpha, m)
            else:
                raise Wrong("start", f"starts at {show(p0)}, not at the first character") if e.entails(lplus(p0, -1)) else Unknown("start of the loop")
        for _, x in l.exits_of(c):
            P = l.at(x, pos)
            if P is None or not x.entails(lsub(P, slen(X))):
                raise Unknown("the loop may end before the last character")
        b, m0 = self.of(s, X, d + 1)
        return b, {k: self.sub(m, o) for k, o in m0.items()}

    def sub(self, m, o):
        return "".join(m.get(x, x) for x in o)

    def step(self, b, c, ps, alpha, m):
        if ps is None:
            raise Unknown("a step that rewrites earlier output")
        for k in alpha:
            yes, sure = feasible(b, c, k)
            if not yes:
                continue
            out = ""
            for x in ps:
                if x.op == "lit":
                    out += x.a[0]
                elif x.op == "chstr" and (x.a[0] is c or b.cst.get(x.a[0]) is not None and b.cst.get(x.a[0]) is b.cst.get(c)):
                    out += k
                elif x.op == "slice" and x.a[0] is c.a[0] and b.same(x.a[1], c.a[1]) and b.same(slen(x), wchar(c)):
                    out += k
                elif x.op == "chstr" and x.a[0].op in ("call", "fld", "charfn", "upper", "lower"):
                    raise Wrong("char", f"writes {short(show(x))} for a character")
                else:
                    raise Unknown(f"writes {show(x)}")
            if m.setdefault(k, out) != out:
                if not sure:
                    raise Unknown(f"condition on the character at a step writing {out!r}")
                want = ENT.get(k, k)
                raise Wrong("twice", f"writes {k!r} in two ways, as {out!r} and {m[k]!r}")

    def table(self, l, c, d):
        """repeated replacement over a constant table"""
        out = None
        for b, v in l.nexts(c):
            els = [x for x in subs(v) if x.op == "elem" and x.a[0].op in ("vec", "agg")]
            if not els:
                raise Unknown("replacement loop")
            V, ix = els[0].a[0], cell(els[0].a[1])
            items = V.a[0] if V.op == "vec" else V.a[3]
            if ix is None or not l.own(ix):
                raise Unknown("replacement loop")
            for e, n0 in l.entries(ix):
                if not (is_const(n0) and cval(n0) == 0):
                    raise Unknown("start of the replacement loop")
            for b2, n2 in l.nexts(ix):
                if n2 is not lplus(atom(ix), 1):
                    raise Unknown("step of the replacement loop")
            for _, x in l.exits_of(c):
                if not x.entails(lsub(l.at(x, ix), num(len(items)))):
                    raise Unknown("end of the replacement loop")
            steps = []
            for it in items:
                pq = []
                for y in (v.a[1], v.a[2]):
                    if y.op == "fld" and y.a[0] is els[0] and it.op == "agg":
                        y = it.a[3][y.a[2]]
                    elif y.op == "chstr" and y.a[0].op == "fld" and y.a[0].a[0] is els[0] and it.op == "agg":
                        y = it.a[3][y.a[0].a[2]]
                    w = y
                    if w.op == "ch":
                        w = lit(chr(w.a[0]))
                    if w.op != "lit":
                        raise Unknown("entry of the replacement table")
                    pq.append(w.a[0])
                if len(pq[0]) != 1:
                    raise Wrong("pattern", f"replaces {pq[0]!r} as a whole")
                steps.append(tuple(pq))
            if out is not None and out != steps:
                raise Unknown("replacement loop")
            out = steps
        b0 = None
        for e, v in l.entries(c):
            b, m = self.of(e, v, d + 1)
            for p, r in out:
                m = compose(m, {p: r})
            if b0 is not None and (b0[0] is not b or b0[1] != m):
                raise Unknown("entry of the replacement loop")
            b0 = (b, m)
        return b0


def absent(s, X, k):
    """X certainly does not contain the character k"""
    if s.same(slen(X), num(0)):
        return True
    return s.eval(typed(mk("pr", "contains", X, lit(k)), ("bool",))) is False


OPTESC = {"absent": "&<>'\"", "itloops": True, "width": 500, "unroll": True}


class Escape(Judge):
    def __init__(self, p, key, special):
        o = opts(p)
        o.update(OPTESC)
        self.setup(p, key, o)
        self.special = special

    def judge(self):
        run = self.run
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        X = run.arg0(0)
        h = Homo(run)
        want = {c: (ENT[c] if c in self.special else c) for c in ALPHA}
        for s, v in run.outs:
            v = run.e.deep(s, v)
            try:
                b, m = h.of(s, v)
            except Unknown as x:
                self.und(str(x))
                continue
            except Wrong as x:
                self.bad(x.key, str(x))
                continue
            if b is not X and not s.same(slen(X), num(0)):
                if b.op == "lit" and X in s.cst and s.cst[X] is b:
                    pass
                elif b.op in ("slice", "strfn") and any(y is X for y in subs(b)):
                    self.bad("part", f"escapes only {show(b)} of the text")
                    continue
                else:
                    self.und(f"result {show(v)}")
                    continue
            elif b is not X:
                if b.op == "lit" and b.a[0] == "":
                    self.ok("nothing is written for the empty text")
                elif b.op == "lit":
                    self.bad("empty", f"writes {b.a[0]!r} for the empty text")
                continue
            for c in m:
                w = want.get(c, c)
                if m[c] == w:
                    continue
                if absent(s, X, c):
                    continue
                if m[c] == c and b is v and (loops(run) or run.e.unknown or any(y.op == "fresh" for z in s.bools for y in subs(z))):
                    self.und(f"{c!r} is left as it is on a path whose condition is not understood")
                    break
                k = "raw" if m[c] == c else "map"
                self.bad(f"{k}-{c}", f"{c!r} is written as {m[c]!r} instead of {w!r}")
            else:
                self.ok("writes " + ", ".join(ENT[c] for c in self.special) + " for exactly those characters")
        return self.f.items


def j07e(p, key, special):
    return Escape(p, key, special).judge()


# ------------------------------------------------------------------ unescape
def known_char(s, base, x, k):
    """is the character at offset x of base certainly k: True / False / None"""
    r = None
    for b, o, t in s.occ:
        if b is base and t.isascii():
            d = lsub(x, o)
            if is_const(d):
                i = cval(d)
                if 0 <= i < len(t):
                    return t[i] == k
            else:
                for i, y in enumerate(t):
                    if s.same(d, num(i)):
                        return y == k
    return r


def known_text(s, base, x, text):
    rs = [known_char(s, base, lplus(x, i), c) for i, c in enumerate(text)]
    return False if False in rs else True if all(r is True for r in rs) else None


class Unescape(Judge):
    def __init__(self, p, key):
        o = opts(p)
        o.update(OPTESC)
        self.setup(p, key, o)
        self.done = set()

    def judge(self):
        run = self.run
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        self.X = run.arg0(0)
        self.LS = loops(run)
        self.seen = {}
        for s, v in run.outs:
            v = run.e.deep(s, v)
            try:
                if v is self.X:
                    if absent(s, v, "&"):
                        self.ok("text without '&' is returned as it is")
                    else:
                        raise Unknown("the text is returned as it is")
                    continue
                t = self.template(s, v)
                if t is None:
                    raise Unknown(f"result {show(v)}")
                self.exit(s, t)
                if t[1:3] not in self.done:
                    self.done.add(t[1:3])
                    self.loop(t)
            except Unknown as x:
                self.und(str(x))
            except Wrong as x:
                self.bad(x.key, str(x))
        return self.f.items

    def template(self, s, v):
        """(loop, accumulator, rest cell, mode)"""
        ps = pieces(v)
        if not ps or ps[0].op != "phi":
            return None
        c = ps[0]
        l = loop_of(self.run, c)
        if l is None:
            return None
        if len(ps) == 1:
            ks = set()
            for b in l.backs:
                for z in list(b.bools) + [l.at(b, c)]:
                    for y in subs(z) if z is not None else ():
                        if y.op == "slice" and y.a[0] is c and cell(y.a[1]) is not None and l.own(cell(y.a[1])):
                            ks.add(cell(y.a[1]))
            if len(ks) == 1:
                return (l, c, ks.pop(), "A")
            for k in l.loc:
                if k is not c and (is_str_cell(k) or any(n is not None and n.op == "slice" for _, n in l.nexts(k))) and s.same(slen(k), num(0)):
                    return (l, c, k, "C")
            for k in l.ints():
                if s.entails(lsub(atom(k), slen(self.X))) and any(n is not None and n is not atom(k) for _, n in l.nexts(k)):
                    return (l, c, k, "B")
            return None
        if len(ps) == 2:
            y = ps[1]
            if y.op == "phi" and l.own(y):
                return (l, c, y, "C")
            if y.op == "slice" and cell(y.a[1]) is not None and l.own(cell(y.a[1])) and s.same(y.a[2], slen(y.a[0])):
                return (l, c, cell(y.a[1]), "B") if y.a[0] is self.X else None
        return None

    def dr(self, t, get):
        l, c, k, m = t
        if m == "A":
            B, P = get(c), get(k)
            if B is None or P is None:
                return None
            return mkslice(B, num(0), P), mkslice(B, P, slen(B))
        if m == "B":
            P = get(k)
            return (get(c), mkslice(self.X, P, slen(self.X))) if P is not None and get(c) is not None else None
        return (get(c), get(k)) if get(c) is not None and get(k) is not None else None

    def head(self, t):
        return self.dr(t, lambda x: x if x.op == "phi" and ((type_of(x) or ("",))[0] != "int" and x not in ATOM_BOUNDS) else atom(x))

    def exit(self, s, t):
        D, R = self.head(t)
        if s.same(slen(R), num(0)) or s.entails(lneg(slen(R))):
            self.ok("ends when the input is used up")
            return
        if absent(s, R, "&"):
            self.ok("ends when no '&' is left")
            return
        base, lo, hi = sbase(R)
        for b, v in s.bools.items():
            if b.op == "pr" and b.a[0] == "contains" and v is False and b.a[2].op == "lit" and b.a[2].a[0] == ";":
                b2, l2, h2 = sbase(b.a[1])
                if b2 is base and s.same(h2, hi) and self.first(s, base, lo, l2, True):
                    self.ok("ends when no ';' is left")
                    return
        raise Wrong("stops", f"may stop while text that may hold entities is left ({short(show(R))})") if not self.murky(s, R) else Unknown("end of the scan")

    def murky(self, s, R):
        return bool(self.e.unknown) or any(y.op in ("fresh", "call", "app") for b in s.bools for y in subs(b))

    def first(self, s, base, lo, q, upto=False):
        """no '&' in base[lo..q)"""
        if s.same(lo, q):
            return True
        d = lsub(q, lo)
        for x in subs(d):
            if x.op == "find" and x.a[1].op == "lit" and x.a[1].a[0] == "&":
                b, l, h = sbase(x.a[0])
                if b is base and s.same(l, lo):
                    e = lsub(atom(x), d)
                    if s.same(e, num(0)) or upto and is_const(e) and cval(e) >= -1:
                        return True
        return False

    def loop(self, t):
        l, c, k, m = t
        D0, R0 = self.head(t)
        for e, v in l.entries(c):
            z = self.dr(t, lambda x: l.at(e, x))
            if z is None:
                raise Unknown("start of the scan")
            if not (z[0].op == "lit" and z[0].a[0] == "") and not e.same(slen(z[0]), num(0)):
                if any(True for y in subs(z[0]) if y.op == "find") and m != "A":
                    raise Unknown("start of the scan")
                raise Wrong("start", f"starts the scan after {show(z[0])}") if z[0].op == "slice" else Unknown("start of the scan")
            if z[1] is not self.X:
                raise Unknown("start of the scan")
        self.ok("the scan starts at the beginning of the text")
        for b in l.backs:
            z = self.dr(t, lambda x: l.at(b, x))
            if z is None:
                raise Unknown("a step of the scan")
            try:
                self.step(b, D0, R0, *z)
            except Unknown as x:
                self.und(str(x))
            except Wrong as x:
                self.bad(x.key, str(x))

    def step(self, s, D0, R0, D1, R1):
        base, lo, hi = sbase(R0)
        if D1.op == "slice" and D1.a[0].op == "cat" and is_const(D1.a[1]) and cval(D1.a[1]) == 0:
            # the scan position lies inside a part of the rewritten buffer
            off = num(0)
            for x in D1.a[0].a[0]:
                end = ladd(off, slen(x))
                dd = lsub(D1.a[2], end)
                if is_const(dd) and cval(dd) != 0 and x.op in ("lit", "chstr"):
                    raise Wrong("position", f"continues {abs(cval(dd))} byte(s) {'before' if cval(dd) < 0 else 'after'} the end of the replacement")
                if x.op in ("lit", "chstr"):
                    over = lsub(D1.a[2], end)
                    at = [y for y, _ in over.a[1] if y not in [z for z, _ in slen(x).a[1]]]
                    if at and all(y.op in ("phi", "find", "len") for y in at) and not s.entails(lneg(over)) and not s.entails(over):
                        raise Wrong("position", "continues at a position that depends on the length of the reference, not at the end of its replacement")
                dd = lsub(D1.a[2], off)
                if x.op in ("lit", "chstr") and s.same(dd, num(0)):
                    raise Wrong("position", "reads the text it has just written again")
                off = end
            raise Unknown(f"scan position {short(show(D1.a[2]))}")
        Y = strip_front(s, D1, D0)
        if Y is None:
            raise Unknown(f"step that writes {short(show(D1))}")
        if R1.op == "lit" and R1.a[0] == "":
            nlo = hi
        else:
            b2, nlo, h2 = sbase(R1)
            if b2 is not base or not s.same(h2, hi):
                if R1.op == "cat" and any(sbase(x)[0] is base for x in pieces(R1)):
                    raise Wrong("reread", f"text it has produced is read again ({short(show(R1))})")
                raise Unknown(f"remaining text {short(show(R1))}")
        q = lo
        while Y and sbase(Y[0])[0] is base and s.same(sbase(Y[0])[1], q):
            q = sbase(Y[0])[2]
            Y = Y[1:]
        if len(Y) == 1 and Y[0].op == "chstr" and Y[0].a[0].op == "charat" and Y[0].a[0].a[0] is base and s.same(Y[0].a[0].a[1], q):
            q = ladd(q, wchar(Y[0].a[0]))
            Y = []
        if not Y:
            if s.same(q, nlo):
                return self.copied(s, base, lo, hi, q)
            if s.entails(lplus(lsub(nlo, q), -1)):
                raise Wrong("drops", f"drops the text at {short(show(q))}")
            if s.entails(lplus(lsub(q, nlo), -1)):
                raise Wrong("reread", "copies text and reads it again")
            raise Unknown("a step of the scan")
        if not self.first(s, base, lo, q):
            raise Unknown("position of the replaced entity")
        if len(Y) != 1:
            raise Unknown(f"writes {short(' '.join(show(y) for y in Y))}")
        y = Y[0]
        if y.op == "lit":
            if s.same(lsub(nlo, q), num(utf8len(y.a[0]))) and (known_text(s, base, q, y.a[0]) or y.a[0] == "&" and not s.same(lo, q)):
                return self.copied(s, base, lo, hi, nlo)
            if y.a[0] not in ENT:
                raise Wrong("other", f"writes {y.a[0]!r} for an entity")
            e = ENT[y.a[0]]
            kt = known_text(s, base, q, e)
            n = lsub(nlo, q)
            if kt is True and s.same(n, num(len(e))):
                return self.ok(f"{e} becomes {y.a[0]}")
            for o, e2 in ENT.items():
                if o != y.a[0] and known_text(s, base, q, e2) is True:
                    raise Wrong("wrong", f"{e2} becomes {y.a[0]!r}")
            if kt is True and is_const(lsub(n, num(len(e)))):
                raise Wrong("extent", f"replaces {len(e) + cval(lsub(n, num(len(e))))} bytes for {e}")
            if known_text(s, base, q, e[:-1]) is True and kt is None and s.same(n, num(len(e) - 1)):
                raise Wrong("semicolon", f"decodes {e[:-1]} without its semicolon")
            if kt is False:
                raise Wrong("wrong", f"writes {y.a[0]!r} for text other than {e}")
            if any(b.op == "pr" and b.a[0] in ("eqic",) for b in s.bools) or any(x.op == "strfn" for b in s.bools for x in subs(b)):
                raise Wrong("case", f"writes {y.a[0]!r} for text that may differ from {e} in letter case")
            if any(b.op == "pr" and b.a[0] in ("starts_with", "ends_with", "contains") and v for b, v in s.bools.items() if b.a and b.op == "pr" and b.a[2].op == "lit" and len(b.a[2].a[0]) > 1) and not self.murky(s, None):
                raise Wrong("loose", f"writes {y.a[0]!r} for text not compared with {e} as a whole")
            raise Unknown(f"condition under which {y.a[0]!r} is written")
        if y.op == "chstr" and any(x.op in ("from_u32", "parseint") for x in subs(y)):
            src = [x for x in subs(y) if x.op == "slice" and x.a[0] is base]
            if known_text(s, base, q, "&#") is not True:
                raise Unknown("condition under which a number is decoded")
            if known_char(s, base, lplus(nlo, -1), ";") is not True:
                raise Wrong("semicolon", "decodes a numeric reference not ended by a semicolon") if not self.murky(s, None) else Unknown("end of a numeric reference")
            if any(s.same(x.a[2], lplus(nlo, -1)) for x in src):
                return self.ok("a numeric reference becomes its character")
            raise Unknown("number that is decoded")
        raise Unknown(f"writes {short(show(y))}")

    def copied(self, s, base, lo, hi, n):
        """base[lo..n) is copied: does it hide an entity"""
        if self.first(s, base, lo, n):
            return self.ok("text before the next '&' is copied")
        # position of the first '&'
        q = None
        for x in subs(lsub(n, lo)):
            if x.op == "find" and x.a[1].op == "lit" and x.a[1].a[0] == "&":
                b, l, h = sbase(x.a[0])
                if b is base and s.same(l, lo):
                    q = ladd(lo, atom(x))
        if q is None:
            c = typed(mk("charat", base, lo), ("char",))
            if s.same(n, ladd(lo, wchar(c))):
                yes, sure = feasible(s, c, "&")
                if not yes:
                    return self.ok("a character other than '&' is copied")
                q = lo
            elif known_char(s, base, lo, "&"):
                q = lo
        if q is None:
            raise Unknown(f"copies text up to {short(show(n))}")
        for o, e in ENT.items():
            r = self.possible(s, base, q, e)
            if r is True:
                if self.murky(s, None):
                    raise Unknown(f"condition under which {e} is left as it is")
                raise Wrong("left", f"may leave {e} undecoded")
        if known_text(s, base, q, "&#") is True:
            if not self.nosemi(s, base, q) and not any(t.op in ("parseint", "from_u32") or any(x.op in ("parseint", "from_u32") for x in subs(t)) for t in s.var):
                if self.murky(s, None):
                    raise Unknown("condition under which a numeric reference is left as it is")
                raise Wrong("left", "may leave a numeric reference undecoded")
        d = lsub(n, q)
        if s.same(d, num(1)):
            return self.ok("an '&' that starts no entity is copied alone")
        for b, v in s.bools.items():
            if b.op == "pr" and b.a[0] == "contains" and v is False and b.a[2].op == "lit" and b.a[2].a[0] == "&":
                b2, l2, h2 = sbase(b.a[1])
                if b2 is base and s.entails(lsub(lplus(q, 1), l2)) and s.entails(lsub(h2, n)):
                    return self.ok("text without '&' is copied")
        if s.entails(lplus(d, -2)) and not self.murky(s, None) and not any(known_amp(l, base) for l in self.LS):
            raise Wrong("skips", "copies text after an '&' without looking for entities in it")
        raise Unknown(f"copies text up to {short(show(n))}")

    def possible(self, s, base, q, e):
        """may entity e stand at q in state s"""
        s = s.fork()
        if not s.add_occ(base, q, e):
            return False
        last = lplus(q, len(e) - 1)
        facts = list(s.bools.items())
        for l in self.LS:
            for j in l.ints():
                offs = self.skips(l, j, base)
                if offs is None:
                    continue
                pos = ladd(atom(j), offs)
                here = typed(mk("charat", base, pos), ("char",))
                st = s.bools.get(mk("eq", ch(59), here))
                if st is None:
                    st = s.bools.get(mk("eq", here, ch(59)))
                starts = [n0 for _, n0 in l.entries(j)]
                if not all(n0 is not None and s.entails(lsub(last, ladd(n0, offs))) for n0 in starts):
                    continue
                if st is True or known_char(s, base, pos, ";") is True:
                    d = lsub(pos, last)
                    if not (s.add_lin(d) and s.add_lin(lneg(d))):
                        return False
                elif s.entails(lsub(pos, slen(base))):
                    return False
        for b, v in facts:
            for x in subs(b):
                if x.op == "find" and x.a[1].op == "lit" and x.a[1].a[0] == ";":
                    b2, l2, h2 = sbase(x.a[0])
                    if b2 is base and s.entails(lsub(last, l2)) and s.same(h2, slen(base)):
                        d = lsub(ladd(l2, atom(x)), last)
                        if not (s.add_lin(d) and s.add_lin(lneg(d))):
                            return False
            if b.op == "pr" and b.a[0] == "contains" and v is False and b.a[2].op == "lit" and b.a[2].a[0] == ";":
                b2, l2, h2 = sbase(b.a[1])
                if b2 is base and s.entails(lsub(last, l2)) and s.same(h2, slen(base)):
                    return False
        for k in list(s.lin):
            for x, _ in k:
                if x.op == "find" and x.a[1].op == "lit" and x.a[1].a[0] == ";":
                    b2, l2, h2 = sbase(x.a[0])
                    if b2 is base and s.entails(lsub(last, l2)) and s.same(h2, slen(base)):
                        d = lsub(ladd(l2, atom(x)), last)
                        if not (s.add_lin(d) and s.add_lin(lneg(d))):
                            return False
        for b, v in facts:
            r = self.truth(s, base, b)
            if r is not None and r != v:
                return False
        return True

    def nosemi(self, s, base, q):
        """no ';' at or after q"""
        for b, v in s.bools.items():
            if b.op == "pr" and b.a[0] == "contains" and v is False and b.a[2].op == "lit" and b.a[2].a[0] == ";":
                b2, l2, h2 = sbase(b.a[1])
                if b2 is base and s.entails(lsub(lplus(q, 2), l2)) and s.same(h2, slen(base)):
                    return True
        for l in self.LS:
            for j in l.ints():
                offs = self.skips(l, j, base)
                if offs is not None and s.entails(lsub(ladd(atom(j), offs), slen(base))):
                    if all(n0 is not None and s.entails(lsub(lplus(q, 2), ladd(n0, offs))) for _, n0 in l.entries(j)):
                        return True
        return False

    def truth(self, s, base, b):
        if b.op == "eq":
            x, y = b.a
            t, z = (x, y) if x.op in ("lit", "ch") else (y, x)
            if t.op == "ch" and z.op == "charat" and z.a[0] is base:
                return known_char(s, base, z.a[1], chr(t.a[0]))
            if t.op == "lit":
                b2, lo, hi = sbase(z)
                if b2 is not base:
                    return None
                n = num(utf8len(t.a[0]))
                if s.same(lsub(hi, lo), n):
                    return known_text(s, base, lo, t.a[0])
                if s.entails(lplus(lsub(lsub(hi, lo), n), -1)) or s.entails(lplus(lsub(n, lsub(hi, lo)), -1)):
                    return False
                if known_text(s, base, lo, t.a[0]) is False:
                    return False
            return None
        if b.op == "pr" and b.a[0] == "starts_with" and b.a[2].op == "lit":
            b2, lo, hi = sbase(b.a[1])
            if b2 is not base:
                return None
            k = known_text(s, base, lo, b.a[2].a[0])
            if k is True and not s.entails(lsub(lsub(hi, lo), num(utf8len(b.a[2].a[0])))):
                return None
            return k
        return None

    def skips(self, l, j, base):
        """offset o such that the loop passes only over characters base[j+o] other than ';'"""
        r = None
        for b, n in l.nexts(j):
            hit = None
            for z, v in b.bools.items():
                if z.op == "eq" and v is False and any(y.op == "ch" and y.a[0] == 59 for y in z.a):
                    w = z.a[0] if z.a[0].op == "charat" else z.a[1]
                    if w.op == "charat" and w.a[0] is base:
                        o = lsub(w.a[1], atom(j))
                        if n is ladd(atom(j), wchar(w)) or n is not None and n.op == "lin" and b.same(n, ladd(atom(j), wchar(w))):
                            hit = o
            if hit is None or r is not None and r is not hit:
                return None
            r = hit
        return r


def known_amp(l, base):
    """does the loop test characters for '&'"""
    return any(z.op == "eq" and any(y.op == "ch" and y.a[0] == 38 for y in z.a) for b in l.backs for z in b.bools)


def is_str_cell(k):
    return is_str(k)


def j07u(p, key):
    return Unescape(p, key).judge()


def c07(p, rep):
    """C07: escapes are the entity table, character by character; unescape consumes its input exactly once"""
    jobs, names = [], []
    for n, sp in SPEC.items():
        if n in p.by_path:
            jobs.append((j07e, (p.by_path[n], sp)))
            names.append(n)
        else:
            rep.undecide(f"{n} not found")
    if "unescape" in p.by_path:
        jobs.append((j07u, (p.by_path["unescape"],)))
        names.append("unescape")
    else:
        rep.undecide("unescape not found")
    merge(rep, parallel(p, jobs), names)


CHECKS = {"C07": c07}
EXPLAIN = {"C07": "Escapes: the map from characters to text computed by each function, compared with the entity table for every character class. unescape: on every transition of its loop, what is copied, decoded and left for the next turn."}
