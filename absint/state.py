"""Abstract state: memory plus facts about immutable terms, with entailment."""
from itertools import permutations
from terms import *

ALLKINDS = frozenset(["Element", "Text", "Comment", "CData"])


class State:
    __slots__ = ("mem", "lin", "bools", "var", "kinds", "bnd", "occ", "tags", "ghost", "ne", "cst", "_idx", "_memo", "trace")

    def __init__(self):
        self.mem = {}
        self.lin = {}  # coefs tuple -> smallest const known: sum + const >= 0
        self.bools = {}
        self.var = {}
        self.kinds = {}
        self.bnd = set()
        self.occ = set()
        self.tags = set()
        self.ghost = {}
        self.ne = set()
        self.cst = {}
        self._idx = None
        self._memo = {}
        self.trace = ()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.lin = dict(self.lin)
        s.bools = dict(self.bools)
        s.var = dict(self.var)
        s.kinds = dict(self.kinds)
        s.bnd = set(self.bnd)
        s.occ = set(self.occ)
        s.tags = set(self.tags)
        s.ghost = dict(self.ghost)
        s.ne = set(self.ne)
        s.cst = dict(self.cst)
        s._idx = self._idx
        s._memo = self._memo
        s.trace = self.trace
        return s

    # -------------------------------------------------------- linear facts
    def add_lin(self, l):
        """assume l >= 0; returns False when contradictory"""
        if not l.a[1]:
            return l.a[0] >= 0
        k, c = l.a[1], l.a[0]
        o = self.lin.get(k)
        if o is not None and o <= c:
            return True
        if self.entails(l):
            return True
        if self.entails(lplus(lneg(l), -1)):
            return False
        self.lin[k] = c
        self._idx = None
        self._memo = {}
        for n in list(self.ne):
            if n.a[1] == k or n.a[1] == lneg(l).a[1]:
                if not self._tighten_ne(n):
                    return False
        return True

    def _tighten_ne(self, n):
        """n != 0"""
        if self.entails(n):
            if self.entails(lneg(n)):
                return False
            return self.add_lin(lplus(n, -1))
        if self.entails(lneg(n)):
            return self.add_lin(lplus(lneg(n), -1))
        return True

    def index(self):
        if self._idx is None:
            self._idx = Index(self.lin)
        return self._idx

    def entails(self, l):
        """is l >= 0 in every concretization (sound, incomplete)"""
        if not l.a[1]:
            return l.a[0] >= 0
        r = self._memo.get(l)
        if r is None:
            r = _prove(self, dict(l.a[1]), l.a[0], 2, [80])
            if len(self._memo) > 20000:
                self._memo.clear()
            self._memo[l] = r
        return r

    def entails_eq(self, l):
        return self.entails(l) and self.entails(lneg(l))

    def same(self, x, y):
        return x is y or self.entails_eq(lsub(x, y))

    # -------------------------------------------------------- booleans
    def eval(self, b):
        """True / False / None"""
        o = b.op
        if o == "true":
            return True
        if o == "false":
            return False
        r = self.bools.get(b)
        if r is not None:
            return r
        if o == "not":
            r = self.eval(b.a[0])
            return None if r is None else not r
        if o == "ge":
            if self.entails(b.a[0]):
                return True
            if self.entails(lplus(lneg(b.a[0]), -1)):
                return False
            return None
        if o == "eqz":
            l = b.a[0]
            if self.entails_eq(l):
                return True
            if self.entails(lplus(l, -1)) or self.entails(lplus(lneg(l), -1)):
                return False
            if l in self.ne or lneg(l) in self.ne:
                return False
            return None
        if o == "and":
            rs = [self.eval(x) for x in b.a]
            if False in rs:
                return False
            return True if all(r is True for r in rs) else None
        if o == "or":
            rs = [self.eval(x) for x in b.a]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if o == "eq":
            x, y = b.a
            if x is y:
                return True
            cx, cy = self.cst.get(x, x), self.cst.get(y, y)
            if cx.op in ("ch", "lit") and cy.op in ("ch", "lit"):
                return cx is cy
            if cx is cy:
                return True
            if cx.op == "lit" or cy.op == "lit":
                s, l = (cy, cx) if cx.op == "lit" else (cx, cy)
                d = lsub(slen(s), num(utf8len(l.a[0])))
                if self.entails(lplus(d, -1)) or self.entails(lplus(lneg(d), -1)):
                    return False
                r = self.eval_starts(s, l.a[0])
                if r is False:
                    return False
            return None
        if o == "pr":
            n = b.a[0]
            if n == "starts_with" and b.a[2].op == "lit":
                return self.eval_starts(b.a[1], b.a[2].a[0])
            if n == "ends_with" and b.a[2].op == "lit":
                return self.eval_ends(b.a[1], b.a[2].a[0])
            if n == "contains" and b.a[2].op == "lit":
                s, p = b.a[1], b.a[2].a[0]
                if s.op == "lit":
                    return p in s.a[0]
                if s.op == "cat" and any(x.op == "lit" and p in x.a[0] for x in s.a[0]):
                    return True
            if n == "ch" and b.a[2].op == "ch":
                return char_pred(b.a[1], b.a[2].a[0])
            if n == "ch" and b.a[2] in self.cst:
                return char_pred(b.a[1], self.cst[b.a[2]].a[0])
        return None

    def eval_starts(self, s, p):
        if p == "":
            return True
        if s.op == "lit":
            return s.a[0].startswith(p)
        if s.op == "cat":
            h = s.a[0][0]
            if h.op == "lit":
                q = h.a[0]
                if q.startswith(p):
                    return True
                if not p.startswith(q):
                    return False
                return None
            if h.op == "slice" or h.op == "sym":
                r = self.eval_starts(h, p)
                if r is True:
                    return True
        base, lo, hi = sbase(s)
        if self.entails(lplus(lsub(num(utf8len(p)), slen(s)), -1)):
            return False
        for b, o, q in self.occ:
            if b is base and (o is lo or self.same(o, lo)):
                if q.startswith(p):
                    if self.entails(lsub(slen(s), num(utf8len(p)))):
                        return True
                elif not p.startswith(q):
                    if self.entails(lsub(slen(s), num(utf8len(q)))) or True:
                        # the text at lo is q; p differs from it inside the common prefix
                        return False
        for k, v in self.bools.items():
            if k.op == "pr" and k.a[0] == "starts_with" and k.a[1] is s and k.a[2].op == "lit":
                if v is False and p.startswith(k.a[2].a[0]):
                    return False
        return None

    def eval_ends(self, s, p):
        if p == "":
            return True
        if s.op == "lit":
            return s.a[0].endswith(p)
        base, lo, hi = sbase(s)
        n = utf8len(p)
        if self.entails(lplus(lsub(num(n), slen(s)), -1)):
            return False
        for b, o, q in self.occ:
            if b is base:
                e = lplus(o, utf8len(q))
                if e is hi or self.same(e, hi):
                    if q.endswith(p):
                        return True
                    if not p.endswith(q):
                        return False
        return None

    def assume(self, b, val=True):
        """add b == val; False when contradictory"""
        if b.op == "not":
            return self.assume(b.a[0], not val)
        r = self.eval(b)
        if r is not None:
            return r == val
        o = b.op
        if o == "ge":
            return self.add_lin(b.a[0] if val else lplus(lneg(b.a[0]), -1))
        if o == "eqz":
            l = b.a[0]
            if val:
                return self.add_lin(l) and self.add_lin(lneg(l))
            self.ne.add(l)
            return self._tighten_ne(l)
        if o == "and" and val:
            return all(self.assume(x, True) for x in b.a)
        if o == "or" and not val:
            return all(self.assume(x, False) for x in b.a)
        self.bools[b] = val
        if o == "eq" and val:
            x, y = b.a
            if y.op in ("ch", "lit"):
                self.cst[x] = y
            elif x.op in ("ch", "lit"):
                self.cst[y] = x
            if y.op == "lit" or is_str(x) or is_str(y):
                d = lsub(slen(x), slen(y))
                if not (self.add_lin(d) and self.add_lin(lneg(d))):
                    return False
                l, s = (y, x) if y.op == "lit" else (x, y)
                if l.op == "lit" and l.a[0]:
                    b_, lo, hi = sbase(s)
                    if not self.add_occ(b_, lo, l.a[0]):
                        return False
            if x.op == "ch" or y.op == "ch":
                c, k = (y, x) if x.op == "ch" else (x, y)
                d = lsub(wchar(c), wchar(k))
                if not (self.add_lin(d) and self.add_lin(lneg(d))):
                    return False
                if c.op == "charat":
                    if not self.add_occ(c.a[0], c.a[1], chr(k.a[0])):
                        return False
        if o == "eq" and not val:
            x, y = b.a
            if y.op == "lit" and y.a[0] == "":
                if not self.add_lin(lplus(slen(x), -1)):
                    return False
        if o == "pr" and val:
            n = b.a[0]
            if n == "starts_with" and b.a[2].op == "lit":
                base, lo, hi = sbase(b.a[1])
                p = b.a[2].a[0]
                if not self.add_lin(lsub(lsub(hi, lo), num(utf8len(p)))):
                    return False
                return self.add_occ(base, lo, p)
            if n == "ends_with" and b.a[2].op == "lit":
                base, lo, hi = sbase(b.a[1])
                p = b.a[2].a[0]
                if not self.add_lin(lsub(lsub(hi, lo), num(utf8len(p)))):
                    return False
                return self.add_occ(base, lplus(hi, -utf8len(p)), p)
            if n == "contains" and b.a[2].op == "lit":
                return self.add_lin(lplus(slen(b.a[1]), -utf8len(b.a[2].a[0])))
            if n in ("starts_with", "ends_with") and b.a[2].op not in ("lit",):
                # char predicate: first/last character is a boundary
                base, lo, hi = sbase(b.a[1])
                self.tags.add(("firstchar" if n == "starts_with" else "lastchar", b.a[1]))
                return self.add_lin(lplus(lsub(hi, lo), -1))
        return True

    # -------------------------------------------------------- string positions
    def add_occ(self, base, off, p):
        """literal p occurs in base at byte offset off"""
        if p == "" or (base, off, p) in self.occ:
            return True
        n = utf8len(p)
        if not self.add_lin(off):
            return False
        if not self.add_lin(lsub(slen(base), lplus(off, n))):
            return False
        for b, o, q in list(self.occ):
            if b is not base:
                continue
            if not self._overlap(off, p, o, q):
                return False
        self.occ.add((base, off, p))
        return True

    def _overlap(self, g, p, h, q):
        if not (p.isascii() and q.isascii()):
            return True
        for (g, p, h, q) in ((g, p, h, q), (h, q, g, p)):
            if self.entails(lsub(g, h)):
                d = 0
                while d < len(q):
                    seg = q[d:]
                    m = min(len(seg), len(p))
                    if seg[:m] == p[:m]:
                        break
                    d += 1
                if d > 0 and not self.add_lin(lplus(lsub(g, h), -d)):
                    return False
        return True

    def is_boundary(self, s, off, depth=0):
        """is byte offset off (relative) a char boundary of content s"""
        base, lo, hi = sbase(s)
        return self._bnd(base, ladd(lo, off), depth)

    def _bnd(self, base, x, depth=0):
        if is_const(x) and cval(x) == 0:
            return True
        L = slen(base)
        if x is L or self.same(x, L):
            return True
        if (base, x) in self.bnd:
            return True
        if base.op == "lit" and is_const(x):
            bs = base.a[0].encode("utf-8")
            k = cval(x)
            return 0 <= k <= len(bs) and (k == len(bs) or (bs[k] & 0xC0) != 0x80)
        if self.entails_eq(x):
            return True
        if base.op == "cat":
            off = num(0)
            for p in base.a[0]:
                d = lsub(x, off)
                if self.entails_eq(d):
                    return True
                n = slen(p)
                if depth < 3 and self.entails(d) and self.entails(lsub(n, d)):
                    return self.is_boundary(p, d, depth + 1)
                off = ladd(off, n)
            # relative to the end of an unknown prefix
        if base.op == "chstr":
            return False
        for b, o in self.bnd:
            if b is base and self.same(o, x):
                return True
        for b, o, p in self.occ:
            if b is base:
                d = lsub(x, o)
                if is_const(d):
                    k = cval(d)
                    bs = p.encode("utf-8")
                    if 0 <= k <= len(bs) and (k == len(bs) or (bs[k] & 0xC0) != 0x80):
                        return True
                elif self.entails_eq(d) or self.entails_eq(lplus(d, -utf8len(p))):
                    return True
        # slices of base known to start / end with one character
        return False

    def add_bnd(self, base, x):
        self.bnd.add((base, x))

    # -------------------------------------------------------- variants / kinds
    def variants(self, t, n):
        return self.var.get(t) or frozenset(range(n))

    def kindset(self, t):
        return self.kinds.get(t, ALLKINDS)


def is_str(t):
    if t.op in ("lit", "slice", "cat", "chstr"):
        return True
    ty = TYPES.get(t)
    if ty is None:
        return False
    while ty and ty[0] == "ref":
        ty = ty[2]
    return ty[0] == "str" or (ty[0] == "adt" and ty[1] == "std::string::String")


def char_pred(name, cp):
    c = chr(cp)
    if name == "whitespace":
        return c.isspace() and c not in "\x1c\x1d\x1e\x1f"
    if name == "ascii_alphabetic":
        return c.isascii() and c.isalpha()
    if name == "ascii_digit":
        return c in "0123456789"
    return None


def _bounds(t):
    b = ATOM_BOUNDS.get(t)
    return b if b else (None, None)


ZERO = "0"


class Index:
    """difference graph over the linear facts (longest paths) plus the facts with more than two atoms"""
    __slots__ = ("edges", "multi", "best", "bad", "atoms", "by")

    def __init__(self, lin):
        self.by = {}
        self.edges = {}      # n -> {x: w}: x - n >= w
        self.multi = []
        self.best = {}
        self.bad = False
        self.atoms = set()
        for k, c in lin.items():
            self.add(k, c)

    def add(self, k, c):
        n = len(k)
        for t, co in k:
            if t not in self.atoms:
                self.atoms.add(t)
                lo, hi = _bounds(t)
                if lo is not None:
                    self.edge(ZERO, t, lo)
                if hi is not None:
                    self.edge(t, ZERO, -hi)
        if n == 1:
            (t, co), = k
            if co > 0:
                self.edge(ZERO, t, -(c // co))      # co*t + c >= 0  ->  t >= ceil(-c/co)
            else:
                self.edge(t, ZERO, -(c // -co))     # t <= floor(c/-co)
            return
        if n == 2:
            (t, a), (u, b) = k
            if a == -b:
                if a < 0:
                    t, u, a = u, t, b
                self.edge(u, t, -(c // a))
                return
        self.multi.append((k, c))
        for t, co in k:
            self.by.setdefault((t, co > 0), []).append((k, c))

    def edge(self, n, x, w):
        d = self.edges.setdefault(n, {})
        if x not in d or d[x] < w:
            d[x] = w

    def longest(self, n):
        r = self.best.get(n)
        if r is not None:
            return r
        r = {n: 0}
        lo, hi = (None, None) if n is ZERO else _bounds(n)
        q = [n]
        if n is not ZERO and n not in self.atoms:
            if hi is not None:
                r[ZERO] = -hi
                q.append(ZERO)
        cnt = {}
        i = 0
        inq = set(q)
        lim = len(self.edges) + 5
        while i < len(q):
            u = q[i]
            i += 1
            inq.discard(u)
            du = r[u]
            for x, w in self.edges.get(u, {}).items():
                v = du + w
                o = r.get(x)
                if o is None or v > o:
                    r[x] = v
                    if x not in inq:
                        cnt[x] = cnt.get(x, 0) + 1
                        if cnt[x] > lim:
                            self.bad = True
                            self.best[n] = r
                            return r
                        inq.add(x)
                        q.append(x)
        self.best[n] = r
        return r

    def lb(self, p, n):
        """largest known w with p - n >= w, or None"""
        if p is n:
            return 0
        r = self.longest(n)
        w = r.get(p)
        if p is not ZERO and p not in self.atoms:
            lo, _ = _bounds(p)
            if lo is not None and ZERO in r:
                v = r[ZERO] + lo
                if w is None or v > w:
                    w = v
        return w

    def leaf(self, d, c):
        if not d:
            return c >= 0
        P, N = [], []
        tot = 0
        for t, k in d.items():
            tot += abs(k)
            if tot > 6:
                return False
            (P if k > 0 else N).extend([t] * abs(k))
        while len(P) < len(N):
            P.append(ZERO)
        while len(N) < len(P):
            N.append(ZERO)
        if len(P) == 1:
            w = self.lb(P[0], N[0])
            return self.bad or (w is not None and w + c >= 0)
        if len(P) > 3:
            return False
        ok = False
        m = [[self.lb(p, n) for n in N] for p in P]
        for perm in permutations(range(len(N))):
            s = c
            for i, j in enumerate(perm):
                w = m[i][j]
                if w is None:
                    break
                s += w
            else:
                if s >= 0:
                    ok = True
                    break
        return ok or self.bad


def _prove(st, d, c, depth, budget, used=()):
    """prove sum d + c >= 0 from facts"""
    ix = st.index()
    if ix.leaf(d, c):
        return True
    if depth == 0:
        return False
    fs = {}
    for t, k in d.items():
        for f in ix.by.get((t, k > 0), ()):
            fs[f] = 1
    for f in fs:
        fk, fc = f
        if f in used:
            continue
        budget[0] -= 1
        if budget[0] < 0:
            return False
        nd = dict(d)
        for t, co in fk:
            v = nd.get(t, 0) - co
            if v:
                nd[t] = v
            else:
                nd.pop(t, None)
        if sum(abs(v) for v in nd.values()) > 5:
            continue
        if _prove(st, nd, c - fc, depth - 1, budget, used + (f,)):
            return True
    return False
