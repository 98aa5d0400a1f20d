"""Shared helpers of the outcome-based rules: exits of a function and transfer relations of its loops."""
import semlib, summ
from terms import *
from semlib import Run, short, is_fn, public_roots
from engine import INT_RANGE
from summ import felem, fields_of, ELEMENT, ET

CHANGES = {"vpush", "vinsert", "vremove", "vset", "vperm", "vsort", "vrev", "minsert", "mremove", "vec", "mempty", "cat", "lit", "agg", "vretain", "vslice", "vconcat", "vcut", "mretain"}
NODEKINDS = ("Element", "Text", "Comment", "CData")


class Findings:
    """collected by one analysis job, plain data"""

    def __init__(self):
        self.items = []
        self.cover = []

    def ok(self, text):
        self.items.append(("ok", None, text))

    def bad(self, key, text):
        self.items.append(("bad", key, text))

    def und(self, text):
        self.items.append(("und", None, text))


def merge(rep, results, names=None):
    """enter the findings of parallel jobs into a report"""
    for i, r in enumerate(results):
        if isinstance(r, tuple) and r and r[0] == "exc":
            rep.undecide(f"{names[i] if names else i}: analysis stopped: {r[1].strip().splitlines()[-1]}")
            continue
        for kind, key, text in r:
            if kind == "ok":
                rep.ob(True, text)
            elif kind == "bad":
                rep.ob(False, text)
                rep.violate(key, text)
            else:
                rep.undecide(text)


def summaries(p):
    S = {k: summ.s_norm for k in summ.find_norm(p)}
    S.update({k: summ.s_ns for k in summ.find_ns(p)})
    return S


def where(p, key, span=None):
    b = p.bodies[key]
    s = span if span is not None else b.get("span")
    if isinstance(s, (list, tuple)) and len(s) >= 2:
        return f"{b['path']} ({s[0]}:{s[1]})"
    return b["path"]


def outcome(run, s, v):
    """'Ok' / 'Err' / None of a Result value"""
    if v.op == "agg" and v.a[0] == RES:
        return v.a[2]
    vs = s.var.get(v)
    if vs is not None and len(vs) == 1:
        return "Ok" if 0 in vs else "Err"
    return None


def outname(v):
    return v.a[2] if v.op == "agg" else None


def payload(run, s, v, i=0):
    return run.e.deep(s, run.e.payload(v, 0 if outcome(run, s, v) == "Ok" else 1, None, i))


def simp(st, v):
    """cancel insertions against removals"""
    if v.op == "vremove":
        b = simp(st, v.a[0])
        if b.op == "vinsert" and st.same(b.a[1], v.a[1]):
            return b.a[0]
        if b.op == "vpush" and st.same(v.a[1], vlen(b.a[0])):
            return b.a[0]
    return v


def same(eng, st, a, b, d=0):
    """the two values are certainly equal"""
    if a is b:
        return True
    if a.op == "lin" and b.op == "lin":
        return st.same(a, b)
    if d > 6:
        return False
    if a.op == "agg" or b.op == "agg":
        x, y = (a, b) if a.op == "agg" else (b, a)
        own = x.a[0]
        if y.op == "agg":
            return y.a[0] == own and y.a[1] == x.a[1] and len(x.a[3]) == len(y.a[3]) and all(same(eng, st, p, q, d + 1) for p, q in zip(x.a[3], y.a[3]))
        if own == ELEMENT and felem(eng.p):
            return all(same(eng, st, p, q, d + 1) for p, q in zip(x.a[3], fields_of(eng, y)))
        if own in (OPT, RES):
            vs = st.var.get(y)
            if vs is None or x.a[1] not in vs or len(vs) != 1:
                return False
            return all(same(eng, st, p, eng.payload(y, x.a[1], None, i), d + 1) for i, p in enumerate(x.a[3]))
        # other structs: eta
        ty = type_of(y)
        if not (ty and ty[0] == "adt" and ty[1] == own) and kinds_of(eng, st, y) != {str(own).split("::")[-1]}:
            return False
        return all(p.op == "fld" and p.a[0] is y and p.a[2] == i for i, p in enumerate(x.a[3])) and bool(x.a[3])
    a2, b2 = simp(st, a), simp(st, b)
    return a2 is b2


def diffs(eng, st, a, b):
    """names of the parts of struct value b that differ from a"""
    if same(eng, st, a, b):
        return []
    if (a.op == "agg" and a.a[0] == ELEMENT or b.op == "agg" and b.a[0] == ELEMENT) and felem(eng.p):
        F = sorted(felem(eng.p).items(), key=lambda x: x[1])
        fa, fb = fields_of(eng, a), fields_of(eng, b)
        return [(n, fa[i], fb[i]) for n, i in F if not same(eng, st, fa[i], fb[i])]
    return [("content", a, b)]


def certain_change(v, old):
    """v is certainly a modified value, not merely an imprecise one"""
    if v.op in ("phi", "sym"):
        return False
    return v.op in CHANGES or v.op == "call" or v.op == "fld"


class LV:
    """transfer relation of one loop"""

    def __init__(self, run, ev):
        self.run, self.ev = run, ev
        d = ev.data
        self.heads, self.backs, self.entry = d["heads"], d["backs"], d["entry"]
        self.exits, self.rets = d["exits"], d["rets"]
        self.loc = {}
        self.mark = (ev.fr.ctx, ev.blk)
        self.base = {}  # string slices with a moving end: location -> string
        for hd in self.heads:
            for root, v in hd.mem.items():
                self.walk(root, (), v, 0)
        if len(self.heads) > 1:
            self.split()

    def walk(self, root, path, v, d):
        c = cell(v)
        if c is not None:
            if c.a[0] == self.mark:
                self.loc.setdefault(c, (root, path))
        elif v.op == "agg" and d < 6:
            for i, x in enumerate(v.a[3]):
                self.walk(root, path + (i,), x, d + 1)
        elif v.op == "slice" and d < 6:
            for i, n in ((1, "lo"), (2, "hi")):
                c = cell(v.a[i])
                if c is not None and c.a[0] == self.mark:
                    self.loc.setdefault(c, (root, path + (n,)))
                    self.base.setdefault((root, path), v.a[0])

    def split(self):
        """several entry shapes: relate states to the head they started from"""
        of = {}
        for i, hd in enumerate(self.heads):
            for root, v in hd.mem.items():
                for x in subs(v):
                    if x.op == "phi" and x in self.loc:
                        of.setdefault(x, set()).add(i)
        of = {x: next(iter(h)) for x, h in of.items() if len(h) == 1}
        self.headof = of
        roots = {r for r, _ in self.loc.values()}
        bare = set(range(len(self.heads))) - set(of.values())  # heads with nothing generalised
        d = self.ev.data

        def source(st):
            hs = set()
            for r in roots:
                v = st.mem.get(r)
                if v is not None:
                    hs |= {of[x] for x in subs(v) if x in of}
            return hs or bare

        def target(st):
            try:
                ks = {d["shape"](x) for x in self.run.e.split_options([st])}
            except Exception:
                return None
            return {i for i, k in enumerate(d["keys"]) if k in ks} or None
        self.src = {id(st): source(st) for st in list(self.backs) + [x for _, x in self.exits] + list(self.entry)}
        self.dst = {id(st): target(st) for st in list(self.backs) + list(self.entry)}

    def from_head(self, st, phi):
        """may the state have started at the head of phi"""
        if len(self.heads) < 2 or phi not in self.headof:
            return True
        h = self.src.get(id(st))
        return not h or self.headof[phi] in h

    def into_head(self, st, phi):
        if len(self.heads) < 2 or phi not in self.headof:
            return True
        h = self.dst.get(id(st))
        return h is None or self.headof[phi] in h

    def exits_of(self, phi):
        return [(b, s) for b, s in self.exits if self.from_head(s, phi)]

    def own(self, t):
        return t in self.loc

    def at(self, st, phi):
        """value of the cell of phi in state st"""
        return self.val(st, self.loc[phi])

    def steps(self):
        """[(state at the loop head, state after one iteration)]"""
        out = []
        for b in self.backs:
            h = self.src.get(id(b)) if len(self.heads) > 1 else {0}
            for i in h or range(len(self.heads)):
                out.append((self.heads[i], b))
        return out

    def val(self, st, loc):
        root, path = loc
        v = st.mem.get(root)
        if v is None:
            v = self.run.e.root_content(st, root) if root[0] != "L" else None
        for j, i in enumerate(path):
            if v is None:
                return None
            if i in ("lo", "hi"):
                b, lo, hi = sbase(v)
                if b is not self.base.get((root, path[:j])):
                    return None
                v = lo if i == "lo" else hi
            elif v.op == "agg":
                if i >= len(v.a[3]):
                    return None
                v = v.a[3][i]
            elif felem(self.run.p) and type_of(v) == ET:
                v = fields_of(self.run.e, v)[i]
            else:
                return None
        return v

    def entries(self, phi):
        out = [(s, self.at(s, phi)) for s in self.entry if self.into_head(s, phi)]
        if len(self.heads) > 1 and phi in self.headof:
            out += [(s, self.at(s, phi)) for s in self.backs if not self.from_head(s, phi) and self.into_head(s, phi)]
        return out

    def nexts(self, phi):
        return [(s, self.at(s, phi)) for s in self.backs if self.from_head(s, phi)]

    def ints(self):
        return [t for t in self.loc if (type_of(t) or ("int",))[0] == "int" or t in ATOM_BOUNDS]

    def counters(self):
        """int cells that advance by a constant on every iteration: [(phi, step, entry values)]"""
        out = []
        for t in self.loc:
            es = [v for _, v in self.entries(t)]
            ns = [v for _, v in self.nexts(t)]
            if not ns or any(v is None or v.op != "lin" for v in es + ns):
                continue
            ds = {lsub(v, atom(t)) for v in ns}
            if len(ds) == 1:
                k = ds.pop()
                if is_const(k) and cval(k) != 0:
                    out.append((t, cval(k), es))
        return out


def loops(run):
    return [LV(run, e) for e in run.e.events if e.kind == "loop"]


def loop_of(run, phi):
    """the loop whose head introduced phi"""
    r = None
    for l in loops(run):
        if l.own(phi) and any(True for _ in l.backs):
            if all(v is not None for _, v in l.nexts(phi)):
                # a loop whose back values differ from phi itself defines it
                if any(v is not phi and not (v.op == "lin" and v is atom(phi)) for _, v in l.nexts(phi)) or r is None:
                    r = l
    return r


def cell(v):
    """phi of a value that is just a loop cell"""
    if v.op == "phi":
        return v
    if v.op == "lin" and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1 and v.a[1][0][0].op == "phi":
        return v.a[1][0][0]
    return None


def kinds_of(eng, st, x):
    """possible kinds of a node value"""
    ty = x.a[0] if x.op == "agg" else None
    if ty:
        n = str(ty).split("::")[-1]
        if n in NODEKINDS:
            return frozenset([n])
    t = type_of(x)
    if t and t[0] == "adt":
        n = str(t[1]).split("::")[-1]
        if n in NODEKINDS:
            return frozenset([n])
    return st.kindset(x)


def lossy(s, x, L):
    """the bound reached is a narrowed copy of L"""
    for k in list(s.lin):
        for t, _ in k:
            for z in subs(t):
                if z.op == "cast" and z.a[1].op == "lin" and s.same(z.a[1], L) and s.entails(lsub(x, atom(z))) and (INT_RANGE.get(z.a[0], (0, None))[1] or 0) < 2**62 and not s.entails(lsub(num(INT_RANGE[z.a[0]][1]), L)):
                    return z.a[0]
    return None


class Judge:
    """base of the rules: self.f findings, self.path, self.W position text"""

    def setup(self, p, key, opts, tl=250):
        self.p, self.key = p, key
        self.f = Findings()
        self.run = Run(p, key, opts, tl=tl)
        self.e = self.run.e
        self.path, self.W = self.run.body["path"], where(p, key)
        self.seen = {}

    def bad(self, k, t):
        self.f.bad(f"{self.path}|{k}", f"{self.W}: {t}")

    def ok(self, t):
        self.f.ok(f"{self.W}: {t}")

    def und(self, t):
        self.f.und(f"{self.W}: {t}")

    def coverage(self, l, c, q, ents, step, length, what, handled, skip=None):
        """q: position handled in an iteration; all of 0..length visited?"""
        if step == -1:
            for (s, _), v in ents:
                first, L = v, length(s)
                if s.same(first, lplus(L, -1)):
                    self.ok(f"{what} starts at the last child")
                elif any(s.entails(lplus(lsub(lplus(L, -1), first), -k)) for k in (1, 2)):
                    self.bad("scan-start", f"{what} starts at {show(first)}, not at the last child")
                else:
                    self.und(f"{what} starts at {show(v)}")
        else:
            for (s, _), v in ents:
                if is_const(v) and cval(v) == 0:
                    self.ok(f"{what} starts at the first child")
                elif is_const(v) and cval(v) > 0:
                    self.bad("scan-start", f"{what} starts at position {cval(v)}")
                else:
                    self.und(f"{what} starts at {show(v)}")
        for _, s in l.exits_of(c):
            if skip is not None and skip(s):
                continue
            x = lplus(q, step) if handled(s) else q
            L = length(s)
            if step == -1:
                if s.entails(lsub(num(-1), x)):
                    self.ok(f"{what} ends below the first child")
                elif s.entails(x) or any(s.entails(lsub(num(k), x)) for k in range(4)):
                    self.bad("scan-end", f"{what} may stop before handling the first child")
                else:
                    self.und(f"{what} ends at {show(x)}")
            else:
                if s.entails(lsub(x, L)):
                    self.ok(f"{what} reaches the last child")
                elif s.entails(lplus(lsub(L, x), -1)) or any(s.entails(lplus(lsub(x, L), k)) for k in range(1, 4)):
                    self.bad("scan-end", f"{what} may stop before the last child")
                elif lossy(s, x, L):
                    self.bad("scan-end", f"{what} stops at the number of children cut to {lossy(s, x, L)}")
                else:
                    self.und(f"{what} ends at {show(x)}")


def sfields(eng, v, name):
    """[(field name, value)] of a struct value"""
    fs = eng.p.adts[name]["variants"][0]["fields"]
    if v.op == "agg" and v.a[0] == name:
        return [(f["name"], x) for f, x in zip(fs, v.a[3])]
    return [(f["name"], eng.wrap(mk("fld", v, 0, i, f["name"]), eng.p.ty(f["ty"]))) for i, f in enumerate(fs)]


def lens_equal(s, a, b):
    return s.same(vlen(a), vlen(b))
