"""C09: no construction or mutation path stores invalid content or names.

Every function that writes one of the guarded strings (found in the MIR: aggregates, assignments, mutable borrows) is interpreted on
arbitrary arguments. At each exit the strings held by the objects it returns or was lent must be literals, strings taken from an object
of that kind, or strings for which the facts known on the path exclude every forbidden sample."""
import re
from terms import *
from semlib import Run, short, parallel, public_roots, is_fn
from domlib import *
from domrules import opts, incomplete, ASSUME
from contentrules import rust_re
from parserules import Unknown, Bad
from summ import felem, fields_of, ELEMENT

COMMENT, CDATA = "dom::Comment", "dom::CData"
GUARD = {COMMENT: {"comment": "comment"}, CDATA: {"cdata": "cdata"}, ELEMENT: {"name": "name", "xmlns_prefix": "prefix", "attributes": "attr"}}
WHAT = {"comment": "comment text", "cdata": "CDATA text", "name": "element name", "prefix": "namespace prefix", "attr": "attribute name"}
MARK = {"comment": "-->", "cdata": "]]>"}
WS = " \t\n\r\x0b\x0c\x85\xa0\u1680\u2000\u2003\u200a\u2028\u2029\u202f\u205f\u3000"
NOTNAME = WS + "\"'<>&/="
FILL = ("", "a", "A", "_", "ab", "a1", "a-b", "x:y", "\u00e9", "a.b", "xml")


def forbidden(cls, v):
    if cls in MARK:
        return MARK[cls] in v
    return any(c in NOTNAME for c in v)


_S = {}


def samples(cls, lits=(), lens=()):
    """strings to try: forbidden ones, and strings built with the constants the facts on the path mention"""
    key = (cls, tuple(lits), tuple(lens))
    if key in _S:
        return _S[key]
    if lits or lens:
        out = list(samples(cls))
        base = [MARK[cls]] if cls in MARK else [" ", "a b", "<", "a\"", "=", "\n", "a\tb"]
        for w in lits:
            for b in base:
                out += [w + b, b + w, w + b + w, w + "a" + b, b + "a" + w, b + w + "a", "a" + w + b, w + b + "a"]
                if cls in MARK:
                    for i in range(len(b)):
                        out += [b[:i] + w + b[i:], b[i:], b[:i]]
            if cls in MARK and w:
                out += [MARK[cls].replace(x, w) for x in lits if x]
        for n in lens:
            for b in base:
                out += ["a" * n + b, b + "a" * n, "a" * (n // 2) + b + "a" * (n // 2 + 1)]
        _S[key] = out
        return out
    if cls in MARK:
        m = MARK[cls]
        c = m[0]
        out = [a + m + b for a in ("", "a", c, c + c, " ", "\n", "a\n", "\u00e9", "-", "x" * 70, "<!--", "<![CDATA[") for b in ("", "b", ">", c, m, " ", "\n", "\nb", "\u3042", "-", "y" * 300)]
    else:
        out = [a + c + b for c in NOTNAME for a in FILL for b in ("", "b", "\nb", "=", "\u3042")]
    _S[key] = out
    return out


def leaves(t):
    """the string atoms a term is made of"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x.op == "lit":
            continue
        if x.op == "slice":
            todo.append(x.a[0])
        elif x.op == "cat":
            todo += list(x.a[0])
        elif x.op in ("replace", "replacex", "strfn", "retain"):
            ys = [y for y in x.a if hasattr(y, "op") and is_strlike(y)]
            if not ys:
                return None
            todo += ys
        elif x not in out:
            out.append(x)
    return out


def is_strlike(y):
    t = type_of(y)
    return y.op in ("lit", "slice", "cat", "replace", "strfn") or t is not None and (t[0] == "str" or t[0] == "adt" and t[1] == "std::string::String" or t[0] == "ref" and t[2][0] == "str")


class NoValue(Exception):
    pass


class Concrete:
    """value of a term when some string atoms have given values"""

    def __init__(self, vals):
        self.vals = vals

    def str(self, t):
        if t in self.vals:
            return self.vals[t]
        if t.op == "lit":
            return t.a[0]
        if t.op == "slice":
            b = self.str(t.a[0]).encode()
            lo, hi = self.int(t.a[1]), self.int(t.a[2])
            if not 0 <= lo <= hi <= len(b):
                raise NoValue()
            try:
                return b[lo:hi].decode()
            except UnicodeDecodeError:
                raise NoValue()
        if t.op == "cat":
            return "".join(self.str(x) for x in t.a[0])
        if t.op == "strfn" and t.a[0] in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase"):
            s = self.str(t.a[1])
            if t.a[0].startswith("to_ascii"):
                return "".join(c.lower() if t.a[0].endswith("lowercase") else c.upper() for c in [x for x in s]) if s.isascii() else _none()
            return s.lower() if t.a[0].endswith("lowercase") else s.upper()
        if t.op == "replace" and all(hasattr(y, "op") for y in t.a[:3]):
            return self.str(t.a[0]).replace(self.str(t.a[1]), self.str(t.a[2]))
        raise NoValue()

    def int(self, t):
        if t.op == "lin":
            return t.a[0] + sum(c * self.atom(x) for x, c in t.a[1])
        return self.atom(t)

    def atom(self, x):
        if x.op in ("len", "slen"):
            return len(self.str(x.a[0]).encode())
        if x.op in ("find", "rfind"):
            s, q = self.str(x.a[0]), self.str(x.a[1])
            i = s.find(q) if x.op == "find" else s.rfind(q)
            if i < 0:
                raise NoValue()
            return len(s[:i].encode())
        if x.op in ("trimlo", "trimhi") and ("white" in str(x.a[1]) or x.a[1] in ("ws", None)):
            s = self.str(x.a[0])
            if x.op == "trimlo":
                return len(s.encode()) - len(s.lstrip(WS).encode())
            return len(s.rstrip(WS).encode())
        raise NoValue()

    def bool(self, t):
        o = t.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "not":
            return not self.bool(t.a[0])
        if o == "eq":
            return self.str(t.a[0]) == self.str(t.a[1])
        if o == "ge":
            return self.int(t.a[0]) >= 0
        if o == "eqz":
            return self.int(t.a[0]) == 0
        if o == "pr":
            n = t.a[0]
            if n == "re":
                pat = t.a[1]
                if pat.op == "regex":
                    pat = pat.a[0]
                    pat = pat.a[0] if hasattr(pat, "op") else pat
                    c = rust_re(pat)
                    if c is not None:
                        return c.search(self.str(t.a[2])) is not None
                raise NoValue()
            if n in ("contains", "starts_with", "ends_with", "eqic"):
                a, b = self.str(t.a[1]), self.str(t.a[2])
                return b in a if n == "contains" else a.startswith(b) if n == "starts_with" else a.endswith(b) if n == "ends_with" else a.lower() == b.lower()
        raise NoValue()


def _none():
    raise NoValue()


def reps(p):
    """field name -> guarded class"""
    out = {}
    for ty, d in GUARD.items():
        if ty in p.adts:
            out[ty] = {f["name"]: d[f["name"]] for f in p.adts[ty]["variants"][0]["fields"] if f["name"] in d}
    return out


def writers(p):
    """functions that construct a guarded type or may write a guarded field"""
    names = {n for ty in GUARD if ty in p.adts for n in GUARD[ty]}
    hold = set(GUARD)
    out = {}

    def guarded(pl):
        for e in pl[1:]:
            if isinstance(e, list) and e and e[0] == "f" and len(e) > 2 and e[2] in names:
                return e[2]
        return None
    for k, b in p.bodies.items():
        body = b.get("body")
        if not body:
            continue
        for bl in body["blocks"]:
            if not bl:
                continue
            for st in bl["s"]:
                if not isinstance(st[0], list):
                    continue
                rv = st[1]
                g = guarded(st[0])
                if g:
                    out.setdefault(k, f"assigns {g}")
                if isinstance(rv, list) and rv[0] == "agg" and isinstance(rv[1], list) and rv[1][0] == "adt" and rv[1][1] in hold:
                    out.setdefault(k, f"constructs {rv[1][1]}")
                if isinstance(rv, list) and rv[0] in ("ref", "raw") and rv[1] != "shared":
                    g = guarded(rv[2])
                    if g:
                        out.setdefault(k, f"borrows {g} mutably")
            t = bl["t"]
            if t and t[0] == "call":
                for d in t[3:5]:
                    if isinstance(d, list) and guarded(d):
                        out.setdefault(k, f"assigns {guarded(d)}")
    return out


def owner(p, k):
    """the function a closure belongs to"""
    path = p.bodies[k]["path"]
    while "::{closure" in path:
        path = path[:path.rindex("::{closure")]
    return p.by_path.get(path, k)


class Stores(Judge):
    def __init__(self, p, key):
        o = dict(opts(p), vac=True)
        self.setup(p, key, o, 200)
        self.R = reps(p)
        self.imprecise = imprecise(p, key)
        self.key = key
        self.lv = loops(self.run)
        self.done = set()
        self.args = {x for a in self.run.args for x in subs(self.e.deep(self.run.st0, a))}

    def judge(self):
        r = self.run
        if incomplete(r, self.f):
            if r.stopped:
                return self.f.items
        if not r.outs:
            self.ok("never returns")
        for s, v in r.outs:
            self.escapes(s, v)
            vals = [self.e.deep(s, v)]
            for i, a in enumerate(r.args):
                if a.op == "ref":
                    vals.append(self.e.deep(s, a))
            for w in vals:
                self.objects(s, w)
        if not self.f.items:
            self.ok("stores nothing new")
        return self.f.items

    def escapes(self, s, v, d=0):
        """a mutable reference to a guarded field handed out"""
        if v.op == "ref" and len(v.a) > 2 and v.a[2]:
            for q in v.a[1]:
                if q[0] == "f" and len(q) > 5 and q[5] and q[5][0] == "adt" and q[3] in self.R.get(q[5][1], ()):
                    if self.p.bodies[self.key].get("exported"):
                        self.bad("escape", f"hands out a mutable reference to the {WHAT[self.R[q[5][1]][q[3]]]}, which can then be changed without a check")
                    return
        if v.op == "agg" and d < 4:
            for x in v.a[3]:
                self.escapes(s, x, d + 1)

    def objects(self, s, w):
        for x in subs(w):
            if x.op == "agg" and x.a[0] in self.R:
                self.object(s, x)
            elif x.op == "phi":
                self.cells(x)

    def cells(self, x):
        if x in self.done:
            return
        self.done.add(x)
        for l in self.lv:
            if l.own(x):
                for st, v in l.entries(x) + l.nexts(x):
                    if v is not None:
                        self.objects(st, v)

    def object(self, s, x):
        own = x.a[0]
        for n, v in sfields(self.e, x, own):
            cls = self.R[own].get(n)
            if cls is None:
                continue
            try:
                if cls == "attr":
                    try:
                        self.attrs(s, v, 0)
                    except Bad as b:
                        if self.later(v):
                            raise Unknown("the attribute names checked in another loop")
                        raise
                elif cls == "prefix":
                    self.option(s, v)
                else:
                    self.string(s, v, cls)
            except Bad as b:
                self.bad(b.args[0], b.args[1])
            except Unknown as u:
                self.und(str(u))

    def option(self, s, v):
        if v.op == "agg":
            if v.a[1] == 1:
                self.string(s, v.a[3][0], "prefix")
            return
        if self.old(v, "prefix"):
            return
        vs = s.var.get(v)
        if vs == frozenset({0}):
            return
        self.string(s, self.e.payload(v, 1), "prefix")

    def old(self, t, cls):
        """t is the guarded part of an object that existed before"""
        if t.op == "fld":
            n = t.a[3] if len(t.a) > 3 else None
            own = type_of(t.a[0])
            for ty, d in self.R.items():
                if n in d and d[n] == cls and (own is None or own[0] == "adt" and own[1] == ty or own[0] in ("dyn",) or own == ("adt", ty, ()) or "Box" in str(own) or own[0] == "ref"):
                    return True
            if cls in ("prefix",) and t.a[0].op == "fld":
                return self.old(t.a[0], cls)
            if t.a[0].op == "fld" and cls == "prefix":
                return True
        return False

    def attrs(self, s, m, d):
        if d > 20:
            raise Unknown("long chain of attribute changes")
        if m.op == "mempty" or self.old(m, "attr"):
            return
        if m.op == "minsert":
            self.attrs(s, m.a[0], d + 1)
            self.string(s, m.a[1], "attr")
            return
        if m.op == "mremove":
            return self.attrs(s, m.a[0], d + 1)
        if m.op == "phi":
            if ("a", m) in self.done:
                return
            self.done.add(("a", m))
            ls = [l for l in self.lv if l.own(m)]
            if not ls:
                raise Unknown("the attributes")
            for l in ls:
                for st, v in l.entries(m) + l.nexts(m):
                    if v is None:
                        raise Unknown("the attributes in a loop")
                    if v is not m:
                        self.attrs(st, v, d + 1)
            return
        if m.op in ("sym", "fld") and m in self.args or m.op == "fld" and any(z in self.args for z in subs(m)):
            t = type_of(m)
            raise Bad("attr", "the attribute names given are stored without being checked")
        raise Unknown(f"attributes {short(m, 80)}")

    def later(self, m):
        """some loop looks at the keys of the map built"""
        for l in self.lv:
            for st in l.backs:
                st = st[0] if isinstance(st, tuple) else st
                for b in st.bools:
                    if b.op == "pr" and b.a[0] == "re" and any(x.op == "mkey" and x.a[0] is m for x in subs(b)):
                        return True
        return False

    def string(self, s, t, cls):
        w = WHAT[cls]
        if t.op == "lit":
            if forbidden(cls, t.a[0]):
                raise Bad(cls, f"stores {t.a[0]!r} as {w}")
            self.ok(f"a constant {w}")
            return
        if self.old(t, cls):
            self.ok(f"the {w} of another object")
            return
        if t.op == "mkey" and self.old(t.a[0], "attr") and cls in ("attr", "prefix", "name"):
            self.ok(f"{w} taken from checked attributes")
            return
        ls = leaves(t)
        if t.op == "cat" and ls is not None and len(ls) != 1:
            for x in t.a[0]:
                if x.op == "lit":
                    if forbidden(cls, x.a[0]):
                        raise Bad(cls, f"stores a {w} containing {x.a[0]!r}")
                    continue
                if cls not in MARK:
                    self.string(s, x, cls)
            if cls in MARK:
                m = MARK[cls]
                vals = []
                for i in range(len(ls)):
                    for n in range(1, len(m)):
                        d = {x: "" for x in ls}
                        d[ls[i]] = m[:n]
                        for j in (i - 1, i + 1):
                            if 0 <= j < len(ls):
                                vals.append({**d, ls[j]: m[n:]})
                        vals.append({x: m if x is ls[i] and not self.old(x, cls) else "" for x in ls})
                self.tries(s, t, cls, ls, vals)
            return
        if ls is None or len(ls) != 1:
            raise Unknown(f"{w} {short(t, 80)}")
        X = ls[0]
        if any(z.op in ("phi", "fresh", "uninit") for z in subs(X)) and X.op not in ("mkey", "fld", "elem"):
            raise Unknown(f"{w} {short(t, 80)}")
        vals = [{X: v} for v in samples(cls, *self.hints(s, t, X))]
        self.tries(s, t, cls, [X], vals)

    def tries(self, s, t, cls, xs, vals):
        w = WHAT[cls]
        sims = self.facts(s, xs)
        vague = False
        for d in vals:
            c = Concrete(d)
            try:
                y = c.str(t)
            except NoValue:
                vague = True
                continue
            if not forbidden(cls, y):
                continue
            r = self.feasible(s, sims, c)
            if r is True:
                if self.imprecise:
                    raise Unknown(f"what {self.imprecise} says about the {w} stored")
                raise Bad(cls, f"may store {y[:60]!r} as {w}")
            if r is None:
                vague = True
        if vague:
            raise Unknown(f"what is known of the {w} stored")
        self.ok(f"a {w} is stored only after that very string was checked")

    def hints(self, s, t, X):
        """constants compared with X, and lengths"""
        bs, vs, ls = self.facts(s, [X])
        lits, lens = [], []
        for y in [t] + [b for b, _ in bs] + [a for k, _ in ls for a, _ in k]:
            for z in subs(y):
                if z.op == "lit" and z.a[0] and z.a[0] not in lits and len(z.a[0]) < 40:
                    lits.append(z.a[0])
                if z.op == "regex":
                    break
                for q in z.a:
                    if isinstance(q, str) and 0 < len(q) < 3 and z.op in ("find", "rfind", "pr") and q not in lits:
                        lits.append(q)
        for k, v in ls:
            n = abs(v)
            if 8 < n < 100000 and n not in lens:
                lens.append(n)
        return lits[:6], lens[:3]

    def facts(self, s, xs):
        has = lambda t: any(z in xs for z in subs(t))
        bs = [(t, v) for t, v in s.bools.items() if has(t)]
        vs = [(t, v) for t, v in s.var.items() if t not in xs and has(t)]
        ls = [(k, v) for k, v in s.lin.items() if any(has(a) and a.op not in ("mlen", "vlen") for a, _ in k)]
        return bs, vs, ls

    def feasible(self, s, sims, c):
        """False: excluded by a fact; True: all facts hold; None: some fact is not understood"""
        bs, vs, ls = sims
        dim = False
        for t, v in bs:
            try:
                if c.bool(t) != v:
                    return False
            except NoValue:
                if t.op == "mhas" or t.op == "pr" and t.a[0] == "vcontains":
                    continue
                if t.op == "eq" and not v:
                    continue    # differs from a string that may be anything
                dim = True
        for k, v in ls:
            try:
                if sum(n * c.atom(a) for a, n in k) + v < 0:
                    return False
            except NoValue:
                dim = True
        for t, v in vs:
            dim = True
        return None if dim else True


PRECISE = set("""contains starts_with ends_with find rfind trim trim_start trim_end trim_matches is_match is_empty len eq ne to_string clone into
from as_str deref to_owned new push_str push as_ref borrow replace split_once rsplit_once strip_prefix strip_suffix get unwrap fmt default with_capacity
as_bytes get_or_init clear insert remove as_mut as_mut_str deref_mut drop index try_into cmp hash eq_ignore_ascii_case from_str is_char_boundary""".split())


def strpar(p, k):
    """a helper that is given a string"""
    b = p.bodies[k]
    return any("'str'" in str(p.ty(t)) or "string::String'" in str(p.ty(t)) and "HashMap" not in str(p.ty(t)) for t in b.get("inputs", ()))


def imprecise(p, key):
    """a string function used here whose outcome the interpretation does not relate to the string"""
    from graphprops import graph
    g = graph(p)
    todo, seen = [key], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        b = p.bodies[k].get("body")
        if b:
            for bl in b["blocks"]:
                t = bl and bl["t"]
                if not t or t[0] != "call" or t[1][0] != "const" or "fn" not in t[1][1]:
                    continue
                n = t[1][1]["fn"]["path"]
                mm = re.search(r"(?:core|std|alloc)::str::(?:<impl str>::)?(\w+)|(?:std|alloc)::string::String::(\w+)|regex::Regex::(\w+)", n)
                if mm:
                    f = next(x for x in mm.groups() if x)
                    if f not in PRECISE:
                        return f
        for x in g.edges.get(k, {}):
            if x in p.bodies and ("closure" in p.bodies[x]["path"] or strpar(p, x)):
                todo.append(x)
    return None


def j9(p, key, why):
    return Stores(p, key).judge()


def fields_private(p, rep):
    for ty, d in reps(p).items():
        for f in p.adts[ty]["variants"][0]["fields"]:
            if f["name"] in d:
                if f.get("pub"):
                    rep.ob(False, f"{ty}.{f['name']} is public")
                    rep.violate(f"{ty}.{f['name']}|public", f"{ty}.{f['name']} is public: anything can be stored in it without a check")
                else:
                    rep.ob(True, f"{ty}.{f['name']} is private")
        for n in GUARD[ty]:
            if n not in d:
                rep.undecide(f"{ty} has no field {n}")


def c09(p, rep):
    from graphprops import graph
    g = graph(p)
    fields_private(p, rep)
    W = {}
    for k, why in writers(p).items():
        W.setdefault(owner(p, k), why)
    pub = set(public_roots(p))
    todo, seen, names = dict(W), set(), []
    callers = {}
    for k, ms in g.edges.items():
        for m in ms:
            callers.setdefault(m if isinstance(m, str) else m[0], set()).add(k)
    rounds = 0
    while todo and rounds < 6:
        rounds += 1
        ks = sorted(k for k in todo if k not in seen and is_fn(p.bodies[k]))
        seen |= set(ks)
        res = parallel(p, [(j9, (k, todo[k])) for k in ks])
        nxt = {}
        for k, r in zip(ks, res):
            path = p.bodies[k]["path"]
            names.append(path)
            isbad = isinstance(r, list) and any(x[0] == "bad" for x in r)
            if isbad and k not in pub and callers.get(k):
                # a private helper: its callers have to check
                for c in callers[k]:
                    nxt.setdefault(owner(p, c), "calls " + path)
                rep.ob(True, f"{path}: stores what it is given; judged in its callers")
                continue
            merge(rep, [r], [path])
        todo = nxt
    rep.cover["functions"] = names
    rep.assumptions += ASSUME


CHECKS = {"C09": c09}
EXPLAIN = {"C09": "Every function whose MIR constructs a Comment, CData or Element or can write a guarded field, interpreted on arbitrary arguments: the strings held at each exit are constants, come from an object of the kind, or no forbidden sample satisfies the facts known about them on that path."}
