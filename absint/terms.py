"""Hash-consed terms: the value domain of the abstract interpreter."""

_table = {}
_next = [0]


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _next[0]
        _next[0] += 1
        _table[k] = t
    return t


# ------------------------------------------------------------------ linear ints
def lin_of(const, d):
    items = tuple(sorted(((t, c) for t, c in d.items() if c != 0), key=lambda x: x[0].id))
    return mk("lin", const, items)


def num(n):
    return mk("lin", n, ())


def atom(t):
    """int-valued atom -> lin"""
    if t.op == "lin":
        return t
    return mk("lin", 0, ((t, 1),))


def ladd(x, y, k=1):
    """x + k*y"""
    d = dict(x.a[1])
    for t, c in y.a[1]:
        d[t] = d.get(t, 0) + k * c
    return lin_of(x.a[0] + k * y.a[0], d)


def lsub(x, y):
    return ladd(x, y, -1)


def lneg(x):
    return ladd(num(0), x, -1)


def lplus(x, n):
    return mk("lin", x.a[0] + n, x.a[1])


def lscale(x, k):
    return lin_of(x.a[0] * k, {t: c * k for t, c in x.a[1]})


def is_const(x):
    return x.op == "lin" and not x.a[1]


def cval(x):
    return x.a[0]


# ------------------------------------------------------------------ constants
TRUE = mk("true")
FALSE = mk("false")
UNIT = mk("agg", "tuple", 0, "", ())
OPT = "std::option::Option"
RES = "std::result::Result"


def agg(kind, vi, vname, fields):
    return mk("agg", kind, vi, vname, tuple(fields))


NONE = agg(OPT, 0, "None", ())


def some(x):
    return agg(OPT, 1, "Some", (x,))


def ok(x):
    return agg(RES, 0, "Ok", (x,))


def err(x):
    return agg(RES, 1, "Err", (x,))


def tup(*xs):
    return agg("tuple", 0, "", xs)


def boxed(x):
    return agg("Box", 0, "Box", (x,))


def boolean(b):
    return TRUE if b else FALSE


def lit(s):
    return mk("lit", s)


EMPTY = lit("")


def ch(cp):
    return mk("ch", cp)


def ge(l):
    """l >= 0"""
    if not l.a[1]:
        return boolean(l.a[0] >= 0)
    return mk("ge", l)


def eqz(l):
    if not l.a[1]:
        return boolean(l.a[0] == 0)
    # normalise sign
    if l.a[1][0][1] < 0:
        l = lneg(l)
    return mk("eqz", l)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    if b.op == "ge":
        return ge(lplus(lneg(b.a[0]), -1))
    return mk("not", b)


def sym(*name):
    return mk("sym", *name)


# ------------------------------------------------------------------ types of opaque terms
TYPES = {}


def typed(t, ty):
    if ty is not None and t not in TYPES:
        TYPES[t] = ty
    return t


def type_of(t):
    return TYPES.get(t)


# ------------------------------------------------------------------ strings
ATOM_BOUNDS = {}  # int atom -> (lo, hi) or None entries


def set_bounds(t, lo, hi=None):
    ATOM_BOUNDS[t] = (lo, hi)
    return t


def utf8len(s):
    return len(s.encode("utf-8"))


def slen(s):
    """length in bytes of string content term, as lin"""
    if s.op == "lit":
        return num(utf8len(s.a[0]))
    if s.op == "slice":
        return lsub(s.a[2], s.a[1])
    if s.op == "cat":
        r = num(0)
        for p in s.a[0]:
            r = ladd(r, slen(p))
        return r
    if s.op == "chstr":
        return wchar(s.a[0])
    t = mk("len", s)
    if t not in ATOM_BOUNDS:
        set_bounds(t, 0)
    return atom(t)


def wchar(c):
    if c.op == "ch":
        return num(utf8len(chr(c.a[0])))
    t = mk("w", c)
    if t not in ATOM_BOUNDS:
        set_bounds(t, 1, 4)
    return atom(t)


def sbase(s):
    """(base, lo, hi)"""
    if s.op == "slice":
        return s.a[0], s.a[1], s.a[2]
    return s, num(0), slen(s)


def cut(s, a, b):
    """content of s between offsets a, b (relative)"""
    base, lo, hi = sbase(s)
    x, y = ladd(lo, a), ladd(lo, b)
    return mkslice(base, x, y)


def mkslice(base, x, y):
    if x is y:
        return EMPTY
    if base.op == "lit" and is_const(x) and is_const(y):
        bs = base.a[0].encode("utf-8")
        try:
            return lit(bs[cval(x):cval(y)].decode("utf-8"))
        except UnicodeDecodeError:
            pass
    if is_const(x) and cval(x) == 0 and y is slen(base):
        return base
    if base.op == "cat":
        # cut at part boundaries when possible
        off = num(0)
        parts = base.a[0]
        starts = []
        for p in parts:
            starts.append(off)
            off = ladd(off, slen(p))
        starts.append(off)
        if x in starts and y in starts:
            i, j = starts.index(x), len(starts) - 1 - starts[::-1].index(y)
            if i <= j:
                return cat(parts[i:j])
        for i, p in enumerate(parts):
            d1, d2 = lsub(x, starts[i]), lsub(y, starts[i])
            # wholly inside part i, by constants
            if is_const(d1) and cval(d1) >= 0 and d2 is slen(p):
                return cut(p, d1, d2)
    return mk("slice", base, x, y)


def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            seq = p.a[0]
        else:
            seq = (p,)
        for q in seq:
            if q.op == "lit" and q.a[0] == "":
                continue
            if q.op == "chstr" and q.a[0].op == "ch":
                q = lit(chr(q.a[0].a[0]))
            if out:
                l = out[-1]
                if l.op == "lit" and q.op == "lit":
                    out[-1] = lit(l.a[0] + q.a[0])
                    continue
                if l.op == "slice" and q.op == "slice" and l.a[0] is q.a[0] and l.a[2] is q.a[1]:
                    out[-1] = mkslice(l.a[0], l.a[1], q.a[2])
                    continue
            out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


# ------------------------------------------------------------------ vectors
def vlen(v):
    if v.op == "vec":
        return num(len(v.a[0]))
    if v.op == "agg" and v.a[0] == "array":
        return num(len(v.a[3]))
    if v.op in ("vpush", "vinsert"):
        return lplus(vlen(v.a[0]), 1)
    if v.op == "vremove":
        return lplus(vlen(v.a[0]), -1)
    if v.op in ("vset", "vrev", "vsort"):
        return vlen(v.a[0])
    t = mk("vlen", v)
    if t not in ATOM_BOUNDS:
        set_bounds(t, 0)
    return atom(t)


def subterms(t, seen=None):
    """all sub-terms of t (including t)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


_sub_cache = {}


def mentions(t, names):
    """does t contain any term of the set names"""
    for x in subs(t):
        if x in names:
            return True
    return False


def subs(t):
    r = _sub_cache.get(t)
    if r is None:
        r = frozenset(subterms(t))
        _sub_cache[t] = r
    return r


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 7:
        return "…"
    o, a = t.op, t.a
    n = d + 1
    if o == "lin":
        s = []
        for x, c in a[1]:
            s.append(("" if c == 1 else "-" if c == -1 else f"{c}*") + show(x, n))
        if a[0] or not s:
            s.append(str(a[0]))
        return "+".join(s).replace("+-", "-")
    if o == "lit":
        return repr(a[0])
    if o == "ch":
        return f"char({chr(a[0])!r})"
    if o in ("true", "false"):
        return o
    if o == "agg":
        k = a[0] if isinstance(a[0], str) else a[0][0]
        nm = a[2] or (k.split("::")[-1])
        if k == "tuple":
            nm = ""
        return nm + "(" + ", ".join(show(x, n) for x in a[3]) + ")"
    if o == "slice":
        return f"{show(a[0], n)}[{show(a[1], n)}..{show(a[2], n)}]"
    if o == "cat":
        return "(" + " ++ ".join(show(x, n) for x in a[0]) + ")"
    if o == "ge":
        return f"{show(a[0], n)}>=0"
    if o == "eqz":
        return f"{show(a[0], n)}==0"
    if o == "not":
        return f"!{show(a[0], n)}"
    if o == "fld":
        return f"{show(a[0], n)}.{a[3]}"
    if o == "ref":
        return "&" + ("mut " if a[2] else "") + show_root(a[0]) + "".join("." + show_step(p) for p in a[1])
    if o == "sym":
        return "$" + ".".join(str(x) if not isinstance(x, tuple) else "_" for x in a)
    if o == "phi":
        return "φ" + ".".join(str(x) for x in a)
    return o + "(" + ", ".join(show(x, n) if isinstance(x, T) else ("[" + ",".join(show(y, n) for y in x) + "]" if isinstance(x, tuple) else str(x)) for x in a) + ")"


def show_root(r):
    if r[0] == "O":
        return "*" + show(r[1])
    if r[0] == "L":
        return f"_{r[2]}@{r[1]}"
    return str(r)


def show_step(p):
    if p[0] == "f":
        return str(p[3])
    if p[0] == "idx":
        return f"[{show(p[1])}]"
    return str(p[0])
