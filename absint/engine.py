"""Abstract interpreter over the dumped MIR: trace-partitioned, value-numbering domain, Houdini-style loop invariants."""
import heapq, time
from terms import *
from state import State, is_str, ALLKINDS
import program as P

ORIGIN_OPS = ("phi", "sym")
NODE_TRAIT = "dom::Node"


class Limit(Exception):
    pass


class Frame:
    def depth(self):
        n, c = 0, self.ctx
        while c is not None and c in self.eng.ctxinfo and n < 30:
            c = self.eng.ctxinfo[c][0]
            n += 1
        return n

    __slots__ = ("ctx", "key", "body", "binfo", "sub", "bid", "ltys", "eng")

    def __init__(self, ctx, key, binfo, body, sub, bid, eng):
        self.ctx, self.key, self.binfo, self.body, self.sub, self.bid = ctx, key, binfo, body, sub, bid
        p = eng.p
        self.ltys = [p.subst(p.ty(i), sub) for i in body["locals"]]
        eng.frames[ctx] = self
        self.eng = eng


INT_RANGE = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1),
             "i32": (-2**31, 2**31 - 1), "u64": (0, None), "usize": (0, None), "u128": (0, None)}
SMALL = ("u8", "i8", "u16", "i16")


def is_err(v):
    return v.op == "agg" and v.a[0] == "std::result::Result" and v.a[1] == 1


def is_ref(t):
    return t.op == "ref"


def mkref(root, path, mut=False):
    return mk("ref", root, tuple(path), bool(mut))


class Event:
    __slots__ = ("kind", "key", "span", "data", "st", "fr", "blk")

    def __init__(self, kind, key, span, data, st, fr, blk):
        self.kind, self.key, self.span, self.data, self.st, self.fr, self.blk = kind, key, span, data, st, fr, blk


class Engine:
    def __init__(self, prog, opts=None):
        self.p = prog
        self.opts = opts or {}
        self._ctx = {}
        self.ctxinfo = {0: (None, None, None)}
        self.events = []
        self.unknown = {}
        self.fns = {}
        self.deadline = None
        self.stack = []
        self.flatstack = []
        self.flatty = {}
        self.born_cache = {}
        self.rootty = {}
        self.unfinished = []
        self.frames = {}
        self.debug = (opts or {}).get("debug")
        self.t0 = time.time()
        self.width = (opts or {}).get("width", 8)
        self.stats = {"loops": 0, "iters": 0, "blocks": 0, "inlined": 0, "joins": 0}
        self.taps = self.opts.get("taps", {})
        self.opaque = self.opts.get("opaque") or frozenset()
        self.perhead = self.opts.get("perhead") or frozenset()
        self.argstack = {}
        self.summaries = self.opts.get("summaries") or {}
        import models
        self.models = models
        models.bind(self)

    # ------------------------------------------------------------ contexts / names
    def ctx(self, parent, key, blk, extra=None):
        k = (parent, key, blk, extra)
        c = self._ctx.get(k)
        if c is None:
            c = len(self._ctx) + 1
            self._ctx[k] = c
            self.ctxinfo[c] = (parent, blk, key)
        return c

    def fresh(self, fr, blk, tag, ty=None):
        t = mk("sym", (fr.ctx, blk), tag)
        return self.wrap(t, ty)

    def wrap(self, t, ty):
        """opaque term of a static type -> value of that type"""
        if ty is None:
            return t
        k = ty[0]
        if k == "adt" and ty[1] == "std::boxed::Box":
            return self.wrap(t, ty[2][0])
        if k == "int":
            if t.op == "lin":
                return t
            if t not in ATOM_BOUNDS:
                set_bounds(t, *INT_RANGE.get(ty[1], (None, None)))
            typed(t, ty)
            return atom(t)
        if k == "tuple":
            return agg("tuple", 0, "", [self.wrap(mk("fld", t, 0, i, str(i)), x) for i, x in enumerate(ty[1])])
        if k == "ref" and ty[2][0] == "str":
            return typed(t, ty[2])
        return typed(t, ty)

    def fresh_arg(self, st, name, ty, tag="arg"):
        """an unconstrained argument value"""
        k = ty[0]
        if k == "ref":
            if ty[2][0] == "str":
                return typed(mk("sym", None, tag, name), ty[2])
            root = ("A", name)
            st.mem[root] = self.fresh_arg(st, name + "*", ty[2], tag)
            self.rootty[root] = ty[2]
            return mkref(root, (), ty[1])
        if k == "tuple":
            return agg("tuple", 0, "", [self.fresh_arg(st, f"{name}.{i}", x, tag) for i, x in enumerate(ty[1])])
        if k == "adt" and ty[1] == "std::boxed::Box":
            return self.fresh_arg(st, name, ty[2][0], tag)
        return self.wrap(mk("sym", None, tag, name), ty)

    # ------------------------------------------------------------ memory
    def root_content(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "V":
            return root[1]
        if root[0] == "O":
            r = root[1]
            ty = type_of(r)
            inner = ty[2] if ty and ty[0] == "ref" else None
            if inner is not None:
                self.rootty[root] = inner
            return self.wrap(mk("deref", r), inner)
        if root[0] == "P":
            raise Limit("promoted not materialised")
        return mk("uninit")

    def read(self, st, root, path):
        v = self.root_content(st, root)
        for s in path:
            v = self.proj(st, v, s)
        return v

    def proj(self, st, v, s):
        k = s[0]
        if k == "f":
            if v.op == "agg":
                if v.a[1] == s[1] and s[2] < len(v.a[3]):
                    return v.a[3][s[2]]
                return mk("bottom")
            if v.op == "ite":
                return mk("bottom")
            t = mk("fld", v, s[1], s[2], s[3])
            return self.wrap(t, s[4])
        if k == "idx":
            return self.velem(st, v, s[1], s[2] if len(s) > 2 else None)
        if k == "mv":
            return self.mval(st, v, s[1], s[2] if len(s) > 2 else None)
        if k == "rng":
            return mk("vslice", v, s[1], s[2])
        raise Limit("proj " + str(k))

    def write(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self.upd(st, self.root_content(st, root), path, val)

    def upd(self, st, v, path, val):
        s = path[0]
        new = val if len(path) == 1 else self.upd(st, self.proj(st, v, s), path[1:], val)
        if s[0] == "f":
            v = self.expand(st, v, s)
            fs = list(v.a[3])
            fs[s[2]] = new
            return agg(v.a[0], v.a[1], v.a[2], fs)
        if s[0] == "idx":
            return self.vset(st, v, s[1], new)
        if s[0] == "mv":
            while v.op == "minsert" and (v.a[1] is s[1] or st.eval(self.eqv(st, v.a[1], s[1])) is True):
                v = v.a[0]  # overwritten
            return mk("minsert", v, s[1], new)
        if s[0] == "rng":
            return mk("vsplice", v, s[1], s[2], new)
        raise Limit("upd")

    def expand(self, st, v, s):
        if v.op == "agg":
            return v
        owner = s[5]
        vi = s[1]
        n, names, tys, vname = self.layout(owner, vi)
        return agg("tuple" if owner[0] == "tuple" else owner[1], vi, vname,
                   [self.wrap(mk("fld", v, vi, i, names[i]), tys[i]) for i in range(n)])

    def layout(self, owner, vi):
        """owner: ('adt', path, args)-like type tuple -> (n, field names, types, variant name)"""
        if owner[0] == "tuple":
            return len(owner[1]), [str(i) for i in range(len(owner[1]))], list(owner[1]), ""
        if owner[0] == "adt":
            a = self.p.adts.get(owner[1])
            if a is None:
                raise Limit("layout of " + owner[1])
            var = a["variants"][vi]
            tys = []
            for i, f in enumerate(var["fields"]):
                if f["ty"] is not None:
                    tys.append(self.p.subst(self.p.ty(f["ty"]), dict(enumerate(owner[2]))))
                else:
                    tys.append(self.std_field(owner, vi, i))
            return len(var["fields"]), [f["name"] for f in var["fields"]], tys, (var["name"] if a["kind"] == "enum" else var["name"])
        raise Limit("layout " + str(owner))

    def std_field(self, owner, vi, i):
        n = owner[1]
        if n == OPT:
            return owner[2][0]
        if n == RES:
            return owner[2][vi]
        if n in ("std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeInclusive"):
            return owner[2][0]
        return None

    # ------------------------------------------------------------ vectors
    def velem(self, st, v, i, ety=None):
        o = v.op
        if o == "vec" or (o == "agg" and v.a[0] == "array"):
            items = v.a[0] if o == "vec" else v.a[3]
            if is_const(i) and 0 <= cval(i) < len(items):
                return items[cval(i)]
        elif o == "vpush":
            n = vlen(v.a[0])
            if st.same(i, n):
                return v.a[1]
            if st.entails(lplus(lsub(n, i), -1)):
                return self.velem(st, v.a[0], i, ety)
        elif o == "vset":
            d = lsub(i, v.a[1])
            if st.same(i, v.a[1]):
                return v.a[2]
            if st.entails(lplus(d, -1)) or st.entails(lplus(lneg(d), -1)):
                return self.velem(st, v.a[0], i, ety)
        elif o == "vinsert":
            d = lsub(i, v.a[1])
            if st.same(i, v.a[1]):
                return v.a[2]
            if st.entails(lplus(d, -1)):
                return self.velem(st, v.a[0], lplus(i, -1), ety)
            if st.entails(lplus(lneg(d), -1)):
                return self.velem(st, v.a[0], i, ety)
        elif o == "vremove":
            d = lsub(i, v.a[1])
            if st.entails(d):
                return self.velem(st, v.a[0], lplus(i, 1), ety)
            if st.entails(lplus(lneg(d), -1)):
                return self.velem(st, v.a[0], i, ety)
        elif o == "vrev":
            return self.velem(st, v.a[0], lplus(lsub(vlen(v.a[0]), i), -1), ety)
        elif o == "vslice":
            return self.velem(st, v.a[0], ladd(v.a[1], i), ety)
        elif o == "vrepeat":
            return v.a[0]
        elif o == "collected":
            from models import ra_item_pure
            r = ra_item_pure(self, st, v.a[0], i)
            if r is not None:
                return r
        if ety is None:
            ety = self.elem_type(v)
        t = mk("elem", v, i)
        r = self.wrap(t, ety)
        self.inst_vall(st, v, i, r)
        return r

    def elem_type(self, v):
        t = type_of(v)
        while t and t[0] == "ref":
            t = t[2]
        if t:
            if t[0] == "adt" and t[2]:
                return t[2][0]
            if t[0] in ("slice", "array"):
                return t[1]
        if v.op in ("vpush", "vset", "vinsert", "vremove", "vrev", "vslice", "vretain", "vsort", "vtrunc"):
            return self.elem_type(v.a[0])
        return None

    def inst_vall(self, st, v, i, r):
        """instantiate facts known for all elements of v at index i"""
        todo = []
        for tg in st.tags:
            if tg[0] == "vall" and tg[1] is v:
                todo.append(tg)
        if not todo:
            return
        if ("inst", v, i) in st.tags:
            return
        st.tags.add(("inst", v, i))
        for tg in todo:
            tpl = tg[2]
            if tpl[0] == "lin":
                if r.op == "lin":
                    st.add_lin(subst_lin(tpl[1], {ELEM: r, KPOS: i}))
            elif tpl[0] == "kind":
                if r.op == "lin":
                    n = self.velem(st, tpl[1], r)
                    self.restrict_kinds(st, n, tpl[2])

    def vset(self, st, v, i, x):
        if v.op == "vec" and is_const(i) and 0 <= cval(i) < len(v.a[0]):
            l = list(v.a[0])
            l[cval(i)] = x
            return mk("vec", tuple(l))
        if v.op == "agg" and v.a[0] == "array" and is_const(i):
            l = list(v.a[3])
            l[cval(i)] = x
            return agg("array", 0, "", l)
        if v.op == "vpush":
            if st.same(i, vlen(v.a[0])):
                return mk("vpush", v.a[0], x)
            if st.entails(lplus(lsub(vlen(v.a[0]), i), -1)):
                return mk("vpush", self.vset(st, v.a[0], i, x), v.a[1])
        if v.op == "vset" and st.same(i, v.a[1]):
            return mk("vset", v.a[0], v.a[1], x)
        if v.op == "vinsert" and st.same(i, v.a[1]):
            return mk("vinsert", v.a[0], v.a[1], x)
        if self.velem(st, v, i) is x:
            return v
        return mk("vset", v, i, x)

    # ------------------------------------------------------------ maps
    def mhas(self, st, m, k):
        if m.op == "mempty":
            return FALSE
        if m.op == "minsert":
            e = self.eqv(st, k, m.a[1])
            if e is TRUE or st.eval(e) is True:
                return TRUE
            r = self.mhas(st, m.a[0], k)
            if e is FALSE or st.eval(e) is False:
                return r
            if r is TRUE:
                return TRUE
            return mk("or", e, r)
        if m.op == "mremove":
            e = self.eqv(st, k, m.a[1])
            if e is TRUE or st.eval(e) is True:
                return FALSE
            r = self.mhas(st, m.a[0], k)
            if e is FALSE or st.eval(e) is False:
                return r
            return mk("and", bnot(e), r)
        for tg in st.tags:
            if tg[0] == "dense" and tg[1] is m and k.op == "lin":
                # keys are exactly 0..mlen
                return ge(lplus(lsub(self.mlen(m), k), -1))
        return mk("mhas", m, k)

    def mval(self, st, m, k, vty=None):
        if m.op == "minsert":
            e = self.eqv(st, k, m.a[1])
            if e is TRUE or st.eval(e) is True:
                return m.a[2]
            if e is FALSE or st.eval(e) is False:
                return self.mval(st, m.a[0], k, vty)
        if m.op == "mremove":
            e = self.eqv(st, k, m.a[1])
            if e is FALSE or st.eval(e) is False:
                return self.mval(st, m.a[0], k, vty)
        if vty is None:
            vty = self.map_types(m)[1]
        r = self.wrap(mk("mval", m, k), vty)
        if vty is not None and vty[0] == "adt" and vty[1] == ARENA_NODE:
            arena_inst(self, st, m, k, r)
        return r

    def map_types(self, m):
        t = type_of(m)
        while t and t[0] == "ref":
            t = t[2]
        if t and t[0] == "adt" and len(t[2]) >= 2:
            return t[2][0], t[2][1]
        if m.op in ("minsert", "mremove"):
            return self.map_types(m.a[0])
        return None, None

    def mlen(self, m):
        if m.op == "mempty":
            return num(0)
        t = mk("mlen", m)
        if t not in ATOM_BOUNDS:
            set_bounds(t, 0)
        return atom(t)

    def mlen_st(self, st, m):
        if m.op == "minsert":
            b = self.mlen_st(st, m.a[0])
            h = self.mhas(st, m.a[0], m.a[1])
            v = st.eval(h)
            if v is False:
                return lplus(b, 1)
            if v is True:
                return b
            r = self.mlen(m)
            st.add_lin(lsub(r, b))
            st.add_lin(lsub(lplus(b, 1), r))
            st.add_lin(lplus(r, -1))
            return r
        if m.op == "mremove":
            b = self.mlen_st(st, m.a[0])
            h = self.mhas(st, m.a[0], m.a[1])
            v = st.eval(h)
            if v is True:
                return lplus(b, -1)
            if v is False:
                return b
            r = self.mlen(m)
            st.add_lin(lsub(b, r))
            st.add_lin(lsub(r, lplus(b, -1)))
            return r
        return self.mlen(m)

    # ------------------------------------------------------------ equality
    def eqv(self, st, a, b):
        """boolean term for value equality (structural)"""
        if a is b:
            return TRUE
        if a.op == "ref" and b.op == "ref":
            return self.eqv(st, self.read(st, a.a[0], a.a[1]), self.read(st, b.a[0], b.a[1]))
        if a.op == "lin" and b.op == "lin":
            return eqz(lsub(a, b))
        if a.op in ("lit", "ch") and b.op in ("lit", "ch"):
            return FALSE
        if a.op in ("true", "false") and b.op in ("true", "false"):
            return FALSE
        if a.op in ("true", "false") or b.op in ("true", "false"):
            c, x = (a, b) if a.op in ("true", "false") else (b, a)
            return x if c is TRUE else bnot(x)
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            cs = []
            for x, y in zip(a.a[3], b.a[3]):
                e = self.eqv(st, x, y)
                if e is FALSE:
                    return FALSE
                if e is not TRUE:
                    cs.append(e)
            if not cs:
                return TRUE
            return cs[0] if len(cs) == 1 else mk("and", *cs)
        if a.op == "agg" and b.op != "agg":
            a, b = b, a
        if b.op == "agg" and b.a[0] in (OPT, RES) and a.op != "agg":
            cs = [self.isvar(a, b.a[1])]
            for i, y in enumerate(b.a[3]):
                cs.append(self.eqv(st, mk("fld", a, b.a[1], i, str(i)), y))
            if FALSE in cs:
                return FALSE
            cs = [c for c in cs if c is not TRUE]
            return cs[0] if len(cs) == 1 else mk("and", *cs)
        if a.id > b.id:
            a, b = b, a
        return mk("eq", a, b)

    def isvar(self, t, vi):
        if t.op == "agg":
            return boolean(t.a[1] == vi)
        return mk("isvar", t, vi)

    # ------------------------------------------------------------ kinds
    def kind_of(self, st, n):
        """set of node kinds of a node value"""
        if n.op == "agg" and isinstance(n.a[0], str) and n.a[0].startswith("dom::"):
            return frozenset([n.a[0][5:]])
        t = type_of(n)
        if t and t[0] == "adt" and t[1].startswith("dom::") and t[1][5:] in ALLKINDS:
            return frozenset([t[1][5:]])
        return st.kindset(n)

    def restrict_kinds(self, st, n, ks):
        cur = self.kind_of(st, n)
        new = cur & ks
        if not new:
            return False
        if n.op != "agg":
            st.kinds[n] = new
        return True

    # ------------------------------------------------------------ places
    def place(self, fr, st, pl):
        """-> (root, path, type)"""
        root, path, ty = ("L", fr.ctx, pl[0]), (), fr.ltys[pl[0]]
        vi = 0
        for e in pl[1:]:
            k = e[0]
            if k == "deref":
                while ty[0] == "adt" and ty[1] == "std::boxed::Box" and self.is_box(e[1]):
                    ty = ty[2][0]
                    break
                else:
                    bt = self.p.subst(self.p.ty(e[1]), fr.sub) if isinstance(e[1], int) else ty
                    if bt[0] == "adt" and bt[1] == "std::boxed::Box":
                        ty = bt[2][0]
                        vi = 0
                        continue
                    v = self.read(st, root, path)
                    root, path = self.target(st, v)
                    ty = ty[2] if ty[0] in ("ref", "ptr") else (bt[2] if bt[0] in ("ref", "ptr") else ty)
                vi = 0
            elif k == "dc":
                vi = e[1]
            elif k == "f":
                fty = self.p.subst(self.p.ty(e[3]), fr.sub)
                own = ty
                path = path + (("f", vi, e[1], e[2], fty, own),)
                ty = fty
                vi = 0
            elif k == "idx":
                i = st.mem.get(("L", fr.ctx, e[1]))
                ety = ty[1] if ty[0] in ("slice", "array") else None
                path = path + (("idx", i, ety),)
                ty = ety
            elif k == "cidx":
                ety = ty[1] if ty[0] in ("slice", "array") else None
                if e[3]:
                    i = lsub(self.len_of(st, root, path), num(e[1]))
                else:
                    i = num(e[1])
                path = path + (("idx", i, ety),)
                ty = ety
            elif k == "sub":
                n = self.len_of(st, root, path)
                hi = lsub(n, num(e[2])) if e[3] else num(e[2])
                path = path + (("rng", num(e[1]), hi),)
            else:
                raise Limit("place elem " + str(e))
        return root, path, ty

    def is_box(self, tyid):
        t = self.p.ty(tyid)
        return t[0] == "adt" and t[1] == "std::boxed::Box"

    def target(self, st, v):
        """pointee location of a reference value"""
        if v.op == "ref":
            return v.a[0], v.a[1]
        t = type_of(v)
        if is_str(v) and not (t and t[0] == "ref"):
            return ("V", v), ()
        if t and t[0] == "ref" or v.op in ("phi", "sym", "fld", "elem", "mval", "deref"):
            if t and t[0] != "ref":
                return ("V", v), ()
            return ("O", v), ()
        return ("V", v), ()

    def len_of(self, st, root, path):
        return vlen(self.read(st, root, path))

    def deref(self, st, v):
        """content behind (possibly several) references"""
        n = 0
        while n < 6:
            n += 1
            if v.op == "ref":
                v = self.read(st, v.a[0], v.a[1])
                continue
            t = type_of(v)
            if t and t[0] == "ref":
                v = self.root_content(st, ("O", v))
                continue
            break
        return v

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, fr, st, o):
        if o[0] in ("copy", "move"):
            root, path, ty = self.place(fr, st, o[1])
            v = self.read(st, root, path)
            return v
        return self.const(fr, st, o[1])

    def optype(self, fr, o):
        if o[0] in ("copy", "move"):
            return self.place_type(fr, o[1])
        t = o[1].get("ty")
        return self.p.subst(self.p.ty(t), fr.sub) if t is not None else None

    def place_type(self, fr, pl):
        ty = fr.ltys[pl[0]]
        for e in pl[1:]:
            if e[0] == "deref":
                if ty[0] == "adt" and ty[1] == "std::boxed::Box":
                    ty = ty[2][0]
                elif ty[0] in ("ref", "ptr"):
                    ty = ty[2]
            elif e[0] == "f":
                ty = self.p.subst(self.p.ty(e[3]), fr.sub)
            elif e[0] in ("idx", "cidx"):
                ty = ty[1] if ty[0] in ("slice", "array") else ty
        return ty

    def const(self, fr, st, c):
        k = c.get("c")
        ty = self.p.subst(self.p.ty(c["ty"]), fr.sub) if c.get("ty") is not None else None
        if k == "int":
            if ty[0] == "bool":
                return boolean(c["v"] not in (0, False))
            if ty[0] == "char":
                return ch(c["v"])
            return num(int(c["v"]))
        if k == "str":
            return lit(c["v"])
        if k == "bytes":
            root = ("V", mk("bytes", tuple(c["v"])))
            return mkref(root, ())
        if k == "zst":
            if ty[0] == "tuple":
                return UNIT
            if ty[0] == "adt":
                return agg(ty[1], 0, "", ())
            return mk("zst", ty)
        if k == "fn":
            return self.fnval(fr, c["fn"])
        if k == "promoted":
            b = self.p.bodies[c["of"]]
            body = b["promoted"][c["i"]]
            ctx = self.ctx(0, ("promoted", c["of"], c["i"]), 0)
            root = ("L", ctx, 0)
            v = st.mem.get(root)
            if v is None:
                f2 = Frame(ctx, c["of"], b, body, fr.sub, (c["of"], "p", c["i"]), self)
                outs = self.run_frame(f2, st, keep=True)
                st.mem.update(outs[0][0].mem)
                st.mem[root] = outs[0][1]
                v = outs[0][1]
            return v
        if k == "uneval":
            key = c.get("key")
            if key in self.p.bodies:
                b = self.p.bodies[key]
                f2 = Frame(self.ctx(fr.ctx, ("const", key), 0), key, b, b["body"], {}, key, self)
                outs = self.run_frame(f2, st, keep=True)
                st.mem.update(outs[0][0].mem)
                return outs[0][1]
            v = c.get("val")
            if v and v.get("c") in ("int", "str"):
                return self.const(fr, st, v)
            return self.wrap(mk("sym", None, "const", c.get("path")), ty)
        name = c.get("path") or c.get("v") or c.get("s")
        if not name:
            # a constant without a printable identity: one symbol per occurrence
            ids = self.__dict__.setdefault("constids", {})
            name = f"{k}#{ids.setdefault(id(c), len(ids))}"
        return self.wrap(mk("sym", None, "const", str(name)), ty)

    def fnval(self, fr, fn):
        t = mk("fnv", fn.get("res") or fn["key"], tuple(self.tyarg(fr, a) for a in (fn.get("args") or [])))
        self.fns[t] = (fn, fr.sub)
        return t

    def tyarg(self, fr, a):
        return self.p.subst(self.p.ty(a), fr.sub) if isinstance(a, int) else ("const", str(a))

    def rvalue(self, fr, st, r, dty, span, blk):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            root, path, ty = self.place(fr, st, r[2])
            if ty and ty[0] == "str":
                return self.read(st, root, path)
            if root[0] == "O" and not path and root not in st.mem:
                t = type_of(root[1])
                if t and t[0] == "ref":
                    return root[1]
            return mkref(root, path, r[1] != "shared" and r[1] != "fake")
        if k == "rawptr":
            root, path, ty = self.place(fr, st, r[1])
            return mkref(root, path, True)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            if r[1].startswith("IntToInt"):
                src = self.optype(fr, r[2])
                return self.cast_int(st, v, src, dty)
            return v
        if k == "bin":
            return self.binop(fr, st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), self.optype(fr, r[2]))
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if v.op == "lin":
                    return self.wrap(mk("bitnot", v), dty)
                return bnot(v)
            if r[1] == "Neg":
                return lneg(v)
            if r[1] in ("PtrMetadata", "Len"):
                x = self.deref(st, v)
                return slen(x) if is_str(x) else vlen(x)
            return self.wrap(mk("un", r[1], v), dty)
        if k == "discr":
            root, path, ty = self.place(fr, st, r[1])
            v = self.read(st, root, path)
            return self.discr(v, ty)
        if k == "len":
            root, path, ty = self.place(fr, st, r[1])
            return self.len_of(st, root, path)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            return mk("vrepeat", v, str(r[2]))
        if k == "agg":
            d = r[1]
            ops = [self.operand(fr, st, o) for o in r[2]]
            if d[0] == "tuple":
                return agg("tuple", 0, "", ops)
            if d[0] == "array":
                return agg("array", 0, "", ops)
            if d[0] == "adt":
                a = self.p.adts.get(d[1])
                if d[1] == "std::boxed::Box":
                    return ops[0]
                return agg(d[1], d[2], d[3] if a is None or a["kind"] == "enum" or True else "", ops)
            if d[0] == "closure":
                t = agg("closure:" + d[1], 0, d[1], ops)
                self.fns[("closure", d[1])] = (d[1], fr.sub)
                return t
        raise Limit("rvalue " + k)

    def discr(self, v, ty):
        if v.op == "agg":
            path = v.a[0]
            a = self.p.adts.get(path)
            return num(int(a["discrs"][v.a[1]])) if a else num(v.a[1])
        t = mk("discr", v)
        if ty and ty[0] == "adt":
            typed(t, ("discr", ty))
        return atom(t)

    def cast_int(self, st, v, src, dst):
        if v.op == "ch":
            return num(v.a[0])
        if src and src[0] == "char":
            t = mk("cp", v)
            set_bounds(t, 0, 0x10FFFF)
            return atom(t)
        if v.op in ("true", "false"):
            return num(1 if v is TRUE else 0)
        if src and src[0] == "bool":
            t = mk("b2i", v)
            set_bounds(t, 0, 1)
            return atom(t)
        if v.op != "lin":
            return self.wrap(mk("cast", str(dst), v), dst)
        if dst[0] == "char":
            return typed(mk("asch", v), dst)
        lo, hi = INT_RANGE.get(dst[1], (None, None))
        if is_const(v):
            x = cval(v)
            if (lo is None or x >= lo) and (hi is None or x <= hi):
                return v
        slo, shi = INT_RANGE.get(src[1], (None, None)) if src and src[0] == "int" else (None, None)
        if slo is not None and lo is not None and slo >= lo and (hi is None or (shi is not None and shi <= hi)):
            return v
        if lo is not None and hi is not None and st.entails(lplus(v, -lo)) and st.entails(lsub(num(hi), v)):
            return v
        if lo is not None and hi is None and st.entails(v):
            return v
        return self.wrap(mk("cast", dst[1], v), dst)

    def binop(self, fr, st, op, a, b, ty):
        if a.op == "lin" and b.op == "lin":
            if op in ("Add", "AddUnchecked", "AddWithOverflow", "Sub", "SubUnchecked", "SubWithOverflow", "Mul", "MulWithOverflow", "MulUnchecked"):
                if op[0] == "A":
                    v = ladd(a, b)
                elif op[0] == "S":
                    v = lsub(a, b)
                elif is_const(a) or is_const(b):
                    v = lscale(b, cval(a)) if is_const(a) else lscale(a, cval(b))
                else:
                    v = self.wrap(mk("mul", a, b), ty)
                if op.endswith("WithOverflow"):
                    lo, hi = INT_RANGE.get(ty[1], (None, None))
                    small = ty[1] in SMALL
                    if op[0] == "S":
                        if lo == 0:
                            of = ge(lplus(lneg(v), -1))  # v < 0
                        elif small:
                            of = mk("or", ge(lplus(lneg(lplus(v, -lo)), -1)), ge(lplus(v, -hi - 1)))
                        else:
                            of = FALSE
                    else:
                        of = ge(lplus(v, -hi - 1)) if (small and hi is not None) else FALSE
                        if is_const(v) and hi is not None:
                            of = boolean(cval(v) > hi)
                    return agg("tuple", 0, "", (v, of))
                if op == "Sub" and ty and INT_RANGE.get(ty[1], (None,))[0] == 0 and not st.entails(v):
                    return self.wrap(mk("wrapsub", a, b), ty)
                return v
            if op == "Eq":
                return eqz(lsub(a, b))
            if op == "Ne":
                return bnot(eqz(lsub(a, b)))
            if op == "Lt":
                return ge(lplus(lsub(b, a), -1))
            if op == "Le":
                return ge(lsub(b, a))
            if op == "Gt":
                return ge(lplus(lsub(a, b), -1))
            if op == "Ge":
                return ge(lsub(a, b))
            if op in ("Div", "Rem") and is_const(b) and cval(b) > 0:
                n = cval(b)
                if is_const(a):
                    return num(cval(a) // n if op == "Div" else cval(a) % n)
                if ty[1] in ("usize", "u32", "u64", "u8", "u16") or st.entails(a):
                    q = mk("div", a, n)
                    if q not in ATOM_BOUNDS:
                        set_bounds(q, 0)
                    qa = atom(q)
                    st.add_lin(lsub(a, lscale(qa, n)))
                    st.add_lin(lplus(lsub(lscale(qa, n), a), n - 1))
                    return qa if op == "Div" else lsub(a, lscale(qa, n))
            if op == "Rem" and st.entails(lplus(b, -1)) and st.entails(a):
                t = mk("rem", a, b)
                set_bounds(t, 0)
                st.add_lin(lplus(lsub(b, atom(t)), -1))
                return atom(t)
            return self.wrap(mk("bin", op, a, b), ty)
        if op in ("Eq", "Ne"):
            e = self.eqv(st, a, b)
            return e if op == "Eq" else bnot(e)
        if op == "BitAnd":
            if FALSE in (a, b):
                return FALSE
            if a is TRUE:
                return b
            if b is TRUE:
                return a
            return mk("and", a, b)
        if op == "BitOr":
            if TRUE in (a, b):
                return TRUE
            if a is FALSE:
                return b
            if b is FALSE:
                return a
            return mk("or", a, b)
        if op == "BitXor":
            if a.op in ("true", "false"):
                return bnot(b) if a is TRUE else b
            if b.op in ("true", "false"):
                return bnot(a) if b is TRUE else a
        return self.wrap(mk("bin", op, a, b), ("bool",) if op in ("Lt", "Le", "Gt", "Ge") else ty)

    # ------------------------------------------------------------ branching
    def assume(self, st, b, val=True):
        """list of states where b == val"""
        if b.op == "not":
            return self.assume(st, b.a[0], not val)
        if b.op == "isvar":
            n = 2
            cur = st.variants(b.a[0], 2)
            new = cur & {b.a[1]} if val else cur - {b.a[1]}
            if not new:
                return []
            s = st.fork()
            s.var[b.a[0]] = frozenset(new)
            return [s]
        if (b.op == "and" and not val) or (b.op == "or" and val):
            # split: first decided conjunct
            out = []
            cur = [st]
            for x in b.a:
                nxt = []
                for s in cur:
                    out += self.assume(s, x, b.op == "or")
                    nxt += self.assume(s, x, b.op != "or")
                cur = nxt
            return out
        if (b.op == "and" and val) or (b.op == "or" and not val):
            cur = [st]
            for x in b.a:
                cur = [s2 for s in cur for s2 in self.assume(s, x, val)]
            return cur
        s = st.fork()
        if not s.assume(b, val):
            return []
        return [s]

    def split_bool(self, st, b):
        """[(state, bool)]"""
        if b is TRUE:
            return [(st, True)]
        if b is FALSE:
            return [(st, False)]
        return [(s, True) for s in self.assume(st, b, True)] + [(s, False) for s in self.assume(st, b, False)]

    def split_variant(self, st, t, n=2):
        """[(state, variant index)] for an enum value"""
        if t.op == "agg":
            return [(st, t.a[1])]
        vs = st.variants(t, n)
        if len(vs) == 1:
            return [(st, next(iter(vs)))]
        out = []
        for v in sorted(vs):
            s = st.fork()
            s.var[t] = frozenset([v])
            out.append((s, v))
        return out

    def payload(self, t, vi, ty=None, i=0):
        if t.op == "agg":
            return t.a[3][i]
        if ty is None:
            tt = type_of(t)
            if tt and tt[0] == "adt":
                ty = self.std_field(tt, vi, i)
        return self.wrap(mk("fld", t, vi, i, str(i)), ty)

    # ------------------------------------------------------------ events
    def emit(self, kind, fr, st, blk, span, **data):
        self.events.append(Event(kind, fr.key, span, data, st, fr, blk))

    def obligation(self, fr, st, blk, span, kind, ok, what):
        self.events.append(Event("ob", fr.key, span, {"kind": kind, "ok": ok, "what": what}, st if not ok else None, fr, blk))

    # ------------------------------------------------------------ running bodies
    def call_body(self, fr, st, blk, key, args, sub, extra=None):
        """inline a local function -> [(state, value)]"""
        b = self.p.bodies[key]
        sm = self.summaries.get(key)
        if sm is not None and self.stack:
            r = sm(self, fr, st, blk, key, args, sub)
            if r is not None:
                return r
        if key in self.stack and (self.stack.count(key) >= 1):
            return self.recursive(fr, st, blk, key, args, sub)
        if key in self.opaque and self.stack:
            return self.opaque_body(fr, st, blk, key, args, sub)
        if len(self.stack) > 60:
            raise Limit("inlining too deep")
        self.stats["inlined"] += 1
        ctx = self.ctx(fr.ctx if fr else 0, key, blk, extra)
        f2 = Frame(ctx, key, b, b["body"], sub, key, self)
        for i, a in enumerate(args):
            st.mem[("L", ctx, i + 1)] = a
        tap = self.taps.get(key)
        self.stack.append(key)
        self.argstack[key] = args
        try:
            if tap:
                tap(self, "enter", f2, st, args, None)
            outs = self.run_frame(f2, st)
            if tap:
                for s, v in outs:
                    tap(self, "exit", f2, s, args, v)
            return outs
        finally:
            self.stack.pop()

    def opaque_body(self, fr, st, blk, key, args, sub):
        """a local function verified on its own: uninterpreted result"""
        b = self.p.bodies[key]
        out = self.p.subst(self.p.ty(b["output"]), sub)
        contents = tuple(self.deep(st, a) for a in args)
        self.emit("opq", fr, st, blk, None, callee=key, args=contents)
        return [(st, self.wrap(mk("call", key, contents), out))]

    def deep(self, st, a):
        n = 0
        while a.op == "ref" and n < 5:
            a = self.read(st, a.a[0], a.a[1])
            n += 1
        if a.op == "agg" and any(x.op in ("ref", "agg") for x in a.a[3]):
            return agg(a.a[0], a.a[1], a.a[2], [self.deep(st, x) for x in a.a[3]])
        return a

    def recursive(self, fr, st, blk, key, args, sub):
        b = self.p.bodies[key]
        if "recsum" in self.opts:
            r = self.opts["recsum"](self, fr, st, blk, key, args, sub)
            if r is not None:
                return r
        out = self.p.subst(self.p.ty(b["output"]), sub) if b.get("output") is not None else None
        contents = []
        mutated = False
        for a in args:
            if a.op == "ref":
                c = self.read(st, a.a[0], a.a[1])
                contents.append(c)
                if a.a[2]:
                    mutated = True
                    self.emit("havoc", fr, st, blk, None, ref=a, by=key)
                    self.write(st, a.a[0], a.a[1], self.fresh(fr, blk, ("rec", len(contents)), type_of(c)))
            else:
                contents.append(a)
        self.emit("rec", fr, st, blk, None, callee=key, args=args, outer=self.argstack.get(key))
        if mutated:
            return [(st, self.fresh(fr, blk, "recret", out))]
        return [(st, self.wrap(mk("call", key, tuple(contents)), out))]

    def run_frame(self, fr, st, keep=False):
        if self.deadline and time.time() > self.deadline:
            raise Limit("time budget")
        order, succ, loops = self.p.cfg(fr.bid, fr.body)
        region = set(order)
        backs, exits, rets = self.region(fr, [0], {0: [st]}, region, None)
        outs = []
        for s in rets:
            v = s.mem.get(("L", fr.ctx, 0), UNIT)
            outs.append((s, v))
        if not keep:
            for s, v in outs:
                for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.ctx]:
                    if not self.escapes(s, v, r):
                        del s.mem[r]
            outs = self.merge_returns(fr, outs)
        return outs

    def escapes(self, st, v, root):
        return False

    def merge_returns(self, fr, outs):
        if len(outs) <= 1:
            return outs
        RET = ("R", fr.ctx)
        sts = []
        for s, v in outs:
            s.mem[RET] = v
            sts.append(s)
        w = self.width
        if self.opts.get("keepret"):
            sts = self.join(fr, "ret", sts)
            return [(s, s.mem.pop(RET)) for s in sts]
        errs = [s for s in sts if is_err(s.mem[RET])]
        rest = [s for s in sts if not is_err(s.mem[RET])]
        self.width = 1
        sts = self.join(fr, "reterr", errs)
        self.width = min(w, 4)
        sts = sts + self.join(fr, "ret", rest)
        self.width = w
        return [(s, s.mem.pop(RET)) for s in sts]

    # region execution ------------------------------------------------
    def region(self, fr, heads, pend, region, head):
        order, succ, loops = self.p.cfg(fr.bid, fr.body)
        rank = fr.body.setdefault("_rank", {n: i for i, n in enumerate(order)})
        q = [rank[n] for n in pend]
        heapq.heapify(q)
        inq = set(q)
        backs, exits, rets = [], [], []
        first = True

        def route(n, s):
            if n == "ret":
                rets.append(s)
            elif n == head:
                backs.append(s)
            elif n in region:
                pend.setdefault(n, []).append(s)
                if rank[n] not in inq:
                    inq.add(rank[n])
                    heapq.heappush(q, rank[n])
            else:
                exits.append((n, s))
        while q:
            r = heapq.heappop(q)
            inq.discard(r)
            n = order[r]
            sts = pend.pop(n, [])
            if not sts:
                continue
            if n in loops and not (n == head and first):
                L = loops[n]
                ex, rt = self.run_loop(fr, n, L, sts)
                rets.extend(rt)
                for m, s in ex:
                    route(m, s)
            else:
                first = False if n == head else first
                if len(sts) > 1 and n != head:
                    sts = self.join(fr, n, [self.prune(fr, n, s) for s in sts])
                for s in sts:
                    for m, s2 in self.block(fr, n, s):
                        route(m, s2)
        return backs, exits, rets

    def prune(self, fr, n, st):
        live, borrowed = self.p.liveness(fr.bid, fr.body)
        lv = live.get(n, ())
        c = fr.ctx
        dead = [r for r in st.mem if r[0] == "L" and r[1] == c and r[2] not in lv and r[2] not in borrowed]
        for r in dead:
            del st.mem[r]
        return st

    def block(self, fr, n, st):
        self.stats["blocks"] += 1
        if self.deadline and self.stats["blocks"] % 64 == 0 and time.time() > self.deadline:
            raise Limit("time budget")
        b = fr.body["blocks"][n]
        st = st.fork()
        for s in b["s"]:
            if s[0] == "dead":
                st.mem.pop(("L", fr.ctx, s[1]), None)
                continue
            if s[0] == "setdiscr":
                continue
            if not isinstance(s[0], list):
                continue
            root, path, ty = self.place(fr, st, s[0])
            v = self.rvalue(fr, st, s[1], ty, s[-1], n)
            if path:
                self.emit("assign", fr, st, n, s[-1], root=root, path=path, val=v)
            self.write(st, root, path, v)
        return self.terminator(fr, n, st, b["t"])

    def terminator(self, fr, n, st, t):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "unreachable":
            return []
        if k == "drop":
            return [(t[1], st)]
        if k == "switch":
            return self.switch(fr, n, st, t)
        if k == "assert":
            c = self.operand(fr, st, t[1])
            outs = []
            bad = []
            for s, bv in self.split_bool(st, c):
                (outs if bv == t[2] else bad).append(s)
            if bad:
                s = bad[0]
                ops = [self.operand(fr, s, o) for o in t[4]]
                self.obligation(fr, s, n, t[-1], t[3], False, f"{t[3]} on " + ", ".join(show(o) for o in ops))
            else:
                self.obligation(fr, st, n, t[-1], t[3], True, t[3])
            return [(t[5], s) for s in outs]
        if k == "call":
            return self.call(fr, n, st, t)
        raise Limit("terminator " + k)

    def switch(self, fr, n, st, t):
        v = self.operand(fr, st, t[1])
        ty = self.p.ty(t[2]) if isinstance(t[2], int) else None
        outs = []
        targets = t[3]
        if ty and ty[0] == "bool" or v.op in ("true", "false"):
            other = t[4]
            cases = {}
            for val, bb in targets:
                cases[bool(int(val))] = bb
            for s, bv in self.split_bool(st, v):
                outs.append((cases.get(bv, other), s))
            return outs
        if ty and ty[0] == "char":
            cur = [st]
            for val, bb in targets:
                nxt = []
                c = self.eqv(st, v, ch(int(val)))
                for s in cur:
                    for s2, bv in self.split_bool(s, c):
                        if bv:
                            outs.append((bb, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            outs += [(t[4], s) for s in cur]
            return outs
        if v.op == "lin" and len(v.a[1]) == 1 and v.a[1][0][0].op == "discr":
            e = v.a[1][0][0].a[0]
            dt = type_of(v.a[1][0][0])
            adt = self.p.adts.get(dt[1][1]) if dt else None
            ds = [int(x) for x in adt["discrs"]] if adt else list(range(2))
            cur = set(st.variants(e, len(ds)))
            for val, bb in targets:
                val = int(val)
                for vi in list(cur):
                    if ds[vi] == val:
                        cur.discard(vi)
                        s = st.fork()
                        s.var[e] = frozenset([vi])
                        outs.append((bb, s))
            if cur:
                s = st.fork()
                s.var[e] = frozenset(cur)
                outs.append((t[4], s))
            return outs
        cur = [st]
        for val, bb in targets:
            nxt = []
            for s in cur:
                for s2, bv in self.split_bool(s, eqz(lplus(v, -int(val)))):
                    if bv:
                        outs.append((bb, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        outs += [(t[4], s) for s in cur]
        return outs

    def call(self, fr, n, st, t):
        func, ops, dest, target, dty = t[1], t[2], t[3], t[4], t[5]
        span = t[-1]
        args = [self.operand(fr, st, o) for o in ops]
        atys = [self.optype(fr, o) for o in ops]
        dty = self.p.subst(self.p.ty(dty), fr.sub) if isinstance(dty, int) else None
        if func[0] == "const" and func[1].get("c") == "fn":
            fn = func[1]["fn"]
            res = self.call_fn(fr, n, st, fn, args, atys, dty, span)
        else:
            f = self.operand(fr, st, func)
            res = self.call_value(fr, n, st, f, args, atys, dty, span)
        outs = []
        for s, v in res:
            if v is None or target is None:
                continue
            root, path, ty = self.place(fr, s, dest)
            self.write(s, root, path, v)
            outs.append((target, s))
        return outs

    # ------------------------------------------------------------ calls
    def call_fn(self, fr, blk, st, fn, args, atys, dty, span):
        """-> [(state, value)]"""
        key, sub = self.resolve(fr, fn)
        if key is not None:
            return self.call_body(fr, st, blk, key, args, sub)
        m = self.models.find(self, fn)
        if m is not None:
            r = m(self, fr, blk, st, fn, args, atys, dty, span)
            if r is not NotImplemented:
                return r
        tr = fn.get("trait")
        if tr == NODE_TRAIT:
            return self.node_dispatch(fr, blk, st, fn, args, atys, dty, span)
        return self.opaque_call(fr, blk, st, fn, args, dty, span)

    def resolve(self, fr, fn):
        p = self.p
        if fn.get("reslocal") and fn.get("res") in p.bodies:
            b = p.bodies[fn["res"]]
            ra = [self.tyarg(fr, a) for a in (fn.get("resargs") or [])]
            return fn["res"], self.subof(b, ra)
        if fn.get("local") and not fn.get("trait") and fn["key"] in p.bodies:
            b = p.bodies[fn["key"]]
            return fn["key"], self.subof(b, [self.tyarg(fr, a) for a in (fn.get("args") or [])])
        tr = fn.get("trait")
        if tr:
            a = [self.tyarg(fr, x) for x in (fn.get("args") or [])]
            if a:
                selfty, targs = a[0], a[1:]
                if selfty[0] == "adt" and selfty[1] == "std::boxed::Box" and tr == NODE_TRAIT:
                    selfty = selfty[2][0]
                if selfty[0] not in ("dyn", "param", "alias"):
                    im, sub = p.find_impl(tr, selfty, targs if tr in ("std::convert::From", "std::cmp::PartialEq") else None)
                    if im is not None and fn["name"] in im["items"] and im["items"][fn["name"]] in p.bodies:
                        k = im["items"][fn["name"]]
                        return k, self.subof(p.bodies[k], [sub.get(i) for i in range(len(sub))] + targs)
                    if im is not None and tr in p.traits:
                        it = p.traits[tr]["items"].get(fn["name"])
                        if it and it[1] and it[0] in p.bodies:
                            return it[0], {0: selfty}
        return None, None

    def subof(self, b, args):
        sub = {}
        for (i, nm), a in zip(b.get("generics") or [], args):
            if a is not None:
                sub[i] = a
        return sub

    def call_value(self, fr, blk, st, f, args, atys, dty, span, extra=None):
        """call a closure / fn value with untupled args"""
        f0 = f
        f = self.deref(st, f)
        if f.op == "agg" and isinstance(f.a[0], str) and f.a[0].startswith("closure:"):
            key = f.a[0][8:]
            b = self.p.bodies[key]
            sub = self.fns.get(("closure", key), (None, {}))[1]
            t1 = self.p.ty(b["body"]["locals"][1])
            if t1[0] == "ref":
                if f0.op == "ref":
                    selfv = mkref(f0.a[0], f0.a[1], True)
                    c = self.read(st, f0.a[0], f0.a[1])
                    while c.op == "ref":
                        selfv, c = c, self.read(st, c.a[0], c.a[1])
                else:
                    root = ("C", self.ctx(fr.ctx, key, blk, extra))
                    st.mem[root] = f
                    selfv = mkref(root, (), True)
            else:
                selfv = f
            body = b["body"]
            if body.get("spread"):
                cargs = [selfv, agg("tuple", 0, "", args)]
            else:
                cargs = [selfv] + list(args)
            return self.call_body(fr, st, blk, key, cargs, sub, ("cl", extra))
        if f.op == "fnv":
            fn, sub = self.fns[f]
            fr2 = fr
            if sub and sub != fr.sub:
                fr2 = Frame(fr.ctx, fr.key, fr.binfo, fr.body, sub, fr.bid, self)
            a2 = f.a[1]
            return self.call_fn(fr2, blk, st, fn, list(args), atys, dty, span)
        # opaque predicate / callback
        cont = tuple(self.deref(st, a) for a in args)
        self.emit("usercall", fr, st, blk, span, f=f, args=args, contents=cont)
        ft = type_of(f)
        for a in args:
            if a.op == "ref" and a.a[2]:
                c = self.read(st, a.a[0], a.a[1])
                self.write(st, a.a[0], a.a[1], self.fresh(fr, blk, ("cbmut",), type_of(c)))
        r = mk("app", f, cont)
        return [(st, self.wrap(r, dty) if dty and dty[0] != "bool" else typed(r, ("bool",)))]

    def node_dispatch(self, fr, blk, st, fn, args, atys, dty, span):
        """call of a Node method on dyn Node / an opaque Node parameter"""
        recv = args[0]
        n = self.deref(st, recv)
        name = fn["name"]
        groups = []
        for k in sorted(self.kind_of(st, n)):
            s = st.fork()
            if not self.restrict_kinds(s, n, frozenset([k])):
                continue
            selfty = ("adt", "dom::" + k, ())
            r = self.p.resolve(NODE_TRAIT, name, selfty)
            if r is None:
                # supertraits / unknown
                groups += self.opaque_call(fr, blk, s, fn, args, dty, span)
                continue
            key, sub = r
            rv = recv
            while rv.op == "ref":
                c = self.read(s, rv.a[0], rv.a[1])
                if c.op != "ref" and not (type_of(c) and type_of(c)[0] == "ref"):
                    break
                if c.op != "ref":
                    rv = mkref(("O", c), (), rv.a[2])
                    break
                rv = c
            if rv.op != "ref" and type_of(rv) and type_of(rv)[0] == "ref":
                rv = mkref(("O", rv), (), type_of(rv)[1])
            for s2, v in self.call_body(fr, s, blk, key, [rv] + list(args[1:]), sub, k):
                groups.append((s2, v))
        if len(groups) <= 1 or self.opts.get("dispsplit"):
            return groups
        # merge outcomes that do not distinguish the kinds
        byv = {}
        for s, v in groups:
            key = (v.op, v) if v.op in ("true", "false") else ("v", v.a[1] if v.op == "agg" else None, v if v.op == "ref" else None)
            byv.setdefault(key, []).append((s, v))
        out = []
        RET = ("R", fr.ctx)
        for key, g in byv.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            ks = frozenset().union(*[self.kind_of(s, n) for s, _ in g])
            for s, v in g:
                s.mem[RET] = v
            for s in self.join(fr, ("disp", blk), [s for s, _ in g]):
                v = s.mem.pop(RET)
                if n.op != "agg":
                    s.kinds[n] = ks
                out.append((s, v))
        return out

    def opaque_call(self, fr, blk, st, fn, args, dty, span):
        path = fn.get("respath") or fn.get("path")
        self.unknown[fn.get("path")] = self.unknown.get(fn.get("path"), 0) + 1
        self.emit("unknown", fr, st, blk, span, path=fn.get("path"), args=args)
        for i, a in enumerate(args):
            if a.op == "ref" and a.a[2]:
                c = self.read(st, a.a[0], a.a[1])
                self.write(st, a.a[0], a.a[1], self.fresh(fr, blk, ("extmut", fn.get("path"), i), type_of(c)))
        if dty and dty[0] == "never":
            return []
        return [(st, self.fresh(fr, blk, ("ext", fn.get("path")), dty))]

    # ------------------------------------------------------------ loops
    def born_in(self, t, fr, L):
        """does t mention a name created inside loop L of frame fr"""
        k = (t, fr.ctx, L)
        r = self.born_cache.get(k)
        if r is None:
            r = False
            for x in subs(t):
                if x.op in ORIGIN_OPS and isinstance(x.a[0], tuple):
                    if self.origin_in(x.a[0], fr.ctx, L):
                        r = True
                        break
            self.born_cache[k] = r
        return r

    def origin_in(self, o, ctx, L):
        c, b = o
        while c is not None:
            if c == ctx:
                if isinstance(b, tuple):
                    b = b[1] if len(b) > 1 and isinstance(b[1], int) else b[0]
                return b in L
            c, b = self.ctxinfo[c][0], self.ctxinfo[c][1]
        return False

    def run_loop(self, fr, h, L, entry):
        L = frozenset(L)
        entry = [self.prune(fr, h, s) for s in entry]

        def body(heads):
            backs, exits, rets = self.region(fr, [h], {h: heads}, set(L), h)
            backs = [self.prune(fr, h, s) for s in backs]
            return backs, exits, rets
        return self.fixpoint(fr, h, L, entry, body)

    def fixpoint(self, fr, h, L, entry, body):
        self.stats["loops"] += 1
        mark = len(self.events)
        heads = {}
        backs = []
        coarse = False
        it = 0
        while True:
            it += 1
            self.stats["iters"] += 1
            if it > 30:
                raise Limit("loop does not stabilise")
            groups = {}
            for s in self.split_options(entry) + self.split_options(backs):
                groups.setdefault(() if coarse else self.shape(s), []).append(s)
            if len(groups) > 16 and not coarse:
                coarse = True
                heads = {}
                backs = []
                continue
            new = {}
            changed = False
            for k, g in groups.items():
                prev = heads.get(k)
                hd = self.generalize(fr, (h, "L", self.keyid(k)), g, loop=L, prev=prev, strict=it > 8)
                if self.debug:
                    print("  " * fr.depth(), self.p.bodies[fr.key]["path"], h, "it", it, "shape", len(new), "/", len(groups), "states", len(g), "lin", [len(s.lin) for s in g][:6], "mul", [len(s.index().multi) for s in g][:6], "bnd", [len(s.bnd) for s in g][:3], "occ", [len(s.occ) for s in g][:3], "bools", [len(s.bools) for s in g][:3], "tags", [len(s.tags) for s in g][:3], "mem", [len(s.mem) for s in g][:3], "->", len(hd.st.lin), len(hd.phis), "t %.1f" % (time.time() - self.t0), flush=True)
                new[k] = hd
                if prev is None or not self.same_head(prev, hd):
                    changed = True
            for k in heads:
                if k not in new:
                    new[k] = heads[k]
            if not changed:
                break
            heads = new
            del self.events[mark:]
            backs, exits, rets = body([hd.st.fork() for hd in heads.values()])
        by = None
        if fr.key in self.perhead and isinstance(h, int):
            if len(heads) == 1:
                by = [backs]
            else:
                keep, self.events = self.events, []
                by = []
                for hd in heads.values():
                    b1, _, _ = body([hd.st.fork()])
                    by.append(b1)
                self.events = keep
            by = [self.split_options(b) for b in by]
        self.emit("loop", fr, None, h, self.block_span(fr, h), by=by, heads=[hd.st for hd in heads.values()], phis=[hd.phis for hd in heads.values()],
                  backs=backs, entry=entry, keys=list(heads), exits=exits, rets=rets, nexits=len(exits) + len(rets), shape=(lambda s: () if coarse else self.shape(s)), L=L)
        if self.opts.get("markloops"):
            mk_ = (str(fr.ctx), str(h))
            exits, rets = [(n, s.fork()) for n, s in exits], [(r[0].fork(),) + tuple(r[1:]) for r in rets]
            for s in [s for _, s in exits] + [r[0] for r in rets]:
                s.ghost["past"] = tuple(sorted(set(s.ghost.get("past") or ()) | {mk_}))
        return exits, rets

    def split_options(self, sts):
        """case split on stored Option<integer> values of unknown variant"""
        out = []
        work = list(sts)
        n = 0
        while work:
            s = work.pop(0)
            hit = None
            if n < 40:
                for r, v in s.mem.items():
                    hit = self.find_option(v, 0)
                    if hit is not None:
                        break
            if hit is None:
                out.append(s)
                continue
            n += 1
            for s2, vi in self.split_variant(s, hit):
                new = NONE if vi == 0 else some(self.payload(hit, 1))
                for r in list(s2.mem):
                    s2.mem[r] = substT(s2.mem[r], {hit: new}, {})
                work.append(s2)
        return out

    def find_option(self, v, d):
        if v.op == "agg":
            if d < 3:
                for x in v.a[3]:
                    h = self.find_option(x, d + 1)
                    if h is not None:
                        return h
            return None
        t = type_of(v)
        if t and t[0] == "adt" and t[1] == OPT and t[2] and t[2][0][0] == "int":
            return v
        return None

    def block_span(self, fr, h):
        if isinstance(h, int):
            return fr.body["blocks"][h]["t"][-1]
        return h[-1] if isinstance(h, tuple) and isinstance(h[-1], list) else None

    _kids = {}

    def keyid(self, k):
        i = Engine._kids.get(k)
        if i is None:
            i = len(Engine._kids)
            Engine._kids[k] = i
        return i

    def same_head(self, a, b):
        x, y = a.st, b.st
        return (x.mem == y.mem and x.lin == y.lin and x.bools == y.bools and x.var == y.var and x.kinds == y.kinds
                and x.bnd == y.bnd and x.occ == y.occ and x.tags == y.tags and x.ne == y.ne and x.ghost == y.ghost)

    # ------------------------------------------------------------ shapes and joins
    def shape(self, st):
        out = []
        for r in sorted(st.mem, key=rootkey):
            sh = self.shp(st.mem[r], 0)
            if sh is not None:
                out.append((rootkey(r), sh))
        g = tuple(sorted((str(k), v) for k, v in st.ghost.items()))
        return (tuple(out), g)

    def shp(self, t, d):
        o = t.op
        if o in ("true", "false"):
            return o
        if o == "agg":
            if d > 4:
                return None
            fs = tuple(self.shp(x, d + 1) for x in t.a[3])
            k = t.a[0]
            if k == "array":
                return None
            a = self.p.adts.get(k) if isinstance(k, str) else None
            enum = a is not None and a["kind"] == "enum"
            if k == "it:vec" and self.opts.get("unroll"):
                # iteration over a constant table: positions are kept apart
                v, q = t.a[3][0], t.a[3][1]
                if v.op == "vec" and len(v.a[0]) <= 12 and q.op == "lin" and is_const(q):
                    return (k, cval(q), fs)
            if k.startswith("it:") or k.startswith("closure:"):
                return (k, fs)
            if enum:
                if k.startswith("errors::"):
                    return ("e", k)
                return (t.a[1], fs)
            if all(x is None for x in fs):
                return None
            return fs
        if o == "ref":
            if t.a[2]:
                return ("r", rootkey(t.a[0]), tuple(s[0] if s[0] != "f" else (s[1], s[2]) for s in t.a[1]))
            return None
        if o == "fnv":
            return t.id
        return None

    def join(self, fr, blk, sts):
        if len(sts) <= 1:
            return sts
        self.stats["joins"] += 1
        groups = {}
        for s in sts:
            groups.setdefault(self.shape(s), []).append(s)
        out = []
        for k, g in groups.items():
            g = self.dedupe(g)
            if self.width > 1 and len(g) > 1 and self.distinct_mem(g, fr, blk) <= self.width:
                out += self.merge_samemem(fr, blk, k, g)
                continue
            if len(g) > 1:
                g = [self.generalize(fr, (blk, "J", self.keyid(k)), g).st]
            out += g
        return out

    def memkey(self, s):
        k = (tuple(sorted((rootkey(r), v.id) for r, v in s.mem.items())),)
        if self.opts.get("paths"):
            k += (frozenset(s.kinds.items()), frozenset(s.bools.items()), frozenset(s.var.items()))
        return k

    def distinct_mem(self, g, fr, blk):
        return len({self.memkey(s) for s in g})

    def merge_samemem(self, fr, blk, k, g):
        gs = {}
        for s in g:
            gs.setdefault(self.memkey(s), []).append(s)
        out = []
        for i, h in enumerate(gs.values()):
            if len(h) > 1:
                h = [self.generalize(fr, (blk, "J", self.keyid(k), i), h).st]
            out += h
        return out

    def dedupe(self, g):
        out = []
        for s in g:
            dup = False
            for i, o in enumerate(out):
                if o.mem == s.mem and o.ghost == s.ghost and o.tags == s.tags:
                    if (o.lin == s.lin and o.bools == s.bools and o.var == s.var and o.kinds == s.kinds and o.bnd == s.bnd and o.occ == s.occ and o.ne == s.ne):
                        dup = True
                        break
            if not dup:
                out.append(s)
        return out

    def generalize(self, fr, name, sts, loop=None, prev=None, strict=False):
        return Gen(self, fr, name, sts, loop, prev, strict).run()


ELEM = mk("placeholder", "elem")
KPOS = mk("placeholder", "pos")


def subst_lin(l, m):
    r = num(l.a[0])
    for t, c in l.a[1]:
        x = m.get(t)
        r = ladd(r, x if x is not None else atom(t), c)
    return r


def rootkey(r):
    return tuple(x.id if isinstance(x, T) else (str(x)) for x in r)


class Head:
    __slots__ = ("st", "phis", "cands", "n")


def substT(t, m, cache):
    """substitute terms (phi -> value) inside a term"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(substT(x, m, cache) for x in t)
        return t
    r = cache.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not any(x in m for x in subs(t)):
        r = t
    elif t.op == "lin":
        r = num(t.a[0])
        for x, c in t.a[1]:
            y = substT(x, m, cache)
            r = ladd(r, y if y.op == "lin" else atom(y), c)
    elif t.op == "len":
        r = slen(substT(t.a[0], m, cache))
    elif t.op == "vlen":
        r = vlen(substT(t.a[0], m, cache))
    elif t.op == "w":
        r = wchar(substT(t.a[0], m, cache))
    elif t.op == "slice":
        b = substT(t.a[0], m, cache)
        r = cut(b, substT(t.a[1], m, cache), substT(t.a[2], m, cache))
    elif t.op == "cat":
        r = cat([substT(x, m, cache) for x in t.a[0]])
    elif t.op == "not":
        r = bnot(substT(t.a[0], m, cache))
    elif t.op == "ge":
        r = ge(substT(t.a[0], m, cache))
    elif t.op == "eqz":
        r = eqz(substT(t.a[0], m, cache))
    else:
        r = mk(t.op, *[substT(x, m, cache) for x in t.a])
        ty = type_of(t)
        if ty is not None:
            typed(r, ty)
        if t in ATOM_BOUNDS and r not in ATOM_BOUNDS:
            ATOM_BOUNDS[r] = ATOM_BOUNDS[t]
    cache[t] = r
    return r


class Gen:
    """generalisation (join / loop-head abstraction) of a list of states"""

    def __init__(self, eng, fr, name, sts, loop, prev, strict):
        self.e, self.fr, self.name, self.sts, self.loop, self.prev, self.strict = eng, fr, name, sts, loop, prev, strict
        self.phis = {}      # phi -> list of values per state
        self.order = []
        self.bytuple = {}
        self.n = len(sts)

    def force(self, t):
        return self.loop is not None and self.e.born_in(t, self.fr, self.loop)

    def phi(self, path, vals, ty):
        key = (tuple(vals),)
        if key in self.bytuple and not (self.prev and False):
            return self.bytuple[key]
        # lin values: phi atom
        t = mk("phi", (self.fr.ctx, self.name[0] if isinstance(self.name[0], (int, tuple)) else self.name[0]), self.name[1:], path)
        if all(v.op == "lin" for v in vals):
            los = []
            for v in vals:
                los.append(0 if is_const(v) and cval(v) >= 0 else (0 if self.nonneg(v) else None))
            if ty is not None and ty[0] == "int":
                set_bounds(t, *INT_RANGE.get(ty[1], (None, None)))
            elif all(l == 0 for l in los):
                # type unknown: treated as a candidate fact instead of an intrinsic bound
                pass
            r = atom(t)
            self.phis[t] = list(vals)
        else:
            if ty is None:
                ty = next((type_of(v) for v in vals if type_of(v)), None)
            if ty is None and all(is_str(v) for v in vals):
                ty = ("str",)
            typed(t, ty)
            r = t
            self.phis[t] = list(vals)
        self.order.append(t)
        self.bytuple[key] = r
        return r

    def nonneg(self, v):
        return False

    def gen(self, path, vals, ty):
        v0 = vals[0]
        if all(v is v0 for v in vals) and not self.force(v0):
            if not (self.prev and self.was_phi(path)):
                return v0
            if v0.op == "agg":
                pass
            else:
                return self.phi(path, vals, ty)
        vals = self.align(vals, ty)
        v0 = vals[0]
        g = next((v for v in vals if v.op in ("vset", "minsert")), None)
        if g is not None:
            B, i = g.a[0], g.a[1]
            if not self.force(B) and not self.force(i) and all(v is B or (v.op == g.op and v.a[0] is B and v.a[1] is i) for v in vals) and (
                    g.op == "vset" or all(v is not B or s.eval(self.e.mhas(s, B, i)) is True for s, v in zip(self.sts, vals))):
                old = [v.a[2] if v is not B else (self.e.velem(s, B, i) if g.op == "vset" else self.e.mval(s, B, i)) for s, v in zip(self.sts, vals)]
                x = self.gen(path + ("slot",), old, None)
                r = mk(g.op, B, i, x)
                t = type_of(g) or type_of(B)
                return typed(r, t) if t else r
        if all(v.op == "agg" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[3]) == len(v0.a[3]) for v in vals):
            tys = self.ftypes(v0, ty)
            return agg(v0.a[0], v0.a[1], v0.a[2], [
                self.gen(path + (i,), [v.a[3][i] for v in vals], tys[i] if tys else None) for i in range(len(v0.a[3]))])
        if all(v.op == "ref" for v in vals):
            p0 = v0.a[1]
            if all(v.a[0] == v0.a[0] and len(v.a[1]) == len(p0) for v in vals) and all(
                    all(self.samestep(v.a[1][j], p0[j]) for v in vals) for j in range(len(p0))):
                np = []
                for j, s in enumerate(p0):
                    if s[0] in ("idx",):
                        np.append(("idx", self.gen(path + ("p", j), [v.a[1][j][1] for v in vals], ("int", "usize"))) + tuple(s[2:]))
                    elif s[0] == "mv":
                        np.append(("mv", self.gen(path + ("p", j), [v.a[1][j][1] for v in vals], None)) + tuple(s[2:]))
                    elif s[0] == "rng":
                        np.append(("rng", self.gen(path + ("p", j, 0), [v.a[1][j][1] for v in vals], ("int", "usize")),
                                   self.gen(path + ("p", j, 1), [v.a[1][j][2] for v in vals], ("int", "usize"))))
                    else:
                        np.append(s)
                return mkref(v0.a[0], np, v0.a[2])
            if not any(v.a[2] for v in vals):
                inner = [self.e.read(s, v.a[0], v.a[1]) for s, v in zip(self.sts, vals)]
                g = self.gen(path + ("*",), inner, ty[2] if ty and ty[0] == "ref" else None)
                return mkref(("V", g), (), False)
            return self.phi(path, vals, ty)
        if all(is_str(v) for v in vals):
            bs = [sbase(v) for v in vals]
            b0 = bs[0][0]
            if all(b[0] is b0 for b in bs) and not self.force(b0) and any(v.op == "slice" for v in vals) and b0.op != "lit":
                lo = self.gen(path + ("lo",), [b[1] for b in bs], ("int", "usize"))
                hi = self.gen(path + ("hi",), [b[2] for b in bs], ("int", "usize"))
                return mkslice(b0, lo, hi)
        return self.phi(path, vals, ty)

    def align(self, vals, ty):
        """expand unexpanded structs when another state holds the same struct field by field"""
        g = next((v for v in vals if v.op == "agg"), None)
        if g is None or g.a[1] != 0 or all(v.op == "agg" for v in vals):
            return vals
        k = g.a[0]
        if k == "tuple":
            pass
        else:
            a = self.e.p.adts.get(k) if isinstance(k, str) else None
            if a is None or a["kind"] != "struct":
                return vals
        own = ty if ty is not None and ty[0] in ("adt", "tuple") else None
        if own is None or (own[0] == "adt" and own[1] != k):
            own = ("adt", k, ()) if k != "tuple" else None
        if own is None:
            return vals
        out = []
        for i, v in enumerate(vals):
            t = type_of(v)
            if v.op != "agg" and t != own and not (ty is not None and ty[0] == own[0] and (ty[0] == "tuple" or ty[1] == k)) and not (t and t[0] == "adt" and t[1] == k):
                if own[0] != "adt" or not k.startswith("dom::") or self.e.kind_of(self.sts[i], v) != frozenset([k[5:]]):
                    return vals
            if v.op in ("sym", "fld", "phi", "elem", "mval", "deref", "pay") or (v.op != "agg" and type_of(v) == own):
                try:
                    v = self.e.expand(None, v, ("f", 0, 0, "", None, own))
                except Exception:
                    return vals
            elif v.op != "agg":
                return vals
            out.append(v)
        return out

    def samestep(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "f":
            return a[1] == b[1] and a[2] == b[2]
        return True

    def was_phi(self, path):
        return path in self.prev.phis

    def ftypes(self, v, ty):
        try:
            k = v.a[0]
            if ty is not None and ty[0] == "adt" and ty[1] == "std::boxed::Box":
                ty = ty[2][0]
            if ty is not None and ty[0] in ("tuple", "adt") and (ty[0] == "tuple") == (k == "tuple"):
                if ty[0] == "adt" and ty[1] != k:
                    return None
                r = self.e.layout(ty, v.a[1])[2]
                if len(r) == len(v.a[3]):
                    return r
            elif isinstance(k, str) and k in self.e.p.adts and self.e.p.adts[k]["local"]:
                r = self.e.layout(("adt", k, ()), v.a[1])[2]
                if len(r) == len(v.a[3]):
                    return r
        except Exception:
            pass
        return None

    def roots(self):
        rs = {}
        for s in self.sts:
            for r in s.mem:
                rs[r] = None
        return rs

    def rty(self, r):
        if r[0] == "L" and r[1] == self.fr.ctx:
            return self.fr.ltys[r[2]]
        if r[0] == "L" and r[1] in self.e.frames:
            f = self.e.frames[r[1]]
            return f.ltys[r[2]] if r[2] < len(f.ltys) else None
        return self.e.rootty.get(r)

    def run(self):
        e, sts = self.e, self.sts
        out = State()
        mem = {}
        for r in self.roots():
            if r[0] == "O" and self.force(r[1]):
                continue
            if r[0] == "L" and not all(r in s.mem for s in sts):
                continue  # conditionally initialised and dead on some path
            if r[0] == "L" and r[1] != self.fr.ctx and self.loop is not None and self.origin_root(r):
                continue
            vals = [e.root_content(s, r) for s in sts]
            mem[r] = self.gen((rootkey(r),), vals, self.rty(r))
        out.mem = mem
        g0 = sts[0].ghost
        out.ghost = {k: v for k, v in g0.items() if all(s.ghost.get(k) == v for s in sts)}
        if any(s.ghost.get("ioseq", ()) != g0.get("ioseq", ()) for s in sts):
            out.ghost["ioseq"] = (("?", (), None),)   # what was written before is not known
        self.facts(out)
        hd = Head()
        hd.st = out
        hd.phis = {t.a[2]: (t, self.phis[t]) for t in self.phis}
        hd.n = self.n
        return hd

    def origin_root(self, r):
        return e_origin(self.e, r[1], self.fr.ctx, self.loop)

    def vacuous(self, s, b):
        for x in subs(b):
            if x.op == "fld" and x.a[0] in s.var and x.a[1] not in s.var[x.a[0]]:
                return True
        return False

    # ---------------------------------------------------------------- facts
    def facts(self, out):
        sts, n = self.sts, self.n
        base = min(sts, key=lambda s: len(s.lin) + len(s.bools) + len(s.bnd) + len(s.occ))
        others = [s for s in sts if s is not base]
        bi = sts.index(base)
        ok = lambda t: not self.force(t)
        okx = lambda *ts: all(not isinstance(t, T) or not self.force(t) for t in ts)
        # facts over shared terms
        for k, c in base.lin.items():
            if not all(ok(t) for t, _ in k):
                continue
            cc = c
            l = mk("lin", c, k)
            good = True
            for s in others:
                o = s.lin.get(k)
                if o is not None:
                    cc = max(cc, o)
                    continue
                if s.entails(l):
                    continue
                good = False
                break
            if good:
                out.lin[k] = cc
        # weaker constants present in others
        for b, v in base.bools.items():
            if ok(b) and all(s.bools.get(b) == v or s.eval(b) == v for s in others):
                out.bools[b] = v
        if self.e.opts.get("vac"):
            # a fact about the payload of a variant holds emptily where the value is another variant
            for b, v in dict.fromkeys((b, v) for s in sts for b, v in s.bools.items()):
                if b not in out.bools and ok(b) and all(s.bools.get(b) == v or self.vacuous(s, b) for s in sts):
                    out.bools[b] = v
        for l in base.ne:
            if ok(l) and all(l in s.ne or s.eval(eqz(l)) is False for s in others):
                out.ne.add(l)
        for x, y in base.cst.items():
            if okx(x, y) and all(s.cst.get(x) is y for s in others):
                out.cst[x] = y
        for t, vs in base.var.items():
            if ok(t):
                u = vs
                for s in others:
                    w = s.var.get(t)
                    if w is None:
                        u = None
                        break
                    u = u | w
                if u is not None:
                    out.var[t] = u
        for t, ks in base.kinds.items():
            if ok(t):
                u = ks
                for s in others:
                    u = u | s.kindset(t)
                if u != ALLKINDS:
                    out.kinds[t] = u
        for b, x in base.bnd:
            if okx(b, x) and all((b, x) in s.bnd or s._bnd(b, x) for s in others):
                out.bnd.add((b, x))
        for f in base.occ:
            if okx(f[0], f[1]) and all(f in s.occ for s in others):
                out.occ.add(f)
            elif okx(f[0], f[1]):
                for x in (f[1], lplus(f[1], utf8len(f[2]))):
                    if all(s._bnd(f[0], x) for s in others):
                        out.bnd.add((f[0], x))
        for tg in base.tags:
            if all(tg in s.tags for s in others) and okx(*flat(tg)):
                out.tags.add(tg)
        # facts about phis
        if self.phis:
            self.phifacts(out)

    def bindings(self, i):
        return {t: v[i] for t, v in self.phis.items()}

    def phifacts(self, out):
        e, sts = self.e, self.sts
        prevf = None
        oldphis = set()
        if self.prev is not None:
            prevf = self.prev.st
            oldphis = {t for t, _ in self.prev.phis.values()}
        binds = [self.bindings(i) for i in range(self.n)]
        caches = [dict() for _ in range(self.n)]
        for s in sts:
            arena_refresh(e, s)
        newphis = [t for t in self.phis if t not in oldphis]

        def holds_lin(l):
            for i, s in enumerate(sts):
                if not s.entails(norm_mlen(e, s, substT(l, binds[i], caches[i]))):
                    return False
            return True

        def holds_bnd(b, x):
            for i, s in enumerate(sts):
                if not s._bnd(*norm_bnd(substT(b, binds[i], caches[i]), substT(x, binds[i], caches[i]))):
                    return False
            return True
        # 1. previous candidates over old phis
        if prevf is not None:
            for k, c in prevf.lin.items():
                l = mk("lin", c, k)
                if any(x in self.phis for t, _ in k for x in subs(t)) and k not in out.lin and holds_lin(l):
                    out.lin[k] = c
            for b, x in prevf.bnd:
                if (mentions(b, self.phis) or mentions(x, self.phis)) and holds_bnd(b, x):
                    out.bnd.add((b, x))
            for b, v in prevf.bools.items():
                if mentions(b, self.phis) and all(s.eval(substT(b, binds[i], caches[i])) == v for i, s in enumerate(sts)):
                    out.bools[b] = v
            for t, vs in prevf.var.items():
                if mentions(t, self.phis):
                    u = self.varof(t, binds, caches)
                    if u is not None:
                        out.var[t] = u
            for t, ks in prevf.kinds.items():
                if mentions(t, self.phis):
                    u = self.kindof(t, binds, caches)
                    if u != ALLKINDS:
                        out.kinds[t] = u
            for tg in prevf.tags:
                if tg[0] == "vall" and tg[1] in self.phis and self.holds_vall(tg, binds, caches):
                    out.tags.add(tg)
                elif tg[0] == "minv" and tg[1] in self.phis and all(arena_inv(e, s, substT(tg[1], binds[i], caches[i])) for i, s in enumerate(sts)):
                    out.tags.add(tg)
                elif tg[0] == "dense" and tg[1] in self.phis and all(("dense", substT(tg[1], binds[i], caches[i])) in s.tags or is_dense(e, s, substT(tg[1], binds[i], caches[i])) for i, s in enumerate(sts)):
                    out.tags.add(tg)
        if self.strict and prevf is not None:
            newphis = []
        if not newphis:
            return
        # 2. fresh candidates for new phis
        ints = [t for t in self.phis if self.phis[t][0].op == "lin"]
        nints = [t for t in newphis if self.phis[t][0].op == "lin"]
        strs = [t for t in self.phis if t not in ints and all(is_str(v) for v in self.phis[t])]
        vecs = [t for t in self.phis if t not in ints and t not in strs and is_vec(t, self.phis[t])]
        maps = [t for t in self.phis if t not in ints and t not in strs and t not in vecs and is_map(t, self.phis[t])]
        meas = {}

        def add_measure(l):
            if l.a[1]:
                meas[l] = 1
        for t in strs:
            add_measure(slen(t))
        for t in vecs:
            add_measure(vlen(t))
        for t in maps:
            add_measure(e.mlen(t))
        for r, v in out.mem.items():
            for x in top_terms(v):
                if x.op == "lin":
                    if len(x.a[1]) <= 3:
                        add_measure(mk("lin", 0, x.a[1]))
                elif is_str(x):
                    b, lo, hi = sbase(x)
                    if b.op != "lit":
                        add_measure(slen(b)) if b.op != "cat" else None
                elif is_vec(x, [x]):
                    add_measure(mk("lin", 0, vlen(x).a[1]))
        # the value a phi had on entry
        for t in newphis:
            v = self.phis[t][0]
            if self.loop is None or self.force_ex(v):
                continue
            if t in strs:
                l = slen(v)
            elif t in vecs:
                l = vlen(v)
            elif t in maps:
                l = e.mlen(v)
            elif t in ints:
                l = v
            else:
                continue
            if l.a[1] and len(l.a[1]) <= 3:
                add_measure(mk("lin", 0, l.a[1]))
        # terms compared with the phi in incoming facts
        for t in nints:
            for i, v in enumerate(self.phis[t]):
                if len(v.a[1]) == 1:
                    a = v.a[1][0][0]
                    for k, c in list(sts[i].lin.items()):
                        if len(k) == 2 and any(x is a for x, _ in k):
                            o = [x for x, _ in k if x is not a]
                            if o and not self.force(o[0]):
                                add_measure(atom(o[0]))
        meas = [m for m in meas if not any(self.force(x) for x, _ in m.a[1]) or any(x in self.phis for x, _ in m.a[1])]
        cand = []
        for t in nints:
            x = atom(t)
            cand.append(x)
            for m in meas:
                if m is x:
                    continue
                for l in (lsub(m, x), lsub(x, m)):
                    cand.append(l)
        # new length measures against everything
        for t in newphis:
            if t in ints:
                continue
            m = slen(t) if t in strs else vlen(t) if t in vecs else e.mlen(t) if t in maps else None
            if m is None:
                continue
            cand.append(m)
            for y in meas:
                if y is not m:
                    cand.append(lsub(m, y))
                    cand.append(lsub(y, m))
        # sums: x + len(v) <= m
        lens = [vlen(t) for t in vecs] + [slen(t) for t in strs] + [e.mlen(t) for t in maps]
        for t in ints:
            for l in lens + [atom(u) for u in ints if u is not t and u.id > t.id]:
                if t not in nints and not any(x in newphis for y, _ in l.a[1] for x in subs(y)):
                    continue
                s_ = ladd(atom(t), l)
                for m in meas:
                    if m is l or m is atom(t) or len(m.a[1]) > 1:
                        continue
                    cand.append(lsub(m, s_))
                    cand.append(lsub(s_, m))
        seen = set()
        for l in cand:
            if l in seen or not l.a[1]:
                continue
            seen.add(l)
            best = None
            for c in (-2, -1, 0, 1, 2):
                ll = lplus(l, c)
                if holds_lin(ll):
                    best = c
                    break
            if best is None:
                continue
            lk = lplus(l, best)
            o = out.lin.get(lk.a[1])
            for c in range(best, (2 if self.loop is not None else best) + 1):
                pass
            if o is None or lk.a[0] < o:
                if not self.intrinsic(lk):
                    out.lin[lk.a[1]] = lk.a[0]
        # boundaries
        bases = {}
        for t in strs:
            bases[t] = 1
        for r, v in out.mem.items():
            for x in top_terms(v):
                if is_str(x):
                    b = sbase(x)[0]
                    if b.op not in ("lit", "cat"):
                        bases[b] = 1
        for i, s in enumerate(sts[:1]):
            for b, x in list(s.bnd) + [(o[0], o[1]) for o in s.occ]:
                if not self.force(b) and b.op not in ("lit", "cat"):
                    bases[b] = 1
        for b in bases:
            for t in ints:
                if b not in newphis and t not in newphis:
                    continue
                if self.loop is None and b not in self.phis and not self.near(b, t):
                    continue
                x = atom(t)
                if holds_bnd(b, x):
                    out.bnd.add((b, x))
        # facts of the first state about the replaced terms
        for t in newphis:
            vs = self.phis[t]
            if t in ints:
                continue
            for i0, s0 in enumerate(sts[:1]):
                v0 = vs[0]
                for b, v in list(s0.bools.items()):
                    if v0 in subs(b) and not v0.op == "lit":
                        nb = substT(b, {v0: t}, {})
                        if not self.force_ex(nb) and all(s.eval(substT(nb, binds[i], caches[i])) == v for i, s in enumerate(sts)):
                            out.bools[nb] = v
            u = self.varof(t, binds, caches)
            if u is not None:
                out.var[t] = u
            ks = self.kindof(t, binds, caches)
            if ks is not None and ks != ALLKINDS:
                out.kinds[t] = ks
        # element facts of index vectors
        for t in vecs:
            if t in newphis:
                self.vall_cands(t, out, meas, binds, caches)
        for t in maps:
            if t in newphis and all(is_dense(e, s, self.phis[t][i]) for i, s in enumerate(sts)):
                out.tags.add(("dense", t))
            if t in newphis and all(arena_inv(e, s, self.phis[t][i]) for i, s in enumerate(sts)):
                out.tags.add(("minv", t))
                for k in arena_keys(sts[0]):
                    if all(arena_elem(e, s, self.phis[t][i], k) for i, s in enumerate(sts)):
                        out.kinds[arena_value(e, None, t, k)] = frozenset(["Element"])
                        out.bools[e.mhas(out, t, k)] = True
                for p in ints:
                    x = arena_value(e, None, t, atom(p))
                    if x is not None and all(arena_elem(e, s, self.phis[t][i], self.phis[p][i]) for i, s in enumerate(sts)):
                        out.kinds[x] = frozenset(["Element"])
            elif t in newphis and ARENA_NODE in str(e.map_types(t)):
                out.tags.add(("arena_lost", NONE))

    def near(self, b, t):
        for v in self.phis[t]:
            if is_const(v):
                continue
            return True
        return True

    def force_ex(self, t):
        if self.loop is None:
            return False
        for x in subs(t):
            if x.op in ORIGIN_OPS and isinstance(x.a[0], tuple) and x not in self.phis and self.e.origin_in(x.a[0], self.fr.ctx, self.loop):
                return True
        return False

    def intrinsic(self, l):
        return State().entails(l)

    def varof(self, t, binds, caches):
        u = frozenset()
        for i, s in enumerate(self.sts):
            v = substT(t, binds[i], caches[i])
            if v.op == "agg":
                u = u | {v.a[1]}
            elif v in s.var:
                u = u | s.var[v]
            else:
                return None
        return u

    def kindof(self, t, binds, caches):
        u = frozenset()
        for i, s in enumerate(self.sts):
            v = substT(t, binds[i], caches[i])
            if v.op == "fld" and v.a[0].op == "mval":
                mv = self.e.mval(s, v.a[0].a[0], v.a[0].a[1], type_of(v.a[0]))
                v = mv.a[3][v.a[2]] if mv.op == "agg" else self.e.wrap(mk("fld", mv, *v.a[1:]), type_of(v))
            u = u | self.e.kind_of(s, v)
        return u

    # element facts -------------------------------------------------------
    def vall_cands(self, t, out, meas, binds, caches):
        e = self.e
        vs = self.phis[t]
        et = None
        for v in vs:
            et = et or e.elem_type(v)
            if v.op == "vpush" and v.a[1].op == "lin":
                et = ("int", "usize")
        et = e.elem_type(t) or et
        if not et or et[0] != "int":
            return
        cands = []
        for m in meas:
            if vlen(t) is m:
                continue
            cands.append(("lin", lplus(lsub(m, atom(ELEM)), -1)))         # e < m
            cands.append(("lin", lplus(lsub(lsub(m, atom(ELEM)), atom(KPOS)), -1)))   # e + k < m
            cands.append(("lin", lsub(atom(ELEM), m)))                    # e >= m
        nv = [x for r, v in out.mem.items() for x in top_terms(v) if is_vec(x, [x]) and x is not t]
        for s in self.sts:
            for x in s.kinds:
                if x.op == "elem" and is_vec(x.a[0], [x.a[0]]) and not self.force_ex(x.a[0]):
                    nv.append(x.a[0])
        nv = [x for x in dict.fromkeys(nv)]
        for w in nv:
            wt = e.elem_type(w)
            if wt and wt[0] == "dyn" or (wt and wt[0] == "adt" and wt[1] == "std::boxed::Box"):
                for k in ALLKINDS:
                    cands.append(("kind", w, frozenset([k])))
        for c in cands:
            tg = ("vall", t, c)
            if self.holds_vall(tg, binds, caches):
                out.tags.add(tg)

    def holds_vall(self, tg, binds, caches):
        for i, s in enumerate(self.sts):
            v = substT(tg[1], binds[i], caches[i])
            tpl = tg[2]
            tp = ("lin", substT(tpl[1], binds[i], caches[i])) if tpl[0] == "lin" else ("kind", substT(tpl[1], binds[i], caches[i]), tpl[2])
            if not vall_holds(self.e, s, v, tp):
                return False
        return True


def vall_holds(e, s, v, tp):
    if v.op == "vec":
        for k, x in enumerate(v.a[0]):
            if not elem_ok(e, s, x, num(k), tp):
                return False
        return True
    if v.op == "vpush":
        return elem_ok(e, s, v.a[1], vlen(v.a[0]), tp) and vall_holds(e, s, v.a[0], tp)
    if v.op == "vrev" and tp[0] == "kind":
        return vall_holds(e, s, v.a[0], tp)
    if ("vall", v, tp) in s.tags:
        return True
    for tg in s.tags:
        if tg[0] == "vall" and tg[1] is v and tp[0] == tg[2][0]:
            if tp[0] == "lin":
                d = lsub(tp[1], tg[2][1])
                if s.entails(d):
                    return True
            elif tp[1] is tg[2][1] and tg[2][2] <= tp[2]:
                return True
    return False


def elem_ok(e, s, x, k, tp):
    if x.op != "lin":
        return False
    if tp[0] == "lin":
        return s.entails(subst_lin(tp[1], {ELEM: x, KPOS: k}))
    return e.kind_of(s, e.velem(s, tp[1], x)) <= tp[2]


def e_origin(e, ctx, fctx, L):
    c, b = e.ctxinfo[ctx][0], e.ctxinfo[ctx][1]
    while c is not None:
        if c == fctx:
            return b in L
        c, b = e.ctxinfo[c][0], e.ctxinfo[c][1]
    return False


def norm_mlen(e, s, l):
    for t, c in l.a[1]:
        if t.op == "mlen" and t.a[0].op in ("minsert", "mremove", "mempty"):
            n = e.mlen_st(s, t.a[0])
            if n is not atom(t):
                l = ladd(ladd(l, atom(t), -c), n, c)
    return l


def norm_bnd(b, x):
    if b.op == "slice":
        return b.a[0], ladd(b.a[1], x)
    return b, x


def flat(tg):
    for x in tg:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def top_terms(v, d=0):
    """interesting component values of a structured value"""
    if v.op == "agg" and d < 5:
        for x in v.a[3]:
            yield from top_terms(x, d + 1)
    else:
        yield v


VOPS = ("vec", "vpush", "vset", "vinsert", "vremove", "vrev", "vslice", "vretain", "vsort", "vtrunc", "collected")
MOPS = ("mempty", "minsert", "mremove", "mdense")
VEC_TYPES = ("std::vec::Vec", "std::collections::VecDeque")
MAP_TYPES = ("std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet", "std::collections::BTreeSet")


def is_vec(t, vals):
    for v in list(vals) + [t]:
        if v.op in VOPS:
            return True
        ty = type_of(v)
        if ty and (ty[0] == "slice" or (ty[0] == "adt" and ty[1] in VEC_TYPES)):
            return True
    return False


def is_map(t, vals):
    for v in list(vals) + [t]:
        if v.op in MOPS:
            return True
        ty = type_of(v)
        if ty and ty[0] == "adt" and ty[1] in MAP_TYPES:
            return True
    return False


def is_dense(e, s, m):
    """keys are exactly 0..len"""
    if m.op == "mempty":
        return True
    if ("dense", m) in s.tags:
        return True
    if m.op == "minsert" and m.a[1].op == "lin":
        if not is_dense(e, s, m.a[0]):
            return False
        n = e.mlen_st(s, m.a[0])
        return s.entails(lsub(n, m.a[1]))
    if m.op == "mremove" and m.a[1].op == "lin":
        if not is_dense(e, s, m.a[0]):
            return False
        n = e.mlen_st(s, m.a[0])
        return s.same(lplus(m.a[1], 1), n)
    return False


# ------------------------------------------------------------------ the parser's node arena
# invariant "minv" of a map of ParseTreeNode: keys are 0..n; entry 0 is an Element without parent; every other entry k has
# Some(parent) with parent < k whose value is an Element
ARENA_NODE = "parsing::ParseTreeNode"


def arena_fields(e):
    a = e.p.adts.get(ARENA_NODE)
    if a is None:
        return None
    names = [f["name"] for f in a["variants"][0]["fields"]]
    if "value" not in names or "parent_id" not in names:
        return None
    own = ("adt", ARENA_NODE, ())
    n, nm, tys, _ = e.layout(own, 0)
    iv, ip = names.index("value"), names.index("parent_id")
    return ("f", 0, iv, "value", tys[iv], own), ("f", 0, ip, "parent_id", tys[ip], own)


def arena_value(e, st, m, k):
    f = arena_fields(e)
    if f is None:
        return None
    v = e.wrap(mk("mval", m, k), ("adt", ARENA_NODE, ())) if st is None else e.mval(st, m, k, ("adt", ARENA_NODE, ()))
    return e.proj(st, v, f[0])


def arena_keys(s):
    """keys whose entry is known to hold an Element"""
    out = []
    for x, ks in s.kinds.items():
        if ks == frozenset(["Element"]) and x.op == "fld" and x.a[0].op == "mval" and x.a[0].a[1].op == "lin":
            if x.a[0].a[1] not in out and not is_const(x.a[0].a[1]):
                out.append(x.a[0].a[1])
    return out


def arena_inst(e, st, m, k, r):
    if st is None or ("minv", m) not in st.tags or st.eval(e.mhas(st, m, k)) is not True:
        return
    f = arena_fields(e)
    if f is None:
        return
    par = e.proj(st, r, f[1])
    val = e.proj(st, r, f[0])
    if is_const(k) and cval(k) == 0 or st.entails_eq(k):
        st.var[par] = frozenset([0])
        st.kinds[val] = frozenset(["Element"])
        return
    if st.entails(lplus(k, -1)):
        st.var[par] = frozenset([1])
    if par in st.var and st.var[par] == frozenset([0]):
        return
    q = e.payload(par, 1, ("int", "usize"))
    pv = e.wrap(mk("mval", m, q), ("adt", ARENA_NODE, ()))
    if par in st.var and st.var[par] == frozenset([1]):
        st.add_lin(lplus(lsub(k, q), -1))
        st.kinds[e.proj(st, pv, f[0])] = frozenset(["Element"])


def arena_refresh(e, s):
    """instantiate the arena invariant for parents whose presence was learnt after the entry was read"""
    if not any(t[0] == "minv" for t in s.tags):
        return
    f = arena_fields(e)
    if f is None:
        return
    for par, vs in list(s.var.items()):
        if par.op == "fld" and par.a[3] == "parent_id" and par.a[0].op == "mval":
            m, k = par.a[0].a[0], par.a[0].a[1]
            if ("minv", m) in s.tags and isinstance(k, T) and k.op == "lin":
                arena_inst(e, s, m, k, par.a[0])


def same_option(e, s, x, y):
    if x is y:
        return True
    if x.op != "agg" and y.op == "agg":
        x, y = y, x
    if x.op == "agg" and y.op != "agg" and s.var.get(y) == frozenset([x.a[1]]):
        return x.a[1] == 0 or e.payload(y, 1, ("int", "usize")) is x.a[3][0]
    if x.op == "agg" and y.op == "agg" and x.a[1] == y.a[1]:
        return all(p is q for p, q in zip(x.a[3], y.a[3]))
    return False


def arena_elem(e, s, m, k):
    """entry k exists in m and holds an Element"""
    if k.op != "lin" or s.eval(e.mhas(s, m, k)) is not True:
        return False
    v = arena_value(e, s, m, k)
    return v is not None and e.kind_of(s, v) == frozenset(["Element"])


def arena_inv(e, s, m):
    if ("minv", m) in s.tags:
        return True
    if m.op == "mempty":
        t = type_of(m)
        return True
    if m.op == "mremove" and m.a[1].op == "lin":
        if not arena_inv(e, s, m.a[0]) or not is_dense(e, s, m.a[0]):
            return False
        return s.same(lplus(m.a[1], 1), e.mlen_st(s, m.a[0]))
    if m.op == "minsert" and m.a[1].op == "lin":
        f = arena_fields(e)
        if f is None or not is_dense(e, s, m):
            return False
        b, k, v = m.a
        if not arena_inv(e, s, b):
            return False
        try:
            par, val = e.proj(s, v, f[1]), e.proj(s, v, f[0])
        except Exception:
            return False
        if type_of(v) is None and not (v.op == "agg" and v.a[0] == ARENA_NODE):
            return False
        kd = e.kind_of(s, val)
        h = s.eval(e.mhas(s, b, k))
        if h is True:
            old = e.mval(s, b, k, ("adt", ARENA_NODE, ()))
            op, ov = e.proj(s, old, f[1]), e.proj(s, old, f[0])
            if same_option(e, s, op, par) and (ov is val or kd == frozenset(["Element"])):
                return True
        # children that point at k must still find an Element there
        if h is not False and kd != frozenset(["Element"]):
            return False
        if s.entails_eq(k):
            return par is NONE and kd == frozenset(["Element"])
        if not s.entails(lplus(k, -1)):
            return False
        if par.op == "agg" and par.a[1] == 1:
            q = par.a[3][0]
            return s.entails(lplus(lsub(k, q), -1)) and arena_elem(e, s, b, q)
    return False
