"""The program under analysis: loads the compiler's JSON dump."""
import json


def strip_refs(t):
    while t and t[0] == "ref":
        t = t[2]
    return t


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.rawtypes = d["types"]
        self._tc = {}
        self.bodies = d["bodies"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.traits = {t["path"]: t for t in d["traits"]}
        self.statics = d["statics"]
        self.unsafes = d["unsafes"]
        self.by_path = {}
        for k, b in self.bodies.items():
            b["key"] = k
            self.by_path[b["path"]] = k
        # impl tables: (trait, self adt path) -> list of impls
        self.trait_impls = {}
        for im in self.impls:
            im["selfty"] = self.ty(im["self"])
            if im.get("trait"):
                im["targ_tys"] = [self.ty(x) if isinstance(x, int) else ("const", x) for x in im["targs"]]
                self.trait_impls.setdefault(im["trait"], []).append(im)
        self._cfg = {}
        self._live = {}
        self.keepbox = False  # a borrow of what a local box owns keeps the box live; set before the first run only

    # ------------------------------------------------------------ types
    def ty(self, i):
        r = self._tc.get(i)
        if r is not None:
            return r
        x = self.rawtypes[i]
        k = x["k"]
        if k == "adt":
            r = ("adt", x["path"], tuple(self.targ(a) for a in x["args"]))
        elif k == "ref":
            r = ("ref", x["mut"], self.ty(x["ty"]))
        elif k == "ptr":
            r = ("ptr", x["mut"], self.ty(x["ty"]))
        elif k == "slice":
            r = ("slice", self.ty(x["ty"]))
        elif k == "array":
            r = ("array", self.ty(x["ty"]), x["len"])
        elif k == "tuple":
            r = ("tuple", tuple(self.ty(a) for a in x["tys"]))
        elif k == "int":
            r = ("int", x["s"])
        elif k == "param":
            r = ("param", x["idx"], x["name"])
        elif k == "fndef":
            r = ("fndef", x["fn"]["key"], i)
        elif k == "closure":
            r = ("closure", x["key"], i)
        elif k == "dyn":
            r = ("dyn", x["trait"])
        elif k in ("bool", "char", "str", "never"):
            r = (k,)
        else:
            r = (k, x["s"])
        self._tc[i] = r
        return r

    def targ(self, a):
        return self.ty(a) if isinstance(a, int) else ("const", a)

    def subst(self, t, sub):
        """sub: dict param index -> type"""
        if not sub or not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == "param":
            return sub.get(t[1], t)
        if k == "adt":
            return ("adt", t[1], tuple(self.subst(a, sub) for a in t[2]))
        if k in ("ref", "ptr"):
            return (k, t[1], self.subst(t[2], sub))
        if k == "slice":
            return (k, self.subst(t[1], sub))
        if k == "array":
            return (k, self.subst(t[1], sub), t[2])
        if k == "tuple":
            return (k, tuple(self.subst(a, sub) for a in t[1]))
        return t

    def show(self, t):
        if not t:
            return "?"
        k = t[0]
        if k == "adt":
            return t[1] + ("<" + ",".join(self.show(a) for a in t[2]) + ">" if t[2] else "")
        if k == "ref":
            return "&" + ("mut " if t[1] else "") + self.show(t[2])
        if k == "tuple":
            return "(" + ",".join(self.show(a) for a in t[1]) + ")"
        if k == "slice":
            return "[" + self.show(t[1]) + "]"
        return str(t[1] if len(t) > 1 else t[0])

    # ------------------------------------------------------------ impls
    def unify(self, pat, t, sub):
        """match impl type pattern (params are variables) against t"""
        if pat[0] == "param":
            if pat[1] in sub:
                return sub[pat[1]] == t
            sub[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] == "adt":
            if pat[1] != t[1]:
                return False
            return all(self.unify(a, b, sub) for a, b in zip(pat[2], t[2]))
        if pat[0] in ("ref", "ptr"):
            return pat[1] == t[1] and self.unify(pat[2], t[2], sub)
        if pat[0] == "slice":
            return self.unify(pat[1], t[1], sub)
        if pat[0] == "array":
            return self.unify(pat[1], t[1], sub)
        if pat[0] == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, sub) for a, b in zip(pat[1], t[1]))
        return pat == t

    def find_impl(self, trait, selfty, targs=None):
        for im in self.trait_impls.get(trait, []):
            sub = {}
            if not self.unify(im["selfty"], selfty, sub):
                continue
            if targs is not None:
                its = [x for x in im["targ_tys"]]
                if len(its) == len(targs) + 1:
                    its = its[1:]
                if len(its) == len(targs) and not all(self.unify(a, b, sub) for a, b in zip(its, targs) if a[0] != "const"):
                    continue
            return im, sub
        return None, None

    def resolve(self, trait, method, selfty, targs=None):
        """-> (body key, substitution for Self etc.) or None"""
        im, sub = self.find_impl(trait, selfty, targs)
        if im is None:
            return None
        if method in im["items"]:
            k = im["items"][method]
            if k in self.bodies:
                return k, sub
        tr = self.traits.get(trait)
        if tr and method in tr["items"] and tr["items"][method][1]:
            return tr["items"][method][0], {0: selfty}
        return None

    def implementors(self, trait):
        return [im for im in self.trait_impls.get(trait, [])]

    # ------------------------------------------------------------ CFG
    def cfg(self, bid, body):
        """(rpo order, succs, loops: head -> set of blocks)"""
        r = self._cfg.get(bid)
        if r is not None:
            return r
        blocks = body["blocks"]
        succ = {}
        for i, b in enumerate(blocks):
            if b is None:
                succ[i] = []
                continue
            succ[i] = [s for s in term_succs(b["t"]) if blocks[s] is not None]
        order, state = [], {}
        back = []
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if state.get(s) is None:
                    state[s] = 1
                    stack.append((s, iter(succ[s])))
                    adv = True
                    break
                elif state[s] == 1:
                    back.append((n, s))
            if not adv:
                state[n] = 2
                order.append(n)
                stack.pop()
        order.reverse()
        pred = {}
        for n in order:
            for s in succ[n]:
                pred.setdefault(s, []).append(n)
        loops = {}
        for n, h in back:
            body_set = loops.setdefault(h, {h})
            st = [n]
            while st:
                x = st.pop()
                if x in body_set:
                    continue
                body_set.add(x)
                st.extend(pred.get(x, []))
        r = (order, succ, loops)
        self._cfg[bid] = r
        return r

    def liveness(self, bid, body):
        """block -> set of locals live at entry; borrowed locals are always live"""
        r = self._live.get(bid)
        if r is not None:
            return r
        order, succ, _ = self.cfg(bid, body)
        use, defs, borrowed = {}, {}, set()
        for n in order:
            u, d = set(), set()

            def us(l):
                if l not in d:
                    u.add(l)

            b = body["blocks"][n]
            for s in b["s"]:
                if s[0] == "dead":
                    d.add(s[1])
                    continue
                if not isinstance(s[0], list):
                    continue
                for l in rv_locals(s[1]):
                    us(l)
                if s[1][0] in ("ref", "rawptr"):
                    pl = s[1][-1]
                    if not any(e[0] == "deref" and not (self.keepbox and len(e) > 1 and self.ty(e[1])[0] == "adt") for e in pl[1:]):
                        borrowed.add(pl[0])
                if len(s[0]) == 1:
                    d.add(s[0][0])
                else:
                    for l in place_locals(s[0]):
                        us(l)
            t = b["t"]
            for l in term_uses(t):
                us(l)
            if t[0] == "call" and len(t[3]) == 1:
                pass
            use[n], defs[n] = u, d
        live = {n: set() for n in order}
        ch = True
        while ch:
            ch = False
            for n in reversed(order):
                out = set()
                for s in succ[n]:
                    o = live[s]
                    t = body["blocks"][n]["t"]
                    if t[0] == "call" and len(t[3]) == 1:
                        o = o - {t[3][0]}
                    out |= o
                new = use[n] | (out - defs[n])
                if body["blocks"][n]["t"][0] == "return":
                    new = new | ({0} - defs[n])
                if new != live[n]:
                    live[n] = new
                    ch = True
        r = (live, borrowed)
        self._live[bid] = r
        return r


def term_succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[3]] + [t[4]]
    if k == "drop":
        return [t[1]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []


def place_locals(p):
    r = [p[0]]
    for e in p[1:]:
        if e[0] == "idx":
            r.append(e[1])
    return r


def op_locals(o):
    if o[0] in ("copy", "move"):
        return place_locals(o[1])
    return []


def rv_locals(r):
    k = r[0]
    if k == "use":
        return op_locals(r[1])
    if k == "repeat":
        return op_locals(r[1])
    if k in ("ref",):
        return place_locals(r[2])
    if k == "rawptr":
        return place_locals(r[1])
    if k == "cast":
        return op_locals(r[2])
    if k == "bin":
        return op_locals(r[2]) + op_locals(r[3])
    if k == "un":
        return op_locals(r[2])
    if k == "discr":
        return place_locals(r[1])
    if k == "agg":
        return [l for o in r[2] for l in op_locals(o)]
    return []


def term_uses(t):
    k = t[0]
    if k == "switch":
        return op_locals(t[1])
    if k == "call":
        r = op_locals(t[1])
        for o in t[2]:
            r += op_locals(o)
        if len(t[3]) > 1:
            r += place_locals(t[3])
        return r
    if k == "assert":
        r = op_locals(t[1])
        for o in t[4]:
            r += op_locals(o)
        return r
    return []
