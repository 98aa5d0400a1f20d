"""Resolved call graph over the dumped MIR (drop glue excluded)."""
from program import strip_refs

# external callee name -> (external trait, method) whose local impls it runs for its type arguments
CALLBACK = {
    "to_string": [("std::fmt::Display", "fmt")], "new_display": [("std::fmt::Display", "fmt")],
    "new_debug": [("std::fmt::Debug", "fmt")], "clone": [("std::clone::Clone", "clone")],
    "to_vec": [("std::clone::Clone", "clone")], "to_owned": [("std::clone::Clone", "clone")],
    "cloned": [("std::clone::Clone", "clone")], "from": [("std::clone::Clone", "clone"), ("std::convert::From", "from")],
    "into": [("std::convert::From", "from")], "from_residual": [("std::convert::From", "from")],
    "eq": [("std::cmp::PartialEq", "eq")], "ne": [("std::cmp::PartialEq", "eq")],
    "cmp": [("std::cmp::Ord", "cmp")], "partial_cmp": [("std::cmp::PartialOrd", "partial_cmp")],
    "hash": [("std::hash::Hash", "hash")], "take": [("std::default::Default", "default")],
    "default": [("std::default::Default", "default")], "unwrap_or_default": [("std::default::Default", "default")],
    "sort": [("std::cmp::Ord", "cmp")], "contains": [("std::cmp::PartialEq", "eq")],
    "clone_box": [("std::clone::Clone", "clone")], "extend_from_slice": [("std::clone::Clone", "clone")],
    "fmt": [("std::fmt::Display", "fmt"), ("std::fmt::Debug", "fmt")],
}


def calls_of(body):
    """all fn references in a body: (fnref, is_call, span, args, dest, block)"""
    out = []
    for bodyx in [body] + list(body.get("promoted") or []):
        for bi, b in enumerate(bodyx["blocks"]):
            if b is None:
                continue
            for s in b["s"]:
                if isinstance(s[0], list):
                    for c in consts_in(s[1]):
                        if c.get("c") == "fn":
                            out.append((c["fn"], False, s[-1], None, None, bi))
                        elif c.get("c") == "uneval" and c.get("key"):
                            out.append(({"key": c["key"], "local": True, "path": c["path"], "name": "const", "args": []}, False, s[-1], None, None, bi))
                    if s[1][0] == "agg" and s[1][1][0] == "closure":
                        out.append(({"key": s[1][1][1], "local": True, "path": "closure", "name": "closure", "args": []}, False, s[-1], None, None, bi))
            t = b["t"]
            if t[0] == "call":
                f = t[1]
                if f[0] == "const" and f[1].get("c") == "fn":
                    out.append((f[1]["fn"], True, t[-1], t[2], t[3], bi))
                for o in t[2]:
                    if o[0] == "const":
                        c = o[1]
                        if c.get("c") == "fn":
                            out.append((c["fn"], False, t[-1], None, None, bi))
                        elif c.get("c") == "uneval" and c.get("key"):
                            out.append(({"key": c["key"], "local": True, "path": c["path"], "name": "const", "args": []}, False, t[-1], None, None, bi))
    return out


def consts_in(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "const" and isinstance(x[1], dict):
            yield x[1]
        else:
            for y in x:
                yield from consts_in(y)


def inner_types(t, acc=None):
    if acc is None:
        acc = []
    if not isinstance(t, tuple) or not t:
        return acc
    acc.append(t)
    if t[0] == "adt":
        for a in t[2]:
            inner_types(a, acc)
    elif t[0] in ("ref", "ptr"):
        inner_types(t[2], acc)
    elif t[0] in ("slice", "array"):
        inner_types(t[1], acc)
    elif t[0] == "tuple":
        for a in t[1]:
            inner_types(a, acc)
    return acc


class CallGraph:
    def __init__(self, p):
        self.p = p
        self.edges = {}      # key -> {callee: span}
        self.ext = {}        # key -> [(path, fn, span)]
        for k, b in p.bodies.items():
            e, x = {}, []
            for fn, is_call, span, args, dest, bi in calls_of(b["body"]):
                for t in self.targets(fn):
                    e.setdefault(t, span)
                if not fn.get("local") or fn.get("trait"):
                    x.append((fn.get("path"), fn, span))
            self.edges[k] = e
            self.ext[k] = x

    def targets(self, fn):
        p = self.p
        out = []
        tr = fn.get("trait")
        if fn.get("res"):
            if fn.get("reslocal") and fn["res"] in p.bodies:
                return [fn["res"]]
        elif tr and tr in p.traits:
            # unresolved local trait call: all implementors plus the default
            nm = fn["name"]
            for im in p.implementors(tr):
                if nm in im["items"]:
                    out.append(im["items"][nm])
            it = p.traits[tr]["items"].get(nm)
            if it and it[1] and it[0] in p.bodies:
                out.append(it[0])
            return [k for k in out if k in p.bodies]
        elif fn.get("local") and fn["key"] in p.bodies:
            return [fn["key"]]
        # external: callbacks on local types
        for trait, m in CALLBACK.get(fn.get("name"), ()):
            seen = set()
            for a in list(fn.get("args") or []) + list(fn.get("resargs") or []):
                if not isinstance(a, int):
                    continue
                for t in inner_types(p.ty(a)):
                    if t in seen:
                        continue
                    seen.add(t)
                    if t[0] == "dyn" and t[1] in p.traits:
                        # any implementor of the local trait, plus impls for the dyn type itself
                        for im in p.implementors(t[1]):
                            r = p.find_impl(trait, im["selfty"])[0]
                            if r and r["items"].get(m) in p.bodies:
                                out.append(r["items"][m])
                    elif t[0] == "adt":
                        for im in p.trait_impls.get(trait, []):
                            if im["selfty"][0] == "adt" and im["selfty"][1] == t[1] and im["items"].get(m) in p.bodies:
                                out.append(im["items"][m])
        return out

    def reach(self, roots):
        """key -> path from a root (list of keys)"""
        seen = {}
        st = [(r, (r,)) for r in roots]
        while st:
            k, path = st.pop()
            if k in seen:
                continue
            seen[k] = path
            for c in self.edges.get(k, {}):
                if c not in seen:
                    st.append((c, path + (c,)))
        return seen

    def cycles(self, keys):
        """strongly connected components with a cycle, inside keys"""
        keys = set(keys)
        idx, low, onst, st, res = {}, {}, set(), [], []
        cnt = [0]

        def go(v):
            work = [(v, iter(self.edges.get(v, {})))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            onst.add(v)
            while work:
                n, it = work[-1]
                adv = False
                for w in it:
                    if w not in keys:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(self.edges.get(w, {}))))
                        adv = True
                        break
                    elif w in onst:
                        low[n] = min(low[n], idx[w])
                if not adv:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == idx[n]:
                        comp = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w == n:
                                break
                        if len(comp) > 1 or n in self.edges.get(n, {}):
                            res.append(comp)
        for k in keys:
            if k not in idx:
                go(k)
        return res
