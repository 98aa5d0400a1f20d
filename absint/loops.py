"""C03: every loop terminates.

Rule A (MIR): on every path round the loop, next() is called on an iterator of a finite type that lives outside the loop and is
not reassigned in it.  Rule B (abstract interpretation): a measure built from the loop's variables is bounded below and strictly
decreases on every path round the loop.  Recursion: every recursive call is made on a proper part of the caller's argument."""
import time
from terms import *
import semlib
from engine import rootkey

ADAPT1 = ("Rev", "Map", "Filter", "FilterMap", "Enumerate", "Skip", "SkipWhile", "TakeWhile", "MapWhile", "StepBy", "Peekable",
          "Inspect", "Fuse", "Cloned", "Copied", "Scan", "Flatten", "FlatMap")
FINITE_PRE = ("std::slice::", "std::vec::", "std::collections::", "std::str::", "std::string::", "std::option::", "std::result::",
              "std::array::", "regex::", "std::char::", "std::path::", "std::env::", "std::fs::", "std::io::", "core::")
FINITE = ("std::ops::Range", "std::ops::RangeInclusive", "std::iter::Once", "std::iter::Empty", "std::iter::Take")
UNBOUNDED = ("std::ops::RangeFrom", "std::iter::Repeat", "std::iter::RepeatWith", "std::iter::Cycle", "std::iter::Successors", "std::iter::FromFn")


def finite(t, free):
    """is an iterator of this type finite (free: opaque iterator types are finite because no unbounded one is ever created)"""
    k = t[0]
    if k == "ref":
        return finite(t[2], free)
    if k in ("alias", "opaque", "dyn", "param"):
        return free
    if k == "array":
        return True
    if k != "adt":
        return False
    n = t[1]
    if n in FINITE:
        return True
    if n in UNBOUNDED:
        return False
    if n == "std::boxed::Box":
        return finite(t[2][0], free)
    if n.startswith("std::iter::"):
        m = n[11:]
        if m in ADAPT1:
            return finite(t[2][0], free)
        if m == "Chain":
            return finite(t[2][0], free) and finite(t[2][1], free)
        if m == "Zip":
            return finite(t[2][0], free) or finite(t[2][1], free)
        return False
    return n.startswith(FINITE_PRE)


def has_unbounded(t):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "adt" and t[1] in UNBOUNDED:
            return True
        return any(has_unbounded(x) for x in t)
    return False


def has_int(t):
    """positions are usually related to the arguments: such results must not be abstracted away"""
    if isinstance(t, tuple):
        return t[:1] == ("int",) or any(has_int(x) for x in t)
    return False


def calls(p):
    for k, b in p.bodies.items():
        for n, B in enumerate((b.get("body") or {}).get("blocks") or []):
            t = B["t"] if B else None
            if t and t[0] == "call" and t[1][0] == "const" and t[1][1].get("c") == "fn":
                yield k, b, n, t, t[1][1]["fn"]


def place_root(b, blk, op):
    """local whose memory the operand of next() refers to, following the reborrows made in the block"""
    if op[0] not in ("move", "copy"):
        return None
    cur = op[1]
    defs = {}
    for s in b["blocks"][blk]["s"]:
        if isinstance(s[0], list):
            defs[s[0][0] if len(s[0]) == 1 else None] = s[1]
    n = 0
    while n < 10:
        n += 1
        d = defs.get(cur[0])
        if d is None:
            return cur
        if d[0] == "ref":
            cur = d[2]
        elif d[0] == "use" and d[1][0] in ("move", "copy"):
            cur = d[1][1]
        else:
            return None
    return None


def assigned_in(b, L, local, own):
    """is the local (or part of it) assigned, or lent out mutably other than for the calls in own, inside the loop"""
    for n in L:
        B = b["blocks"][n]
        if B is None:
            continue
        for s in B["s"]:
            if not isinstance(s[0], list):
                continue
            if s[0][0] == local:
                return True
            if n not in own and s[1][0] == "ref" and s[1][1] != "shared" and s[1][2][0] == local:
                # advancing it elsewhere is harmless, replacing it is not: only next-like calls may take it
                return True
        t = B["t"]
        if t[0] == "call" and t[3] and t[3][0] == local:
            return True
    return False


def rule_a(p, key, b, h, L, succ, free):
    """block of the next() call that bounds the loop, or None"""
    body = b["body"]
    cands = []
    for n in L:
        t = body["blocks"][n]["t"]
        if t[0] != "call" or t[1][0] != "const" or t[1][1].get("c") != "fn":
            continue
        f = t[1][1]["fn"]
        if f["name"] in ("next", "next_back") and f.get("trait", "").startswith(("std::iter::Iterator", "std::iter::DoubleEnded")) and f.get("self") is not None:
            if not finite(p.ty(f["self"]), free):
                continue
            r = place_root(body, n, t[2][0])
            if r is not None:
                cands.append((n, r))
    for n, r in cands:
        own = {m for m, q in cands if q[0] == r[0]}
        # every path from the head back to the head passes n (with the iterator advanced there)
        seen, work, through = set(), [h] if h != n else [], False
        while work:
            x = work.pop()
            for s in succ[x]:
                if s == h and x in L:
                    through = True
                if s in L and s not in seen and s != n and s != h:
                    seen.add(s)
                    work.append(s)
        if through:
            continue
        if not assigned_in(body, L, r[0], own):
            return n
    return None


# ------------------------------------------------------------------ rule B
def locate(e, s, path):
    """value at a phi path in a state, None if absent"""
    root = None
    for r in s.mem:
        if rootkey(r) == path[0]:
            root = r
            break
    if root is None:
        return None
    try:
        v = e.root_content(s, root)
        i = 1
        while i < len(path):
            x = path[i]
            if isinstance(x, int):
                if v.op != "agg" or x >= len(v.a[3]):
                    return None
                v = v.a[3][x]
            elif x == "lo":
                v = sbase(v)[1]
            elif x == "hi":
                v = sbase(v)[2]
            elif x == "*":
                v = e.read(s, v.a[0], v.a[1])
            elif x == "p":
                st = v.a[1][path[i + 1]]
                if len(path) > i + 2 and st[0] == "rng":
                    v = st[1 + path[i + 2]]
                    i += 1
                else:
                    v = st[1]
                i += 1
            else:
                return None
            i += 1
        return v
    except Exception:
        return None


def measure_val(e, s, m):
    """lin term of measure m = ((path, kind), sign) pairs in state s"""
    r = num(0)
    for (path, kind), k in m:
        v = locate(e, s, path)
        if v is None:
            return None
        if kind == "int":
            if v.op != "lin":
                return None
        elif kind == "len":
            if not is_str(v):
                return None
            v = slen(v)
        elif kind == "vlen":
            v = vlen(v)
        elif kind == "mlen":
            v = atom(mk("mlen", v))
        r = ladd(r, v, k)
    return r


def is_str(v):
    t = type_of(v)
    if v.op in ("lit", "cat", "slice"):
        return True
    return t is not None and (t == ("str",) or t[0] == "adt" and t[1] == "std::string::String")


def is_vec(v):
    t = type_of(v)
    return t is not None and (t[0] == "slice" or t[0] == "adt" and t[1] in ("std::vec::Vec", "std::collections::VecDeque"))


def stable_bounds(e, ev, s0):
    """loop-invariant upper bounds: lengths of strings and vectors appearing in the head's facts"""
    out = set()
    for k in s0.lin:
        for t, c in k:
            if t.op in ("len", "vlen", "mlen"):
                out.add(t)
    return out


def rule_b(e, ev):
    """-> (ok, text)"""
    d = ev.data
    heads, by, phis = d["heads"], d["by"], d["phis"]
    keys = d["keys"]
    edges = []   # (origin, landing, state)
    for i, bs in enumerate(by):
        for b in bs:
            k = d["shape"](b)
            edges.append((i, keys.index(k) if k in keys else i, b))
    if not edges:
        return True, "no path returns to the loop head"
    # only edges inside a cycle of the head graph matter
    n = len(heads)
    reach = [{i} for i in range(n)]
    ch = True
    while ch:
        ch = False
        for i, j, _ in edges:
            if not reach[j] <= reach[i] or j not in reach[i]:
                reach[i] |= reach[j] | {j}
                ch = True
    edges = [(i, j, b) for i, j, b in edges if i in reach[j]]
    if not edges:
        return True, "every path round the loop leads to a state that leaves it"
    # candidate components
    comps = {}
    for ph in phis:
        for path, (t, vals) in ph.items():
            v0 = vals[0]
            if v0.op == "lin":
                comps[(path, "int")] = 1
            elif is_str(t):
                comps[(path, "len")] = 1
            elif is_vec(t):
                comps[(path, "vlen")] = 1
    comps = list(comps)[:60]
    cand = []
    for c in comps:
        cand.append((((c, 1),), None))
    for a in comps:
        for b in comps:
            if a != b:
                cand.append((((a, 1), (b, -1)), None))
            if a != b and comps.index(a) < comps.index(b):
                cand.append((((a, 1), (b, 1)), None))
    inv = None
    for hd in heads:
        x = stable_bounds(e, ev, hd)
        inv = x if inv is None else inv & x
    for t in inv or ():
        for c in comps:
            if c[1] == "int":
                cand.append((((c, -1),), t))
    tried = 0
    for m, t in cand:
        base = atom(t) if t is not None else num(0)
        good = True
        for i, j, b in edges:
            h0 = measure_val(e, heads[i], m)
            h1 = measure_val(e, b, m)
            if h0 is None or h1 is None:
                good = False
                break
            h0, h1 = ladd(base, h0), ladd(base, h1)
            if not b.entails(lplus(lsub(h0, h1), -1)):
                good = False
                break
            if not (b.entails(h0) or b.entails(lplus(h1, 1))):
                good = False
                break
        tried += 1
        if good:
            return True, "measure " + show_measure(m, t) + f" decreases on {len(edges)} path(s)"
    return False, f"none of {tried} candidate measures decreases on all {len(edges)} path(s) round the loop"


def show_measure(m, t):
    s = []
    for (path, kind), k in m:
        s.append(("-" if k < 0 else "") + ("" if kind == "int" else kind + " of ") + "variable " + ".".join(str(x) for x in path[0][2:]) + "".join("." + str(x) for x in path[1:]))
    return " ".join(s) + (" + " + str(t)[:60] if t is not None else "")


# ------------------------------------------------------------------ recursion
PROJ = ("elem", "fld", "pay", "mval", "deref", "node")


def strict_part(e, st, a, o):
    """is the argument a (a reference or value) a proper part of the argument o"""
    if a.op == "ref" and o.op == "ref":
        if a.a[0] == o.a[0]:
            q, r = a.a[1], o.a[1]
            return len(q) > len(r) and tuple(q[:len(r)]) == tuple(r)
    try:
        va = e.deep(st, a)
    except Exception:
        return False
    try:
        vo = e.deep(st, o)
    except Exception:
        vo = None
    n = 0
    x = va
    while isinstance(x, T):
        if n and vo is not None and x is vo:
            return True
        if n and x.op == "deref" and o.op == "ref" and o.a[0][0] == "O" and x.a[0] is o.a[0][1]:
            return True
        if x.op not in PROJ:
            return False
        x = x.a[0]
        n += 1
    return False


def const_arg(e, st, a):
    try:
        v = e.deep(st, a)
    except Exception:
        return False
    return v.op == "lit" or is_const(v)


def job(p, key, opts, tl, need):
    r = semlib.Run(p, key, opts, tl=tl)
    if not r.stopped:
        try:
            semlib.drive(r)
        except Exception as x:
            r.stopped = "limit: " + str(x)[:100]
    out = {"path": p.bodies[key]["path"], "stopped": r.stopped, "unknown": dict(r.e.unknown), "loops": [], "rec": [], "stats": dict(r.e.stats)}
    for ev in r.e.events:
        if ev.kind == "loop" and (ev.key, ev.blk) in need:
            ok, txt = rule_b(r.e, ev)
            out["loops"].append(((ev.key, ev.blk), ok, txt))
        elif ev.kind == "rec":
            o = ev.data["outer"] or []
            ok = any(strict_part(r.e, ev.st, a, b) for a, b in zip(ev.data["args"], o))
            if not ok and any(const_arg(r.e, ev.st, a) and not const_arg(r.e, ev.st, b) for a, b in zip(ev.data["args"], o)):
                ok = None   # called again with a fixed argument: may take another branch
            out["rec"].append((ev.key, tuple(ev.span) if isinstance(ev.span, (list, tuple)) else None, ev.data["callee"], ok))
    return out


def where(p, k, blk):
    b = p.bodies[k]
    t = b["body"]["blocks"][blk]["t"][-1]
    return f"{b['path']} ({t[0]}:{t[1]})" if isinstance(t, (list, tuple)) else b["path"]


def c03(p, rep):
    t0 = time.time()
    from graphprops import graph
    free = True
    for k, b, n, t, f in calls(p):
        if f.get("self") is not None and has_unbounded(p.ty(f["self"])) and f["name"] not in ("take", "zip", "by_ref", "map", "enumerate"):
            if f.get("trait", "").startswith("std::iter") and not finite(p.ty(f["self"]), True) and f["name"] not in ("next", "into_iter"):
                free = False
                rep.undecide(f"{where(p, k, n)}: {f['name']} on an unbounded iterator")
    nloops, need = 0, {}
    for k, b in sorted(p.bodies.items()):
        if not b.get("body"):
            continue
        order, succ, loops = p.cfg(k, b["body"])
        for h, L in loops.items():
            nloops += 1
            n = rule_a(p, k, b, h, L, succ, free)
            if n is not None:
                rep.ob(True, f"loop in {where(p, k, h)}: next() on a finite iterator on every path round it", sample=nloops % 3 == 0)
            else:
                need[(k, h)] = None
    fns = sorted({k for k, _ in need})
    g = graph(p)
    # recursion
    cyc = sorted({k for c in g.cycles(list(p.bodies)) for k in c})
    rroots = [k for k in cyc if semlib.is_fn(p.bodies[k]) and "{closure" not in p.bodies[k]["path"]]
    jobs, who = [], []
    pub = semlib.public_roots(p)
    for k in fns:
        b = p.bodies[k]
        roots = [k] if semlib.is_fn(b) and "{closure" not in b["path"] else [r for r in pub if k in g.reach([r])]
        for r in roots:
            op = [c for c in semlib.opaque_candidates(p, [r]) if c not in fns and not has_int(p.ty(p.bodies[c]['output']))] if len(g.reach([r])) > 25 else []
            jobs.append((job, (r, {"opaque": frozenset(op), "perhead": frozenset(fns)}, 500, frozenset(x for x in need if x[0] == k))))
            who.append(("loop", k, r))
    for k in rroots:
        jobs.append((job, (k, {}, 250, frozenset())))
        who.append(("rec", k, k))
    res = semlib.parallel(p, jobs)
    got = {}
    bad_run = {}
    for (kind, k, r), d in zip(who, res):
        if isinstance(d, tuple):
            rep.undecide(f"{p.bodies[r]['path']}: analysis stopped: {d[1].strip().splitlines()[-1]}")
            bad_run[k] = "stopped"
            continue
        if d["stopped"]:
            rep.undecide(f"{d['path']}: not completed ({d['stopped']})")
            bad_run[k] = d["stopped"]
        if kind == "loop":
            for x, ok, txt in d["loops"]:
                o = got.get(x)
                got[x] = (ok, txt, d) if o is None or o[0] else o
        else:
            for (fk, span, callee, ok) in d["rec"]:
                w = f"recursive call of {p.bodies[callee]['path']} in {p.bodies[fk]['path']}" + (f" ({span[0]}:{span[1]})" if span else "")
                if ok is None:
                    rep.undecide(w + ": same object, different fixed argument")
                elif ok or not (d["unknown"] or d["stopped"]):
                    rep.ob(ok, w + ": on a proper part of the caller's argument")
                    if not ok:
                        rep.violate(f"rec|{p.bodies[fk]['path']}|{p.bodies[callee]['path']}", w + ": argument is not a proper part of the caller's argument, recursion may not end")
                else:
                    rep.undecide(w + f": imprecise: {d['unknown'] or d['stopped']}")
    for (k, h) in sorted(need, key=str):
        x = got.get((k, h))
        w = f"loop in {where(p, k, h)}"
        if x is None:
            if k not in bad_run:
                rep.ob(True, w + ": not reached by any call")
            continue
        ok, txt, d = x
        if not ok and (d["unknown"] or d["stopped"]):
            rep.undecide(f"{w}: {txt} [imprecise: {d['unknown'] or d['stopped']}]")
            continue
        rep.ob(ok, f"{w}: {txt}")
        if not ok:
            rep.violate(f"loop|{p.bodies[k]['path']}|{h}", f"{w}: may not terminate: {txt}")
    rep.cover["loops"] = nloops
    rep.cover["loops decided by a measure"] = len(need)
    rep.cover["recursive functions"] = [p.bodies[k]["path"] for k in rroots]
    rep.assumptions += ["user-supplied iterators, closures, Read and Write implementations return and are finite",
                        "collections and strings have at most isize::MAX bytes", "models of std, regex and dyn_clone functions in absint/models*.py"]


CHECKS = {"C03": c03}
EXPLAIN = {"C03": "Every loop in the MIR of the crate (rule A: next() on a finite iterator of the loop's own on every path round it; rule B: a measure over the loop variables, found and proved by abstract interpretation, decreases and is bounded below) and every recursive call (made on a proper part of the caller's argument)."}
