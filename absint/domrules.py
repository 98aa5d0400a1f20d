"""C10, C11, C12, C13, C23: what the editing methods leave behind, judged on the exit states of the abstract interpreter."""
import semlib
from terms import *
from semlib import Run, short, is_fn, public_roots, parallel
from summ import felem, fields_of, ELEMENT, ET, find_norm, find_ns
import summ
from domlib import *
from state import is_str

OPTS = {"itloops": True, "width": 60, "keepret": True, "paths": True}
LOCAL = ("dom::",)


def opts(p, **k):
    o = dict(OPTS)
    o["summaries"] = summaries(p)
    o.update(k)
    return o


def is_local_mut(p, t):
    return t[0] == "ref" and t[1] and t[2][0] == "adt" and t[2][1] in p.adts and t[2][1].split("::")[0] not in ("std", "core", "alloc")


def editors(p):
    """public methods taking &mut of a crate type"""
    out = []
    for k in public_roots(p):
        b = p.bodies[k]
        if any(is_local_mut(p, p.ty(t)) for t in b["inputs"]):
            out.append(k)
    return out


def incomplete(run, f):
    if run.stopped:
        f.und(f"{run.body['path']}: not completed ({run.stopped})")
        return True
    if run.e.unknown:
        f.und(f"{run.body['path']}: calls without a model: {dict(run.e.unknown)}")
    return False


# ------------------------------------------------------------------ C10
def j10(p, key):
    f = Findings()
    run = Run(p, key, opts(p), tl=250)
    path = run.body["path"]
    incomplete(run, f)
    e = run.e
    muts = [i for i, t in enumerate(run.body["inputs"]) if is_local_mut(p, p.ty(t))]
    nerr = 0
    for s, v in run.outs:
        o = outcome(run, s, v)
        if o == "Ok":
            continue
        nerr += 1
        for i in muts:
            a, b = run.arg0(i), run.arg1(s, i)
            d = diffs(e, s, a, b)
            if not d:
                f.ok(f"{path}: error exit {short(v, 80)} leaves the object as it was")
                continue
            for n, x, y in d:
                text = f"{where(p, key)}: returns {short(v, 90)} after changing '{n}' to {short(y, 160)}"
                if o == "Err" and not run.e.unknown and (certain_change(y, x) or changed_in_loop(run, y)):
                    f.bad(f"{path}|{n}", text)
                else:
                    f.und(text + " (not certain)")
    if not nerr and not run.stopped:
        f.ok(f"{path}: no error exit")
    return f.items


def changed_in_loop(run, v):
    c = cell(v)
    l = loop_of(run, c) if c is not None else None
    if l is None:
        return False
    return any(x is not None and x.op in CHANGES and x.op != "agg" for _, x in l.nexts(c))


def c10(p, rep):
    ks = []
    for k in editors(p):
        o = p.ty(p.bodies[k]["output"])
        if o[0] == "adt" and o[1] == RES:
            ks.append(k)
    res = parallel(p, [(j10, (k,)) for k in ks])
    merge(rep, res, [p.bodies[k]["path"] for k in ks])
    rep.cover["methods"] = [p.bodies[k]["path"] for k in ks]
    rep.assumptions += ASSUME


ASSUME = ["models of std, regex and dyn_clone functions in absint/models*.py"]


# ------------------------------------------------------------------ C11
def kids(run, v):
    F = felem(run.p)
    return fields_of(run.e, v)[F["child_nodes"]]


def opaque_guard(s, idx):
    """conditions on the index the linear facts do not express"""
    for b in s.bools:
        if b.op not in ("ge", "eqz", "not") and any(x is idx for x in subs(b)):
            return True
    return False


def strip_norm(v):
    while v.op == "call" and v.a[0] == "norm":
        v = v.a[1][0]
    return v


def uncast(y):
    """the value below integer casts"""
    while True:
        if y.op == "lin" and y.a[0] == 0 and len(y.a[1]) == 1 and y.a[1][0][1] == 1 and y.a[1][0][0].op == "cast":
            y = y.a[1][0][0]
        elif y.op == "cast":
            y = next(z for z in y.a if isinstance(z, T))
        else:
            return y


def err_index(run, s, v, idx):
    """does the error carry the requested index: True / False / None"""
    x = payload(run, s, v)
    if x.op == "agg" and x.a[3]:
        y = uncast(x.a[3][0])
        if y.op == "lin" and idx.op == "lin" and s.same(y, idx):
            return True
        if y.op == "lin" and not any(z.op in ("phi", "fresh", "bin", "call") for z in subs(y)):
            return False
    return None


def collector(run, L, C):
    """is L the list of the positions of the element children of C in ascending order: (True/False/None, why)"""
    c = cell(L)
    if c is None:
        return None, f"list {short(L)} not built by a loop"
    l = loop_of(run, c)
    if l is None:
        return None, "loop not found"
    for s, v in l.entries(c):
        if v is None or v.op != "vec":
            return None, "entry value unknown"
        if v.a[0]:
            return False, f"the list starts with {short(v)}"
    cnt = [x for x in l.counters() if x[1] == 1 and all(is_const(v) for v in x[2])]
    if not cnt:
        return None, "no ascending counter"
    e = run.e
    ats = [x for x in cnt if all(cval(v) == 0 for v in x[2])]
    if not ats:
        return False, f"positions are scanned from {short(cnt[0][2][0])} instead of 0"
    i = atom(ats[0][0])
    # every position of C is scanned
    done = any(x.entails(lsub(i, vlen(C))) for x, _ in run.outs)
    if not done:
        xs = [s for _, s in l.exits_of(c)]
        done = bool(xs) and all(s.entails(lsub(i, vlen(C))) for s in xs)
    if not done:
        return None, "end of the scan not established"
    for s, v in l.nexts(c):
        el = e.velem(s, C, i)
        ks = e.kind_of(s, el)
        if v is c:
            if "Element" in ks:
                return (False if ks == {"Element"} else None), f"an element child at position {short(i)} is not listed (kinds {sorted(ks)})"
        elif v.op == "vpush" and v.a[0] is c:
            if v.a[1].op != "lin" or not s.same(v.a[1], i):
                return (False if v.a[1].op == "lin" else None), f"position {short(v.a[1])} is listed for the child at {short(i)}"
            if ks != {"Element"}:
                return False, f"a child of kind {sorted(ks)} is listed as an element"
        else:
            return None, f"list update {short(v)}"
    return True, "positions of the element children in order"


def counted(run, s, pos, idx, C):
    """position cell of an ascending scan together with a counter of the elements passed, equal to the index here"""
    e = run.e
    pc = cell(pos)
    if pc is None:
        return None
    for l in loops(run):
        if not l.own(pc):
            continue
        if not all(v is not None and is_const(v) and cval(v) == 0 for _, v in l.entries(pc)) or not all(
                v is not None and v.op == "lin" and lsub(v, pos) is num(1) for _, v in l.nexts(pc)):
            continue
        for n in l.loc:
            if n is pc or not (type_of(n) is None or type_of(n)[0] == "int") or is_str(n):
                continue
            es, ns = l.entries(n), l.nexts(n)
            if any(v is None or v.op != "lin" for _, v in es + ns) or not s.same(atom(n), idx):
                continue
            if not all(is_const(v) and cval(v) == 0 for _, v in es):
                return False, "elements are not counted from 0", None
            for b, v in ns:
                ks = e.kind_of(b, e.velem(b, C, pos))
                st = lsub(v, atom(n))
                if st is num(1) and ks == {"Element"} or st is num(0) and "Element" not in ks:
                    continue
                if st is num(1) and "Element" not in ks or st is num(0) and ks == {"Element"}:
                    return False, f"children of kind {sorted(ks)} are {'counted' if st is num(1) else 'not counted'} as elements", None
                if is_const(st) and st not in (num(0), num(1)):
                    return False, f"the element count advances by {cval(st)}", None
                return None, f"children of kind {sorted(ks)} counted by {show(st)}", None
            if e.kind_of(s, e.velem(s, C, pos)) == {"Element"}:
                return True, "the number of elements before the position equals the index", None
            return False, "the node at the counted position may not be an element", None
    return None


def elem_pos(run, s, pos, idx, C):
    """is pos the position of the idx-th element child of C"""
    a = pos.a[1][0][0] if pos.op == "lin" and pos.a[0] == 0 and len(pos.a[1]) == 1 and pos.a[1][0][1] == 1 else pos
    if a.op == "elem":
        r, why = collector(run, a.a[0], C)
        if r is not True:
            return r, why, None
        j = a.a[1]
        if j.op == "lin" and s.same(j, idx):
            return True, why, vlen(a.a[0])
        return (False if j.op == "lin" else None), f"takes entry {short(j)} of the list instead of the requested one", None
    r = counted(run, s, pos, idx, C)
    if r is not None:
        return r
    if pos.op == "lin" and idx.op == "lin" and s.same(pos, idx):
        return False, "the index is used as a position among all children", None
    return None, f"position {short(pos)}", None


def j11(p, name):
    f = Findings()
    key = p.by_path.get("dom::Element::" + name)
    if key is None:
        f.und(f"{name}: not found")
        return f.items
    run = Run(p, key, opts(p), tl=300)
    if incomplete(run, f):
        return f.items
    e, path = run.e, run.body["path"]
    C = kids(run, run.arg0(0))
    idx = run.args[1]
    n = vlen(C)
    W = where(p, key)
    lim = n if name == "insert" else lplus(n, -1)      # largest valid index
    seen = set()
    for s, v in run.outs:
        o = outcome(run, s, v)
        if o is None:
            f.und(f"{W}: exit {short(v, 90)} is neither Ok nor Err")
            continue
        seen.add(o)
        D = simp(s, strip_norm(kids(run, run.arg1(s, 0))))
        soft = opaque_guard(s, idx) or bool(e.unknown)
        if o == "Err":
            if name != "remove_element":
                if s.entails(lplus(lsub(idx, lim), -1)):
                    f.ok(f"{W}: error only when the index is past {show(lim)}")
                elif soft:
                    f.und(f"{W}: error condition not understood")
                else:
                    f.bad(f"{path}|err-range", f"{W}: returns an error for an index that may be valid (no fact that it is past {show(lim)})")
            else:
                r, why = err_elem(run, s, idx, C)
                (f.ok if r else f.und if r is None else lambda t: f.bad(f"{path}|err-range", t))(f"{W}: error exit: {why}")
            r = err_index(run, s, v, idx)
            if r is True:
                f.ok(f"{W}: the error carries the requested index")
            elif r is False:
                f.bad(f"{path}|err-index", f"{W}: the error carries {short(payload(run, s, v))} instead of the requested index")
            else:
                f.und(f"{W}: index in error {short(payload(run, s, v))}")
            continue
        # success
        if name != "remove_element":
            if s.entails(lsub(lim, idx)):
                f.ok(f"{W}: success only for an index up to {show(lim)}")
            elif soft:
                f.und(f"{W}: success condition not understood")
            else:
                f.bad(f"{path}|ok-range", f"{W}: succeeds for an index that may exceed {show(lim)}")
        if name == "insert":
            x = run.arg0(2)
            if D.op == "vinsert" and D.a[0] is C:
                if s.same(D.a[1], idx):
                    f.ok(f"{W}: inserted at the index")
                else:
                    f.bad(f"{path}|position", f"{W}: inserted at {short(D.a[1])}, not at the requested index")
                r = from_arg(run, s, D.a[2], x)
                if r is True:
                    f.ok(f"{W}: the given node is inserted")
                elif r is False:
                    f.bad(f"{path}|item", f"{W}: inserts {short(D.a[2])} instead of the given node")
                else:
                    f.und(f"{W}: inserted value {short(D.a[2])}")
            elif D is C:
                f.bad(f"{path}|lost", f"{W}: succeeds without inserting")
            elif D.op == "vpush" and D.a[0] is C:
                if s.same(idx, n):
                    f.ok(f"{W}: appended for an index equal to the length")
                else:
                    f.bad(f"{path}|position", f"{W}: appended at the end although the index may be smaller")
            else:
                f.und(f"{W}: resulting children {short(D)}")
        else:
            if D is C:
                f.bad(f"{path}|lost", f"{W}: succeeds without removing anything")
                continue
            if D.op != "vremove" or D.a[0] is not C:
                if D.op in ("vset", "vremove", "vslice") and D.op != "vslice":
                    f.bad(f"{path}|position", f"{W}: leaves children {short(D)}, not the original list without one node")
                else:
                    f.und(f"{W}: resulting children {short(D)}")
                continue
            pos = D.a[1]
            if name == "remove":
                if s.same(pos, idx):
                    f.ok(f"{W}: removed at the index")
                else:
                    f.bad(f"{path}|position", f"{W}: removes position {short(pos)}, not the requested index")
            else:
                r, why, lenL = elem_pos(run, s, pos, idx, C)
                if r is True:
                    f.ok(f"{W}: removes the requested element: {why}")
                elif r is False:
                    f.bad(f"{path}|position", f"{W}: {why}")
                else:
                    f.und(f"{W}: {why}")
            x = payload(run, s, v)
            el = e.velem(s, C, pos)
            if x is el or x.op == "agg" and copied(run, s, x, el):
                f.ok(f"{W}: returns the removed node")
            elif x.op == "elem" and x.a[0] is C and not s.same(x.a[1], pos):
                f.bad(f"{path}|returned", f"{W}: returns {short(x)} but removes position {short(pos)}")
            else:
                r = mentions(x, {el})
                (f.ok if r else f.und)(f"{W}: returns {short(x, 120)}" + (" built from the removed node" if r else ""))
    for o in ("Ok", "Err"):
        if o not in seen:
            f.bad(f"{path}|never-{o}", f"{W}: never returns {o}") if not e.unknown else f.und(f"{W}: no {o} exit")
    return f.items


def err_elem(run, s, idx, C):
    """remove_element: is the index known to be past the element children"""
    for k, c in s.lin.items():
        l = mk("lin", c, k)
    for l in loops(run):
        for c in l.loc:
            if (type_of(c) or ("",))[0] == "int":
                continue
            t = type_of(c)
            if t and t[0] == "adt" and t[1] == "std::vec::Vec":
                r, why = collector(run, c, C)
                if r is True:
                    if s.entails(lsub(idx, vlen(c))):
                        return True, "the index is not below the number of element children"
                    if opaque_guard(s, idx):
                        return None, "condition not understood"
                    return False, "returns an error although the index may be below the number of element children"
    return None, "number of element children not recognised"


def from_arg(run, s, x, a):
    """is x the node a, possibly with namespace fields updated"""
    if x is a:
        return True
    e = run.e
    if x.op == "agg" and x.a[0] == ELEMENT:
        F = felem(run.p)
        fa = fields_of(e, a)
        fx = list(x.a[3])
        for n in ("name", "child_nodes", "attributes", "xmlns_prefix"):
            if not same(e, s, fx[F[n]], fa[F[n]]):
                return False if certain_change(fx[F[n]], None) and not mentions(fx[F[n]], {a}) else None
        return True
    if x.op == "agg":
        return None if mentions(x, {a}) else False
    return None


def copied(run, s, x, el):
    return from_arg(run, s, x, el) is True


def c11(p, rep):
    if felem(p) is None:
        rep.undecide("struct Element has other fields than expected")
        return
    names = ["insert", "remove", "remove_element"]
    merge(rep, parallel(p, [(j11, (n,)) for n in names]), names)
    rep.assumptions += ASSUME


# ------------------------------------------------------------------ C13
def adders(p):
    """public functions that may add children: methods on &mut Element and functions returning an Element"""
    out = []
    for k in public_roots(p):
        b = p.bodies[k]
        ins = [p.ty(t) for t in b["inputs"]]
        o = p.ty(b["output"])
        if o[0] == "adt" and o[1] == RES:
            o = o[2][0]
        if any(summ.is_mut_elem(t) for t in ins) or o == ET and not b["path"].startswith("<"):
            out.append(k)
    return out


def elements_out(run, s, v):
    """(label, element content at exit, content at entry or None)"""
    out = []
    for i, t in enumerate(run.body["inputs"]):
        if summ.is_mut_elem(run.p.ty(t)):
            out.append(("self" if i == 0 else f"argument {i}", run.arg1(s, i), run.arg0(i)))
    o = run.p.ty(run.body["output"])
    if any(run.p.ty(t)[0] == "ref" for t in run.body["inputs"][:1] if run.p.ty(t)[0] == "ref" and run.p.ty(t)[2] == ET):
        return out
    if o == ET and v.op == "agg":
        out.append(("result", v, None))
    if o[0] == "adt" and o[1] == RES and o[2][0] == ET and outcome(run, s, v) == "Ok":
        x = payload(run, s, v)
        if x.op == "agg" and x.a[0] == ELEMENT:
            out.append(("result", x, None))
    return out


def normalized(run, t, C, seen=()):
    """(verdict, why): are children t normalised after the last addition"""
    if C is not None and t is C:
        return True, "unchanged"
    if t.op == "call" and t.a[0] == "norm":
        return True, "normalised last"
    if t.op == "vec":
        if not t.a[0]:
            return True, "no children"
        if len(t.a[0]) == 1:
            x = t.a[0][0]
            ty = x.a[0] if x.op == "agg" else (type_of(x) or ("", ""))[1]
            if str(ty).endswith("::Text"):
                return False, "a text child that may be blank"
            return None, "one child"
        return False, f"children {short(t)} without normalisation"
    if t.op == "vremove":
        r, w = normalized(run, t.a[0], C, seen)
        return (True, "removal only") if r else (r, w)
    if t.op in ("vpush", "vinsert", "vconcat"):
        return False, f"child added without normalising afterwards: {short(t)}"
    if t.op == "vset":
        return normalized(run, t.a[0], C, seen)
    if t.op == "phi":
        if t in seen:
            return True, "unchanged"
        l = loop_of(run, t)
        if l is None:
            return None, f"loop of {short(t)} not found"
        worst = (True, "by induction over the loop")
        for s, v in l.entries(t) + l.nexts(t):
            if v is None:
                r = (None, "loop value unknown")
            else:
                r = normalized(run, v, C, seen + (t,))
            if r[0] is False:
                return r
            if r[0] is None:
                worst = r
        return worst
    return None, f"children {short(t)}"


def j13(p, key):
    f = Findings()
    run = Run(p, key, opts(p), tl=250)
    path, W = run.body["path"], where(p, key)
    incomplete(run, f)
    n = 0
    for s, v in run.outs:
        for lab, x1, x0 in elements_out(run, s, v):
            if outcome(run, s, v) == "Err" and run.p.ty(run.body["output"])[0] == "adt" and run.p.ty(run.body["output"])[1] == RES:
                continue
            C = kids(run, x0) if x0 is not None else None
            K = kids(run, x1)
            r, why = normalized(run, K, C)
            if K is C:
                continue
            n += 1
            if r:
                f.ok(f"{W}: children of {lab}: {why}")
            elif r is False:
                f.bad(f"{path}|unnormalised", f"{W}: returns {short(v, 60)} with {why}")
            else:
                f.und(f"{W}: {why}")
    if not n and not run.stopped:
        f.cover.append(path)
    return f.items


def text_of(run, x):
    """content string of a Text value"""
    if x.op == "agg" and str(x.a[0]).endswith("::Text"):
        return x.a[3][0]
    return None


def is_content(run, x, el):
    """is string term x the content of text node el"""
    return x.op == "fld" and x.a[0] is el or x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[0] is el


def j13norm(p, key):
    """the normaliser itself: a downward scan merging neighbours, a scan dropping blank text"""
    f = Findings()
    o = opts(p)
    o["summaries"] = {k: v for k, v in o["summaries"].items() if k != key}
    run = Run(p, key, o, tl=250)
    path, W, e = run.body["path"], where(p, key), run.e
    if incomplete(run, f):
        return f.items
    C0 = kids(run, run.arg0(0))
    stages = []
    for s, v in run.outs:
        K = kids(run, run.arg1(s, 0))
        if K is C0:
            if s.entails(lneg(vlen(C0))):
                f.ok(f"{W}: nothing to do without children")
            else:
                f.bad(f"{path}|skips", f"{W}: may return without normalising although there are children")
            continue
        stages.append((s, K))
    got = {"merge": None, "blank": None}
    done = set()
    for s, K in stages:
        chain = []
        if K.op == "vremove" and cell(K.a[0]) is not None:
            K = K.a[0]      # last step of a scan left at the end of its body
        c = cell(K)
        while c is not None and len(chain) < 6:
            l = loop_of(run, c)
            if l is None:
                break
            chain.append((l, c))
            es = {v for _, v in l.entries(c)}
            nx = [cell(v) for v in es if v is not None and v is not C0]
            if len(es) != 1:
                if es == {C0} or not nx:
                    break
                c = nx[0]
            else:
                c = cell(next(iter(es))) if next(iter(es)) is not C0 else None
        if not chain:
            f.und(f"{W}: resulting children {short(K)} not produced by a recognised loop")
            return f.items
        names = []
        for l, c in chain:
            names.append(classify(run, l, c))
            if (l.ev.blk, l.ev.key, c) not in done:
                done.add((l.ev.blk, l.ev.key, c))
                stage(p, run, f, l, c, names[-1], W, path)
        names.reverse()
        if None in names or any(x not in ("merge", "blank") for x in names):
            f.und(f"{W}: a loop of the normaliser is not recognised")
            continue
        for x in ("merge", "blank"):
            if x not in names:
                f.bad(f"{path}|no-{x}", f"{W}: a path {'does not merge adjacent text' if x == 'merge' else 'does not drop blank text'}")
        if names == ["blank", "merge"]:
            f.bad(f"{path}|order", f"{W}: blank text is dropped before adjacent text is merged")
        elif "merge" in names and "blank" in names:
            f.ok(f"{W}: adjacent text is merged, then blank text dropped")
    return f.items


def classify(run, l, c):
    vs = [v for _, v in l.nexts(c)] + [l.at(s, c) for _, s in l.exits_of(c)]
    if any(v is None for v in vs):
        return None
    if any(v.op == "vinsert" or v.op == "vset" for v in vs):
        return "merge"
    if any(v.op == "vremove" for v in vs):
        return "blank"
    return None


def stage(p, run, f, l, c, name, W, path):
    """check one scan of the normaliser"""
    e = run.e
    if name is None:
        return
    # scan cell
    cs = [x for x in l.counters() if x[0] in l.loc]
    desc = [x for x in cs if x[1] < 0]
    if not desc:
        f.und(f"{W}: {name} scan is not a downward scan")
        return
    ph, step, ents = desc[0]
    i = atom(ph)
    if step != -1:
        f.bad(f"{path}|{name}-step", f"{W}: the {name} scan advances by {step}")
        return
    # the cell may hold the position itself or one more
    pos = None
    for s, v in l.nexts(c):
        t = v
        while t.op in ("vinsert", "vset"):
            t = t.a[0]
        while t.op == "vremove" and t.a[0].op == "vremove":
            t = t.a[0]
        if t.op == "vremove" and t.a[0] is c:
            d = lsub(t.a[1], i)
            if is_const(d):
                pos = d if pos is None or cval(d) > cval(pos) else pos
        elif v.op == "vset" and v.a[0] is c:
            pos = lsub(v.a[1], i)
    if pos is None:
        f.und(f"{W}: {name} scan position not recognised")
        return
    q = ladd(i, pos)       # position handled in an iteration
    low = 1 if name == "merge" else 0
    for (s, _), v in zip(l.entries(c), ents):
        first = ladd(v, pos)
        L = vlen(l.at(s, c))
        if not s.same(first, lplus(L, -1)):
            if s.entails(lsub(first, lplus(L, -1))) or not s.entails(lplus(lsub(lplus(L, -1), first), -1)):
                f.und(f"{W}: start {show(first)} of the {name} scan")
            else:
                f.bad(f"{path}|{name}-start", f"{W}: the {name} scan starts at {show(first)}, not at the last child")
        else:
            f.ok(f"{W}: the {name} scan starts at the last child")
    last = []
    for s in [s for _, s in l.exits_of(c)] + list(l.rets):
        # the position under the scan when the loop is left, possibly still to be handled
        if s.entails(lsub(num(low - 1), q)):
            f.ok(f"{W}: the {name} scan ends below position {low}")
        elif s.entails(lsub(num(low), q)):
            last.append((s, l.at(s, c)))
        elif s.entails(lsub(num(low + 3), q)) or s.entails(lplus(lsub(q, num(low)), -1)):
            f.bad(f"{path}|{name}-end", f"{W}: the {name} scan may stop at position {show(q)} before reaching {low}")
        else:
            f.und(f"{W}: end of the {name} scan at {show(q)}")
    for s, v in l.nexts(c) + last:
        if v is None:
            continue
        a, b = e.velem(s, c, lplus(q, -1)), e.velem(s, c, q)
        kb = e.kind_of(s, b)
        if name == "merge":
            ka = e.kind_of(s, a)
            if v is c:
                if ka == {"Text"} and kb == {"Text"}:
                    f.bad(f"{path}|merge-skip", f"{W}: two adjacent text nodes may be left unmerged")
                elif "Text" in ka and "Text" in kb and any(s is x for x, _ in last) and set(l.loc) <= {c, ph} and untested(s, a, b):
                    f.bad(f"{path}|merge-end", f"{W}: the merge scan may stop at position {low} without looking at it")
                elif "Text" in ka and "Text" in kb:
                    f.und(f"{W}: unmerged neighbours of kinds {sorted(ka)} and {sorted(kb)}")
                else:
                    f.ok(f"{W}: neighbours left alone only when one is no text")
                continue
            new = merged(s, v, c, q)
            if new is None:
                f.und(f"{W}: merge step {short(v)}")
                continue
            if ka != {"Text"} or kb != {"Text"}:
                f.bad(f"{path}|merge-kind", f"{W}: merges nodes of kinds {sorted(ka)} and {sorted(kb)}")
                continue
            t = text_of(run, new)
            parts = t.a[0] if t is not None and t.op == "cat" else None
            if parts and len(parts) == 2 and is_content(run, parts[0], a) and is_content(run, parts[1], b):
                f.ok(f"{W}: merged text is front followed by back")
            elif parts and len(parts) == 2 and is_content(run, parts[0], b) and is_content(run, parts[1], a):
                f.bad(f"{path}|merge-order", f"{W}: merged text has the pieces in the wrong order")
            elif t is not None and (t is a or is_content(run, t, a) or is_content(run, t, b) or parts):
                f.bad(f"{path}|merge-text", f"{W}: merged text is {short(t)} instead of front followed by back")
            else:
                f.und(f"{W}: merged text {short(new)}")
        else:
            blanks = [x for k, x in s.bools.items() if k.op == "pr" and any(is_content(run, y, b) for y in k.a if isinstance(y, T))]
            if v is c:
                if kb == {"Text"}:
                    if False in blanks:
                        f.ok(f"{W}: text kept only when not blank")
                    elif True in blanks:
                        f.bad(f"{path}|blank-kept", f"{W}: a blank text node may be kept")
                    else:
                        f.bad(f"{path}|blank-kept", f"{W}: a text node may be kept without testing whether it is blank")
                elif "Text" in kb:
                    f.bad(f"{path}|blank-kept", f"{W}: a child that may be text is kept without testing")
                else:
                    f.ok(f"{W}: other nodes are kept")
            elif v.op == "vremove" and v.a[0] is c and s.same(v.a[1], q):
                if kb != {"Text"}:
                    f.bad(f"{path}|blank-kind", f"{W}: drops nodes of kinds {sorted(kb)}")
                elif True in blanks:
                    f.ok(f"{W}: text dropped only when blank")
                elif False in blanks:
                    f.bad(f"{path}|blank-cond", f"{W}: drops text that is not blank")
                else:
                    f.und(f"{W}: condition of dropping text not understood")
            else:
                f.und(f"{W}: blank step {short(v)}")


def untested(s, a, b):
    """the state says nothing about the two nodes"""
    return not any(x is a or x is b for t in list(s.bools) + list(s.kinds) + list(s.var) for x in subs(t))


def merged(s, v, c, q):
    """the node that replaces children q-1 and q of c, or None"""
    p1 = lplus(q, -1)
    if v.op == "vinsert" and s.same(v.a[1], p1) and v.a[0].op == "vremove" and v.a[0].a[0].op == "vremove" and v.a[0].a[0].a[0] is c:
        x, y = v.a[0].a[0].a[1], v.a[0].a[1]
        if s.same(x, q) and s.same(y, p1) or s.same(x, p1) and s.same(y, p1):
            return v.a[2]
    if v.op == "vset" and s.same(v.a[1], p1) and v.a[0].op == "vremove" and v.a[0].a[0] is c and s.same(v.a[0].a[1], q):
        return v.a[2]
    if v.op == "vremove" and s.same(v.a[1], q) and v.a[0].op == "vset" and v.a[0].a[0] is c and s.same(v.a[0].a[1], p1):
        return v.a[0].a[2]
    return None


def c13(p, rep):
    if felem(p) is None:
        rep.undecide("struct Element has other fields than expected")
        return
    norm = find_norm(p)
    if not norm:
        rep.undecide("no text normaliser found among the functions reached by append, append_boxed, append_all and insert")
        return
    ks = adders(p)
    jobs = [(j13, (k,)) for k in ks] + [(j13norm, (k,)) for k in norm]
    merge(rep, parallel(p, jobs), [p.bodies[k]["path"] for k in ks + norm])
    rep.cover["functions"] = [p.bodies[k]["path"] for k in ks]
    rep.cover["normaliser"] = [p.bodies[k]["path"] for k in norm]
    rep.assumptions += ASSUME


# ------------------------------------------------------------------ C12
def ns_call(run, x):
    """(original element, default namespace, prefix table) when x had the inheritance function applied"""
    if x.op == "agg" and x.a[0] == ELEMENT:
        F = felem(run.p)
        c = x.a[3][F["xmlns"]]
        if c.op == "call" and c.a[0] == "ns:xmlns":
            a = c.a[1]
            return a[0], a[1], a[2] if len(a) > 2 else None
    return None


def variant(s, t):
    if t.op == "agg":
        return t.a[1]
    vs = s.var.get(t)
    if vs is not None and len(vs) == 1:
        return next(iter(vs))
    return None


def judge_ns(run, s, par, D, P):
    """(verdict, why) for the namespace data given to a child of an element with content par"""
    F = felem(run.p)
    fs = fields_of(run.e, par)
    X, PX, M = fs[F["xmlns"]], fs[F["xmlns_prefix"]], fs[F["xmlns_context"]]
    pv = variant(s, PX)
    if P is not None and (P is M or P.op == "agg" and P.a[2] == "Some" and P.a[3][0] is M):
        pass
    elif P is not None and (P is NONE or P.op == "mempty" and M.op != "mempty" or P.op == "agg" and P.a[2] == "Some" and P.a[3][0].op == "mempty" and M.op != "mempty"):
        return False, f"passes {short(P, 60)} instead of the parent's prefix table"
    elif P is not None and P.op == "fld" and P.a[3] == "xmlns_context":
        return False, f"passes the prefix table of {short(P.a[0], 60)} instead of the parent's"
    else:
        return None, f"prefix table {short(P, 100) if P is not None else '?'}"
    if pv is None:
        if D is X:
            return (False, "passes the parent's namespace as default although the parent may use a prefix")
        return None, f"default namespace {short(D, 100)} (prefix unknown)"
    if pv == 0:
        if same(run.e, s, D, X):
            return True, "parent's default namespace and prefix table"
        if D is NONE:
            return (True, "no default namespace") if variant(s, X) == 0 else (False, "passes no default namespace although the parent may have one")
        return (False if D.op in ("agg", "fld", "sym", "lit") else None), f"default namespace {short(D, 100)}"
    if D is NONE or variant(s, D) == 0:
        return True, "no default namespace (parent has a prefix) and the prefix table"
    if D is X:
        return False, "passes the parent's prefixed namespace as default namespace"
    return None, f"default namespace {short(D, 100)}"


class NS:
    """the additions behind a child list"""

    def __init__(self, run, f, W, path, par, C):
        self.run, self.f, self.W, self.path, self.par, self.C = run, f, W, path, par, C
        self.loops_done = set()

    def item(self, s, x, deferred=False):
        """one added child; True when it still needs inheritance"""
        run, f, W = self.run, self.f, self.W
        n = ns_call(run, x)
        if n is not None:
            vs = [judge_ns(run, s, x, n[1], n[2]) for x in self.par]
            r, why = next((x for x in vs if x[0]), None) or next((x for x in vs if x[0] is None), vs[0])
            if r:
                f.ok(f"{W}: added element gets {why}")
            elif r is False:
                f.bad(f"{self.path}|ns-data", f"{W}: {why}")
            else:
                f.und(f"{W}: {why}")
            return False
        ks = run.e.kind_of(s, x)
        if "Element" not in ks:
            f.ok(f"{W}: added node is no element")
            return False
        if deferred:
            return True
        if x.op in ("phi", "fresh") or x.op == "sym" and x.a and x.a[0] is not None and "arg" not in str(x.a):
            f.und(f"{W}: added node {short(x)}")
        else:
            f.bad(f"{self.path}|ns-missing", f"{W}: a child that may be an element is added without inheriting namespaces: {short(x, 120)}")
        return False

    def check(self, s, K, fixed=None):
        """fixed: positions handled later -> description"""
        run, f, W = self.run, self.f, self.W
        e = run.e
        K = strip_norm(K)
        if self.C is not None and K is self.C:
            return
        if K.op == "vec":
            for x in K.a[0]:
                self.item(s, x)
            return
        if K.op in ("vpush", "vinsert"):
            self.item(s, K.a[-1])
            return self.check(s, K.a[0])
        if K.op == "vremove":
            return self.check(s, K.a[0])
        if K.op == "vset":
            n = ns_call(run, K.a[2])
            b = K.a[0]
            if b.op in ("vpush", "vinsert") and n is not None:
                at_ = vlen(b.a[0]) if b.op == "vpush" else b.a[1]
                self.item(s, K.a[2])
                if s.same(K.a[1], at_):
                    return self.check(s, b.a[0])
                if "Element" in e.kind_of(s, b.a[-1]):
                    f.bad(f"{self.path}|ns-other", f"{W}: namespaces are applied to the child at {short(K.a[1], 60)}, not to the added one at {short(at_, 60)}")
                return
            if n is None:
                f.ok(f"{W}: no child added")
                return self.check(s, b)
            f.und(f"{W}: children {short(K)}")
            return
        if K.op == "phi":
            return self.loop(s, K)
        f.und(f"{W}: children {short(K)}")

    def loop(self, s, c):
        run, f, W = self.run, self.f, self.W
        l = loop_of(run, c)
        if l is None:
            f.und(f"{W}: loop of {short(c)}")
            return
        if (id(l.ev), c) in self.loops_done:
            return
        self.loops_done.add((id(l.ev), c))
        nx = l.nexts(c)
        if any(v is not None and strip_norm(v).op == "vset" and v.a[0] is c for _, v in nx) and all(v is c or v is not None and v.op == "vset" and v.a[0] is c for _, v in nx):
            if any(v is not c and ns_call(run, v.a[2]) is not None for _, v in nx):
                return self.fixup(l, c)
        for b, v in nx:
            if v is None:
                f.und(f"{W}: loop value unknown")
            elif v is not c:
                v = strip_norm(v)
                if v.op in ("vpush", "vinsert") and strip_norm(v.a[0]) is c:
                    self.item(b, v.a[-1])
                elif v.op in ("vremove", "vset") and v.a[0].op == "phi" and (v.op == "vremove" or ns_call(run, v.a[2]) is None):
                    f.ok(f"{W}: no child added")
                    if v.a[0] is not c:
                        self.loop(b, v.a[0])
                elif v.op == "phi":
                    self.loop(b, v)
                else:
                    f.und(f"{W}: loop step {short(v)}")
        for b, v in l.entries(c):
            if v is not None:
                self.check(b, v)

    def fixup(self, l, c):
        """a second loop applies inheritance to the positions a first loop recorded"""
        run, f, W, e = self.run, self.f, self.W, self.run.e
        pos = None
        for b, v in l.nexts(c):
            if v is c:
                continue
            j = v.a[1]
            pos = j if pos is None or pos is j else "?"
            n = ns_call(run, v.a[2])
            if n is None:
                f.und(f"{W}: fix-up step {short(v)}")
                return
            if n[0] is not e.velem(b, c, j) and not (n[0].op == "elem" and n[0].a[0] is c and b.same(n[0].a[1], j)):
                f.und(f"{W}: fix-up of {short(n[0])} at {short(j)}")
                return
            self.item(b, v.a[2])
        if pos in (None, "?"):
            f.und(f"{W}: fix-up positions")
            return
        for b, v in l.nexts(c):
            if v is c and "Element" in e.kind_of(b, e.velem(b, c, pos)):
                if e.kind_of(b, e.velem(b, c, pos)) == {"Element"}:
                    f.bad(f"{self.path}|ns-skip", f"{W}: an element at a recorded position may be skipped")
                else:
                    f.und(f"{W}: fix-up skips a child of unknown kind")
        src = [v for _, v in l.entries(c)]
        c1 = cell(src[0]) if src and src[0] is not None else None
        l1 = loop_of(run, c1) if c1 is not None else None
        if l1 is None or any(v is not c1 for v in src):
            f.und(f"{W}: children before the fix-up: {short(src)}")
            return
        a = pos.a[1][0][0] if pos.op == "lin" and len(pos.a[1]) == 1 else None
        cnt = {x[0]: x for x in l.counters() if x[1] == 1}
        if a is not None and a.op == "elem" and a.a[0].op == "phi":
            IL, k = a.a[0], a.a[1]
            kc = cell(k)
            if kc not in cnt or not all(is_const(v) and cval(v) == 0 for v in cnt[kc][2]):
                f.bad(f"{self.path}|ns-scan", f"{W}: the recorded positions are not visited from the first one") if kc in cnt else f.und(f"{W}: fix-up order")
                return
            if not all(x.entails(lsub(atom(kc), vlen(IL))) for _, x in l.exits_of(c)):
                f.und(f"{W}: end of the fix-up")
                return
            self.record(l1, c1, IL)
        elif a is not None and a in cnt and cell(pos) is a:
            st = cnt[a][2]
            en = [v for _, v in l1.entries(c1)]
            if len(set(en)) != 1:
                f.und(f"{W}: start of additions")
                return
            n0 = vlen(en[0])
            for (b, _), v in zip(l.entries(c), st):
                if b.same(v, n0):
                    f.ok(f"{W}: inheritance is applied from the first added child on")
                elif b.entails(lplus(lsub(v, n0), -1)):
                    f.bad(f"{self.path}|ns-first", f"{W}: inheritance is applied only from position {show(v)}, the first addition is at {show(n0)}")
                else:
                    f.und(f"{W}: inheritance from position {show(v)}")
            if all(x.entails(lsub(pos, vlen(c))) or x.entails(lsub(pos, vlen(c1))) for _, x in l.exits_of(c)):
                f.ok(f"{W}: inheritance is applied up to the last child")
            else:
                f.und(f"{W}: end of the fix-up")
            for b, v in l1.nexts(c1):
                if v is None or v is not c1 and not (v.op == "vpush" and v.a[0] is c1):
                    f.und(f"{W}: additions {short(v)}")
        else:
            f.und(f"{W}: fix-up position {short(pos)}")

    def record(self, l1, c1, IL):
        """the adding loop records the position of every element it adds"""
        run, f, W, e = self.run, self.f, self.W, self.run.e
        if not l1.own(IL):
            f.und(f"{W}: positions are recorded elsewhere")
            return
        for b, v in l1.entries(IL):
            if v is None or v.op != "vec" or v.a[0]:
                f.und(f"{W}: initial positions {short(v)}")
                return
        en = [v for _, v in l1.entries(c1)]
        for b, v in l1.nexts(c1):
            r = l1.at(b, IL)
            if v is c1:
                continue
            if v is None or v.op != "vpush" or v.a[0] is not c1:
                f.und(f"{W}: addition {short(v)}")
                continue
            x = v.a[1]
            if ns_call(run, x) is not None or "Element" not in e.kind_of(b, x):
                self.item(b, x)
                continue
            if r is IL:
                (f.bad if e.kind_of(b, x) == {"Element"} else lambda k, t: f.und(t))(f"{self.path}|ns-unrecorded", f"{W}: an added element is not recorded for namespace inheritance")
                continue
            if r is None or r.op != "vpush" or r.a[0] is not IL or r.a[1].op != "lin":
                f.und(f"{W}: recorded positions {short(r)}")
                continue
            k = r.a[1]
            if b.same(k, vlen(c1)):
                f.ok(f"{W}: the recorded position is that of the added element")
                continue
            kc = [t for t, _ in k.a[1] if t.op == "phi"]
            cs = {x[0]: x for x in l1.counters() if x[1] == 1}
            if len(kc) == 1 and kc[0] in cs and len(k.a[1]) == 1 and len(set(en)) == 1 and en[0] is not None:
                off = lsub(k, atom(kc[0]))
                v0 = cs[kc[0]][2][0]
                if l1.entry[0].same(ladd(v0, off), vlen(en[0])):
                    f.ok(f"{W}: the recorded position is that of the added element")
                else:
                    f.bad(f"{self.path}|ns-position", f"{W}: the recorded position starts at {show(ladd(v0, off))} while children are added from {show(vlen(en[0]))}")
            else:
                f.und(f"{W}: recorded position {short(k)} for the child at {short(vlen(c1))}")


def j12(p, key):
    f = Findings()
    run = Run(p, key, opts(p), tl=250)
    path, W = run.body["path"], where(p, key)
    incomplete(run, f)
    allout = [(s, e) for s, v in run.outs for e in elements_out(run, s, v)]
    for s, (lab, x1, x0) in allout:
        C = kids(run, x0) if x0 is not None else None
        K = kids(run, x1)
        if K is C or K.op == "vec" and not K.a[0]:
            continue
        # a new element is compared with what any exit makes of it: loop steps are shared between exits
        par = [x0] if x0 is not None else [x1] + [y for _, (l2, y, _) in allout if l2 == lab and y is not x1]
        NS(run, f, W, path, par, C).check(s, K)
    return f.items


def j12ns(p, key):
    """the inheritance function: local definitions win, the parent's fill the gaps"""
    f = Findings()
    o = opts(p)
    o["summaries"] = {k: v for k, v in o["summaries"].items() if k != key}
    run = Run(p, key, o, tl=250)
    path, W, e = run.body["path"], where(p, key), run.e
    if incomplete(run, f):
        return f.items
    F = felem(p)
    f0 = fields_of(e, run.arg0(0))
    X0, PX, M0 = f0[F["xmlns"]], f0[F["xmlns_prefix"]], f0[F["xmlns_context"]]
    D = run.arg0(1)
    A2 = run.arg0(2)
    t2 = p.ty(run.body["inputs"][2])
    pm = e.payload(A2, 1) if t2[0] == "adt" and t2[1] == OPT else A2
    seenloops = set()
    for s, v in run.outs:
        x1 = run.arg1(s, 0)
        f1 = fields_of(e, x1)
        for n in ("name", "child_nodes", "attributes", "xmlns_prefix"):
            if not same(e, s, f0[F[n]], f1[F[n]]):
                f.bad(f"{path}|touches-{n}", f"{W}: also changes '{n}'")
        X, M = f1[F["xmlns"]], f1[F["xmlns_context"]]
        for se, val in sources(run, X, s):
            judge_x(run, f, W, path, s, se, val, X, X0, PX, D, M)
        # prefix table
        if M is M0:
            if A2 is not pm and variant(s, A2) == 0:
                f.ok(f"{W}: no prefixes to inherit")
            else:
                f.bad(f"{path}|prefixes", f"{W}: the parent's prefixes may not be inherited")
            continue
        c = cell(M)
        l = loop_of(run, c) if c is not None else None
        if l is None:
            f.und(f"{W}: prefix table {short(M)}")
            continue
        if (id(l.ev), c) in seenloops:
            continue
        seenloops.add((id(l.ev), c))
        if any(v0 is not M0 for _, v0 in l.entries(c)):
            f.und(f"{W}: prefix table before the loop")
            continue
        for b, nv in l.nexts(c):
            if nv is c:
                k = [t for t in b.bools if t.op == "mhas" and t.a[0] is c and b.bools[t] is True]
                if k:
                    f.ok(f"{W}: a prefix is skipped only when the element defines it")
                else:
                    f.bad(f"{path}|prefix-skip", f"{W}: a prefix of the parent may be skipped although the element does not define it")
            elif nv is not None and nv.op == "minsert" and nv.a[0] is c:
                if b.eval(e.mhas(b, c, nv.a[1])) is False:
                    f.ok(f"{W}: a prefix is inherited only when the element does not define it")
                else:
                    f.bad(f"{path}|prefix-override", f"{W}: a prefix defined by the element may be overridden by the parent's")
                if not (nv.a[2].op == "mval" and nv.a[2].a[0] is pm and nv.a[2].a[1] is nv.a[1]):
                    f.und(f"{W}: inherited value {short(nv.a[2])}")
            else:
                f.und(f"{W}: prefix table step {short(nv)}")
    return f.items


def sources(run, v, s):
    """(state, value) pairs a value may come from: entries of a loop that leaves it alone"""
    c = v if v.op == "phi" else None
    if c is None:
        return [(s, v)]
    for l in loops(run):
        if l.own(c) and all(x is c for _, x in l.nexts(c)) and l.entries(c):
            if any(x is None for _, x in l.entries(c)):
                return [(s, v)]
            out = []
            for se, x in l.entries(c):
                out += sources(run, x, se)
            return out
    return [(s, v)]


def judge_x(run, f, W, path, s, se, v, X, X0, PX, D, M):
    e = run.e
    pv, xv = variant(se, PX), variant(se, X0)
    po = variant(s, PX)
    if po is not None and pv is not None and po != pv:
        return
    if pv is None:
        pv = po
    if same(e, se, v, X0):
        if pv == 0 and xv == 0:
            f.bad(f"{path}|default", f"{W}: an element without namespace does not inherit the default namespace") if not same(e, se, D, X0) and variant(se, D) != 0 else f.ok(f"{W}: no default namespace to inherit")
        elif pv == 1 and (xv == 0 or variant(s, X) == 0):
            m = e.mhas(s, M, e.payload(PX, 1))
            if s.eval(m) is False:
                f.ok(f"{W}: prefix not defined anywhere")
            elif s.eval(m) is True:
                f.bad(f"{path}|lookup", f"{W}: the namespace of a known prefix is not looked up")
            else:
                f.bad(f"{path}|lookup", f"{W}: an element with a prefix and no namespace is left without looking the prefix up")
        elif xv == 1 or variant(s, X) == 1:
            f.ok(f"{W}: the element's own namespace is kept")
        else:
            f.und(f"{W}: namespace kept in an unknown case")
        return
    if same(e, se, v, D) or v is D:
        if pv == 0 and xv == 0:
            f.ok(f"{W}: default namespace inherited by an element without prefix and namespace")
        else:
            f.bad(f"{path}|default-override", f"{W}: the default namespace may replace {'the own namespace' if xv != 0 else 'the prefix lookup'} of an element")
        return
    w = v.a[3][0] if v.op == "agg" and v.a[2] == "Some" else None
    if w is not None and w.op == "mval":
        if pv != 1:
            f.bad(f"{path}|lookup-prefix", f"{W}: looks up a prefix the element does not have")
        elif w.a[0] is M and w.a[1] is e.payload(PX, 1) or w.a[0] is M and same(e, s, w.a[1], e.payload(PX, 1)):
            f.ok(f"{W}: the element's prefix is looked up in the inherited table")
        elif w.a[0] is not M:
            f.bad(f"{path}|lookup-table", f"{W}: the prefix is looked up in {short(w.a[0], 80)}, not in the final table")
        else:
            f.bad(f"{path}|lookup-key", f"{W}: looks up {short(w.a[1], 80)} instead of the element's prefix")
        return
    if v is NONE:
        if pv == 1 and s.eval(e.mhas(s, M, e.payload(PX, 1))) is False:
            f.ok(f"{W}: prefix not defined anywhere")
        elif pv == 0 and variant(se, D) == 0 and xv == 0:
            f.ok(f"{W}: no namespace to inherit")
        elif xv == 0 and pv == 0 or xv == 1:
            f.bad(f"{path}|dropped", f"{W}: the namespace is dropped")
        else:
            f.und(f"{W}: no namespace in an unknown case")
        return
    f.und(f"{W}: resulting namespace {short(v)}")


def child_writers(p):
    """functions that touch the child list mutably"""
    F = felem(p)
    out = []
    for k, b in p.bodies.items():
        if not is_fn(b) and b.get("kind") != "closure":
            continue
        if writes_children(b["body"], F["child_nodes"]):
            out.append(k)
    return out


def writes_children(body, fi):
    import json
    for blk in body["blocks"]:
        for st in blk["s"]:
            if not isinstance(st[0], list):
                continue
            js = json.dumps(st)
            if "child_nodes" in js and ("Mut" in js or "child_nodes" in json.dumps(st[0])):
                return True
    return False


def c12(p, rep):
    if felem(p) is None:
        rep.undecide("struct Element has other fields than expected")
        return
    ns = find_ns(p)
    if not ns:
        rep.undecide("no namespace inheritance function found among the functions reached by append, append_boxed, append_all and insert")
        return
    ks = adders(p)
    jobs = [(j12, (k,)) for k in ks] + [(j12ns, (k,)) for k in ns]
    merge(rep, parallel(p, jobs), [p.bodies[k]["path"] for k in ks + ns])
    rep.cover["functions"] = [p.bodies[k]["path"] for k in ks]
    rep.cover["inheritance function"] = [p.bodies[k]["path"] for k in ns]
    rep.assumptions += ASSUME


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13}
EXPLAIN = {
    "C10": "Abstract interpretation of every public method taking a mutable reference to a crate type and returning a Result: at each error exit the content of the object is compared, part by part, with its content at entry.",
    "C11": "Exit states of insert, remove and remove_element for arbitrary arguments: which facts about the index hold on success and on error, at which position the child list was changed, and what is returned.",
}
