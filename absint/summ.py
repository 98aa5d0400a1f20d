"""Named abstractions ("summaries") of library functions: calls become uninterpreted terms, the functions are checked on their own."""
from terms import *

ELEMENT = "dom::Element"
FIELDS = ("name", "child_nodes", "attributes", "xmlns", "xmlns_prefix", "xmlns_context")


def felem(p):
    """field name -> index of Element (None when the struct was redesigned)"""
    a = p.adts.get(ELEMENT)
    if a is None:
        return None
    d = {f["name"]: i for i, f in enumerate(a["variants"][0]["fields"])}
    return d if all(x in d for x in FIELDS) else None


def ftype(p, i):
    return p.ty(p.adts[ELEMENT]["variants"][0]["fields"][i]["ty"])


ET = ("adt", ELEMENT, ())


def is_mut_elem(t):
    return t[0] == "ref" and t[1] and t[2] == ET


def ufn(eng, name, args, ty):
    return eng.wrap(mk("call", name, tuple(args)), ty)


def fields_of(eng, v):
    """the Element value as an aggregate"""
    if v.op == "agg" and v.a[0] == ELEMENT:
        return list(v.a[3])
    a = eng.p.adts[ELEMENT]["variants"][0]["fields"]
    own = ET
    return [eng.wrap(mk("fld", v, 0, i, f["name"]), eng.p.ty(f["ty"])) for i, f in enumerate(a)]


def elem_agg(eng, fs):
    return typed(agg(ELEMENT, 0, "Element", fs), ET)


# ------------------------------------------------------------------ which functions
ADDERS = ("dom::Element::append", "dom::Element::append_boxed", "dom::Element::append_all", "dom::Element::insert")


def find_norm(p):
    """the private text normaliser: fn(&mut Element) reached from the adding functions, outermost"""
    from graphprops import graph
    g = graph(p)
    reach = g.reach([p.by_path[x] for x in ADDERS if x in p.by_path])
    c = []
    for k in reach:
        b = p.bodies[k]
        if "inputs" not in b or "{closure" in b["path"] or b.get("exported") or b["path"].startswith("<"):
            continue
        ins = [p.ty(t) for t in b["inputs"]]
        if len(ins) == 1 and is_mut_elem(ins[0]) and p.ty(b["output"]) == ("tuple", ()):
            c.append(k)
    outer = [k for k in c if not any(k in g.reach([m]) for m in c if m != k)]
    return outer


def find_ns(p):
    """the namespace inheritance function: fn(&mut Element, Option<String>, [Option<]HashMap[>])"""
    from graphprops import graph
    g = graph(p)
    reach = g.reach([p.by_path[x] for x in ADDERS if x in p.by_path])
    out = []
    for k in reach:
        b = p.bodies[k]
        if "inputs" not in b or "{closure" in b["path"] or b["path"].startswith("<"):
            continue
        ins = [p.ty(t) for t in b["inputs"]]
        if len(ins) == 3 and is_mut_elem(ins[0]) and p.ty(b["output"]) == ("tuple", ()):
            out.append(k)
    return [k for k in out if not any(k in g.reach([m]) for m in out if m != k)]


def s_norm(eng, fr, st, blk, key, args, sub):
    a = args[0]
    if a.op != "ref":
        return None
    F = felem(eng.p)
    fs = fields_of(eng, eng.read(st, a.a[0], a.a[1]))
    fs[F["child_nodes"]] = ufn(eng, "norm", [fs[F["child_nodes"]]], ftype(eng.p, F["child_nodes"]))
    eng.emit("norm", fr, st.fork(), blk, None, ref=a)
    eng.write(st, a.a[0], a.a[1], elem_agg(eng, fs))
    return [(st, tup())]


def s_ns(eng, fr, st, blk, key, args, sub):
    a = args[0]
    if a.op != "ref":
        return None
    F = felem(eng.p)
    v = eng.read(st, a.a[0], a.a[1])
    fs = fields_of(eng, v)
    rest = [eng.deep(st, x) for x in args[1:]]
    eng.emit("nsapply", fr, st.fork(), blk, None, ref=a, elem=v, rest=rest)
    for n in ("xmlns", "xmlns_context"):
        fs[F[n]] = ufn(eng, "ns:" + n, [v] + rest, ftype(eng.p, F[n]))
    eng.write(st, a.a[0], a.a[1], elem_agg(eng, fs))
    return [(st, tup())]


def s_pure(name):
    """call of a read-only function as a term over the contents of its arguments"""
    def f(eng, fr, st, blk, key, args, sub):
        b = eng.p.bodies[key]
        out = eng.p.subst(eng.p.ty(b["output"]), sub)
        c = tuple(eng.deep(st, x) for x in args)
        eng.emit("pure", fr, st, blk, None, name=name, callee=key, args=c)
        return [(st, ufn(eng, name, c, out))]
    return f
