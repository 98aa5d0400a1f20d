"""Models part 2: collections and iterators."""
import models as M
from models import (model, content, content1, loc, loc1, sc, strip, inner, is_adt, new_str, iatom, require, callf, upvars_back,
                    default_of, convert, clone_of, as_vec, as_string, chstr, range_of, take_char, take_char_back, char_test, pattern,
                    find_in, mkrng, eqterm, tyargs, STRTY, STRING, USIZE, CHAR, MODELS)
from terms import *
from state import is_str
import engine as E
from engine import mkref


def keyc(eng, st, k):
    """content of a map key"""
    c = content(eng, st, k)
    return c


M.keyc = keyc


# ---------------------------------------------------------------- vectors
def setv(eng, fr, st, blk, span, root, path, kind, new, old, **kw):
    eng.emit(kind, fr, st, blk, span, root=root, path=path, val=new, old=old, **kw)
    eng.write(st, root, path, new)


def vecpush(v, x):
    v = as_vec(v)
    if v.op == "vec" and len(v.a[0]) < 24:
        return mk("vec", v.a[0] + (x,))
    return mk("vpush", v, x)


def vecinsert(st, v, i, x):
    v = as_vec(v)
    if v.op == "vec" and is_const(i) and 0 <= cval(i) <= len(v.a[0]):
        l = list(v.a[0])
        l.insert(cval(i), x)
        return mk("vec", tuple(l))
    if st.same(i, vlen(v)):
        return vecpush(v, x)
    return mk("vinsert", v, i, x)


def vecremove(st, v, i):
    v = as_vec(v)
    if v.op == "vec" and is_const(i) and 0 <= cval(i) < len(v.a[0]):
        l = list(v.a[0])
        l.pop(cval(i))
        return mk("vec", tuple(l))
    if v.op == "vpush" and st.same(i, vlen(v.a[0])):
        return v.a[0]
    return mk("vremove", v, i)


def vec_new(eng, fr, blk, op, v, n, lo, hi, st, ty):
    """opaque vector of a given length range derived from v"""
    t = typed(mk(op, v, *n), ty or type_of(v) or vty(eng, v))
    L = vlen(t)
    if lo is not None:
        st.add_lin(lsub(L, lo))
    if hi is not None:
        st.add_lin(lsub(hi, L))
    return t


def vty(eng, v):
    e = eng.elem_type(v)
    return ("adt", "std::vec::Vec", (e,)) if e else None


@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity")
def v_new(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, mk("vec", ()))]


@model("HashMap::new", "HashMap::with_capacity", "BTreeMap::new", "HashSet::new", "HashSet::with_capacity", "BTreeSet::new", "HashMap::with_hasher")
def h_new(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, mk("mempty"))]


@model("Vec::push", "VecDeque::push_back", "VecDeque::push_front", "Vec::insert", "VecDeque::insert")
def v_push(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    n = fn["name"]
    if n == "insert":
        i, x = args[1], args[2]
        st = require(eng, fr, blk, st, span, "insert-index", ge(lsub(vlen(v), i)), f"insert position {show(i)} may exceed length {show(vlen(v))}")
        if st is None:
            return []
        setv(eng, fr, st, blk, span, root, path, "vinsert", vecinsert(st, v, i, x), v, index=i, item=x)
    elif n == "push_front":
        setv(eng, fr, st, blk, span, root, path, "vinsert", vecinsert(st, v, num(0), args[1]), v, index=num(0), item=args[1])
    else:
        setv(eng, fr, st, blk, span, root, path, "vpush", vecpush(v, args[1]), v, index=vlen(v), item=args[1])
    return [(st, UNIT)]


@model("Vec::pop", "VecDeque::pop_back", "VecDeque::pop_front")
def v_pop(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    out = []
    for s, b in eng.split_bool(st, ge(lplus(vlen(v), -1))):
        if not b:
            out.append((s, NONE))
            continue
        i = num(0) if fn["name"] == "pop_front" else lplus(vlen(v), -1)
        x = eng.velem(s, v, i, inner(atys[0]))
        setv(eng, fr, s, blk, span, root, path, "vremove", vecremove(s, v, i), v, index=i, item=x)
        out.append((s, some(x)))
    return out


@model("Vec::remove", "VecDeque::remove", "Vec::swap_remove")
def v_remove(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    i = args[1]
    cond = ge(lplus(lsub(vlen(v), i), -1))
    if "VecDeque" in fn["path"]:
        out = []
        for s, b in eng.split_bool(st, cond):
            if b:
                x = eng.velem(s, v, i, inner(atys[0]))
                setv(eng, fr, s, blk, span, root, path, "vremove", vecremove(s, v, i), v, index=i, item=x)
                out.append((s, some(x)))
            else:
                out.append((s, NONE))
        return out
    st = require(eng, fr, blk, st, span, "remove-index", cond, f"remove position {show(i)} may be out of bounds (length {show(vlen(v))})")
    if st is None:
        return []
    x = eng.velem(st, v, i, inner(atys[0]))
    if fn["name"] == "swap_remove":
        n = lplus(vlen(v), -1)
        last = eng.velem(st, v, n, inner(atys[0]))
        new = vecremove(st, eng.vset(st, v, i, last), n)
    else:
        new = vecremove(st, v, i)
    setv(eng, fr, st, blk, span, root, path, "vremove", new, v, index=i, item=x, swap=fn["name"] == "swap_remove")
    return [(st, x)]


@model("Vec::len", "VecDeque::len", "slice::len", "array::len")
def v_len(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, vlen(as_vec(content(eng, st, args[0]))))]


@model("Vec::is_empty", "VecDeque::is_empty", "slice::is_empty")
def v_isempty(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, eqz(vlen(as_vec(content(eng, st, args[0])))))]


@model("Vec::capacity", "String::capacity")
def v_cap(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, eng.fresh(fr, blk, "cap", USIZE))]


@model("slice::reverse", "VecDeque::reverse", "Vec::reverse")
def v_rev(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    new = mk("vec", tuple(reversed(v.a[0]))) if v.op == "vec" else v.a[0] if v.op == "vrev" else mk("vrev", v)
    setv(eng, fr, st, blk, span, root, path, "vperm", new, v)
    return [(st, UNIT)]


def arbitrary_elem(eng, fr, blk, st, v, ety, tag):
    """an unknown element index -> (state, index) or None when empty"""
    i = eng.fresh(fr, blk, ("anyidx", tag), USIZE)
    if not st.add_lin(lplus(lsub(vlen(v), i), -1)):
        return None
    return i


def effects(eng, st0, st1, frctxs=()):
    """memory roots of st0 whose content differs in st1"""
    return [r for r, v in st0.mem.items() if st1.mem.get(r, v) is not v]


def call_any(eng, fr, blk, st, f, mkargs, dty, span, tag):
    """run callback f for an arbitrary iteration: [(state, args, result)], stabilising what it mutates.
    mkargs(state) -> (args) or None"""
    for rnd in range(4):
        s0 = st.fork()
        args = mkargs(s0)
        if args is None:
            return [], st
        mark = len(eng.events)
        outs = callf(eng, fr, blk, s0.fork(), f, args, dty, span, (tag, rnd > 0))
        ch = set()
        for s, v in outs:
            for r in effects(eng, st, s):
                if r[0] == "L" and r[1] == fr.ctx or r[0] != "L" or True:
                    ch.add(r)
        ch = {r for r in ch if r in st.mem}
        hav = st.ghost.get("_hav", frozenset())
        ch -= {r for r in ch if (r, st.mem[r]) in hav}
        # roots already havocked to fresh values may change again
        if not ch:
            return [(s, args, v) for s, v in outs], st
        del eng.events[mark:]
        st = st.fork()
        for r in ch:
            nv = havoc_value(eng, fr, blk, st.mem[r], r, tag)
            st.mem[r] = nv
            hav = hav | {(r, nv)}
        st.ghost["_hav"] = hav
    return [(s, args, v) for s, v in outs], st


def havoc_value(eng, fr, blk, v, r, tag):
    if v.op == "agg" and not str(v.a[0]).startswith("std::"):
        return agg(v.a[0], v.a[1], v.a[2], [havoc_value(eng, fr, blk, x, r + (i,), tag) for i, x in enumerate(v.a[3])])
    if v.op == "ref":
        return v
    t = eng.fresh(fr, blk, ("hav", tag, E.rootkey(r)), None)
    if v.op == "lin":
        t2 = mk("sym", (fr.ctx, blk), ("havn", tag, E.rootkey(r)))
        lo = 0 if State0.entails(v) else None
        set_bounds(t2, lo)
        return atom(t2)
    ty = type_of(v)
    if ty is None:
        if is_str(v):
            ty = STRTY
        elif E.is_vec(v, [v]):
            ty = vty(eng, v)
        elif v.op in ("true", "false", "ge", "eqz", "not", "and", "or", "eq", "pr"):
            ty = ("bool",)
    return typed(t, ty)


from state import State
State0 = State()


@model("slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def v_sort(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    ety = inner(atys[0]) or eng.elem_type(v)
    f = None
    if len(args) > 1:
        f = args[1]

        def two(s):
            i = arbitrary_elem(eng, fr, blk, s, v, ety, "a")
            j = arbitrary_elem(eng, fr, blk, s, v, ety, "b")
            if i is None or j is None:
                return None
            a = [mkref(root, path + (("idx", i, ety),)), mkref(root, path + (("idx", j, ety),))]
            return a if fn["name"].endswith("_by") else a[:1]
        outs, st = call_any(eng, fr, blk, st, f, two, ("adt", "std::cmp::Ordering", ()) if fn["name"].endswith("_by") else None, span, "cmp")
        eng.emit("sort", fr, st, blk, span, root=root, path=path, old=v, f=f, outs=outs, name=fn["name"])
    else:
        eng.emit("sort", fr, st, blk, span, root=root, path=path, old=v, f=None, outs=[], name=fn["name"])
    fk = content(eng, st, f) if f is not None else UNIT
    new = mk("vsort", v, fk)
    setv(eng, fr, st, blk, span, root, path, "vperm", new, v)
    return [(st, UNIT)]


@model("Vec::retain", "Vec::retain_mut", "VecDeque::retain")
def v_retain(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    ety = inner(atys[0])

    def one(s):
        i = arbitrary_elem(eng, fr, blk, s, v, ety, "r")
        return None if i is None else [mkref(root, path + (("idx", i, ety),), fn["name"] == "retain_mut")]
    outs, st = call_any(eng, fr, blk, st, args[1], one, ("bool",), span, "retain")
    eng.emit("retain", fr, st, blk, span, root=root, path=path, old=v, f=args[1], outs=outs)
    new = vec_new(eng, fr, blk, "vretain", v, (content(eng, st, args[1]),), None, vlen(v), st, vty(eng, v))
    setv(eng, fr, st, blk, span, root, path, "vretained", new, v)
    return [(st, UNIT)]


@model("Vec::truncate", "VecDeque::truncate")
def v_trunc(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    out = []
    for s, b in eng.split_bool(st, ge(lplus(lsub(vlen(v), args[1]), -1))):
        if b:
            new = typed(mk("vslice", v, num(0), args[1]), vty(eng, v))
            s.add_lin(lsub(vlen(new), args[1]))
            s.add_lin(lsub(args[1], vlen(new)))
            setv(eng, fr, s, blk, span, root, path, "vtrunc", new, v)
        out.append((s, UNIT))
    return out


def vslice(eng, st, v, a, b):
    if v.op == "vec" and is_const(a) and is_const(b):
        return mk("vec", v.a[0][cval(a):cval(b)])
    if is_const(a) and cval(a) == 0 and b is vlen(v):
        return v
    t = typed(mk("vslice", v, a, b), vty(eng, v))
    st.add_lin(lsub(vlen(t), lsub(b, a)))
    st.add_lin(lsub(lsub(b, a), vlen(t)))
    return t


@model("Vec::drain", "VecDeque::drain", "Vec::split_off", "VecDeque::split_off")
def v_drain(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    if fn["name"] == "split_off":
        a, b = args[1], vlen(v)
    else:
        r = range_of(eng, st, args[1], vlen(v))
        if r is None:
            return NotImplemented
        a, b = r
    st = require(eng, fr, blk, st, span, "slice", ge(lsub(b, a)), "range start may exceed its end")
    if st is None:
        return []
    st = require(eng, fr, blk, st, span, "slice", ge(lsub(vlen(v), b)), "range end may exceed the length")
    if st is None:
        return []
    cutv = vslice(eng, st, v, a, b)
    if is_const(a) and cval(a) == 0 and st.same(b, vlen(v)):
        new = mk("vec", ())
    elif st.same(b, vlen(v)):
        new = vslice(eng, st, v, num(0), a)
    else:
        n = lsub(vlen(v), lsub(b, a))
        new = vec_new(eng, fr, blk, "vcut", v, (a, b), n, n, st, vty(eng, v))
    setv(eng, fr, st, blk, span, root, path, "vcut", new, v, lo=a, hi=b)
    if fn["name"] == "split_off":
        return [(st, cutv)]
    return [(st, it_vec(cutv))]


@model("Vec::append", "VecDeque::append")
def v_append(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    r2, p2 = loc(eng, st, args[1])
    v, w = as_vec(eng.read(st, root, path)), as_vec(eng.read(st, r2, p2))
    st = vextend(eng, fr, blk, st, root, path, v, w, span)
    setv(eng, fr, st, blk, span, r2, p2, "vclear", mk("vec", ()), w)
    return [(st, UNIT)]


def vextend(eng, fr, blk, st, root, path, v, w, span):
    if w.op == "vec" and len(w.a[0]) <= 16:
        for x in w.a[0]:
            nv = vecpush(v, x)
            setv(eng, fr, st, blk, span, root, path, "vpush", nv, v, index=vlen(v), item=x)
            v = nv
        return st
    if v.op == "vec" and not v.a[0]:
        new = w
    else:
        n = ladd(vlen(v), vlen(w))
        new = vec_new(eng, fr, blk, "vconcat", v, (w,), n, n, st, vty(eng, v) or vty(eng, w))
    setv(eng, fr, st, blk, span, root, path, "vextend", new, v, item=w)
    return st


@model("Vec::extend_from_slice", "Vec::extend_from_within", "VecDeque::extend_from_slice")
def v_extslice(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v, w = as_vec(eng.read(st, root, path)), as_vec(content(eng, st, args[1]))
    return [(vextend(eng, fr, blk, st, root, path, v, w, span), UNIT)]


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut", "VecDeque::front", "VecDeque::back", "VecDeque::front_mut", "VecDeque::back_mut", "Vec::first", "Vec::last")
def v_first(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    ety = inner(atys[0])
    out = []
    for s, b in eng.split_bool(st, ge(lplus(vlen(v), -1))):
        if not b:
            out.append((s, NONE))
            continue
        i = num(0) if fn["name"].startswith(("first", "front")) else lplus(vlen(v), -1)
        out.append((s, some(mkitem(root, path, i, ety, fn["name"].endswith("_mut")))))
    return out


def mkitem(root, path, i, ety, mut):
    return mkref(root, path + (("idx", i, ety),), mut)


@model("slice::contains", "Vec::contains", "VecDeque::contains")
def v_contains(eng, fr, blk, st, fn, args, atys, dty, span):
    v = as_vec(content(eng, st, args[0]))
    x = content(eng, st, args[1])
    if v.op == "vec" and len(v.a[0]) <= 16:
        cs = [eng.eqv(st, content(eng, st, y), x) for y in v.a[0]]
        if TRUE in cs:
            return [(st, TRUE)]
        cs = [c for c in cs if c is not FALSE]
        return [(st, FALSE if not cs else cs[0] if len(cs) == 1 else mk("or", *cs))]
    return [(st, typed(mk("pr", "vcontains", v, x), ("bool",)))]


@model("slice::swap", "VecDeque::swap")
def v_swap(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    for i in args[1:3]:
        st = require(eng, fr, blk, st, span, "index", ge(lplus(lsub(vlen(v), i), -1)), f"swap index {show(i)} may be out of bounds")
        if st is None:
            return []
    a, b = eng.velem(st, v, args[1]), eng.velem(st, v, args[2])
    new = eng.vset(st, eng.vset(st, v, args[1], b), args[2], a)
    setv(eng, fr, st, blk, span, root, path, "vperm", new, v)
    return [(st, UNIT)]


@model("slice::split_at", "slice::split_at_mut")
def v_split_at(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    i = args[1]
    st = require(eng, fr, blk, st, span, "slice", ge(lsub(vlen(v), i)), f"split position {show(i)} may exceed the length")
    if st is None:
        return []
    m = fn["name"].endswith("mut")
    return [(st, tup(mkrng(root, path, num(0), i, v, m), mkrng(root, path, i, vlen(v), v, m)))]


@model("slice::split_first", "slice::split_last")
def v_split_first(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    ety = inner(atys[0])
    out = []
    n = vlen(v)
    for s, b in eng.split_bool(st, ge(lplus(n, -1))):
        if not b:
            out.append((s, NONE))
        elif fn["name"] == "split_first":
            out.append((s, some(tup(mkitem(root, path, num(0), ety, False), mkrng(root, path, num(1), n, v, False)))))
        else:
            out.append((s, some(tup(mkitem(root, path, lplus(n, -1), ety, False), mkrng(root, path, num(0), lplus(n, -1), v, False)))))
    return out


@model("Vec::dedup", "Vec::dedup_by", "Vec::dedup_by_key")
def v_dedup(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    v = as_vec(eng.read(st, root, path))
    new = vec_new(eng, fr, blk, "vdedup", v, (), None, vlen(v), st, vty(eng, v))
    setv(eng, fr, st, blk, span, root, path, "vdedup", new, v)
    return [(st, UNIT)]


# ---------------------------------------------------------------- maps
@model("HashMap::insert", "BTreeMap::insert", "HashSet::insert", "BTreeSet::insert")
def h_insert(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    m = eng.read(st, root, path)
    k = keyc(eng, st, args[1])
    v = args[2] if len(args) > 2 else UNIT
    eng.emit("minsert", fr, st, blk, span, root=root, path=path, key=k, item=v, old=m)
    has = eng.mhas(st, m, k)
    eng.mlen_st(st, mk("minsert", m, k, v))
    eng.write(st, root, path, mk("minsert", m, k, v))
    if len(args) == 2:
        return [(st, bnot(has))]
    return [(st, typed(mk("mold", m, k), dty))]


def m_kv(eng, atys, m):
    t = strip(atys[0])
    if t and t[0] == "adt" and len(t[2]) >= 2 and t[1].split("::")[-1] in ("HashMap", "BTreeMap"):
        return t[2][0], t[2][1]
    if t and t[0] == "adt" and t[2]:
        return t[2][0], None
    return eng.map_types(m)


@model("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut", "HashMap::get_key_value", "HashSet::get")
def h_get(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    m = eng.read(st, root, path)
    k = keyc(eng, st, args[1])
    kt, vt = m_kv(eng, atys, m)
    out = []
    for s, b in eng.split_bool(st, eng.mhas(st, m, k)):
        if not b:
            out.append((s, NONE))
            continue
        r = mkref(root, path + (("mv", k, vt),), fn["name"] == "get_mut")
        if fn["name"] == "get_key_value":
            r = tup(args[1], r)
        elif "Set" in fn["path"]:
            r = args[1]
        out.append((s, some(r)))
    return out


@model("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def h_has(eng, fr, blk, st, fn, args, atys, dty, span):
    m = content(eng, st, args[0])
    return [(st, eng.mhas(st, m, keyc(eng, st, args[1])))]


@model("HashMap::remove", "BTreeMap::remove", "HashSet::remove", "BTreeSet::remove", "HashMap::remove_entry", "HashSet::take")
def h_remove(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    m = eng.read(st, root, path)
    k = keyc(eng, st, args[1])
    kt, vt = m_kv(eng, atys, m)
    out = []
    for s, b in eng.split_bool(st, eng.mhas(st, m, k)):
        if not b:
            out.append((s, FALSE if dty == ("bool",) else NONE))
            continue
        v = eng.mval(s, m, k, vt) if vt else UNIT
        eng.emit("mremove", fr, s, blk, span, root=root, path=path, key=k, old=m)
        eng.mlen_st(s, mk("mremove", m, k))
        eng.write(s, root, path, mk("mremove", m, k))
        if dty == ("bool",):
            out.append((s, TRUE))
        elif fn["name"] == "remove_entry":
            out.append((s, some(tup(k, v))))
        elif fn["name"] == "take":
            out.append((s, some(k)))
        else:
            out.append((s, some(v)))
    return out


@model("HashMap::len", "BTreeMap::len", "HashSet::len", "BTreeSet::len")
def h_len(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, eng.mlen_st(st, content(eng, st, args[0])))]


@model("HashMap::is_empty", "BTreeMap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty")
def h_isempty(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, eqz(eng.mlen_st(st, content(eng, st, args[0]))))]


@model("HashMap::clear", "BTreeMap::clear", "HashSet::clear")
def h_clear(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    eng.emit("mclear", fr, st, blk, span, root=root, path=path, old=eng.read(st, root, path))
    eng.write(st, root, path, mk("mempty"))
    return [(st, UNIT)]


@model("HashMap::retain", "BTreeMap::retain", "HashSet::retain")
def h_retain(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    m = eng.read(st, root, path)
    kt, vt = m_kv(eng, atys, m)

    def one(s):
        k = map_key(eng, s, m, eng.fresh(fr, blk, "rk", USIZE), kt)
        if k is None:
            return None
        a = [mkref(("V", k), ())]
        if vt:
            a.append(mkref(root, path + (("mv", k, vt),), True))
        return a
    outs, st = call_any(eng, fr, blk, st, args[1], one, ("bool",), span, "mretain")
    new = eng.fresh(fr, blk, "mretain", type_of(m) or strip(atys[0]))
    st.add_lin(lsub(eng.mlen_st(st, m), eng.mlen(new)))
    eng.emit("mretain", fr, st, blk, span, root=root, path=path, old=m, f=args[1], outs=outs)
    eng.write(st, root, path, new)
    return [(st, UNIT)]


@model("HashMap::entry", "BTreeMap::entry")
def h_entry(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    m = eng.read(st, root, path)
    return [(st, agg("it:entry", 0, "", (mkref(root, path, True), keyc(eng, st, args[1]), typed(mk("tyv"), m_kv(eng, atys, m)[1]))))]


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key")
def h_or_insert(eng, fr, blk, st, fn, args, atys, dty, span):
    e = args[0]
    if not (e.op == "agg" and e.a[0] == "it:entry"):
        return NotImplemented
    ref, k, _ = e.a[3]
    vt = dty[2] if dty and dty[0] == "ref" else None
    root, path = ref.a[0], ref.a[1]
    m = eng.read(st, root, path)
    out = []
    for s, b in eng.split_bool(st, eng.mhas(st, m, k)):
        r = mkref(root, path + (("mv", k, vt),), True)
        if b:
            out.append((s, r))
            continue
        if fn["name"] == "or_insert":
            vs = [(s, args[1])]
        elif fn["name"] == "or_default":
            vs = default_of(eng, fr, blk, s, vt)
        else:
            vs = callf(eng, fr, blk, s, args[1], [] if fn["name"] == "or_insert_with" else [mkref(("V", k), ())], vt, span, "ent")
        for s2, v in vs:
            eng.emit("minsert", fr, s2, blk, span, root=root, path=path, key=k, item=v, old=m)
            eng.mlen_st(s2, mk("minsert", m, k, v))
            eng.write(s2, root, path, mk("minsert", m, k, v))
            out.append((s2, r))
    return out


# ---------------------------------------------------------------- iterators: construction
def it(kind, *f):
    return agg("it:" + kind, 0, "", f)


def it_vec(v):
    return it("vec", v, num(0), vlen(v))


def chars_it(s):
    return it("chars", s, num(0), slen(s))


M.chars_it = chars_it


def slice_it(eng, st, ref, mut, ety):
    root, path = loc(eng, st, ref)
    v = as_vec(eng.read(st, root, path))
    return it("slice", mkref(root, path, mut), num(0), vlen(v), typed(mk("ety", str(ety)), ety))


@model("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut", "VecDeque::iter", "VecDeque::iter_mut")
def i_slice(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, slice_it(eng, st, args[0], fn["name"] == "iter_mut", inner(atys[0])))]


def map_it(eng, st, ref, mode, kt, vt):
    if mode != "own":
        root, path = loc(eng, st, ref)
        m = eng.read(st, root, path)
        r = mkref(root, path, mode == "vmut" or mode == "mut")
    else:
        m = ref
        r = mkref(("V", m), ())
    return it("map", m, num(0), eng.mlen_st(st, m), lit(mode), r, typed(mk("ety", str(kt)), kt), typed(mk("ety", str(vt)), vt))


@model("HashMap::iter", "HashMap::keys", "HashMap::values", "HashMap::iter_mut", "HashMap::values_mut", "BTreeMap::iter", "BTreeMap::keys", "BTreeMap::values",
       "BTreeMap::iter_mut", "BTreeMap::values_mut", "HashSet::iter", "BTreeSet::iter", "HashMap::into_keys", "HashMap::into_values", "HashMap::drain", "HashSet::drain",
       "BTreeMap::into_keys", "BTreeMap::into_values")
def i_map(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    mode = {"iter": "ref", "keys": "k", "values": "v", "iter_mut": "mut", "values_mut": "vmut", "into_keys": "ownk", "into_values": "ownv", "drain": "own"}[n]
    m = content(eng, st, args[0])
    kt, vt = m_kv(eng, atys, m)
    if "Set" in fn["path"]:
        mode = "own" if n == "drain" else "k"
        if n == "drain":
            mode = "ownk"
    if n in ("drain", "into_keys", "into_values"):
        r = map_it(eng, st, m, "own", kt, vt)
        r = agg("it:map", 0, "", r.a[3][:3] + (lit(mode),) + r.a[3][4:])
        if n == "drain":
            root, path = loc(eng, st, args[0])
            eng.emit("mclear", fr, st, blk, span, root=root, path=path, old=m)
            eng.write(st, root, path, mk("mempty"))
        return [(st, r)]
    r = map_it(eng, st, args[0], mode, kt, vt)
    if "BTree" in fn["path"]:
        r = agg("it:bmap", 0, "", r.a[3])
    return [(st, r)]


@model("IntoIterator::into_iter")
def i_into(eng, fr, blk, st, fn, args, atys, dty, span):
    t = atys[0]
    v = args[0]
    r = to_iter(eng, st, v, t)
    if r is None:
        return [(st, opaque_it(eng, st, v, t, dty))]
    return [(st, r)]


def opaque_it(eng, st, v, t, dty=None):
    if v.op == "agg" and str(v.a[0]).startswith("it:"):
        return v
    return v


def to_iter(eng, st, v, t):
    """iterator over a value of static type t, or None"""
    if v.op == "agg" and (str(v.a[0]).startswith("it:") or str(v.a[0]).startswith("std::ops::Range")):
        return v
    if t and t[0] == "ref":
        c = content(eng, st, v)
        if c.op == "agg" and str(c.a[0]).startswith(("it:", "std::ops::Range")):
            return v
        u = strip(t)
        mut = t[1]
        if u[0] in ("slice", "array") or is_adt(u, "Vec", "VecDeque"):
            return slice_it(eng, st, v, mut, inner(u))
        if is_adt(u, "HashMap", "BTreeMap"):
            r = map_it(eng, st, v, "mut" if mut else "ref", u[2][0], u[2][1])
            return agg("it:bmap", 0, "", r.a[3]) if is_adt(u, "BTreeMap") else r
        if is_adt(u, "HashSet", "BTreeSet"):
            r = map_it(eng, st, v, "k", u[2][0], None)
            return agg("it:bmap", 0, "", r.a[3]) if is_adt(u, "BTreeSet") else r
        if is_adt(u, "Option"):
            return None
        return None
    u = t
    if u and (u[0] == "array" or is_adt(u, "Vec", "VecDeque")):
        return it_vec(as_vec(v))
    if is_adt(u, "HashMap", "BTreeMap"):
        r = map_it(eng, st, v, "own", u[2][0], u[2][1])
        return agg("it:bmap", 0, "", r.a[3]) if is_adt(u, "BTreeMap") else r
    if is_adt(u, "HashSet", "BTreeSet"):
        r = map_it(eng, st, v, "own", u[2][0], None)
        r = agg("it:map", 0, "", r.a[3][:3] + (lit("ownk"),) + r.a[3][4:])
        return agg("it:bmap", 0, "", r.a[3]) if is_adt(u, "BTreeSet") else r
    if is_adt(u, "Option"):
        if v.op == "agg":
            return it_vec(mk("vec", v.a[3] if v.a[1] == 1 else ()))
        return it("opt", v)
    return None


@model("str::chars", "str::char_indices", "str::bytes")
def i_chars(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    k = {"chars": "chars", "char_indices": "cidx", "bytes": "bytes"}[fn["name"]]
    return [(st, it(k, s, num(0), slen(s)))]


@model("str::lines", "str::split_whitespace", "str::split", "str::split_terminator", "str::rsplit", "str::splitn", "str::rsplitn", "str::split_inclusive",
       "str::matches", "str::match_indices", "str::split_ascii_whitespace", "str::rmatch_indices")
def i_split(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    extra = tuple(content(eng, st, a) for a in args[1:])
    p = UNIT
    if len(args) > 1 and fn["name"] not in ("lines",):
        p = args[-1]
    n = fn["name"]
    if n in ("splitn", "rsplitn"):
        n += ":%d" % cval(args[1]) if args[1].op == "lin" and is_const(args[1]) else ":?"
    return [(st, it("split", s, lit(n), num(0), slen(s), p))]


@model("iter::once", "iter::empty", "iter::repeat", "iter::from_fn", "iter::successors")
def i_once(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    if n == "once":
        return [(st, it_vec(mk("vec", (args[0],))))]
    if n == "empty":
        return [(st, it_vec(mk("vec", ())))]
    return NotImplemented


ADAPT = {"map": "mapf", "filter": "filter", "filter_map": "filter_map", "flat_map": "flat", "flatten": "flatten", "enumerate": "enum", "rev": "rev",
         "take": "take", "skip": "skip", "chain": "chain", "zip": "zip", "cloned": "cloned", "copied": "cloned", "peekable": "peek", "take_while": "take_while",
         "skip_while": "skip_while", "step_by": "step", "inspect": "inspect", "fuse": "fuse", "map_while": "map_while", "by_ref": None, "scan": None, "cycle": None}


@model(*["Iterator::" + k for k, v in ADAPT.items()])
def i_adapt(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    k = ADAPT[n]
    if n == "by_ref":
        return [(st, args[0])]
    if k is None:
        return NotImplemented
    src = args[0]
    if k == "rev":
        return [(st, it("rev", src))]
    if k == "enum":
        return [(st, it("enum", src, num(0)))]
    if k == "fuse":
        return [(st, src)]
    if k == "peek":
        return [(st, it("peek", src, NONE))]
    if k in ("chain", "zip"):
        o = to_iter(eng, st, args[1], atys[1])
        return [(st, it(k, src, o if o is not None else args[1], TRUE))]
    if k == "cloned":
        return [(st, it("cloned", src))]
    if k == "flatten":
        return [(st, it("flat", src, UNIT, NONE))]
    if k == "flat":
        return [(st, it("flat", src, args[1], NONE))]
    if k in ("take", "skip", "step"):
        if k == "step":
            st = require(eng, fr, blk, st, span, "step", ge(lplus(args[1], -1)), "step_by(0)")
            if st is None:
                return []
        return [(st, it(k, src, args[1], TRUE))]
    return [(st, it(k, src, args[1], TRUE))]


# ---------------------------------------------------------------- iterators: stepping
def item_type(dty):
    return inner(dty) if is_adt(dty, "Option") else None


def size_of(eng, st, i):
    """(lower, upper) number of remaining items as lin or None"""
    if i.op == "ref":
        i = eng.deref(st, i)
    if i.op != "agg":
        return num(0), None
    k, f = str(i.a[0]), i.a[3]
    if k == "std::ops::Range":
        n = lsub(f[1], f[0])
        if st.entails(n):
            return n, n
        if st.entails(lneg(n)):
            return num(0), num(0)
        return num(0), None
    if k in ("it:slice", "it:vec", "it:map", "it:bmap"):
        n = lsub(f[2], f[1])
        return n, n
    if k == "it:split":
        a, b = split_size(eng, st, i)
        return num(a), None if b is None else num(b)
    if k in ("it:chars", "it:cidx"):
        return num(0), lsub(f[2], f[1])
    if k in ("it:rev", "it:enum", "it:cloned", "it:mapf", "it:inspect"):
        return size_of(eng, st, f[0])
    if k in ("it:filter", "it:filter_map", "it:take_while", "it:skip_while", "it:step", "it:map_while"):
        return num(0), size_of(eng, st, f[0])[1]
    if k == "it:take":
        lo, hi = size_of(eng, st, f[0])
        return num(0), f[1]
    if k == "it:skip":
        return num(0), size_of(eng, st, f[0])[1]
    if k == "it:chain":
        a, b = size_of(eng, st, f[0]), size_of(eng, st, f[1])
        return ladd(a[0], b[0]), (ladd(a[1], b[1]) if a[1] is not None and b[1] is not None else None)
    return num(0), None


def map_key(eng, st, m, pos, kt, ordered=False):
    k = eng.wrap(mk("mkey", m, pos, "ord") if ordered else mk("mkey", m, pos), kt)
    h = eng.mhas(st, m, k)
    if h is FALSE:
        return None
    if h is not TRUE:
        r = eng.assume(st, h, True)
        if len(r) == 1:
            # keep the same state object
            s = r[0]
            for a in ("mem", "lin", "bools", "var", "kinds", "bnd", "occ", "tags", "ghost", "ne", "cst"):
                setattr(st, a, getattr(s, a))
            st._idx, st._memo = None, {}
    return k


def etype(t):
    return type_of(t)


def advance(eng, fr, blk, st, i, back, span, tag, dty=None):
    """-> [(state, new iterator, item | None)]"""
    if i.op == "ref":
        root, path = loc(eng, st, i)
        c = eng.read(st, root, path)
        out = []
        for s, n, x in advance(eng, fr, blk, st, c, back, span, tag, dty):
            eng.write(s, root, path, n)
            out.append((s, i, x))
        return out
    if i.op != "agg":
        return advance_opaque(eng, fr, blk, st, i, span, tag, dty)
    k, f = str(i.a[0]), i.a[3]
    R = lambda *g: agg(i.a[0], i.a[1], i.a[2], g)
    if k == "std::ops::Range":
        out = []
        if f[0].op != "lin":
            return advance_opaque(eng, fr, blk, st, i, span, tag, dty)
        for s, b in eng.split_bool(st, ge(lplus(lsub(f[1], f[0]), -1))):
            if not b:
                out.append((s, i, None))
            elif back:
                x = lplus(f[1], -1)
                out.append((s, R(f[0], x), x))
            else:
                out.append((s, R(lplus(f[0], 1), f[1]), f[0]))
        return out
    if k == "std::ops::RangeFrom":
        return [(st, R(lplus(f[0], 1)), f[0])]
    if k == "std::ops::RangeInclusive":
        out = []
        ex = f[2] if len(f) > 2 else FALSE
        if f[0].op != "lin":
            return advance_opaque(eng, fr, blk, st, i, span, tag, dty)
        for s, e in eng.split_bool(st, ex):
            if e:
                out.append((s, i, None))
                continue
            for s2, b in eng.split_bool(s, ge(lsub(f[1], f[0]))):
                if not b:
                    out.append((s2, i, None))
                    continue
                # one past representation keeps the loop measure linear
                if back:
                    for s3, z in eng.split_bool(s2, eqz(lsub(f[1], f[0]))):
                        out.append((s3, R(f[0], f[1] if z else lplus(f[1], -1), boolean(z)), f[1]))
                else:
                    for s3, z in eng.split_bool(s2, eqz(lsub(f[1], f[0]))):
                        out.append((s3, R(f[0] if z else lplus(f[0], 1), f[1], boolean(z)), f[0]))
        return out
    if k in ("it:slice", "it:vec"):
        out = []
        for s, b in eng.split_bool(st, ge(lplus(lsub(f[2], f[1]), -1))):
            if not b:
                out.append((s, i, None))
                continue
            x = lplus(f[2], -1) if back else f[1]
            n = (f[0], f[1], x) if back else (f[0], lplus(f[1], 1), f[2])
            if k == "it:slice":
                ety = type_of(f[3])
                item = mkref(f[0].a[0], f[0].a[1] + (("idx", x, ety),), f[0].a[2])
                # instantiate facts about the element
                eng.velem(s, as_vec(eng.read(s, f[0].a[0], f[0].a[1])), x, ety)
                out.append((s, R(*n, f[3]), item))
            else:
                out.append((s, R(*n), eng.velem(s, f[0], x)))
        return out
    if k in ("it:map", "it:bmap"):
        m, pos, hi, mode, r, kt, vt = f
        out = []
        for s, b in eng.split_bool(st, ge(lplus(lsub(hi, pos), -1))):
            if not b:
                out.append((s, i, None))
                continue
            key = map_key(eng, s, m, pos, type_of(kt), k == "it:bmap")
            if key is None:
                continue
            md = mode.a[0]
            kr = mkref(("V", key), ())
            if m is eng.read(s, r.a[0], r.a[1]) or md in ("mut", "vmut"):
                vr = mkref(r.a[0], r.a[1] + (("mv", key, type_of(vt)),), md in ("mut", "vmut"))
            else:
                vr = mkref(("V", eng.mval(s, m, key, type_of(vt))), ())
            if md in ("ref", "mut"):
                x = tup(kr, vr)
            elif md == "k":
                x = kr
            elif md in ("v", "vmut"):
                x = vr
            elif md == "ownk":
                x = key
            elif md == "ownv":
                x = eng.mval(s, m, key, type_of(vt))
            else:
                x = tup(key, eng.mval(s, m, key, type_of(vt)))
            eng.emit("mapiter", fr, s, blk, span, m=m, key=key)
            out.append((s, R(m, lplus(pos, 1), *f[2:]), x))
        return out
    if k in ("it:chars", "it:cidx"):
        out = []
        for s, b in eng.split_bool(st, ge(lplus(lsub(f[2], f[1]), -1))):
            if not b:
                out.append((s, i, None))
                continue
            if back:
                r = take_char_back(s, f[0], f[2])
                if r is None:
                    continue
                c, p = r
                item = c if k == "it:chars" else tup(p, c)
                out.append((s, R(f[0], f[1], p), item))
            else:
                r = take_char(s, f[0], f[1])
                if r is None:
                    continue
                c, p = r
                item = c if k == "it:chars" else tup(f[1], c)
                # chars end at the (character-aligned) end of the iterator
                if not s.add_lin(lsub(f[2], p)):
                    continue
                out.append((s, R(f[0], p, f[2]), item))
        return out
    if k == "it:bytes":
        out = []
        for s, b in eng.split_bool(st, ge(lplus(lsub(f[2], f[1]), -1))):
            if not b:
                out.append((s, i, None))
                continue
            x = lplus(f[2], -1) if back else f[1]
            bt = mk("byte", f[0], x)
            set_bounds(bt, 0, 255)
            out.append((s, R(f[0], f[1], x) if back else R(f[0], lplus(f[1], 1), f[2]), atom(bt)))
        return out
    if k == "it:split":
        return advance_split(eng, fr, blk, st, i, back, span, tag)
    if k == "it:opt":
        out = []
        for s, vi in eng.split_variant(st, f[0]):
            if vi == 0:
                out.append((s, i, None))
            else:
                out.append((s, it("vec", mk("vec", ()), num(0), num(0)), eng.payload(f[0], 1)))
        return out
    if k == "it:rev":
        return [(s, R(n), x) for s, n, x in advance(eng, fr, blk, st, f[0], not back, span, tag, dty)]
    if k == "it:enum":
        out = []
        if back:
            lo, hi = size_of(eng, st, f[0])
            for s, n, x in advance(eng, fr, blk, st, f[0], back, span, tag):
                if x is None:
                    out.append((s, R(n, f[1]), None))
                else:
                    idx = ladd(f[1], lplus(hi, -1)) if hi is not None and lo is hi else eng.fresh(fr, blk, ("enumback", tag), USIZE)
                    out.append((s, R(n, f[1]), tup(idx, x)))
            return out
        for s, n, x in advance(eng, fr, blk, st, f[0], back, span, tag):
            if x is None:
                out.append((s, R(n, f[1]), None))
            else:
                out.append((s, R(n, lplus(f[1], 1)), tup(f[1], x)))
        return out
    if k == "it:cloned":
        out = []
        for s, n, x in advance(eng, fr, blk, st, f[0], back, span, tag):
            if x is None:
                out.append((s, R(n), None))
            else:
                for s2, y in clone_item(eng, fr, blk, s, x, tag, dty):
                    out.append((s2, R(n), y))
        return out
    if k in ("it:mapf", "it:inspect"):
        out = []
        for s, n, x in advance(eng, fr, blk, st, f[0], back, span, tag):
            if x is None:
                out.append((s, R(n, *f[1:]), None))
                continue
            if k == "it:inspect":
                root = ("T", eng.ctx(fr.ctx, "insp", blk, tag))
                s.mem[root] = x
                for s2, y in callf(eng, fr, blk, s, f[1], [mkref(root, ())], None, span, (tag, "insp")):
                    out.append((s2, R(n, upvars_back(eng, fr, blk, s2, f[1], (tag, "insp")), f[2]), x))
                continue
            for s2, y in callf(eng, fr, blk, s, f[1], [x], item_type(dty), span, (tag, "map")):
                out.append((s2, R(n, upvars_back(eng, fr, blk, s2, f[1], (tag, "map")), f[2]), y))
        return out
    if k in ("it:filter", "it:filter_map", "it:skip_while"):
        if k == "it:skip_while" and f[2] is FALSE:
            return [(s, R(n, f[1], f[2]), x) for s, n, x in advance(eng, fr, blk, st, f[0], back, span, tag)]
        return advance_filter(eng, fr, blk, st, i, back, span, tag, dty)
    if k in ("it:take_while", "it:map_while"):
        out = []
        for s, e in eng.split_bool(st, f[2]):
            if not e:
                out.append((s, i, None))
                continue
            for s2, n, x in advance(eng, fr, blk, s, f[0], back, span, tag):
                if x is None:
                    out.append((s2, R(n, f[1], f[2]), None))
                    continue
                if k == "it:map_while":
                    for s3, y in callf(eng, fr, blk, s2, f[1], [x], None, span, (tag, "mw")):
                        for s4, vi in eng.split_variant(s3, y):
                            out.append((s4, R(n, f[1], boolean(vi == 1)), eng.payload(y, 1) if vi == 1 else None))
                    continue
                a = itemref(eng, fr, blk, s2, x, tag)
                for s3, y in callf(eng, fr, blk, s2, f[1], [a], ("bool",), span, (tag, "tw")):
                    for s4, b in eng.split_bool(s3, y):
                        out.append((s4, R(n, f[1], boolean(b)), x if b else None))
        return out
    if k == "it:take":
        out = []
        for s, b in eng.split_bool(st, ge(lplus(f[1], -1))):
            if not b:
                out.append((s, i, None))
                continue
            for s2, n, x in advance(eng, fr, blk, s, f[0], back, span, tag):
                out.append((s2, R(n, lplus(f[1], -1), f[2]), x))
        return out
    if k == "it:skip":
        src, n, fresh = f
        if fresh is TRUE:
            c = src
            if c.op == "agg" and str(c.a[0]) in ("it:slice", "it:vec", "std::ops::Range") and not back:
                g = c.a[3]
                out = []
                lo, hi = (g[1], g[2]) if str(c.a[0]) != "std::ops::Range" else (g[0], g[1])
                for s, b in eng.split_bool(st, ge(lsub(lsub(hi, lo), n))):
                    nlo = ladd(lo, n) if b else hi
                    if str(c.a[0]) == "std::ops::Range":
                        c2 = agg(c.a[0], c.a[1], c.a[2], (nlo, hi))
                    else:
                        c2 = agg(c.a[0], 0, "", (g[0], nlo) + g[2:])
                    out += [(s2, R(n2, n, FALSE), x) for s2, n2, x in advance(eng, fr, blk, s, c2, back, span, tag)]
                return out
            if is_const(n) and cval(n) <= 4 and not back:
                cur = [(st, src)]
                out = []
                for _ in range(cval(n)):
                    nxt = []
                    for s, c in cur:
                        for s2, n2, x in advance(eng, fr, blk, s, c, False, span, (tag, "sk", _)):
                            if x is None:
                                out.append((s2, R(n2, n, FALSE), None))
                            else:
                                nxt.append((s2, n2))
                    cur = nxt
                for s, c in cur:
                    out += [(s2, R(n2, n, FALSE), x) for s2, n2, x in advance(eng, fr, blk, s, c, False, span, tag)]
                return out
            src2 = forget(eng, fr, blk, st, src, tag)
            return [(s, R(n2, n, FALSE), x) for s, n2, x in advance(eng, fr, blk, st, src2, back, span, tag)]
        return [(s, R(n2, n, FALSE), x) for s, n2, x in advance(eng, fr, blk, st, src, back, span, tag)]
    if k == "it:chain":
        out = []
        first, second = (1, 0) if back else (0, 1)
        if dty is None:
            for q in f[:2]:
                if q.op == "agg" and str(q.a[0]) == "it:slice" and q.a[3][-1].op == "ety":
                    sl = q.a[3][0]
                    dty = ("adt", OPT, (("ref", bool(sl.op == "ref" and sl.a[2]), q.a[3][-1].a[0]),))
        for s, n, x in advance(eng, fr, blk, st, f[first], back, span, (tag, "c1")):
            g = list(f)
            g[first] = n
            if x is not None:
                out.append((s, R(*g), x))
                continue
            for s2, n2, x2 in advance(eng, fr, blk, s, f[second], back, span, (tag, "c2"), dty):
                h = list(g)
                h[second] = n2
                out.append((s2, R(*h), x2))
        return out
    if k == "it:zip":
        out = []
        for s, n, x in advance(eng, fr, blk, st, f[0], back, span, (tag, "z1")):
            if x is None:
                out.append((s, R(n, f[1], f[2]), None))
                continue
            for s2, n2, x2 in advance(eng, fr, blk, s, f[1], back, span, (tag, "z2")):
                out.append((s2, R(n, n2, f[2]), None if x2 is None else tup(x, x2)))
        return out
    if k == "it:peek":
        p = f[1]
        if p.op == "agg" and p.a[0] == OPT:
            if p.a[1] == 1:
                # a peeked value: Some(Some(x)) / Some(None)
                q = p.a[3][0]
                if q.op == "agg":
                    return [(st, R(f[0], NONE), q.a[3][0] if q.a[1] == 1 else None)]
                out = []
                for s, vi in eng.split_variant(st, q):
                    out.append((s, R(f[0], NONE), eng.payload(q, 1) if vi == 1 else None))
                return out
            return [(s, R(n, NONE), x) for s, n, x in advance(eng, fr, blk, st, f[0], back, span, tag, dty)]
    if k == "it:flat":
        return advance_flat(eng, fr, blk, st, i, back, span, tag, dty)
    return advance_opaque(eng, fr, blk, st, i, span, tag, dty)


def clone_item(eng, fr, blk, s, x, tag, dty):
    t = item_type(dty)
    c = content1(eng, s, x)
    if t is not None and t[0] == "adt":
        im, sub = eng.p.find_impl("std::clone::Clone", t)
        if im is not None and im["items"].get("clone") in eng.p.bodies:
            return eng.call_body(fr, s, blk, im["items"]["clone"], [x], sub, (tag, "cl"))
    return [(s, c)]


def itemref(eng, fr, blk, s, x, tag):
    root = ("T", eng.ctx(fr.ctx, "item", blk, tag))
    s.mem[root] = x
    return mkref(root, ())


def forget(eng, fr, blk, st, i, tag):
    """iterator advanced by an unknown number of steps"""
    if i.op == "ref":
        root, path = loc(eng, st, i)
        eng.write(st, root, path, forget(eng, fr, blk, st, eng.read(st, root, path), tag))
        return i
    if i.op != "agg":
        return i
    k, f = str(i.a[0]), i.a[3]
    R = lambda *g: agg(i.a[0], i.a[1], i.a[2], g)
    if k in ("it:slice", "it:vec", "it:map", "it:bmap", "it:bytes", "it:chars", "it:cidx", "std::ops::Range"):
        j = 0 if k == "std::ops::Range" else 1
        lo, hi = f[j], f[j + 1]
        p = eng.fresh(fr, blk, ("skip", tag, i.a[0]), None)
        if k == "std::ops::Range" and not st.entails(lsub(hi, lo)):
            t = mk("sym", (fr.ctx, blk), ("skipr", tag))
            set_bounds(t, 0)
            p = atom(t)
            st.add_lin(lsub(p, lo))
            return R(p, hi)
        set_bounds(p, 0)
        p = atom(p)
        st.add_lin(lsub(p, lo))
        st.add_lin(lsub(hi, p))
        if k in ("it:chars", "it:cidx"):
            b, x, y = sbase(f[0])
            st.add_bnd(b, ladd(x, p))
        g = list(f)
        g[j] = p
        return R(*g)
    if k == "it:split":
        p = mk("sym", (fr.ctx, blk), ("skips", tag))
        set_bounds(p, 0)
        p = atom(p)
        st.add_lin(lsub(p, f[2]))
        st.add_lin(lsub(f[3], p))
        b, x, y = sbase(f[0])
        st.add_bnd(b, ladd(x, p))
        return R(f[0], f[1], p, f[3], f[4])
    if k == "it:enum":
        p = mk("sym", (fr.ctx, blk), ("skipe", tag))
        set_bounds(p, 0)
        p = atom(p)
        lo, hi = size_of(eng, st, f[0])
        n = forget(eng, fr, blk, st, f[0], tag)
        l2, h2 = size_of(eng, st, n)
        if hi is not None and h2 is not None and lo is hi:
            # consumed = hi - h2
            return R(n, ladd(f[1], lsub(hi, h2)))
        st.add_lin(lsub(p, f[1]))
        if hi is not None and h2 is not None:
            st.add_lin(lsub(ladd(f[1], lsub(hi, h2)), p))
        return R(n, p)
    if k == "it:peek":
        return R(forget(eng, fr, blk, st, f[0], tag), NONE)
    if k == "it:rev":
        # backwards consumption: lower the upper end
        c = f[0]
        if c.op == "agg" and str(c.a[0]) in ("it:slice", "it:vec", "std::ops::Range", "it:chars", "it:cidx"):
            g = list(c.a[3])
            j = 0 if str(c.a[0]) == "std::ops::Range" else 1
            p = mk("sym", (fr.ctx, blk), ("skipb", tag))
            set_bounds(p, 0)
            p = atom(p)
            st.add_lin(lsub(p, g[j]))
            st.add_lin(lsub(g[j + 1], p))
            if str(c.a[0]) in ("it:chars", "it:cidx"):
                b, x, y = sbase(g[0])
                st.add_bnd(b, ladd(x, p))
            g[j + 1] = p
            return R(agg(c.a[0], c.a[1], c.a[2], g))
        return R(forget(eng, fr, blk, st, c, tag))
    if f and k.startswith("it:"):
        g = list(f)
        g[0] = forget(eng, fr, blk, st, f[0], tag)
        if k in ("it:chain", "it:zip"):
            g[1] = forget(eng, fr, blk, st, f[1], (tag, 2))
        if k == "it:take":
            p = mk("sym", (fr.ctx, blk), ("skipt", tag))
            set_bounds(p, 0)
            st.add_lin(lsub(f[1], atom(p)))
            g[1] = atom(p)
        return R(*g)
    return i


def advance_filter(eng, fr, blk, st, i, back, span, tag, dty):
    """next matching item at an arbitrary later position; None when none is left"""
    k, f = str(i.a[0]), i.a[3]
    R = lambda *g: agg(i.a[0], i.a[1], i.a[2], g)
    out = []
    base = st.fork()
    end = exhaust(eng, fr, blk, base, f[0], tag)
    none_added = False
    src = f[0]
    for rnd in range(3):
        s0 = st.fork()
        src2 = forget(eng, fr, blk, s0, src, (tag, "f")) if not back else forget_back(eng, fr, blk, s0, src, (tag, "f"))
        mark = len(eng.events)
        outs = []
        ch = set()
        for s, n, x in advance(eng, fr, blk, s0, src2, back, span, (tag, "fs")):
            if x is None:
                continue
            pre = s.fork()
            if k == "it:filter_map":
                for s2, y in callf(eng, fr, blk, s, f[1], [x], dty, span, (tag, "fm")):
                    ch |= set(r for r in effects(eng, pre, s2) if r[0] != "C")
                    for s3, vi in eng.split_variant(s2, y):
                        if vi == 1:
                            outs.append((s3, R(n, upvars_back(eng, fr, blk, s3, f[1], (tag, "fm")), f[2]), eng.payload(y, 1, item_type(dty))))
            else:
                a = itemref(eng, fr, blk, s, x, (tag, "fi"))
                pre = s.fork()
                for s2, y in callf(eng, fr, blk, s, f[1], [a], ("bool",), span, (tag, "fp")):
                    ch |= set(r for r in effects(eng, pre, s2) if r[0] != "C")
                    for s3, b in eng.split_bool(s2, y):
                        if b == (k == "it:filter"):
                            outs.append((s3, R(n, upvars_back(eng, fr, blk, s3, f[1], (tag, "fp")), FALSE if k == "it:skip_while" else f[2]), x))
        ch = {r for r in ch if r in st.mem and r[0] != "T" and (r, st.mem[r]) not in st.ghost.get("_hav", frozenset())}
        if not ch:
            break
        del eng.events[mark:]
        hav = st.ghost.get("_hav", frozenset())
        st = st.fork()
        for r in ch:
            nv = havoc_value(eng, fr, blk, st.mem[r], r, (tag, "fh"))
            st.mem[r] = nv
            hav = hav | {(r, nv)}
        st.ghost["_hav"] = hav
        base = st.fork()
    out = [(base, R(end, *f[1:]), None)] + outs
    return out


def forget_back(eng, fr, blk, st, i, tag):
    r = forget(eng, fr, blk, st, agg("it:rev", 0, "", (i,)), tag)
    return r.a[3][0]


def exhaust(eng, fr, blk, st, i, tag):
    if i.op == "agg":
        k, f = str(i.a[0]), i.a[3]
        if k in ("it:slice", "it:vec", "it:map", "it:bmap", "it:chars", "it:cidx", "it:bytes"):
            g = list(f)
            g[1] = f[2]
            return agg(i.a[0], i.a[1], i.a[2], g)
        if k in ("it:filter", "it:filter_map", "it:mapf", "it:cloned", "it:enum", "it:rev"):
            return agg(i.a[0], i.a[1], i.a[2], (exhaust(eng, fr, blk, st, f[0], tag),) + f[1:])
        return forget(eng, fr, blk, st, i, (tag, "x"))
    if i.op == "ref":
        root, path = loc(eng, st, i)
        eng.write(st, root, path, exhaust(eng, fr, blk, st, eng.read(st, root, path), tag))
    return i


def split_size(eng, st, i):
    """(lower, upper|None) constants for the number of pieces of an untouched split iterator"""
    s, name, pos, hi, p = i.a[3]
    if not (is_const(pos) and cval(pos) == 0) or hi is not slen(s):
        return 0, None
    n, _, k = name.a[0].partition(":")
    if n not in ("split", "rsplit", "splitn", "rsplitn"):
        return 0, None
    up = int(k) if k.isdigit() else None
    if n.endswith("n") and (up is None or up == 0):
        return 0, up
    q = M.pattern(eng, st, p, type_of(p))
    low = 1
    if q[0] == "s" and (up is None or up >= 2):
        if M.contains_eval(eng, st, s, q[1])[1] is True:
            low = 2
    return low, up


def advance_split(eng, fr, blk, st, i, back, span, tag):
    """pieces of a string: an arbitrary later character-aligned piece"""
    s, name, pos, hi, p = i.a[3]
    n = name.a[0].split(":")[0]
    b, lo, _ = sbase(s)
    out = []
    none = st.fork()
    sure = split_size(eng, st, i)[0]
    e1 = agg(i.a[0], 0, "", (s, name, hi, hi, p))
    # a next piece [a, c) with pos <= a <= c <= hi, and the cursor moves past it
    s1 = st.fork()
    a = mk("sym", (fr.ctx, blk), ("spa", tag))
    c = mk("sym", (fr.ctx, blk), ("spb", tag))
    d = mk("sym", (fr.ctx, blk), ("spc", tag))
    for x in (a, c, d):
        set_bounds(x, 0)
    a, c, d = atom(a), atom(c), atom(d)
    for l in (lsub(a, pos), lsub(c, a), lsub(d, c), lsub(hi, d), lplus(lsub(d, pos), 0)):
        s1.add_lin(l)
    if n.endswith("whitespace"):
        s1.add_lin(lplus(lsub(c, a), -1))
    for x in (a, c, d):
        s1.add_bnd(b, ladd(lo, x))
    piece = cut(s, a, c)
    item = piece if "indices" not in n else tup(a, piece)
    # the last piece may be followed by the end marker: position hi + 1 is modelled by the none outcome
    if sure < 1:
        out.append((none, e1, None))
    out.append((s1, agg(i.a[0], 0, "", (s, name, d, hi, p)), item))
    return out


def advance_flat(eng, fr, blk, st, i, back, span, tag, dty):
    f = i.a[3]
    R = lambda *g: agg(i.a[0], i.a[1], i.a[2], g)
    none = st.fork()
    end = forget(eng, fr, blk, none, f[0], (tag, "fe"))
    out = [(none, R(end, f[1], f[2]), None)]
    src = forget(eng, fr, blk, st, f[0], (tag, "ff"))
    sig = pipe_sig(i)
    if sig in eng.flatstack:
        # the same pipeline again, one level down (recursive traversal): any item it can yield
        out += [(s3, i, z) for s3, _, z in advance_opaque(eng, fr, blk, st, i, span, (tag, "flr"), dty or eng.flatty.get(sig)) if z is not None]
        return out
    eng.flatstack.append(sig)
    try:
        return out + advance_flat1(eng, fr, blk, st, i, src, back, span, tag, dty, R)
    finally:
        eng.flatstack.pop()


def pipe_sig(i):
    """names of the closures of a pipeline"""
    if i.op != "agg":
        return ""
    k = str(i.a[0])
    return k + "(" + ",".join(pipe_sig(x) for x in i.a[3]) + ")"


def advance_flat1(eng, fr, blk, st, i, src, back, span, tag, dty, R):
    f = i.a[3]
    out = []
    for s, n, x in advance(eng, fr, blk, st, src, back, span, (tag, "fl")):
        if x is None:
            continue
        subs_ = [(s, x)] if f[1] is UNIT else callf(eng, fr, blk, s, f[1], [x], None, span, (tag, "flc"))
        for s2, y in subs_:
            t = type_of(y)
            yi = to_iter(eng, s2, y, t) if t else (y if y.op == "agg" and str(y.a[0]).startswith(("it:", "std::ops")) else (it_vec(as_vec(y)) if E.is_vec(y, [y]) else None))
            if yi is None and y.op == "agg" and y.a[0] == OPT:
                yi = it_vec(mk("vec", y.a[3] if y.a[1] == 1 else ()))
            if yi is None:
                out += [(s3, R(n, f[1], f[2]), z) for s3, _, z in advance_opaque(eng, fr, blk, s2, y, span, (tag, "flo"), dty) if z is not None]
                continue
            yi = forget(eng, fr, blk, s2, yi, (tag, "fli"))
            for s3, _, z in advance(eng, fr, blk, s2, yi, back, span, (tag, "flx"), dty):
                if z is not None:
                    out.append((s3, R(n, f[1], f[2]), z))
    return out


def advance_opaque(eng, fr, blk, st, i, span, tag, dty):
    # remaining items of an unknown (finite, but not provably) iterator
    t = item_type(dty)
    eng.emit("opaqueiter", fr, st, blk, span, it=i)
    s0, s1 = st.fork(), st
    x = eng.fresh(fr, blk, ("item", tag), t) if t else mk("sym", (fr.ctx, blk), ("item", tag))
    return [(s0, i, None), (s1, i, x)]


@model("Iterator::next", "DoubleEndedIterator::next_back")
def i_next(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    i = eng.read(st, root, path)
    out = []
    nx = eng.opts.get("nexts")
    if nx:
        eng.emit("next", fr, st.fork(), blk, span, it=i)
    for s, n, x in advance(eng, fr, blk, st, i, fn["name"] == "next_back", span, "n", dty):
        if nx:
            s.ghost["nx"] = ("none",) if x is None else ("some", x)
        eng.write(s, root, path, n)
        out.append((s, NONE if x is None else some(x)))
    return out


@model("Peekable::peek", "Peekable::peek_mut")
def i_peek(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    i = eng.read(st, root, path)
    if not (i.op == "agg" and i.a[0] == "it:peek"):
        return NotImplemented
    src, p = i.a[3]
    if p.op == "agg" and p.a[1] == 1:
        q = p.a[3][0]
        if q.op != "agg":
            out = []
            for s, vi in eng.split_variant(st, q):
                q2 = some(eng.payload(q, 1)) if vi == 1 else NONE
                eng.write(s, root, path, agg("it:peek", 0, "", (src, some(q2))))
                out.append((s, some(mkref(("V", q2.a[3][0]), ())) if vi == 1 else NONE))
            return out
        return [(st, some(mkref(("V", q.a[3][0]), ())) if q.a[1] == 1 else NONE)]
    out = []
    t = inner(dty)
    t = ("adt", OPT, (strip1(t),)) if t else None
    for s, n, x in advance(eng, fr, blk, st, src, False, span, "pk", t):
        q = NONE if x is None else some(x)
        eng.write(s, root, path, agg("it:peek", 0, "", (n, some(q))))
        out.append((s, NONE if x is None else some(mkref(("V", x), ()))))
    return out


def strip1(t):
    return t[2] if t and t[0] == "ref" else t


@model("Peekable::next_if", "Peekable::next_if_eq")
def i_nextif(eng, fr, blk, st, fn, args, atys, dty, span):
    return NotImplemented


@model("Chars::as_str", "CharIndices::offset", "CharIndices::as_str")
def i_asstr(eng, fr, blk, st, fn, args, atys, dty, span):
    i = content(eng, st, args[0])
    if i.op == "agg" and i.a[0] in ("it:chars", "it:cidx"):
        f = i.a[3]
        return [(st, f[1] if fn["name"] == "offset" else cut(f[0], f[1], f[2]))]
    return NotImplemented


@model("Iterator::nth", "DoubleEndedIterator::nth_back")
def i_nth(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    i = eng.read(st, root, path)
    n = args[1]
    src = it("skip", i, n, TRUE)
    out = []
    for s, nn, x in advance(eng, fr, blk, st, src, fn["name"] != "nth", span, "nth", dty):
        inner_it = nn.a[3][0]
        eng.write(s, root, path, inner_it)
        out.append((s, NONE if x is None else some(x)))
    return out


def self_iter(eng, st, a):
    """iterator value and write-back location of a consuming or by-ref receiver"""
    if a.op == "ref":
        root, path = loc(eng, st, a)
        return eng.read(st, root, path), (root, path)
    return a, None


def small(eng, st, i):
    """number of items when a small constant"""
    if i.op == "agg" and str(i.a[0]) in ("it:vec", "it:slice", "it:chars", "it:cidx", "std::ops::Range", "it:enum", "it:rev", "it:mapf", "it:cloned"):
        lo, hi = size_of(eng, st, i)
        if str(i.a[0]) in ("it:chars", "it:cidx") and not (i.a[3][0].op == "lit"):
            return None
        if hi is not None and is_const(hi) and lo is hi and cval(hi) <= 8:
            return cval(hi)
    return None


@model("Iterator::eq", "Iterator::ne")
def i_eq(eng, fr, blk, st, fn, args, atys, dty, span):
    """equal sequences of the characters, bytes or pieces of two strings"""
    a, _ = self_iter(eng, st, args[0])
    b, _ = self_iter(eng, st, args[1]) if args[1].op in ("ref", "agg") else (None, None)
    if b is None or a.op != "agg" or b.op != "agg" or a.a[0] != b.a[0] or a.a[0] not in ("it:chars", "it:bytes", "it:split"):
        return NotImplemented
    x, y = a.a[3][0], b.a[3][0]
    if a.a[3][1:] != b.a[3][1:] and not (a.a[0] != "it:split" and a.a[3][1] is b.a[3][1] and a.a[3][2] is slen(x) and b.a[3][2] is slen(y)):
        if not (a.a[0] == "it:split" and a.a[3][1] is b.a[3][1] and a.a[3][2] is b.a[3][2] and a.a[3][4:] == b.a[3][4:]):
            return NotImplemented
    if x is y:
        t = TRUE
    elif a.a[0] == "it:split":
        t = mk("piecewise", *(sorted((x, y), key=str) + [a.a[3][1]]))
    else:
        t = mk("eq", *sorted((x, y), key=str))
    if fn["name"] == "ne":
        t = bnot(t)
    return [(st, t)]


@model("Iterator::find", "Iterator::position", "Iterator::any", "Iterator::all", "Iterator::find_map", "Iterator::rposition", "DoubleEndedIterator::rfind")
def i_find(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    i, wb = self_iter(eng, st, args[0])
    f = args[1]
    back = n in ("rposition", "rfind")
    if eng.opts.get("nexts") and n in ("find", "find_map"):
        j = it("filter" if n == "find" else "filter_map", i, f, TRUE)
        eng.emit("next", fr, st.fork(), blk, span, it=j)
        out = []
        for s, w, x in advance(eng, fr, blk, st, j, False, span, "n", dty):
            s.ghost["nx"] = ("none",) if x is None else ("some", x)
            if wb:
                eng.write(s, wb[0], wb[1], w.a[3][0])
            out.append((s, NONE if x is None else some(x)))
        return out
    cnt = small(eng, st, i)
    if cnt is not None and not back:
        return unrolled_find(eng, fr, blk, st, i, wb, n, f, cnt, dty, span)
    if eng.opts.get("itloops") and not back and n in ("find", "any", "all", "position", "find_map"):
        return loop_find(eng, fr, blk, st, i, wb, n, f, dty, span)
    i0 = i
    none = st.fork()
    if n in ("position", "rposition"):
        i = it("enum", i, num(0))
    outs = []
    for rnd in range(3):
        s0 = st.fork()
        src = forget(eng, fr, blk, s0, i, ("q", n)) if not back else forget_back(eng, fr, blk, s0, i, ("q", n))
        mark = len(eng.events)
        outs = []
        ch = set()
        for s, nx, x in advance(eng, fr, blk, s0, src, back, span, ("qs", n), dty if n in ("find", "rfind") else None):
            if x is None:
                continue
            if n in ("position", "rposition"):
                idx, x = x.a[3]
            a = [itemref(eng, fr, blk, s, x, "q")] if n in ("find", "rfind") else [x]
            pre = s.fork()
            for s2, y in callf(eng, fr, blk, s, f, a, ("bool",) if n != "find_map" else dty, span, "q"):
                ch |= set(r for r in effects(eng, pre, s2) if r[0] not in ("C", "T"))
                if n == "find_map":
                    for s3, vi in eng.split_variant(s2, y):
                        if vi == 1:
                            outs.append((s3, nx, some(eng.payload(y, 1, item_type(dty)))))
                    continue
                for s3, b in eng.split_bool(s2, y):
                    if n == "all":
                        if not b:
                            outs.append((s3, nx, FALSE))
                    elif b:
                        outs.append((s3, nx, TRUE if n == "any" else some(idx) if n in ("position", "rposition") else some(x)))
        ch = {r for r in ch if r in st.mem and (r, st.mem[r]) not in st.ghost.get("_hav", frozenset())}
        if not ch:
            break
        del eng.events[mark:]
        hav = st.ghost.get("_hav", frozenset())
        st = st.fork()
        for r in ch:
            nv = havoc_value(eng, fr, blk, st.mem[r], r, "qh")
            st.mem[r] = nv
            hav = hav | {(r, nv)}
        st.ghost["_hav"] = hav
        none = st.fork()
    eng.emit("query", fr, st, blk, span, name=n, it=i0, f=f, outs=outs)
    res = [(none, exhaust(eng, fr, blk, none, i, "q"), TRUE if n == "all" else FALSE if n == "any" else NONE)] + outs
    out = []
    for s, nx, v in res:
        if wb:
            if n in ("position", "rposition"):
                nx = nx.a[3][0] if nx.op == "agg" and nx.a[0] == "it:enum" else nx
            eng.write(s, wb[0], wb[1], nx)
        out.append((s, v))
    return out


def loop_find(eng, fr, blk, st, i, wb, n, f, dty, span):
    """the searching adaptors as a loop over the items"""
    CL = ("CL", eng.ctx(fr.ctx, "cl", blk, "fl"))
    st = st.fork()
    st.mem[CL] = f if f.op != "ref" else eng.deref(st, f)
    byref = f.op == "ref"

    def step(s, x, ac):
        out = []
        a = [itemref(eng, fr, blk, s, x, "q")] if n == "find" else [x]
        fv = mkref(CL, (), True) if not byref else f
        nx = [lplus(ac[0], 1)] if n == "position" else ac
        for s2, y in callf(eng, fr, blk, s, fv, a, ("bool",) if n != "find_map" else dty, span, "q"):
            if n == "find_map":
                for s3, vi in eng.split_variant(s2, y):
                    out.append((s3, nx, None) if vi != 1 else (s3, ac, ("break", some(eng.payload(y, 1, item_type(dty))))))
                continue
            for s3, b in eng.split_bool(s2, y):
                if b == (n == "all"):
                    out.append((s3, nx, None))
                else:
                    out.append((s3, ac, ("break", TRUE if n == "any" else FALSE if n == "all" else some(ac[0]) if n == "position" else some(x))))
        return out
    res = []
    for s, ac, br in loop_over(eng, fr, blk, st, i, span, n, [num(0)] if n == "position" else [UNIT], step, dty if n == "find" else None, wb):
        s.mem.pop(CL, None)
        res.append((s, br if br is not None else TRUE if n == "all" else FALSE if n == "any" else NONE))
    return res


def unrolled_find(eng, fr, blk, st, i, wb, n, f, cnt, dty, span):
    cur = [(st, i)]
    out = []
    for j in range(cnt + 1):
        nxt = []
        for s, c in cur:
            for s2, c2, x in advance(eng, fr, blk, s, c, False, span, ("u", j), None):
                if x is None:
                    out.append((s2, c2, TRUE if n == "all" else FALSE if n == "any" else NONE))
                    continue
                a = [itemref(eng, fr, blk, s2, x, ("u", j))] if n == "find" else [x]
                for s3, y in callf(eng, fr, blk, s2, f, a, ("bool",) if n != "find_map" else dty, span, ("u", j)):
                    if n == "find_map":
                        for s4, vi in eng.split_variant(s3, y):
                            if vi == 1:
                                out.append((s4, c2, some(eng.payload(y, 1, item_type(dty)))))
                            else:
                                nxt.append((s4, c2))
                        continue
                    for s4, b in eng.split_bool(s3, y):
                        if b == (n != "all"):
                            out.append((s4, c2, {"any": TRUE, "all": FALSE}.get(n) or (some(num(j)) if n == "position" else some(x))))
                        else:
                            nxt.append((s4, c2))
        cur = nxt
        if not cur:
            break
    res = []
    for s, c, v in out:
        if wb:
            eng.write(s, wb[0], wb[1], c)
        res.append((s, v))
    return res


def arbitrary_items(eng, fr, blk, st, i, span, tag, dty=None):
    """[(state, item)] for an arbitrary position of iterator i (side effects of the pipeline are stabilised by havoc)"""
    for rnd in range(3):
        s0 = st.fork()
        src = forget(eng, fr, blk, s0, i, (tag, "ai"))
        mark = len(eng.events)
        ch = set()
        outs = []
        pre = s0.fork()
        for s, n, x in advance(eng, fr, blk, s0, src, False, span, (tag, "aj"), dty):
            ch |= set(r for r in effects(eng, pre, s) if r[0] not in ("C", "T"))
            if x is not None:
                outs.append((s, x))
        hav = st.ghost.get("_hav", frozenset())
        ch = {r for r in ch if r in st.mem and (r, st.mem[r]) not in hav}
        if not ch:
            return outs, st
        del eng.events[mark:]
        st = st.fork()
        for r in ch:
            nv = havoc_value(eng, fr, blk, st.mem[r], r, (tag, "ah"))
            st.mem[r] = nv
            hav = hav | {(r, nv)}
        st.ghost["_hav"] = hav
    return outs, st


def pure_src(i):
    """does the pipeline contain no closure"""
    if i.op == "ref":
        return False
    if i.op != "agg":
        return True
    k = str(i.a[0])
    if k in ("it:mapf", "it:filter", "it:filter_map", "it:flat", "it:take_while", "it:skip_while", "it:inspect", "it:map_while"):
        return False
    if k.startswith("it:") and k not in ("it:slice", "it:vec", "it:map", "it:bmap", "it:chars", "it:cidx", "it:split", "it:bytes", "it:opt"):
        return all(pure_src(x) for x in i.a[3] if x.op == "agg")
    return True


@model("Iterator::count", "Iterator::last", "Iterator::max", "Iterator::min", "Iterator::sum", "Iterator::product", "Iterator::max_by", "Iterator::min_by",
       "Iterator::max_by_key", "Iterator::min_by_key", "ExactSizeIterator::len", "Iterator::size_hint")
def i_reduce(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    i, wb = self_iter(eng, st, args[0])
    lo, hi = size_of(eng, st, i)
    if n == "len":
        if hi is not None and lo is hi:
            return [(st, hi)]
        return [(st, eng.fresh(fr, blk, "itlen", dty))]
    if n == "size_hint":
        return NotImplemented
    if n == "sum" and eng.opts.get("itloops") and not pure_src(i) and dty and dty[0] == "int":
        res = []
        for s, ac, br in loop_over(eng, fr, blk, st, i, span, n, [num(0)], lambda s, x, ac: [(s, [eng.wrap(ladd(ac[0], x), dty) if x.op == "lin" and ac[0].op == "lin" else eng.fresh(fr, blk, "sum", dty)], None)]):
            if wb:
                eng.write(s, wb[0], wb[1], exhaust(eng, fr, blk, s, i, "red"))
            res.append((s, ac[0]))
        return res
    outs, st = arbitrary_items(eng, fr, blk, st, i, span, "red", dty if n not in ("count", "sum", "product") else None)
    eng.emit("reduce", fr, st, blk, span, name=n, it=i, outs=outs)
    if wb:
        eng.write(st, wb[0], wb[1], exhaust(eng, fr, blk, st, i, "red"))
    if n == "count":
        if hi is not None and lo is hi:
            return [(st, hi)]
        t = mk("count", i)
        set_bounds(t, 0)
        if hi is not None:
            st.add_lin(lsub(hi, atom(t)))
        return [(st, atom(t))]
    if n in ("sum", "product"):
        return [(st, eng.wrap(mk("reduce", n, i), dty))]
    if n.startswith(("max", "min")) and len(args) > 1:
        for s, x in outs[:1]:
            a = itemref(eng, fr, blk, s, x, "mm")
            callf(eng, fr, blk, s.fork(), args[1], [a] if n.endswith("key") else [a, a], None, span, "mm")
    res = [(st.fork(), NONE)] + [(s, some(x)) for s, x in outs]
    if hi is not None and lo is hi and st.entails(lplus(lo, -1)):
        res = res[1:]
    return res


def loop_over(eng, fr, blk, st, i, span, tag, accs, step, dty=None, wb=None, acty=None):
    """fixpoint loop over all items. accs: list of initial accumulator values.
    step(state, item, accs) -> [(state, accs, action)] with action None | ('break', value)
    -> [(state, accs, value or None)]"""
    shells = []
    if eng.opts.get("itloops"):
        j, sh = i, []
        while j.op == "agg" and str(j.a[0]) in ("it:filter", "it:filter_map", "it:mapf"):
            sh.append(j)
            j = j.a[3][0]
        if any(str(x.a[0]) != "it:mapf" for x in sh):
            i, shells, dty = j, sh[::-1], None
    CLS = []
    for n, x in enumerate(shells):
        r = ("CL", eng.ctx(fr.ctx, ("sh", n), blk, tag))
        f = x.a[3][1]
        if f.op == "ref":
            CLS.append(f)
        else:
            st.mem[r] = f
            CLS.append(mkref(r, (), True))
    inner_step = step

    def shell_step(s, x, ac):
        cur = [(s, x)]
        out = []
        for n, sh in enumerate(shells):
            k = str(sh.a[0])
            nxt = []
            for s1, x1 in cur:
                a = [itemref(eng, fr, blk, s1, x1, (tag, "sh", n))] if k == "it:filter" else [x1]
                for s2, y in callf(eng, fr, blk, s1, CLS[n], a, ("bool",) if k == "it:filter" else None, span, (tag, "sh", n)):
                    if k == "it:mapf":
                        nxt.append((s2, y))
                    elif k == "it:filter":
                        for s3, b in eng.split_bool(s2, y):
                            if b:
                                nxt.append((s3, x1))
                            else:
                                out.append((s3, ac, None))
                    else:
                        for s3, vi in eng.split_variant(s2, y):
                            if vi == 1:
                                nxt.append((s3, eng.payload(y, 1, None)))
                            else:
                                out.append((s3, ac, None))
            cur = nxt
        for s1, x1 in cur:
            out += inner_step(s1, x1, ac)
        return out
    if shells:
        step = shell_step
    IT = ("IT", eng.ctx(fr.ctx, "it", blk, tag))
    AC = [("AC", eng.ctx(fr.ctx, ("ac", j), blk, tag)) for j in range(len(accs))]
    st.mem[IT] = i
    for r, a in zip(AC, accs):
        st.mem[r] = a
        ty = acty or type_of(a)
        if ty is not None:
            eng.rootty[r] = ty
    h = ("it", blk)

    def body(heads):
        backs, exits = [], []
        for hd in heads:
            for s, n, x in advance(eng, fr, blk, hd, hd.mem[IT], False, span, (tag, "lp"), dty):
                s.mem[IT] = n
                if x is None:
                    exits.append(("x", s))
                    continue
                for s2, ac, act in step(s, x, [s.mem[r] for r in AC]):
                    for r, a in zip(AC, ac):
                        s2.mem[r] = a
                    if act is None:
                        backs.append(s2)
                    else:
                        s2.mem[("BR", IT[1])] = act[1]
                        exits.append(("b", s2))
        return backs, exits, []
    exits, rets = eng.fixpoint(fr, h, frozenset([blk]), [st], body)
    out = []
    for kind, s in exits:
        s = s.fork()
        br = s.mem.pop(("BR", IT[1]), None)
        ac = [s.mem.pop(r) for r in AC]
        left = s.mem.pop(IT, None)
        for n, x in enumerate(shells):
            f = x.a[3][1]
            if f.op != "ref":
                f = s.mem.pop(CLS[n].a[0], f)
            left = agg(x.a[0], x.a[1], x.a[2], (left, f) + tuple(x.a[3][2:])) if left is not None else None
        if wb is not None and left is not None:
            eng.write(s, wb[0], wb[1], left)
        out.append((s, ac, br))
    return out


@model("Iterator::for_each", "Iterator::fold", "Iterator::try_for_each", "Iterator::try_fold", "Iterator::reduce")
def i_foreach(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    i, wb = self_iter(eng, st, args[0])
    if n == "reduce":
        return NotImplemented
    f = args[-1]
    acc0 = args[1] if n in ("fold", "try_fold") else UNIT
    tr = n.startswith("try")
    if i.op == "agg" and i.a[0] == "it:rev" and False:
        pass
    # closures are kept in memory so that what they mutate is generalised
    CL = ("CL", eng.ctx(fr.ctx, "cl", blk, "fe"))
    st.mem[CL] = f if f.op != "ref" else eng.deref(st, f)
    byref = f.op == "ref"

    def step(s, x, ac):
        out = []
        a = [ac[0], x] if "fold" in n else [x]
        fv = mkref(CL, (), True) if not byref else f
        for s2, y in callf(eng, fr, blk, s, fv, a, dty, span, "fe"):
            if tr:
                for s3, vi in eng.split_variant(s2, y):
                    t = y.a[0] if y.op == "agg" else (type_of(y) or dty or (None, RES))[1]
                    goodv = 0 if t != OPT else 1
                    if vi == goodv:
                        out.append((s3, [eng.payload(y, vi) if "fold" in n else UNIT], None))
                    else:
                        out.append((s3, ac, ("break", y)))
            else:
                out.append((s2, [y] if n == "fold" else [UNIT], None))
        return out
    res = []
    for s, ac, br in loop_over(eng, fr, blk, st, i, span, n, [acc0], step):
        if br is not None:
            res.append((s, br))
        elif tr:
            v = ac[0]
            res.append((s, some(v) if is_adt(dty, "Option") else ok(v)))
        else:
            res.append((s, ac[0]))
        s.mem.pop(CL, None)
    return res


@model("Iterator::collect", "FromIterator::from_iter")
def i_collect(eng, fr, blk, st, fn, args, atys, dty, span):
    i, wb = self_iter(eng, st, args[0])
    if fn["name"] == "from_iter":
        i2 = to_iter(eng, st, args[0], atys[0])
        i = i2 if i2 is not None else i
    return collect(eng, fr, blk, st, i, dty, span)


def collect(eng, fr, blk, st, i, dty, span, tag="col"):
    t = dty
    if is_adt(t, "Result", "Option"):
        res = []
        good = 0 if is_adt(t, "Result") else 1
        outs, st = arbitrary_items(eng, fr, blk, st, i, span, tag, None)
        for s, x in outs:
            for s2, vi in eng.split_variant(s, x):
                if vi != good:
                    res.append((s2, x if x.op == "agg" else (err(eng.payload(x, 1)) if good == 0 else NONE)))
        g = eng.wrap(mk("collectok", i, str(t)), t[2][0])
        res.append((st, ok(g) if good == 0 else some(g)))
        eng.emit("collect", fr, st, blk, span, it=i, outs=outs, ty=t)
        return res
    cnt = small(eng, st, i)
    if cnt is not None and is_adt(t, "Vec", "VecDeque"):
        cur = [(st, i, ())]
        for j in range(cnt):
            nxt = []
            for s, c, xs in cur:
                for s2, c2, x in advance(eng, fr, blk, s, c, False, span, (tag, j), None):
                    if x is not None:
                        nxt.append((s2, c2, xs + (x,)))
            cur = nxt
        return [(s, mk("vec", xs)) for s, c, xs in cur]
    if eng.opts.get("itloops") and is_adt(t, "Vec", "String") and not pure_src(i):
        def step(s, x, ac):
            if is_adt(t, "String"):
                c = eng.deep(s, x)
                c = chstr(c) if c.op in ("ch", "charat") or type_of(c) == ("char",) else c
                return [(s, [cat([ac[0], c]) if is_str(c) else new_str("piece", c)], None)] if is_str(c) else []
            return [(s, [mk("vpush", ac[0], x)], None)]
        acc = mk("vec", ()) if is_adt(t, "Vec") else EMPTY
        out = []
        for s, ac, br in loop_over(eng, fr, blk, st.fork(), i, span, tag, [acc], step, ("adt", OPT, (t[2][0],)) if t[2] else None, None, t):
            out.append((s, ac[0]))
        if out:
            return out
    # run the pipeline once on an arbitrary item for its obligations and effects
    ity = None
    if is_adt(t, "Vec", "VecDeque", "HashSet", "BTreeSet"):
        ity = ("adt", OPT, (t[2][0],))
    outs, st = arbitrary_items(eng, fr, blk, st, i, span, tag, ity)
    eng.emit("collect", fr, st, blk, span, it=i, outs=outs, ty=t)
    lo, hi = size_of(eng, st, i)
    if is_adt(t, "Vec", "VecDeque"):
        v = typed(mk("collected", i), t)
        L = vlen(v)
        st.add_lin(lsub(L, lo))
        if hi is not None:
            st.add_lin(lsub(hi, L))
        elem_facts(eng, fr, blk, st, v, outs)
        return [(st, v)]
    if is_adt(t, "String"):
        if i.op == "agg" and i.a[0] == "it:chars":
            f = i.a[3]
            return [(st, cut(f[0], f[1], f[2]))]
        return [(st, typed(mk("strcollect", i), STRTY))]
    return [(st, eng.wrap(mk("collected", i), t))]


def elem_facts(eng, fr, blk, st, v, outs):
    """facts that hold for every element of a collected vector"""
    if not outs:
        return
    if all(x.op == "lin" for s, x in outs):
        # candidate bounds: element < length measures
        meas = set()
        for s, x in outs:
            for k, c in s.lin.items():
                for t, co in k:
                    if t.op in ("vlen", "mlen", "len"):
                        meas.add(t)
        for m in meas:
            if all(s.entails(lplus(lsub(atom(m), x), -1)) for s, x in outs):
                st.tags.add(("vall", v, ("lin", lplus(lsub(atom(m), atom(E.ELEM)), -1))))
        # kinds of the addressed nodes
        for s, x in outs[:1]:
            for n, ks in s.kinds.items():
                if n.op == "elem" and n.a[1] is x:
                    w = n.a[0]
                    if all(eng.kind_of(s2, mk("elem", w, x2)) <= ks for s2, x2 in outs):
                        st.tags.add(("vall", v, ("kind", w, ks)))
    else:
        ks = frozenset()
        for s, x in outs:
            ks |= eng.kind_of(s, eng.deref(s, x))
        if ks and ks != E.ALLKINDS:
            st.tags.add(("vkind", v, ks))


def ra_item_pure(eng, st, i, idx):
    """item idx of a closure-free pipeline"""
    if i.op != "agg":
        return None
    k, f = str(i.a[0]), i.a[3]
    if k == "it:slice":
        ety = type_of(f[3])
        return mkref(f[0].a[0], f[0].a[1] + (("idx", ladd(f[1], idx), ety),), f[0].a[2])
    if k == "it:vec":
        return eng.velem(st, f[0], ladd(f[1], idx))
    if k == "std::ops::Range":
        return ladd(f[0], idx) if f[0].op == "lin" else None
    if k == "it:enum":
        x = ra_item_pure(eng, st, f[0], idx)
        return None if x is None else tup(ladd(f[1], idx), x)
    if k == "it:cloned":
        x = ra_item_pure(eng, st, f[0], idx)
        return None if x is None else content1(eng, st, x)
    if k == "it:rev":
        lo, hi = size_of(eng, st, f[0])
        if hi is None or lo is not hi:
            return None
        return ra_item_pure(eng, st, f[0], lplus(lsub(hi, idx), -1))
    return None


M.ra_item_pure = ra_item_pure


@model("Extend::extend", "Vec::extend", "HashMap::extend", "String::extend", "VecDeque::extend")
def i_extend(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    t = strip(atys[0])
    v = eng.read(st, root, path)
    i = to_iter(eng, st, args[1], atys[1])
    if i is None:
        i = args[1]
    if i.op == "ref":
        i = eng.deref(st, i)
    if is_adt(t, "Vec", "VecDeque"):
        v = as_vec(v)
        res = []
        for s, w in collect(eng, fr, blk, st, i, ("adt", "std::vec::Vec", (t[2][0],)), span, "ext"):
            if i.op == "agg" and i.a[0] == "it:vec" and is_const(i.a[3][1]) and cval(i.a[3][1]) == 0 and i.a[3][2] is vlen(i.a[3][0]):
                w = i.a[3][0]
            res.append((vextend(eng, fr, blk, s, root, path, eng.read(s, root, path), w, span), UNIT))
        return res
    if is_adt(t, "String"):
        cnt = small(eng, st, i)
        if cnt is not None:
            cur = [(st, i)]
            for j in range(cnt):
                nxt = []
                for s, c in cur:
                    for s2, c2, x in advance(eng, fr, blk, s, c, False, span, ("sx", j), None):
                        if x is not None:
                            x = content(eng, s2, x)
                            eng.write(s2, root, path, cat([as_string(eng.read(s2, root, path)), x if is_str(x) else chstr(x)]))
                            nxt.append((s2, c2))
                cur = nxt
            return [(s, UNIT) for s, c in cur]
        outs, st = arbitrary_items(eng, fr, blk, st, i, span, "sx", None)
        new = cat([as_string(v), typed(mk("strcollect", i), STRTY)])
        eng.emit("assign", fr, st, blk, span, root=root, path=path, val=new)
        eng.write(st, root, path, new)
        return [(st, UNIT)]
    if is_adt(t, "HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        def step(s, x, ac):
            m = eng.read(s, root, path)
            if is_adt(t, "HashSet", "BTreeSet"):
                k, val = keyc(eng, s, x), UNIT
            elif x.op == "agg":
                k, val = keyc(eng, s, x.a[3][0]), x.a[3][1]
            else:
                k, val = mk("fld", x, 0, 0, "0"), mk("fld", x, 0, 1, "1")
            eng.emit("minsert", fr, s, blk, span, root=root, path=path, key=k, item=val, old=m)
            eng.write(s, root, path, mk("minsert", m, k, val))
            return [(s, ac, None)]
        return [(s, UNIT) for s, ac, br in loop_over(eng, fr, blk, st, i, span, "mx", [], step)]
    return NotImplemented


@model("slice::concat", "slice::join")
def v_concat(eng, fr, blk, st, fn, args, atys, dty, span):
    v = as_vec(content(eng, st, args[0]))
    if is_adt(dty, "String"):
        if v.op == "vec":
            parts = []
            for j, x in enumerate(v.a[0]):
                if j and len(args) > 1:
                    parts.append(sc(eng, st, args[1]))
                parts.append(as_string(content(eng, st, x)))
            return [(st, cat(parts))]
        return [(st, new_str("join", v, sc(eng, st, args[1]) if len(args) > 1 else EMPTY))]
    return NotImplemented


@model("Iterator::cmp", "Iterator::is_sorted", "Iterator::partition", "Iterator::unzip")
def i_misc(eng, fr, blk, st, fn, args, atys, dty, span):
    return NotImplemented
