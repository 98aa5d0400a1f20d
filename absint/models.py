"""Models of the standard library (and regex) functions the analysed code calls."""
import re as _re
from terms import *
from state import is_str, char_pred
import engine as E

MODELS = {}
CF = "std::ops::ControlFlow"
STRTY = ("str",)
STRING = ("adt", "std::string::String", ())
USIZE = ("int", "usize")
CHAR = ("char",)


def bind(eng):
    import models2


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


_norm = {}


def norm(path):
    r = _norm.get(path)
    if r is None:
        s = path
        # <impl X> segments
        s = _re.sub(r"<impl (?:[\w:<>&' ,]* for )?([^<>]*(?:<[^<>]*>)?[^<>]*)>", lambda m: implname(m.group(1)), s)
        out, d = [], 0
        for c in s:
            if c == "<":
                d += 1
            elif c == ">":
                d -= 1
            elif d == 0:
                out.append(c)
        segs = [x for x in "".join(out).split("::") if x]
        r = "::".join(segs[-2:])
        _norm[path] = r
    return r


def implname(x):
    x = x.strip()
    if x.startswith("["):
        return "slice"
    return x.split("::")[-1].split("<")[0]


def find(eng, fn):
    return MODELS.get(norm(fn.get("path") or ""))


# ---------------------------------------------------------------- helpers
def path_of(v):
    return v.a[0], v.a[1]


def loc(eng, st, v):
    """location of a reference argument, through references to references"""
    n = 0
    while v.op == "ref" and n < 5:
        c = eng.read(st, v.a[0], v.a[1])
        if c.op == "ref":
            v = c
            n += 1
            continue
        t = type_of(c)
        if t and t[0] == "ref" and t[2][0] != "str":
            return eng.target(st, c)
        break
    return eng.target(st, v)


def content(eng, st, v):
    return eng.deref(st, v)


def sc(eng, st, v):
    """string content of a &str / String / &String / Box<str> value"""
    return content(eng, st, v)


def strip(t):
    while t and (t[0] == "ref" or (t[0] == "adt" and t[1] == "std::boxed::Box")):
        t = t[2] if t[0] == "ref" else t[2][0]
    return t


def inner(ty, i=0):
    t = strip(ty)
    if t and t[0] == "adt" and len(t[2]) > i:
        return t[2][i]
    if t and t[0] in ("slice", "array"):
        return t[1]
    return None


def is_adt(t, *names):
    return t is not None and t[0] == "adt" and t[1].split("::")[-1] in names


def new_str(name, *a):
    return typed(mk(name, *a), STRTY)


def iatom(t, lo=0, hi=None):
    if t not in ATOM_BOUNDS:
        set_bounds(t, lo, hi)
    return atom(t)


def opt_type(ty):
    return ("adt", OPT, (ty,))


def require(eng, fr, blk, st, span, kind, cond, what):
    """panic condition: cond must hold. cond: bool term. -> state or None"""
    v = st.eval(cond)
    if v is None and cond.op in ("isvar",):
        vs = st.variants(cond.a[0], 2)
        v = True if vs == frozenset([cond.a[1]]) else False if cond.a[1] not in vs else None
    eng.obligation(fr, st, blk, span, kind, v is True, what if v is not True else kind)
    if v is True:
        return st
    r = eng.assume(st, cond, True)
    return r[0] if r else None


def boundary(eng, fr, blk, st, span, s, off, what):
    ok = st.is_boundary(s, off)
    eng.obligation(fr, st, blk, span, "char-boundary", ok, f"{what}: offset {show(off)} of {show(s)} not known to be a character boundary" if not ok else "char-boundary")
    b, lo, hi = sbase(s)
    st.add_bnd(b, ladd(lo, off))
    return st


def callf(eng, fr, blk, st, f, args, dty=None, span=None, extra=None):
    """call closure value -> [(state, result)]"""
    return eng.call_value(fr, blk, st, f, args, [None] * len(args), dty, span, extra)


def upvars_back(eng, fr, blk, st, f, extra=None):
    """closure value after a call (its captured state may have changed)"""
    c = eng.deref(st, f)
    if c.op == "agg" and isinstance(c.a[0], str) and c.a[0].startswith("closure:") and f.op != "ref":
        r = ("C", eng.ctx(fr.ctx, c.a[0][8:], blk, extra))
        v = st.mem.get(r)
        if v is not None:
            return v
    return f


def split(eng, st, v):
    return eng.split_variant(st, v)


def pay(eng, v, vi, ty=None):
    return eng.payload(v, vi, inner(ty, vi if is_adt(strip(ty), "Result") else 0) if ty else None)


def default_of(eng, fr, blk, st, ty, span=None):
    """[(state, value)] of Default::default for a type"""
    k = ty[0]
    if k == "int":
        return [(st, num(0))]
    if k == "bool":
        return [(st, FALSE)]
    if k == "char":
        return [(st, ch(0))]
    if k == "tuple":
        out = [(st, [])]
        for x in ty[1]:
            out = [(s2, l + [v]) for s, l in out for s2, v in default_of(eng, fr, blk, s, x)]
        return [(s, tup(*l)) for s, l in out]
    if k == "ref" and ty[2][0] == "str" or k == "str":
        return [(st, EMPTY)]
    if k == "adt":
        n = ty[1]
        if n == "std::string::String":
            return [(st, EMPTY)]
        if n == OPT:
            return [(st, NONE)]
        if n == "std::boxed::Box":
            return default_of(eng, fr, blk, st, ty[2][0])
        if n in E.VEC_TYPES:
            return [(st, mk("vec", ()))]
        if n in E.MAP_TYPES:
            return [(st, mk("mempty"))]
        r = eng.p.resolve("std::default::Default", "default", ty)
        if r:
            key, sub = r
            return eng.call_body(fr, st, blk, key, [], sub, "default")
    return [(st, eng.fresh(fr, blk, ("default", str(ty)), ty))]


@model("Default::default")
def m_default(eng, fr, blk, st, fn, args, atys, dty, span):
    return default_of(eng, fr, blk, st, dty, span)


# ---------------------------------------------------------------- conversions
def convert(eng, fr, blk, st, v, src, dst, span=None):
    """value of From/Into conversion"""
    if src == dst or dst is None:
        return [(st, v)]
    s = strip(src) if src else None
    d = dst
    if d[0] == "adt" and d[1] == "std::boxed::Box":
        if d[2][0][0] == "dyn":
            return [(st, v if d[2][0][1] == E.NODE_TRAIT else typed(mk("dynbox", content(eng, st, v)), d))]
        return convert(eng, fr, blk, st, v, src, d[2][0])
    if d[0] == "adt" and d[1] == OPT and not (src and src[0] == "adt" and src[1] == OPT):
        return [(s2, some(x)) for s2, x in convert(eng, fr, blk, st, v, src, d[2][0])]
    # local From impl
    if d[0] == "adt":
        im, sub = eng.p.find_impl("std::convert::From", d, [src] if src else None)
        if im is not None and "from" in im["items"] and im["items"]["from"] in eng.p.bodies:
            k = im["items"]["from"]
            return eng.call_body(fr, st, blk, k, [v], {i: t for i, t in sub.items()}, "from")
    if is_adt(d, "String") or (d[0] == "ref" and d[2][0] == "str") or d[0] == "str":
        c = content(eng, st, v)
        if s and s[0] == "char":
            return [(st, chstr(c))]
        if is_str(c) or (s and (s[0] in ("str", "param") or is_adt(s, "String", "Cow"))):
            return [(st, as_string(c))]
        return [(st, new_str("tostr", c))]
    if is_adt(d, "Vec", "VecDeque"):
        c = content(eng, st, v)
        return [(st, as_vec(c))]
    if is_adt(d, "HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        c = content(eng, st, v)
        if c.op == "agg" and c.a[0] == "array":
            m = mk("mempty")
            for x in c.a[3]:
                if is_adt(d, "HashSet", "BTreeSet"):
                    m = mk("minsert", m, keyc(eng, st, x), UNIT)
                elif x.op == "agg":
                    m = mk("minsert", m, keyc(eng, st, x.a[3][0]), x.a[3][1])
                else:
                    return [(st, eng.wrap(mk("mapfrom", c), d))]
            return [(st, m)]
        return [(st, eng.wrap(mk("mapfrom", c), d))]
    if d[0] == "int":
        if s and s[0] == "char":
            return [(st, eng.cast_int(st, v, src, d))]
        if v.op == "lin":
            return [(st, v)]
        if s and s[0] == "bool":
            return [(st, eng.cast_int(st, v, src, d))]
    if d[0] == "char" and s and s[0] == "int":
        return [(st, eng.cast_int(st, v, src, d))]
    if s is not None and s == strip(d) and d[0] != "ref":
        return [(st, content(eng, st, v))]
    if src is not None and src[0] == "ref" and d[0] == "ref":
        return [(st, v)]
    return [(st, eng.wrap(mk("conv", str(d), content(eng, st, v)), d))]


def as_string(c):
    if not is_str(c):
        typed(c, STRTY)
    return c


def as_vec(c):
    if c.op == "agg" and c.a[0] == "array":
        return mk("vec", tuple(c.a[3]))
    return c


def chstr(c):
    if c.op == "ch":
        return lit(chr(c.a[0]))
    return mk("chstr", c)


def tyargs(eng, fr, fn):
    return [eng.tyarg(fr, a) for a in (fn.get("args") or [])]


@model("Into::into")
def m_into(eng, fr, blk, st, fn, args, atys, dty, span):
    return convert(eng, fr, blk, st, args[0], atys[0], dty, span)


@model("From::from")
def m_from(eng, fr, blk, st, fn, args, atys, dty, span):
    return convert(eng, fr, blk, st, args[0], atys[0], dty, span)


@model("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(eng, fr, blk, st, fn, args, atys, dty, span):
    d = inner(dty)
    v = args[0]
    if d and d[0] == "int" and v.op == "lin":
        lo, hi = E.INT_RANGE.get(d[1], (None, None))
        conds = []
        if lo is not None:
            conds.append(ge(lplus(v, -lo)))
        if hi is not None:
            conds.append(ge(lsub(num(hi), v)))
        conds = [c for c in conds if st.eval(c) is not True]
        if not conds:
            return [(st, ok(v))]
        c = conds[0] if len(conds) == 1 else mk("and", *conds)
        return [(s, ok(v) if b else err(eng.fresh(fr, blk, "tryerr", inner(dty, 1)))) for s, b in eng.split_bool(st, c)]
    return NotImplemented


@model("ToOwned::to_owned", "Clone::clone", "str::to_string", "str::to_owned", "Clone::clone_from")
def m_clone(eng, fr, blk, st, fn, args, atys, dty, span):
    if fn["name"] == "clone_from":
        root, path = loc(eng, st, args[0])
        eng.write(st, root, path, content(eng, st, args[1]))
        return [(st, UNIT)]
    return clone_of(eng, fr, blk, st, args[0], dty)


def clone_of(eng, fr, blk, st, r, dty):
    if dty is not None and dty[0] == "ref" and dty[2][0] != "str":
        # clone of a reference: copy it
        if r.op == "ref":
            return [(st, eng.read(st, r.a[0], r.a[1]))]
        return [(st, r)]
    c = content1(eng, st, r)
    if dty is not None and is_adt(dty, "String"):
        return [(st, as_string(content(eng, st, r)))]
    if dty is not None and is_adt(dty, "Vec"):
        c = as_vec(c)
    return [(st, c)]


def content1(eng, st, r):
    """content behind exactly one reference"""
    if r.op == "ref":
        return eng.read(st, r.a[0], r.a[1])
    t = type_of(r)
    if t and t[0] == "ref":
        return eng.root_content(st, ("O", r))
    return r


@model("slice::to_vec", "slice::into_vec", "Vec::into_boxed_slice", "String::into_boxed_str", "str::into_string", "slice::into_boxed_slice")
def m_to_vec(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, as_vec(content(eng, st, args[0])))]


@model("Box::new_uninit")
def m_new_uninit(eng, fr, blk, st, fn, args, atys, dty, span):
    """the box a vec![..] expression fills in place"""
    return [(st, agg("std::mem::MaybeUninit", 0, "", (UNIT, agg("std::mem::ManuallyDrop", 0, "", (UNIT,)))))]


@model("boxed::box_assume_init_into_vec_unsafe")
def m_box_into_vec(eng, fr, blk, st, fn, args, atys, dty, span):
    v = args[0]
    if v.op == "agg" and v.a[0] == "std::mem::MaybeUninit":
        v = v.a[3][1]
        v = v.a[3][0] if v.op == "agg" and v.a[0] == "std::mem::ManuallyDrop" else v
        if v.op == "agg" and v.a[0] == "array":
            return [(st, typed(as_vec(v), dty))]
    return None


@model("AsRef::as_ref", "Borrow::borrow", "AsMut::as_mut", "BorrowMut::borrow_mut")
def m_asref(eng, fr, blk, st, fn, args, atys, dty, span):
    d = strip(dty)
    if d and d[0] == "str":
        return [(st, as_string(content(eng, st, args[0])))]
    if is_adt(d, "Path", "OsStr"):
        return [(st, E.mkref(("V", typed(mk("path", content(eng, st, args[0])), d)), ()))]
    return [(st, args[0])]


@model("Deref::deref", "DerefMut::deref_mut", "String::as_str", "String::as_mut_str", "Vec::as_slice", "Vec::as_mut_slice",
       "String::as_ref", "str::as_ref", "slice::as_ref", "array::as_slice")
def m_deref(eng, fr, blk, st, fn, args, atys, dty, span):
    d = dty
    if d and d[0] == "ref" and d[2][0] == "str":
        return [(st, as_string(content(eng, st, args[0])))]
    if is_adt(strip(atys[0]), "LazyLock", "LazyCell", "Lazy"):
        return [(st, E.mkref(("V", eng.wrap(mk("lazy", content(eng, st, args[0])), d[2])), ()))]
    return [(st, args[0])]


@model("Box::new", "Rc::new", "Arc::new", "hint::must_use", "convert::identity", "Box::pin", "hint::black_box", "Box::from", "IntoIterator::into_iter_id",
       "Cell::new", "RefCell::new", "Option::Some")
def m_id(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, args[0])]


@model("ptr::eq", "ptr::addr_eq", "Rc::ptr_eq", "Arc::ptr_eq")
def m_ptreq(eng, fr, blk, st, fn, args, atys, dty, span):
    """the same object; otherwise nothing is known"""
    a, b = args
    if a is b:
        return [(st, TRUE)]
    yes, no = st.fork(), st.fork()
    try:
        x, y = eng.deep(st, a), eng.deep(st, b)
        e = TRUE if x is y else mk("eq", *sorted((x, y), key=str))
    except Exception:
        e = TRUE
    return [(s, TRUE) for s in eng.assume(yes, e, True)] + [(no, FALSE)]


@model("mem::drop", "Vec::shrink_to_fit", "Vec::reserve", "String::reserve", "String::shrink_to_fit", "HashMap::reserve", "VecDeque::reserve", "mem::forget")
def m_unit(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, UNIT)]


@model("mem::take")
def m_take(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc1(eng, st, args[0])
    old = eng.read(st, root, path)
    out = []
    for s, d in default_of(eng, fr, blk, st, dty):
        eng.emit("assign", fr, s, blk, span, root=root, path=path, val=d)
        eng.write(s, root, path, d)
        out.append((s, old))
    return out


def loc1(eng, st, v):
    return eng.target(st, v)


@model("mem::replace")
def m_replace(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc1(eng, st, args[0])
    old = eng.read(st, root, path)
    eng.emit("assign", fr, st, blk, span, root=root, path=path, val=args[1])
    eng.write(st, root, path, args[1])
    return [(st, old)]


@model("mem::swap")
def m_swap(eng, fr, blk, st, fn, args, atys, dty, span):
    r1, p1 = loc1(eng, st, args[0])
    r2, p2 = loc1(eng, st, args[1])
    a, b = eng.read(st, r1, p1), eng.read(st, r2, p2)
    eng.emit("assign", fr, st, blk, span, root=r1, path=p1, val=b)
    eng.emit("assign", fr, st, blk, span, root=r2, path=p2, val=a)
    eng.write(st, r1, p1, b)
    eng.write(st, r2, p2, a)
    return [(st, UNIT)]


# ---------------------------------------------------------------- panics
@model("rt::panic_fmt", "panicking::panic_fmt", "panicking::panic", "rt::begin_panic", "panicking::panic_display", "panicking::panic_explicit",
       "panicking::unreachable_display", "panicking::assert_failed", "option::unwrap_failed", "option::expect_failed", "result::unwrap_failed",
       "panicking::panic_str_literal", "process::exit", "process::abort", "panicking::panic_nounwind", "panicking::panic_str_2015",
       "hint::unreachable_unchecked", "panicking::assert_failed_inner", "panicking::assert_matches_failed", "rt::panic_display", "panicking::begin_panic")
def m_panic(eng, fr, blk, st, fn, args, atys, dty, span):
    msg = ""
    for a in args:
        if a.op == "lit":
            msg = a.a[0]
        elif a.op == "agg" and a.a[0] == "fmt:args" and a.a[3][0].op == "lit":
            msg = a.a[3][0].a[0]
    eng.obligation(fr, st, blk, span, "panic", False, "panic reached" + (": " + msg if msg else ""))
    return []


# ---------------------------------------------------------------- Option / Result
def opt_arg(eng, st, v):
    return content(eng, st, v) if v.op == "ref" or (type_of(v) and type_of(v)[0] == "ref") else v


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(eng, fr, blk, st, fn, args, atys, dty, span):
    v = opt_arg(eng, st, args[0])
    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[fn["name"]]
    if v.op == "agg":
        return [(st, boolean(v.a[1] == want))]
    vs = st.variants(v, 2)
    if len(vs) == 1:
        return [(st, boolean(want in vs))]
    return [(st, eng.isvar(v, want))]


def unwrap(eng, fr, blk, st, fn, v, ty, good, span, what):
    out, bad = [], []
    for s, vi in split(eng, st, v):
        if vi == good:
            out.append((s, pay(eng, v, vi, ty)))
        else:
            bad.append(s)
    eng.obligation(fr, bad[0] if bad else st, blk, span, "unwrap", not bad, what if bad else "unwrap")
    return out


@model("Option::unwrap", "Option::expect", "Option::unwrap_unchecked")
def m_ounwrap(eng, fr, blk, st, fn, args, atys, dty, span):
    return unwrap(eng, fr, blk, st, fn, args[0], atys[0], 1, span, f"{fn['name']}() on an Option that may be None: {show(args[0])}")


@model("Result::unwrap", "Result::expect")
def m_runwrap(eng, fr, blk, st, fn, args, atys, dty, span):
    return unwrap(eng, fr, blk, st, fn, args[0], atys[0], 0, span, f"{fn['name']}() on a Result that may be Err: {show(args[0])}")


@model("Result::unwrap_err", "Result::expect_err")
def m_runwrap_err(eng, fr, blk, st, fn, args, atys, dty, span):
    return unwrap(eng, fr, blk, st, fn, args[0], atys[0], 1, span, "unwrap_err() on a Result that may be Ok")


def comb(name):
    pass


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Result::map_err", "Option::unwrap_or", "Result::unwrap_or",
       "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::ok_or", "Option::ok_or_else", "Option::or", "Option::or_else", "Result::or",
       "Result::or_else", "Result::ok", "Result::err", "Option::filter", "Option::map_or", "Result::map_or", "Option::map_or_else",
       "Result::map_or_else", "Option::is_some_and", "Result::is_ok_and", "Result::is_err_and", "Option::is_none_or", "Option::and", "Result::and",
       "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::cloned", "Option::copied", "Result::cloned", "Result::copied",
       "Option::flatten", "Option::inspect", "Result::inspect", "Result::inspect_err", "Option::zip", "Option::transpose", "Result::transpose", "Option::xor",
       "Result::flatten")
def m_comb(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    v = args[0]
    ty = atys[0]
    isopt = is_adt(strip(ty), "Option")
    out = []
    good = 1 if isopt else 0
    for s, vi in split(eng, st, v):
        g = vi == good
        x = pay(eng, v, vi, ty) if (g or not isopt) else None
        S = some if isopt else ok
        bad = (NONE if isopt else err(x)) if not g else None
        f = args[1] if len(args) > 1 else None
        ex = ("comb", n)
        if n == "map":
            if g:
                out += [(s2, S(r)) for s2, r in callf(eng, fr, blk, s, f, [x], inner(dty), span, ex)]
            else:
                out.append((s, bad))
        elif n == "and_then":
            if g:
                out += callf(eng, fr, blk, s, f, [x], dty, span, ex)
            else:
                out.append((s, bad))
        elif n == "map_err":
            if g:
                out.append((s, ok(x)))
            else:
                out += [(s2, err(r)) for s2, r in callf(eng, fr, blk, s, f, [x], inner(dty, 1), span, ex)]
        elif n == "unwrap_or":
            out.append((s, x if g else f))
        elif n == "unwrap_or_else":
            out += [(s, x)] if g else callf(eng, fr, blk, s, f, [] if isopt else [x], dty, span, ex)
        elif n == "unwrap_or_default":
            out += [(s, x)] if g else default_of(eng, fr, blk, s, dty)
        elif n == "ok_or":
            out.append((s, ok(x) if g else err(f)))
        elif n == "ok_or_else":
            out += [(s, ok(x))] if g else [(s2, err(r)) for s2, r in callf(eng, fr, blk, s, f, [], inner(dty, 1), span, ex)]
        elif n == "or":
            out.append((s, S(x) if g else f))
        elif n == "or_else":
            out += [(s, S(x))] if g else callf(eng, fr, blk, s, f, [] if isopt else [x], dty, span, ex)
        elif n == "and":
            out.append((s, f if g else bad))
        elif n == "xor":
            for s2, v2 in split(eng, s, f):
                out.append((s2, S(x) if g and v2 == 0 else f if (not g and v2 == 1) else NONE))
        elif n == "ok":
            out.append((s, some(x) if g else NONE))
        elif n == "err":
            out.append((s, NONE if g else some(x)))
        elif n == "filter":
            if g:
                tmp = ("T", eng.ctx(fr.ctx, "filter", blk))
                s.mem[tmp] = x
                for s2, r in callf(eng, fr, blk, s, f, [E.mkref(tmp, ())], ("bool",), span, ex):
                    for s3, b in eng.split_bool(s2, r):
                        out.append((s3, S(x) if b else NONE))
            else:
                out.append((s, NONE))
        elif n == "map_or":
            out += callf(eng, fr, blk, s, args[2], [x], dty, span, ex) if g else [(s, f)]
        elif n == "map_or_else":
            out += callf(eng, fr, blk, s, args[2], [x], dty, span, ex + (1,)) if g else callf(eng, fr, blk, s, f, [] if isopt else [x], dty, span, ex)
        elif n in ("is_some_and", "is_ok_and"):
            out += callf(eng, fr, blk, s, f, [x], dty, span, ex) if g else [(s, FALSE)]
        elif n == "is_err_and":
            out += [(s, FALSE)] if g else callf(eng, fr, blk, s, f, [x], dty, span, ex)
        elif n == "is_none_or":
            out += callf(eng, fr, blk, s, f, [x], dty, span, ex) if g else [(s, TRUE)]
        elif n in ("cloned", "copied"):
            if g:
                out += [(s2, S(r)) for s2, r in clone_of(eng, fr, blk, s, x, inner(dty))]
            else:
                out.append((s, bad))
        elif n == "flatten":
            out.append((s, x if g else bad))
        elif n in ("inspect", "inspect_err"):
            out.append((s, S(x) if g else bad))
        elif n == "zip":
            if not g:
                out.append((s, NONE))
            else:
                for s2, v2 in split(eng, s, f):
                    out.append((s2, some(tup(x, pay(eng, f, 1, atys[1]))) if v2 else NONE))
        elif n == "transpose":
            if isopt:
                if not g:
                    out.append((s, ok(NONE)))
                else:
                    for s2, v2 in split(eng, s, x):
                        y = pay(eng, x, v2, inner(ty))
                        out.append((s2, ok(some(y)) if v2 == 0 else err(y)))
            else:
                if not g:
                    out.append((s, some(err(x))))
                else:
                    for s2, v2 in split(eng, s, x):
                        out.append((s2, some(ok(pay(eng, x, 1, inner(ty)))) if v2 else NONE))
        else:
            return NotImplemented
    return out


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_mut", "Option::iter", "Option::as_slice", "Result::as_deref")
def m_oasref(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    if n in ("iter", "as_slice"):
        return NotImplemented
    root, path = loc(eng, st, args[0])
    v = eng.read(st, root, path)
    oty = strip(atys[0])
    isopt = is_adt(oty, "Option")
    out = []
    for s, vi in split(eng, st, v):
        if isopt and vi == 0:
            out.append((s, NONE))
            continue
        ety = oty[2][0 if isopt else vi]
        r = E.mkref(root, path + (("f", vi, 0, "0", ety, oty),), n.endswith("mut"))
        if "deref" in n and (isopt or vi == 0):
            d = strip(inner(dty)) if dty else None
            if d and d[0] == "str":
                r = as_string(content(eng, s, r))
        out.append((s, (some if isopt else (ok if vi == 0 else err))(r)))
    return out


@model("Option::take", "Option::replace", "Option::insert", "Option::get_or_insert_with", "Option::get_or_insert")
def m_otake(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    root, path = loc(eng, st, args[0])
    v = eng.read(st, root, path)
    oty = strip(atys[0])
    if n == "take":
        eng.write(st, root, path, NONE)
        eng.emit("assign", fr, st, blk, span, root=root, path=path, val=NONE)
        return [(st, v)]
    if n == "replace":
        eng.write(st, root, path, some(args[1]))
        return [(st, v)]
    r = E.mkref(root, path + (("f", 1, 0, "0", oty[2][0], oty),), True)
    if n == "insert":
        eng.write(st, root, path, some(args[1]))
        return [(st, r)]
    out = []
    for s, vi in split(eng, st, v):
        if vi == 1:
            out.append((s, r))
        elif n == "get_or_insert":
            eng.write(s, root, path, some(args[1]))
            out.append((s, r))
        else:
            for s2, x in callf(eng, fr, blk, s, args[1], [], oty[2][0], span, "goi"):
                eng.write(s2, root, path, some(x))
                out.append((s2, r))
    return out


@model("Try::branch")
def m_branch(eng, fr, blk, st, fn, args, atys, dty, span):
    v = args[0]
    t = strip(atys[0])
    out = []
    for s, vi in split(eng, st, v):
        if is_adt(t, "Option"):
            out.append((s, agg(CF, 0, "Continue", (pay(eng, v, 1, t),)) if vi == 1 else agg(CF, 1, "Break", (NONE,))))
        elif is_adt(t, "Result"):
            x = pay(eng, v, vi, t)
            out.append((s, agg(CF, 0, "Continue", (x,)) if vi == 0 else agg(CF, 1, "Break", (err(x),))))
        else:
            return NotImplemented
    return out


@model("FromResidual::from_residual")
def m_residual(eng, fr, blk, st, fn, args, atys, dty, span):
    v = args[0]
    if is_adt(dty, "Option"):
        return [(st, NONE)]
    if is_adt(dty, "Result"):
        e = pay(eng, v, 1, atys[0])
        return [(s, err(x)) for s, x in convert(eng, fr, blk, st, e, inner(atys[0], 1), inner(dty, 1), span)]
    return NotImplemented


@model("Try::from_output")
def m_fromout(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, some(args[0]) if is_adt(dty, "Option") else ok(args[0]))]


# ---------------------------------------------------------------- integers
@model(*[f"{t}::{n}" for t in ("usize", "u8", "u16", "u32", "u64", "isize", "i32", "i64", "u128", "i8", "i16") for n in
         ("saturating_sub", "wrapping_sub", "checked_sub", "saturating_add", "wrapping_add", "checked_add", "overflowing_sub", "overflowing_add",
          "abs_diff", "is_power_of_two", "min_value", "max_value", "from_str_radix", "count_ones", "is_ascii", "is_ascii_whitespace", "is_ascii_digit",
          "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_hexdigit", "checked_mul", "saturating_mul", "wrapping_mul", "pow", "unsigned_abs", "abs", "signum", "is_positive", "is_negative", "checked_div", "div_ceil", "rem_euclid")])
def m_int(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    if n == "from_str_radix":
        s = sc(eng, st, args[0])
        if not (is_const(args[1]) and 2 <= cval(args[1]) <= 36):
            require(eng, fr, blk, st, span, "panic", mk("and", ge(lplus(args[1], -2)), ge(lsub(num(36), args[1]))), "from_str_radix radix out of range")
        return [(st, eng.wrap(mk("parseint", str(inner(dty)), s, args[1]), dty))]
    if n in ("is_ascii", "is_ascii_whitespace", "is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_hexdigit"):
        return [(st, typed(mk("pr", "byte", n, content(eng, st, args[0])), ("bool",)))]
    if len(args) < 2 or args[0].op != "lin" or args[1].op != "lin":
        return NotImplemented
    a, b = args
    ty = strip(atys[0])
    lo, hi = E.INT_RANGE.get(ty[1], (None, None)) if ty and ty[0] == "int" else (None, None)
    if n.endswith("_sub") and lo == 0:
        d = lsub(a, b)
        out = []
        for s, okk in eng.split_bool(st, ge(d)):
            if n == "saturating_sub":
                out.append((s, d if okk else num(0)))
            elif n == "wrapping_sub":
                out.append((s, d if okk else eng.wrap(mk("wrapsub", a, b), dty)))
            elif n == "checked_sub":
                out.append((s, some(d) if okk else NONE))
            else:
                out.append((s, tup(d, FALSE) if okk else tup(eng.wrap(mk("wrapsub", a, b), inner(dty)), TRUE)))
        return out
    if n.endswith("_add") and ty[1] not in E.SMALL:
        v = ladd(a, b)
        return [(st, some(v) if n == "checked_add" else tup(v, FALSE) if n == "overflowing_add" else v)]
    if n.endswith("_add") and lo == 0 and hi is not None:
        v = ladd(a, b)
        out = []
        for s, okk in eng.split_bool(st, ge(lsub(num(hi), v))):
            w = v if okk else num(hi) if n == "saturating_add" else eng.wrap(mk("wrapadd", a, b), ty)
            if n == "checked_add":
                out.append((s, some(v) if okk else NONE))
            elif n == "overflowing_add":
                out.append((s, tup(w, FALSE if okk else TRUE)))
            else:
                out.append((s, w))
        return out
    if n == "abs_diff":
        d = lsub(a, b)
        return [(s, d if okk else lneg(d)) for s, okk in eng.split_bool(st, ge(d))]
    if n in ("saturating_mul", "wrapping_mul") and (is_const(a) or is_const(b)):
        return [(st, lscale(b, cval(a)) if is_const(a) else lscale(a, cval(b)))]
    return NotImplemented


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max", "Ord::clamp")
def m_minmax(eng, fr, blk, st, fn, args, atys, dty, span):
    if fn["name"] == "clamp":
        x, lo, hi = args
        if any(z.op != "lin" for z in args):
            return NotImplemented
        st = require(eng, fr, blk, st, span, "panic", ge(lsub(hi, lo)), "clamp: min > max")
        if st is None:
            return []
        out = []
        for s, b in eng.split_bool(st, ge(lsub(x, lo))):
            if not b:
                out.append((s, lo))
            else:
                out += [(s2, x if b2 else hi) for s2, b2 in eng.split_bool(s, ge(lsub(hi, x)))]
        return out
    a, b = args
    if a.op != "lin" or b.op != "lin":
        return NotImplemented
    big = fn["name"] == "max"
    return [(s, (a if okk else b) if big else (b if okk else a)) for s, okk in eng.split_bool(st, ge(lsub(a, b)))]


# ---------------------------------------------------------------- comparison
@model("PartialEq::eq", "PartialEq::ne", "str::eq", "String::eq")
def m_eq(eng, fr, blk, st, fn, args, atys, dty, span):
    a, b = content(eng, st, args[0]), content(eng, st, args[1])
    neg = fn["name"] == "ne"
    ta, tb = strip(atys[0]), strip(atys[1])
    for t in (ta,):
        # local type with its own eq
        if t and t[0] == "adt" and t[1] in eng.p.adts and eng.p.adts[t[1]]["local"]:
            im, sub = eng.p.find_impl("std::cmp::PartialEq", t, None)
            if im is not None and im["items"].get("eq") in eng.p.bodies:
                r1 = E.mkref(*loc(eng, st, args[0]))
                r2 = E.mkref(*loc(eng, st, args[1]))
                return [(s, bnot(v) if neg else v) for s, v in eng.call_body(fr, st, blk, im["items"]["eq"], [r1, r2], sub, "eq")]
    if a.op == "agg" and b.op == "agg" or a.op == "agg" and a.a[0] == OPT or b.op == "agg" and b.a[0] == OPT:
        a, b = deep(eng, st, a), deep(eng, st, b)
    e = eng.eqv(st, a, b)
    return [(st, bnot(e) if neg else e)]


def deep(eng, st, v, d=0):
    """resolve references inside aggregates (for comparisons)"""
    if d > 4:
        return v
    if v.op == "ref":
        return deep(eng, st, content(eng, st, v), d + 1)
    if v.op == "agg" and not str(v.a[0]).startswith(("it:", "closure:")):
        return agg(v.a[0], v.a[1], v.a[2], [deep(eng, st, x, d + 1) for x in v.a[3]])
    return v


ORD = "std::cmp::Ordering"


@model("Ord::cmp", "PartialOrd::partial_cmp", "str::cmp")
def m_cmp(eng, fr, blk, st, fn, args, atys, dty, span):
    a, b = content(eng, st, args[0]), content(eng, st, args[1])
    a, b = deep(eng, st, a), deep(eng, st, b)
    t = typed(mk("cmp", a, b), ("adt", ORD, ()))
    if a is b:
        t = agg(ORD, 1, "Equal", ())
    if fn["name"] == "partial_cmp":
        return [(st, some(t))]
    return [(st, t)]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_lt(eng, fr, blk, st, fn, args, atys, dty, span):
    a, b = content(eng, st, args[0]), content(eng, st, args[1])
    n = fn["name"]
    if a.op == "lin" and b.op == "lin":
        d = {"lt": lplus(lsub(b, a), -1), "le": lsub(b, a), "gt": lplus(lsub(a, b), -1), "ge": lsub(a, b)}[n]
        return [(st, ge(d))]
    if n in ("gt", "le"):
        r = typed(mk("lt", b, a), ("bool",))
        return [(st, r if n == "gt" else bnot(r))]
    r = typed(mk("lt", a, b), ("bool",))
    return [(st, r if n == "lt" else bnot(r))]


@model("Ordering::then", "Ordering::then_with", "Ordering::reverse")
def m_ordering(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    v = args[0]
    if n == "reverse":
        if v.op == "agg":
            return [(st, agg(ORD, 2 - v.a[1], ["Greater", "Equal", "Less"][v.a[1]], ()))]
        if v.op == "cmp":
            return [(st, typed(mk("cmp", v.a[1], v.a[0]), ("adt", ORD, ())))]
        return NotImplemented
    out = []
    for s, vi in eng.split_variant(st, v, 3):
        if vi != 1:
            out.append((s, v if v.op == "agg" else agg(ORD, vi, ["Less", "Equal", "Greater"][vi], ())))
        elif n == "then":
            out.append((s, args[1]))
        else:
            out += callf(eng, fr, blk, s, args[1], [], dty, span, "then")
    return out


@model("Ordering::is_eq", "Ordering::is_ne", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge")
def m_ordis(eng, fr, blk, st, fn, args, atys, dty, span):
    want = {"is_eq": (1,), "is_ne": (0, 2), "is_lt": (0,), "is_gt": (2,), "is_le": (0, 1), "is_ge": (1, 2)}[fn["name"]]
    return [(s, boolean(vi in want)) for s, vi in eng.split_variant(st, args[0], 3)]


@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(eng, fr, blk, st, fn, args, atys, dty, span):
    v = content(eng, st, args[0])
    return [(st, eng.discr(v, strip(atys[0])))]


@model("Hash::hash")
def m_hash(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[1])
    old = eng.read(st, root, path)
    c = content(eng, st, args[0])
    eng.emit("hash", fr, st, blk, span, val=c)
    eng.write(st, root, path, mk("hpush", old, c))
    return [(st, UNIT)]


@model("Hasher::finish", "Hasher::write", "BuildHasher::build_hasher", "DefaultHasher::new")
def m_hasher(eng, fr, blk, st, fn, args, atys, dty, span):
    return NotImplemented


# ---------------------------------------------------------------- function traits
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_call(eng, fr, blk, st, fn, args, atys, dty, span):
    t = args[1]
    if t.op == "agg" and t.a[0] == "tuple":
        a = list(t.a[3])
        tys = list(atys[1][1]) if atys[1] and atys[1][0] == "tuple" else [None] * len(a)
    else:
        a, tys = [t], [None]
    return eng.call_value(fr, blk, st, args[0], a, tys, dty, span, "call")


# ---------------------------------------------------------------- chars
def char_pr(n):
    return {"is_whitespace": "whitespace", "is_ascii_alphabetic": "ascii_alphabetic", "is_ascii_digit": "ascii_digit"}.get(n, n)


@model(*["char::" + n for n in ("is_whitespace", "is_alphabetic", "is_numeric", "is_alphanumeric", "is_uppercase", "is_lowercase", "is_control",
                                  "is_ascii", "is_ascii_whitespace", "is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_punctuation",
                                  "is_ascii_hexdigit", "is_ascii_uppercase", "is_ascii_lowercase", "is_ascii_control", "is_ascii_graphic")])
def m_charpred(eng, fr, blk, st, fn, args, atys, dty, span):
    c = content(eng, st, args[0])
    c = st.cst.get(c, c)
    n = char_pr(fn["name"])
    if c.op == "ch":
        r = char_pred(n, c.a[0])
        if r is not None:
            return [(st, boolean(r))]
    return [(st, typed(mk("pr", "ch", n, c), ("bool",)))]


@model("char::len_utf8")
def m_len_utf8(eng, fr, blk, st, fn, args, atys, dty, span):
    c = content(eng, st, args[0])
    return [(st, wchar(st.cst.get(c, c)))]


@model("char::from_u32", "char::from_digit")
def m_from_u32(eng, fr, blk, st, fn, args, atys, dty, span):
    v = args[0]
    if fn["name"] == "from_u32" and v.op == "lin" and is_const(v):
        k = cval(v)
        return [(st, some(ch(k)) if (0 <= k < 0xD800 or 0xE000 <= k < 0x110000) else NONE)]
    return [(st, eng.wrap(mk(fn["name"], *args), dty))]


@model("char::eq_ignore_ascii_case", "char::to_digit", "char::is_digit", "char::to_ascii_lowercase", "char::to_ascii_uppercase")
def m_charmisc(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, eng.wrap(mk("charfn", fn["name"], *[content(eng, st, a) for a in args]), dty))]


# ---------------------------------------------------------------- strings
@model("String::new", "String::with_capacity")
def m_snew(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, EMPTY)]


@model("str::len", "String::len")
def m_slen(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, slen(sc(eng, st, args[0])))]


@model("str::is_empty", "String::is_empty")
def m_sempty(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, eqz(slen(sc(eng, st, args[0]))))]


def pattern(eng, st, v, ty):
    """('s', content) | ('set', [char terms]) | ('f', callable)"""
    c = content(eng, st, v)
    if c.op == "ch" or type_of(c) == CHAR or c.op in ("charat", "charend", "asch"):
        c = st.cst.get(c, c)
        return ("s", chstr(c))
    if is_str(c):
        return ("s", c)
    if c.op == "vec" and all(x.op == "ch" for x in c.a[0]):
        return ("set", list(c.a[0]))
    if c.op == "agg" and c.a[0] == "array" and all(x.op == "ch" for x in c.a[3]):
        return ("set", list(c.a[3]))
    if c.op == "fnv" or (c.op == "agg" and str(c.a[0]).startswith("closure:")):
        return ("f", v)
    t = strip(ty)
    if t and (t[0] == "str" or is_adt(t, "String")):
        return ("s", as_string(c))
    if t and t[0] == "char":
        return ("s", chstr(c))
    return ("f", v)


def char_test(eng, fr, blk, st, p, c, span, extra=None):
    """does char c satisfy char-pattern p -> [(state, bool)]"""
    if p[0] == "set":
        cs = [eng.eqv(st, c, x) for x in p[1]]
        if TRUE in cs:
            return [(st, True)]
        cs = [x for x in cs if x is not FALSE]
        if not cs:
            return [(st, False)]
        return eng.split_bool(st, cs[0] if len(cs) == 1 else mk("or", *cs))
    out = []
    for s, r in callf(eng, fr, blk, st, p[1], [c], ("bool",), span, ("cp", extra)):
        out += eng.split_bool(s, r)
    return out


def charat(st, s, off):
    """character of content s starting at relative offset off (must be < len)"""
    base, lo, hi = sbase(s)
    x = ladd(lo, off)
    if base.op == "lit" and is_const(x):
        bs = base.a[0].encode()
        k = cval(x)
        if 0 <= k < len(bs):
            try:
                return ch(ord(bs[k:].decode("utf-8", "ignore")[0]))
            except Exception:
                pass
    if base.op == "cat":
        o = num(0)
        for p in base.a[0]:
            d = lsub(x, o)
            if is_const(d) and cval(d) == 0 and p.op == "chstr":
                return p.a[0]
            if p.op == "lit" and is_const(d) and 0 <= cval(d) < utf8len(p.a[0]):
                return charat(st, p, d)
            o = ladd(o, slen(p))
    if base.op == "chstr" and is_const(x) and cval(x) == 0:
        return base.a[0]
    t = typed(mk("charat", base, x), CHAR)
    if t not in st.cst:
        for b, o, q in st.occ:
            if b is base and q:
                if o is x or st.same(o, x):
                    st.cst[t] = ch(ord(q[0]))
                    st.bools[eqterm(t, ch(ord(q[0])))] = True
                    break
    return t


def eqterm(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def take_char(st, s, off):
    """facts for reading the char at off: -> (char, next offset) or None when contradictory"""
    base, lo, hi = sbase(s)
    c = charat(st, s, off)
    w = wchar(st.cst.get(c, c))
    n = ladd(off, w)
    if not st.add_lin(lsub(hi, ladd(lo, n))):
        return None
    st.add_bnd(base, ladd(lo, off))
    st.add_bnd(base, ladd(lo, n))
    return c, n


def take_char_back(st, s, off):
    """char of s ending at relative offset off (> 0)"""
    base, lo, hi = sbase(s)
    x = ladd(lo, off)
    if base.op == "lit" and is_const(x):
        k = cval(x)
        t = base.a[0].encode()[:k].decode("utf-8", "ignore")
        if t:
            return ch(ord(t[-1])), lplus(off, -utf8len(t[-1]))
    t = typed(mk("charend", base, x), CHAR)
    for b, o, q in st.occ:
        if b is base and q and st.same(lplus(o, utf8len(q)), x):
            st.cst[t] = ch(ord(q[-1]))
    w = wchar(st.cst.get(t, t))
    n = lsub(off, w)
    if not st.add_lin(n):
        return None
    st.add_bnd(base, x)
    st.add_bnd(base, ladd(lo, n))
    # the char before off is the char at n
    return t, n


def starts(eng, fr, blk, st, s, p, span, back=False):
    """[(state, bool, matched length)]"""
    if p[0] == "s":
        q = p[1]
        n = "ends_with" if back else "starts_with"
        if q.op == "lit" and q.a[0] == "":
            return [(st, True, num(0))]
        if s is q:
            return [(st, True, slen(s))]
        b = typed(mk("pr", n, s, q), ("bool",))
        out = []
        for x, v in eng.split_bool(st, b):
            if v:
                L = slen(q)
                base, lo, hi = sbase(s)
                if not x.add_lin(lsub(slen(s), L)):
                    continue
                x.add_bnd(base, ladd(lo, L) if not back else lsub(hi, L))
            out.append((x, v, slen(q)))
        return out
    out = []
    L = slen(s)
    for x, ne in eng.split_bool(st, ge(lplus(L, -1))):
        if not ne:
            out.append((x, False, num(0)))
            continue
        r = take_char(x, s, num(0)) if not back else take_char_back(x, s, L)
        if r is None:
            continue
        c, n = r
        w = n if not back else lsub(L, n)
        for y, v in char_test(eng, fr, blk, x, p, c, span, "back" if back else "st"):
            out.append((y, v, w))
    return out


@model("str::starts_with", "str::ends_with")
def m_starts(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    p = pattern(eng, st, args[1], atys[1])
    back = fn["name"] == "ends_with"
    if p[0] == "s":
        q = p[1]
        if q.op == "lit" and q.a[0] == "" or q is s:
            return [(st, TRUE)]
        b = typed(mk("pr", fn["name"], s, q), ("bool",))
        v = st.eval(b)
        return [(st, b if v is None else boolean(v))]
    return [(x, boolean(v)) for x, v, _ in starts(eng, fr, blk, st, s, p, span, back)]


def contains_eval(eng, st, s, q):
    b = typed(mk("pr", "contains", s, q), ("bool",))
    v = st.eval(b)
    if v is None and q.op == "lit":
        base, lo, hi = sbase(s)
        n = utf8len(q.a[0])
        if n == 0:
            return b, True
        for bb, o, t in st.occ:
            if bb is base and q.a[0] in t:
                k = utf8len(t[:t.index(q.a[0])])
                if st.entails(lsub(lplus(o, k), lo)) and st.entails(lsub(hi, lplus(o, k + n))):
                    return b, True
        if st.eval_starts(s, q.a[0]) is True or st.eval_ends(s, q.a[0]) is True:
            return b, True
        if st.entails(lplus(lsub(num(n), slen(s)), -1)):
            return b, False
    if s is q:
        v = True
    return b, v


@model("str::contains")
def m_contains(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    p = pattern(eng, st, args[1], atys[1])
    if p[0] == "s":
        b, v = contains_eval(eng, st, s, p[1])
        return [(st, b if v is None else boolean(v))]
    return [(x, boolean(r is not None)) for x, r in find_in(eng, fr, blk, st, s, p, span)]


def find_in(eng, fr, blk, st, s, p, span, back=False):
    """[(state, (offset, matchlen) | None)]"""
    base, lo, hi = sbase(s)
    if p[0] == "s":
        q = p[1]
        if s.op == "lit" and q.op == "lit":
            i = s.a[0].rfind(q.a[0]) if back else s.a[0].find(q.a[0])
            return [(st, None if i < 0 else (num(utf8len(s.a[0][:i])), num(utf8len(q.a[0]))))]
        b, v = contains_eval(eng, st, s, q)
        out = []
        cases = [(st, v)] if v is not None else eng.split_bool(st, b)
        for x, v in cases:
            if not v:
                x = x.fork()
                x.bools[b] = False
                out.append((x, None))
                continue
            x = x.fork()
            x.bools[b] = True
            L = slen(q)
            if not back and q.op == "lit" and x.eval_starts(s, q.a[0]) is True:
                out.append((x, (num(0), L)))
                continue
            f = iatom(mk("rfind" if back else "find", s, q))
            if not x.add_lin(lsub(slen(s), ladd(f, L))):
                continue
            okk = True
            if q.op == "lit" and q.a[0]:
                if not back and not x.eval_starts(s, q.a[0]) is None:
                    okk = x.add_lin(lplus(f, -1))
                # not after any known occurrence
                for bb, o, t in list(x.occ):
                    if bb is base and q.a[0] in t:
                        k = lplus(o, utf8len(t[:t.index(q.a[0])]))
                        if x.entails(lsub(k, lo)) and x.entails(lsub(hi, lplus(k, utf8len(q.a[0])))):
                            okk = okk and x.add_lin(lsub(lsub(k, lo), f) if not back else lsub(f, lsub(k, lo)))
                okk = okk and x.add_occ(base, ladd(lo, f), q.a[0])
            if not okk:
                continue
            x.add_bnd(base, ladd(lo, f))
            x.add_bnd(base, ladd(ladd(lo, f), L))
            out.append((x, (f, L)))
        return out
    # character predicates
    out = []
    x = st.fork()
    if eng.opts.get("absent"):
        # no character satisfies the pattern: the ones it certainly accepts do not occur
        for k in eng.opts["absent"]:
            try:
                rs = char_test(eng, fr, blk, st.fork(), p, ch(ord(k)), span, "abs")
            except Exception:
                break
            if rs and all(v is True for _, v in rs):
                x.bools[typed(mk("pr", "contains", s, lit(k)), ("bool",))] = False
    out.append((x, None))
    y = st.fork()
    f = iatom(mk("sym", (fr.ctx, blk), ("findp", s)))
    if y.add_lin(lplus(lsub(slen(s), f), -1)):
        y.add_bnd(base, ladd(lo, f))
        r = take_char(y, s, f)
        if r is not None:
            c, n = r
            for z, v in char_test(eng, fr, blk, y, p, c, span, "find"):
                if v:
                    out.append((z, (f, lsub(n, f))))
    return out


@model("str::find", "str::rfind")
def m_find(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    p = pattern(eng, st, args[1], atys[1])
    return [(x, NONE if r is None else some(r[0])) for x, r in find_in(eng, fr, blk, st, s, p, span, fn["name"] == "rfind")]


@model("str::split_once", "str::rsplit_once")
def m_split_once(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    p = pattern(eng, st, args[1], atys[1])
    out = []
    for x, r in find_in(eng, fr, blk, st, s, p, span, fn["name"] == "rsplit_once"):
        if r is None:
            out.append((x, NONE))
        else:
            out.append((x, some(tup(cut(s, num(0), r[0]), cut(s, ladd(r[0], r[1]), slen(s))))))
    return out


@model("str::strip_prefix", "str::strip_suffix")
def m_strip(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    p = pattern(eng, st, args[1], atys[1])
    back = fn["name"] == "strip_suffix"
    out = []
    for x, v, n in starts(eng, fr, blk, st, s, p, span, back):
        if v:
            out.append((x, some(cut(s, n, slen(s)) if not back else cut(s, num(0), lsub(slen(s), n)))))
        else:
            out.append((x, NONE))
    return out


def trim_generic(eng, fr, blk, st, s, left, right, tag, known=None):
    """slice of s with unknown amounts removed at the ends; known(litchar)->may it be trimmed"""
    base, lo, hi = sbase(s)
    if s.op == "lit" and tag == "ws":
        t = s.a[0]
        if left:
            t = t.lstrip()
        if right:
            t = t.rstrip()
        return lit(t)
    a, b = num(0), slen(s)
    if left:
        keep = False
        for bb, o, q in st.occ:
            if bb is base and q and st.same(o, lo) and known and known(q[0]) is False:
                keep = True
        if not keep:
            a = iatom(mk("trimlo", s, tag))
            st.add_lin(lsub(slen(s), a))
            st.add_bnd(base, ladd(lo, a))
    if right:
        keep = False
        for bb, o, q in st.occ:
            if bb is base and q and st.same(lplus(o, utf8len(q)), hi) and known and known(q[-1]) is False:
                keep = True
        if not keep:
            b = iatom(mk("trimhi", s, tag, a))
            st.add_lin(lsub(slen(s), b))
            st.add_lin(lsub(b, a))
            st.add_bnd(base, ladd(lo, b))
    return cut(s, a, b)


@model("str::trim", "str::trim_start", "str::trim_end", "str::trim_left", "str::trim_right", "str::trim_ascii", "str::trim_ascii_start", "str::trim_ascii_end")
def m_trim(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    s = sc(eng, st, args[0])
    left = not n.endswith(("_end", "_right"))
    right = not n.endswith(("_start", "_left"))
    tag = "ws" if "ascii" not in n else "aws"
    r = trim_generic(eng, fr, blk, st, s, left, right, tag, lambda c: c.isspace())
    return [(st, r)]


@model("str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::trim_left_matches", "str::trim_right_matches")
def m_trim_matches(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    s = sc(eng, st, args[0])
    p = pattern(eng, st, args[1], atys[1])
    left = n in ("trim_matches", "trim_start_matches", "trim_left_matches")
    right = n in ("trim_matches", "trim_end_matches", "trim_right_matches")
    q = p[1] if p[0] == "s" else None
    if s.op == "lit" and q is not None and q.op == "lit" and q.a[0]:
        t = s.a[0]
        while left and t.startswith(q.a[0]):
            t = t[len(q.a[0]):]
        while right and t.endswith(q.a[0]):
            t = t[:len(t) - len(q.a[0])]
        return [(st, lit(t))]
    tag = ("m", q) if q is not None else ("set", tuple(p[1])) if p[0] == "set" else ("f", eng.fresh(fr, blk, "trimf"))
    known = (lambda c: q.a[0][:1] == c or q.a[0][-1:] == c) if q is not None and q.op == "lit" else None
    return [(st, trim_generic(eng, fr, blk, st, s, left, right, tag, known))]


@model("str::replace", "str::replacen")
def m_sreplace(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    p = pattern(eng, st, args[1], atys[1])
    t = sc(eng, st, args[2])
    if fn["name"] == "replace" and p[0] == "s":
        if all(x.op == "lit" for x in (s, p[1], t)):
            return [(st, lit(s.a[0].replace(p[1].a[0], t.a[0])))]
        return [(st, new_str("replace", s, p[1], t))]
    return [(st, new_str("replacex", fn["name"], s, p[1] if isinstance(p[1], T) else tuple(p[1]), t, *args[3:]))]


@model("str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::escape_debug", "str::repeat", "slice::repeat")
def m_strfn(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    n = fn["name"]
    if n == "repeat":
        if is_adt(dty, "Vec"):
            return NotImplemented
        k = args[1]
        if s.op == "lit" and is_const(k) and 0 <= cval(k) <= 200:
            return [(st, lit(s.a[0] * cval(k)))]
        return [(st, new_str("repeat", s, k))]
    if s.op == "lit" and "case" in n and "ascii" not in n:
        return [(st, lit(s.a[0].lower() if "lower" in n else s.a[0].upper()))]
    t = new_str("strfn", n, s)
    if "ascii" in n:
        st.add_lin(lsub(slen(t), slen(s)))
        st.add_lin(lsub(slen(s), slen(t)))
    return [(st, t)]


@model("str::eq_ignore_ascii_case")
def m_eqic(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, typed(mk("pr", "eqic", sc(eng, st, args[0]), sc(eng, st, args[1])), ("bool",)))]


@model("str::is_char_boundary")
def m_iscb(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    if st.is_boundary(s, args[1]):
        return [(st, TRUE)]
    base, lo, hi = sbase(s)
    a, b = st.fork(), st.fork()
    a.add_bnd(base, ladd(lo, args[1]))
    return [(a, TRUE)] + [(b, FALSE)] if a.add_lin(lsub(slen(s), args[1])) else [(b, FALSE)]


@model("str::split_at", "str::split_at_checked")
def m_split_at(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    i = args[1]
    if fn["name"] == "split_at_checked":
        return NotImplemented
    st = require(eng, fr, blk, st, span, "index", ge(lsub(slen(s), i)), f"split_at: {show(i)} may exceed the length of {show(s)}")
    if st is None:
        return []
    boundary(eng, fr, blk, st, span, s, i, "split_at")
    return [(st, tup(cut(s, num(0), i), cut(s, i, slen(s))))]


def range_of(eng, st, r, L):
    """(start, end) of a range value"""
    r = content(eng, st, r)
    if r.op != "agg":
        return None
    n = str(r.a[0]).split("::")[-1]
    f = r.a[3]
    if n == "Range":
        return f[0], f[1]
    if n == "RangeFrom":
        return f[0], L
    if n == "RangeTo":
        return num(0), f[0]
    if n == "RangeInclusive":
        return f[0], lplus(f[1], 1)
    if n == "RangeToInclusive":
        return num(0), lplus(f[0], 1)
    if n == "RangeFull":
        return num(0), L
    return None


@model("RangeInclusive::new")
def m_ri(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, agg("std::ops::RangeInclusive", 0, "RangeInclusive", (args[0], args[1], FALSE)))]


@model("RangeInclusive::start", "RangeInclusive::end")
def m_ri2(eng, fr, blk, st, fn, args, atys, dty, span):
    return NotImplemented


@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeBounds::contains", "Range::is_empty", "RangeToInclusive::contains")
def m_rcontains(eng, fr, blk, st, fn, args, atys, dty, span):
    r = content(eng, st, args[0])
    n = str(r.a[0]).split("::")[-1] if r.op == "agg" else ""
    if fn["name"] == "is_empty":
        if n == "Range":
            return [(st, ge(lsub(r.a[3][0], r.a[3][1])))]
        return NotImplemented
    x = content(eng, st, args[1])
    if r.op != "agg":
        return NotImplemented
    f = r.a[3]
    if x.op == "lin" and f and f[0].op == "lin":
        cs = {"Range": [lsub(x, f[0]), lplus(lsub(f[-1], x), -1)], "RangeInclusive": [lsub(x, f[0]), lsub(f[1] if len(f) > 1 else f[0], x)],
              "RangeFrom": [lsub(x, f[0])], "RangeTo": [lplus(lsub(f[0], x), -1)], "RangeToInclusive": [lsub(f[0], x)]}.get(n)
        if cs is None:
            return NotImplemented
        cs = [ge(c) for c in cs]
        cs = [c for c in cs if st.eval(c) is not True]
        if not cs:
            return [(st, TRUE)]
        if any(st.eval(c) is False for c in cs):
            return [(st, FALSE)]
        return [(st, cs[0] if len(cs) == 1 else mk("and", *cs))]
    return [(st, typed(mk("pr", "inrange", r, x), ("bool",)))]


def str_slice(eng, fr, blk, st, s, rng, span):
    r = range_of(eng, st, rng, slen(s))
    if r is None:
        return None
    a, b = r
    st = require(eng, fr, blk, st, span, "slice", ge(lsub(b, a)), f"slice start {show(a)} may exceed its end {show(b)}")
    if st is None:
        return []
    st = require(eng, fr, blk, st, span, "slice", ge(lsub(slen(s), b)), f"slice end {show(b)} may exceed the length of {show(s)}")
    if st is None:
        return []
    boundary(eng, fr, blk, st, span, s, a, "slice start")
    boundary(eng, fr, blk, st, span, s, b, "slice end")
    st.add_lin(a)
    return [(st, cut(s, a, b))]


@model("Index::index", "IndexMut::index_mut")
def m_index(eng, fr, blk, st, fn, args, atys, dty, span):
    t = strip(atys[0])
    ix = args[1]
    if t and (t[0] == "str" or is_adt(t, "String")):
        r = str_slice(eng, fr, blk, st, sc(eng, st, args[0]), ix, span)
        return NotImplemented if r is None else r
    root, path = loc(eng, st, args[0])
    v = eng.read(st, root, path)
    mut = fn["name"] == "index_mut"
    if is_adt(t, "HashMap", "BTreeMap"):
        k = keyc(eng, st, ix)
        st = require(eng, fr, blk, st, span, "index", eng.mhas(st, v, k), f"key {show(k)} may be missing")
        return [] if st is None else [(st, E.mkref(root, path + (("mv", k, t[2][1]),), mut))]
    ety = inner(t)
    i = content(eng, st, ix)
    if i.op == "lin":
        st = require(eng, fr, blk, st, span, "index", ge(lplus(lsub(vlen(v), i), -1)), f"index {show(i)} may be out of bounds (length {show(vlen(v))})")
        return [] if st is None else [(st, E.mkref(root, path + (("idx", i, ety),), mut))]
    r = range_of(eng, st, i, vlen(v))
    if r is None:
        return NotImplemented
    a, b = r
    st = require(eng, fr, blk, st, span, "slice", ge(lsub(b, a)), "slice start may exceed its end")
    if st is None:
        return []
    st = require(eng, fr, blk, st, span, "slice", ge(lsub(vlen(v), b)), f"slice end {show(b)} may exceed length {show(vlen(v))}")
    return [] if st is None else [(st, mkrng(root, path, a, b, v, mut))]


def mkrng(root, path, a, b, v, mut):
    if is_const(a) and cval(a) == 0 and b is vlen(v):
        return E.mkref(root, path, mut)
    return E.mkref(root, path + (("rng", a, b),), mut)


@model("str::get", "slice::get", "slice::get_mut", "Vec::get", "VecDeque::get", "VecDeque::get_mut", "str::get_mut")
def m_get(eng, fr, blk, st, fn, args, atys, dty, span):
    t = strip(atys[0])
    ix = args[1]
    out = []
    if t and (t[0] == "str" or is_adt(t, "String")):
        s = sc(eng, st, args[0])
        r = range_of(eng, st, ix, slen(s))
        if r is None:
            return NotImplemented
        a, b = r
        cs = [c for c in (ge(lsub(b, a)), ge(lsub(slen(s), b))) if st.eval(c) is not True]
        bnds = st.is_boundary(s, a) and st.is_boundary(s, b)
        if cs:
            parts = eng.split_bool(st, cs[0] if len(cs) == 1 else mk("and", *cs))
        else:
            parts = [(st, True)]
        for x, v in parts:
            if not v:
                out.append((x, NONE))
                continue
            y = x.fork()
            base, lo, hi = sbase(s)
            y.add_bnd(base, ladd(lo, a))
            y.add_bnd(base, ladd(lo, b))
            out.append((y, some(cut(s, a, b))))
            if not bnds:
                out.append((x, NONE))
        return out
    root, path = loc(eng, st, args[0])
    v = eng.read(st, root, path)
    mut = fn["name"].endswith("mut")
    i = content(eng, st, ix)
    if i.op == "lin":
        for x, b in eng.split_bool(st, ge(lplus(lsub(vlen(v), i), -1))):
            out.append((x, some(E.mkref(root, path + (("idx", i, inner(t)),), mut)) if b else NONE))
        return out
    r = range_of(eng, st, i, vlen(v))
    if r is None:
        return NotImplemented
    a, b = r
    c = mk("and", ge(lsub(b, a)), ge(lsub(vlen(v), b)))
    for x, okk in eng.split_bool(st, c):
        out.append((x, some(mkrng(root, path, a, b, v, mut)) if okk else NONE))
    return out


def emit_str(eng, fr, st, blk, span, root, path, new):
    eng.emit("assign", fr, st, blk, span, root=root, path=path, val=new)


@model("String::push", "String::push_str", "Write::write_str", "Write::write_char", "Formatter::write_str", "Formatter::write_char", "Formatter::pad", "AddAssign::add_assign", "Add::add")
def m_push_str(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    x = content(eng, st, args[1])
    t = strip(atys[1])
    if n in ("add_assign", "add"):
        if x.op == "lin":
            a = content(eng, st, args[0])
            if a.op != "lin":
                return NotImplemented
            v = ladd(a, x)
            if n == "add":
                return [(st, v)]
            root, path = loc(eng, st, args[0])
            eng.write(st, root, path, v)
            return [(st, UNIT)]
        if not is_str(x):
            return NotImplemented
        if n == "add":
            return [(st, cat([sc(eng, st, args[0]), x]))]
    if t and t[0] == "char" or x.op == "ch":
        x = st.cst.get(x, x)
        x = chstr(x)
    root, path = loc(eng, st, args[0])
    old = eng.read(st, root, path)
    new = cat([as_string(old), as_string(x)])
    eng.write(st, root, path, new)
    emit_str(eng, fr, st, blk, span, root, path, new)
    if n in ("write_str", "write_char", "pad"):
        return [(st, ok(UNIT))]
    return [(st, UNIT)]


@model("String::truncate")
def m_truncate(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    s = eng.read(st, root, path)
    n = args[1]
    out = []
    for x, b in eng.split_bool(st, ge(lplus(lsub(slen(s), n), -1))):
        if b:
            boundary(eng, fr, blk, x, span, s, n, "truncate")
            eng.write(x, root, path, cut(s, num(0), n))
            emit_str(eng, fr, x, blk, span, root, path, cut(s, num(0), n))
        out.append((x, UNIT))
    return out


@model("String::clear", "Vec::clear", "VecDeque::clear")
def m_clear(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[0])
    new = EMPTY if fn["path"].find("string::String") >= 0 else mk("vec", ())
    eng.emit("vclear" if new is not EMPTY else "assign", fr, st, blk, span, root=root, path=path, val=new, old=eng.read(st, root, path))
    eng.write(st, root, path, new)
    return [(st, UNIT)]


@model("String::insert", "String::insert_str", "String::remove", "String::pop", "String::replace_range", "String::split_off", "String::drain", "String::retain")
def m_sedit(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    root, path = loc(eng, st, args[0])
    s = as_string(eng.read(st, root, path))
    L = slen(s)
    if n in ("insert", "insert_str"):
        i = args[1]
        x = content(eng, st, args[2])
        if n == "insert":
            x = chstr(st.cst.get(x, x))
        st = require(eng, fr, blk, st, span, "index", ge(lsub(L, i)), f"{n} position {show(i)} may exceed the length")
        if st is None:
            return []
        boundary(eng, fr, blk, st, span, s, i, n)
        eng.write(st, root, path, cat([cut(s, num(0), i), x, cut(s, i, L)]))
        return [(st, UNIT)]
    if n == "remove":
        i = args[1]
        st = require(eng, fr, blk, st, span, "index", ge(lplus(lsub(L, i), -1)), f"remove position {show(i)} may be past the end")
        if st is None:
            return []
        boundary(eng, fr, blk, st, span, s, i, n)
        r = take_char(st, s, i)
        if r is None:
            return []
        c, e = r
        eng.write(st, root, path, cat([cut(s, num(0), i), cut(s, e, L)]))
        return [(st, c)]
    if n == "pop":
        out = []
        for x, b in eng.split_bool(st, ge(lplus(L, -1))):
            if not b:
                out.append((x, NONE))
                continue
            r = take_char_back(x, s, L)
            if r is None:
                continue
            eng.write(x, root, path, cut(s, num(0), r[1]))
            out.append((x, some(r[0])))
        return out
    if n == "split_off":
        i = args[1]
        st = require(eng, fr, blk, st, span, "index", ge(lsub(L, i)), f"split_off position {show(i)} may exceed the length")
        if st is None:
            return []
        boundary(eng, fr, blk, st, span, s, i, n)
        eng.write(st, root, path, cut(s, num(0), i))
        return [(st, cut(s, i, L))]
    if n in ("replace_range", "drain"):
        r = range_of(eng, st, args[1], L)
        if r is None:
            return NotImplemented
        a, b = r
        for cond, w in ((ge(lsub(b, a)), "start may exceed end"), (ge(lsub(L, b)), "end may exceed the length")):
            st = require(eng, fr, blk, st, span, "slice", cond, f"{n}: {w}")
            if st is None:
                return []
        boundary(eng, fr, blk, st, span, s, a, n)
        boundary(eng, fr, blk, st, span, s, b, n)
        mid = [] if n == "drain" else [sc(eng, st, args[2])]
        eng.write(st, root, path, cat([cut(s, num(0), a)] + mid + [cut(s, b, L)]))
        return [(st, UNIT if n != "drain" else chars_it(cut(s, a, b)))]
    if n == "retain":
        eng.write(st, root, path, new_str("retain", s, eng.fresh(fr, blk, "retain")))
        return [(st, UNIT)]
    return NotImplemented


@model("str::as_bytes", "String::as_bytes", "String::into_bytes", "str::bytes", "String::bytes")
def m_bytes(eng, fr, blk, st, fn, args, atys, dty, span):
    s = sc(eng, st, args[0])
    b = typed(mk("bytesof", s), ("slice", ("int", "u8")))
    n = vlen(b)
    st.add_lin(lsub(n, slen(s)))
    st.add_lin(lsub(slen(s), n))
    if fn["name"] == "bytes":
        return [(st, agg("it:vec", 0, "", (b, num(0), vlen(b))))]
    if fn["name"] == "into_bytes":
        return [(st, b)]
    return [(st, E.mkref(("V", b), ()))]


@model("String::from_utf8", "str::from_utf8")
def m_from_utf8(eng, fr, blk, st, fn, args, atys, dty, span):
    c = content(eng, st, args[0])
    t = new_str("utf8", c) if c.op != "bytesof" else c.a[0]
    return [(st.fork(), ok(t)), (st.fork(), err(eng.fresh(fr, blk, "utf8err", inner(dty, 1))))]


@model("String::from_utf8_lossy")
def m_lossy(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, new_str("lossy", content(eng, st, args[0])))]


@model("Cow::into_owned", "Cow::to_mut", "Cow::is_borrowed")
def m_cow(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, content(eng, st, args[0]))]


@model("str::parse")
def m_parse(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, eng.wrap(mk("parse", str(inner(dty)), sc(eng, st, args[0])), dty))]


@model("FromStr::from_str")
def m_fromstr(eng, fr, blk, st, fn, args, atys, dty, span):
    if is_adt(inner(dty), "String"):
        return [(st, ok(sc(eng, st, args[0])))]
    return [(st, eng.wrap(mk("parse", str(inner(dty)), sc(eng, st, args[0])), dty))]


@model("slice::join", "slice::concat", "Join::join", "Concat::concat", "[V]::join", "[V]::concat")
def m_join(eng, fr, blk, st, fn, args, atys, dty, span):
    v = content(eng, st, args[0])
    if not is_adt(dty, "String"):
        return NotImplemented
    sep = sc(eng, st, args[1]) if len(args) > 1 else EMPTY
    items = v.a[0] if v.op == "vec" else v.a[3] if v.op == "agg" and v.a[0] == "array" else None
    if items is not None:
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(sep)
            out.append(as_string(content(eng, st, x)))
        return [(st, cat(out))]
    return [(st, new_str("join", v, sep))]


# ---------------------------------------------------------------- formatting
def display(eng, fr, blk, st, v, ty, span, extra=None):
    """Display of a value -> [(state, string content)]"""
    c = content(eng, st, v)
    t = strip(ty)
    if is_str(c) or (t and (t[0] == "str" or is_adt(t, "String", "Cow"))):
        return [(st, as_string(c))]
    if c.op == "lin":
        if is_const(c):
            return [(st, lit(str(cval(c))))]
        return [(st, new_str("istr", c))]
    if t and t[0] == "char" or c.op == "ch":
        return [(st, chstr(st.cst.get(c, c)))]
    if c.op in ("true", "false"):
        return [(st, lit(c.op))]
    if c.op == "agg" and c.a[0] == "fmt:args":
        return [(st, c.a[3][0])]
    tt = t
    if c.op == "agg" and isinstance(c.a[0], str) and c.a[0] in eng.p.adts and eng.p.adts[c.a[0]]["local"]:
        tt = ("adt", c.a[0], t[2] if t and t[0] == "adt" else ())
    if tt and tt[0] == "adt" and tt[1] in eng.p.adts and eng.p.adts[tt[1]]["local"]:
        return run_display(eng, fr, blk, st, v, tt, extra)
    if tt and (tt[0] == "dyn" and tt[1] == E.NODE_TRAIT or tt[0] == "param"):
        if tt[0] == "dyn":
            return [(st, new_str("disp", c))]
    return [(st, new_str("disp", c))]


def run_display(eng, fr, blk, st, v, ty, extra, trait="std::fmt::Display"):
    r = eng.p.resolve(trait, "fmt", ty)
    if r is None:
        return [(st, new_str("disp", content(eng, st, v)))]
    key, sub = r
    if key in eng.stack:
        return [(st, new_str("disp", content(eng, st, v)))]
    root = ("F", eng.ctx(fr.ctx, ("fmt", key), blk, extra))
    st.mem[root] = EMPTY
    rv = v
    if rv.op == "ref" or (type_of(rv) and type_of(rv)[0] == "ref"):
        rv = E.mkref(*loc(eng, st, rv))
    else:
        tmp = ("T", eng.ctx(fr.ctx, ("fmtv", key), blk, extra))
        st.mem[tmp] = rv
        rv = E.mkref(tmp, ())
    out = []
    for s, x in eng.call_body(fr, st, blk, key, [rv, E.mkref(root, (), True)], sub, ("disp", extra)):
        out.append((s, as_string(s.mem.pop(root))))
    return out


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_lower_exp", "Argument::new_pointer", "Argument::new_binary", "Argument::new_octal", "Argument::from_usize")
def m_argument(eng, fr, blk, st, fn, args, atys, dty, span):
    if fn["name"] == "new_display":
        return [(s, agg("fmt:arg", 0, "", (c,))) for s, c in display(eng, fr, blk, st, args[0], atys[0], span, ("arg", str(args[0])))]
    return [(st, agg("fmt:arg", 0, "", (new_str("dbg", fn["name"], content(eng, st, args[0])),)))]


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const", "Arguments::from_str", "Arguments::new_v1_formatted", "Arguments::from_str_nonconst")
def m_arguments(eng, fr, blk, st, fn, args, atys, dty, span):
    n = fn["name"]
    if n in ("from_str", "from_str_nonconst"):
        return [(st, agg("fmt:args", 0, "", (sc(eng, st, args[0]),)))]
    if n == "new":
        tb = content(eng, st, args[0])
        av = content(eng, st, args[1])
        items = av.a[3] if av.op == "agg" else av.a[0] if av.op == "vec" else None
        if tb.op != "bytes" or items is None:
            return [(st, agg("fmt:args", 0, "", (new_str("fmt", tb, av, eng.fresh(fr, blk, "fmt")),)))]
        return [(st, agg("fmt:args", 0, "", (decode(bytes(tb.a[0]), items),)))]
    return [(st, agg("fmt:args", 0, "", (eng.fresh(fr, blk, "fmt", STRTY),)))]


def decode(b, items):
    i, ai, out = 0, 0, []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(lit(b[i:i + n].decode()))
            i += n
        elif n == 0x80:
            l = b[i] | b[i + 1] << 8
            i += 2
            out.append(lit(b[i:i + l].decode()))
            i += l
        elif n == 0xC0:
            out.append(items[ai].a[3][0])
            ai += 1
        else:
            opts = []
            for bit, ln in ((1, 4), (2, 2), (4, 2)):
                if n & bit:
                    opts.append((bit, int.from_bytes(b[i:i + ln], "little")))
                    i += ln
            if n & 8:
                ai = int.from_bytes(b[i:i + 2], "little")
                i += 2
            x = items[ai].a[3][0]
            ai += 1
            out.append(new_str("fmtopt", x, n, tuple(opts)) if opts else x)
    return cat(out)


@model("fmt::format", "fmt::format_inner", "Arguments::to_string")
def m_format(eng, fr, blk, st, fn, args, atys, dty, span):
    a = content(eng, st, args[0])
    return [(st, a.a[3][0] if a.op == "agg" else new_str("fmtopaque", a))]


@model("Arguments::as_str")
def m_args_as_str(eng, fr, blk, st, fn, args, atys, dty, span):
    return NotImplemented


@model("Formatter::write_fmt", "Write::write_fmt")
def m_write_fmt(eng, fr, blk, st, fn, args, atys, dty, span):
    a = content(eng, st, args[1])
    c = a.a[3][0] if a.op == "agg" else new_str("fmtopaque", a)
    if "io::Write" in fn["path"] or fn.get("trait") == "std::io::Write":
        return io_call(eng, fr, blk, st, fn, [args[0], c], dty, span)
    root, path = loc(eng, st, args[0])
    old = as_string(eng.read(st, root, path))
    eng.write(st, root, path, cat([old, c]))
    return [(st, ok(UNIT))]


@model("Formatter::debug_struct_field1_finish", "Formatter::debug_struct_field2_finish", "Formatter::debug_struct_field3_finish", "Formatter::debug_struct_field4_finish",
       "Formatter::debug_struct_field5_finish", "Formatter::debug_struct_fields_finish",
       "Formatter::debug_tuple_field1_finish", "Formatter::debug_tuple_field2_finish", "Formatter::debug_tuple_field3_finish", "Formatter::debug_tuple_fields_finish")
def m_dbgfin(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, ok(UNIT))]


@model("Display::fmt", "Debug::fmt")
def m_dispfmt(eng, fr, blk, st, fn, args, atys, dty, span):
    root, path = loc(eng, st, args[1])
    out = []
    if fn.get("trait") == "std::fmt::Debug":
        lst = [(st, new_str("dbg", "fmt", content(eng, st, args[0])))]
    else:
        lst = display(eng, fr, blk, st, args[0], atys[0], span, "dispfmt")
    for s, c in lst:
        old = as_string(eng.read(s, root, path))
        eng.write(s, root, path, cat([old, c]))
        out.append((s, ok(UNIT)))
    return out


@model("ToString::to_string")
def m_to_string(eng, fr, blk, st, fn, args, atys, dty, span):
    ty = atys[0]
    return display(eng, fr, blk, st, args[0], ty, span, "to_string")


@model("io::_eprint", "io::_print", "stdio::_eprint", "stdio::_print")
def m_eprint(eng, fr, blk, st, fn, args, atys, dty, span):
    eng.emit("print", fr, st, blk, span, args=args)
    return [(st, UNIT)]


# ---------------------------------------------------------------- io
def io_call(eng, fr, blk, st, fn, args, dty, span):
    """fallible I/O operation: both outcomes"""
    name = norm(fn["path"])
    cont = [content(eng, st, a) for a in args]
    okty, errty = inner(dty, 0), inner(dty, 1)
    e = eng.fresh(fr, blk, ("ioerr", name), errty)
    a, b = st.fork(), st.fork()
    b.ghost["ioerr"] = e
    seq = b.ghost.get("ioseq", ())
    eng.emit("io", fr, st, blk, span, name=name, args=args, contents=cont, err=e, fn=fn)
    if okty == ("tuple", ()):
        v = UNIT
    else:
        v = eng.fresh(fr, blk, ("iook", name), okty)
    a.ghost["ioseq"] = seq + ((name, tuple(cont), v),)
    b.ghost["ioseq"] = seq + ((name, tuple(cont), e),)
    b.ghost["ioerrs"] = b.ghost.get("ioerrs", ()) + (e,)
    return [(a, ok(v)), (b, err(e))]


@model("fs::read_to_string", "fs::write", "fs::create_dir_all", "fs::create_dir", "fs::read", "File::open", "File::create", "fs::remove_file", "fs::rename", "fs::copy",
       "fs::metadata", "fs::canonicalize", "Write::write_all", "Write::write", "Write::flush", "File::sync_all", "OpenOptions::open", "fs::remove_dir_all", "fs::read_dir", "File::sync_data", "File::set_len", "DirBuilder::create")
def m_io(eng, fr, blk, st, fn, args, atys, dty, span):
    if fn.get("trait") == "std::io::Write" or "fs::" in fn["path"] or "io::" in fn["path"]:
        return io_call(eng, fr, blk, st, fn, args, dty, span)
    return NotImplemented


@model("Read::read_to_string", "Read::read_to_end", "Read::read", "io::read_to_string", "BufRead::read_line", "Read::read_exact")
def m_read(eng, fr, blk, st, fn, args, atys, dty, span):
    out = []
    for s, v in io_call(eng, fr, blk, st, fn, args, dty, span):
        if len(args) > 1:
            root, path = loc(eng, s, args[1])
            old = eng.read(s, root, path)
            got = typed(mk("sym", (fr.ctx, blk), ("input", v.a[2])), STRTY)
            if is_str(old):
                eng.write(s, root, path, cat([old, got]))
            else:
                eng.write(s, root, path, eng.fresh(fr, blk, "inputbytes", type_of(old)))
        out.append((s, v))
    return out


@model("BufWriter::new", "BufReader::new", "LineWriter::new", "BufWriter::with_capacity", "BufReader::with_capacity", "Read::take", "BufWriter::into_inner",
       "BufWriter::get_mut", "BufReader::get_mut")
def m_buf(eng, fr, blk, st, fn, args, atys, dty, span):
    k = norm(fn["path"])
    if k.endswith("into_inner") or k.endswith("get_mut"):
        return NotImplemented
    if k == "Read::take":
        return [(st, typed(mk("io", "take", args[0], args[1]), dty))]
    return [(st, typed(mk("io", k.split("::")[0], args[-1]), dty))]


@model("Path::exists", "Path::is_dir", "Path::is_file", "Error::kind", "Path::try_exists")
def m_fsq(eng, fr, blk, st, fn, args, atys, dty, span):
    if "Path" not in fn["path"] and "io::" not in fn["path"]:
        return NotImplemented
    if fn["name"] == "try_exists":
        return NotImplemented
    return [(st, eng.wrap(mk("fsq", fn["name"], content(eng, st, args[0])), dty))]


@model("Error::new", "Error::other")
def m_ioerr(eng, fr, blk, st, fn, args, atys, dty, span):
    if "io::" not in fn["path"]:
        return NotImplemented
    return [(st, eng.wrap(mk("ioerrof", tuple(eng.deep(st, a) for a in args)), dty))]


@model("OpenOptions::new")
def m_openopts(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, typed(agg("std::fs::OpenOptions", 0, "", ()), dty))]


@model("OpenOptions::write", "OpenOptions::create", "OpenOptions::truncate", "OpenOptions::append", "OpenOptions::read", "OpenOptions::create_new")
def m_openopt(eng, fr, blk, st, fn, args, atys, dty, span):
    if args[0].op != "ref":
        return NotImplemented
    root, path = loc(eng, st, args[0])
    old = eng.read(st, root, path)
    if old.op != "agg":
        return NotImplemented
    eng.write(st, root, path, typed(agg("std::fs::OpenOptions", 0, "", old.a[3] + (tup(lit(fn["name"]), args[1]),)), type_of(old)))
    return [(st, args[0])]


@model("Path::parent", "Path::file_name", "Path::extension", "Path::file_stem")
def m_parent(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, eng.wrap(mk("pathfn", fn["name"], content(eng, st, args[0])), dty))]


@model("Path::new", "PathBuf::from", "PathBuf::as_path", "Path::to_path_buf", "PathBuf::new")
def m_pathnew(eng, fr, blk, st, fn, args, atys, dty, span):
    if not args:
        return NotImplemented
    c = content(eng, st, args[0])
    if c.op != "path":
        c = typed(mk("path", c), ("adt", "std::path::Path", ()))
    if dty and dty[0] == "ref":
        return [(st, E.mkref(("V", c), ()))]
    return [(st, c)]


# ---------------------------------------------------------------- regex / once cells
@model("Regex::new")
def m_regex_new(eng, fr, blk, st, fn, args, atys, dty, span):
    p = sc(eng, st, args[0])
    if p.op == "lit":
        import rx
        okk = rx.valid(p.a[0])
        if okk:
            return [(st, ok(typed(mk("regex", p), inner(dty))))]
        return [(st, err(eng.fresh(fr, blk, "regexerr", inner(dty, 1))))]
    return [(st.fork(), ok(typed(mk("regex", p), inner(dty)))), (st.fork(), err(eng.fresh(fr, blk, "regexerr", inner(dty, 1))))]


@model("Regex::is_match")
def m_is_match(eng, fr, blk, st, fn, args, atys, dty, span):
    r = content(eng, st, args[0])
    s = sc(eng, st, args[1])
    b = typed(mk("pr", "re", r, s), ("bool",))
    if r.op == "regex" and r.a[0].op == "lit":
        import rx
        if s.op == "lit":
            v = rx.match_lit(r.a[0].a[0], s.a[0])
            if v is not None:
                return [(st, boolean(v))]
        if rx.accepts_empty_only_ws(r.a[0].a[0]):
            pass
        if st.eval(eqz(slen(s))) is True:
            v = rx.match_lit(r.a[0].a[0], "")
            if v is not None:
                return [(st, boolean(v))]
    return [(st, b)]


@model("OnceCell::new", "OnceLock::new")
def m_once(eng, fr, blk, st, fn, args, atys, dty, span):
    return [(st, typed(mk("once"), dty))]


@model("OnceCell::get_or_init", "OnceLock::get_or_init")
def m_goi(eng, fr, blk, st, fn, args, atys, dty, span):
    t = dty[2] if dty and dty[0] == "ref" else None
    out = []
    for s, v in callf(eng, fr, blk, st, args[1], [], t, span, "init"):
        out.append((s, E.mkref(("V", v), ())))
    return out


@model("Rc::clone", "Arc::clone", "thread::LocalKey::with", "LocalKey::with")
def m_with(eng, fr, blk, st, fn, args, atys, dty, span):
    return NotImplemented
