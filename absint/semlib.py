"""Running the abstract interpreter over library functions and collecting what it established."""
import os, time, traceback
import multiprocessing as mp
from terms import *
from state import State
from engine import Engine, Limit, mkref

STRING = ("adt", "std::string::String", ())


def param_type(b, i, nm):
    """instance used for a generic parameter"""
    for pr in b.get("preds") or []:
        pass
    if "Into<String>" in nm or nm.startswith("TEXT") or "Into<std::string::String>" in nm:
        return STRING
    return ("param", i, nm)


def generic_sub(p, b):
    sub = {}
    for (i, nm) in b.get("generics") or []:
        t = param_type(b, i, nm)
        if t[0] == "param":
            # named parameter bounded by Into<String>
            for q in b.get("preds") or []:
                s = str(q)
                if "Into" in s and "String" in s and (f"'{nm}'" in s or s.startswith(nm + ":") or s.startswith(f"[{i}")):
                    t = STRING
        sub[i] = t
    return sub


_TAGS = {}  # arguments of different functions are different symbols


def fresh_args(e, st, b, sub):
    out = []
    tag = _TAGS.setdefault(b["path"], "arg" + str(len(_TAGS) or ""))
    for i, t in enumerate(b["inputs"]):
        out.append(e.fresh_arg(st, f"a{i}", e.p.subst(e.p.ty(t), sub), tag))
    return out


class Run:
    """one interpreted root"""

    def __init__(self, p, key, opts=None, setup=None, tl=600, sub=None):
        self.p, self.key = p, key
        b = p.bodies[key]
        self.body = b
        e = self.e = Engine(p, opts or {})
        e.deadline = time.time() + tl
        st = State()
        self.sub = sub if sub is not None else generic_sub(p, b)
        self.args = fresh_args(e, st, b, self.sub)
        if setup:
            setup(self, st)
        self.st0 = st.fork()
        self.outs = []
        self.stopped = None
        try:
            self.outs = e.call_body(None, st, 0, key, self.args, self.sub)
        except Limit as x:
            self.stopped = "limit: " + str(x)
        except RecursionError as x:
            self.stopped = "limit: recursion"
        except Exception as x:
            self.stopped = f"{type(x).__name__}: {x}"
            self.tb = traceback.format_exc()

    def arg0(self, i):
        """initial content of argument i"""
        a = self.args[i]
        return self.e.deep(self.st0, a)

    def arg1(self, s, i):
        """content of argument i at exit state s"""
        return self.e.deep(s, self.args[i])


def obs_of(run):
    """plain data about the obligations, for reporting across processes"""
    p = run.p
    agg_ = {}
    for x in run.e.events:
        if x.kind != "ob":
            continue
        k = (p.bodies[x.key]["path"], tuple(x.span) if isinstance(x.span, (list, tuple)) else str(x.span), x.data["kind"])
        o = agg_.get(k)
        if o is None:
            agg_[k] = [x.data["ok"], "" if x.data["ok"] else short(x.data["what"]), 1]
        else:
            o[2] += 1
            if not x.data["ok"] and o[0]:
                o[0], o[1] = False, short(x.data["what"])
    return agg_


def short(s, n=220):
    s = str(s)
    return s if len(s) <= n else s[:n] + "…"


_P = None


def _job(a):
    fn, args = a
    import sys
    sys.setrecursionlimit(50000)
    try:
        return fn(_P, *args)
    except Exception:
        return ("exc", traceback.format_exc())


def parallel(p, jobs, n=None):
    """jobs: list of (function, args); results in order"""
    global _P
    _P = p
    if not jobs:
        return []
    n = min(n or os.cpu_count() or 4, len(jobs), 8)
    if n < 1:
        return [_job(j) for j in jobs]
    ctx = mp.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=1) as pool:  # a fresh process per job: results do not depend on job order
        return pool.map(_job, jobs, chunksize=1)


# ------------------------------------------------------------------ sets of roots
def is_fn(b):
    return "inputs" in b and b.get("kind") != "closure"


def public_roots(p):
    """functions callable from outside: exported functions and the methods of trait impls"""
    out = []
    for path, k in sorted(p.by_path.items()):
        b = p.bodies[k]
        if not is_fn(b) or "{closure" in path:
            continue
        if b.get("exported") or path.startswith("<") and " as " in path:
            out.append(k)
    return out


def no_mut_ref(t):
    if t[0] == "ref":
        return not t[1] and no_mut_ref(t[2])
    if t[0] in ("adt",):
        return all(no_mut_ref(x) for x in t[2] if isinstance(x, tuple))
    if t[0] == "tuple":
        return all(no_mut_ref(x) for x in t[1])
    return True


def no_ref(t):
    if t[0] in ("ref", "dyn", "param", "alias", "opaque"):
        return False
    if t[0] == "adt":
        return t[1] != "std::boxed::Box" and all(no_ref(x) for x in t[2] if isinstance(x, tuple))
    if t[0] == "tuple":
        return all(no_ref(x) for x in t[1])
    return True


def opaque_candidates(p, roots):
    """local functions below the roots that can be verified on their own: no mutable parameters, owned result"""
    from graphprops import graph
    g = graph(p)
    out = []
    for k in g.reach(roots):
        b = p.bodies[k]
        if not is_fn(b) or "{closure" in b["path"] or k in roots:
            continue
        ins = [p.ty(t) for t in b["inputs"]]
        if not all(no_mut_ref(t) for t in ins):
            continue
        if b["path"].startswith("<") or any(generic_sub(p, b)[i][0] == "param" for i, _ in b.get("generics") or []):
            continue
        o = p.ty(b["output"])
        if not no_ref(o) or o[0] in ("bool", "int"):
            continue
        if o[0] == "adt" and o[1] == "std::result::Result" and o[2][0][0] == "tuple" and not o[2][0][1]:
            continue  # checks: cheap, and callers rely on them
        out.append(k)
    return out


def job_obs(p, key, opts, tl):
    r = Run(p, key, opts, tl=tl)
    return (p.bodies[key]["path"], obs_of(r), r.stopped, dict(r.e.unknown), dict(r.e.stats), loops_of(r))


def loops_of(run):
    return []


def is_iter(v):
    if v.op == "agg":
        k = str(v.a[0])
        return k.startswith("it:") or k == "std::ops::Range"
    return False


def drive(run):
    """consume the iterators a function returned: -> items [(state, item)]"""
    from engine import Frame
    import models2
    e, key = run.e, run.key
    b = run.body
    items = []
    for n, (s, v) in enumerate(list(run.outs)):
        d = 0
        w = v
        while w.op == "ref" and d < 3 and not is_iter(w):
            try:
                w = e.read(s, w.a[0], w.a[1])
            except Exception:
                break
            d += 1
        if w.op == "agg" and w.a[0] == "std::boxed::Box" and w.a[3]:
            w = w.a[3][0]
        if not is_iter(w):
            continue
        ctx = e.ctx(0, key, "drive%d" % n, None)
        fr = Frame(ctx, key, b, b["body"], run.sub, key, e)
        e.stack.append(key)
        try:
            for back in (False, True):
                s0 = s.fork()
                if back and str(w.a[0]) == "it:flat":
                    continue
                outs, _ = models2.arbitrary_items(e, fr, 0, s0, w, b["span"], "drv%d" % back)
                items += outs
                if back:
                    models2.advance(e, fr, 0, s.fork(), w, True, b["span"], "drvb")
        finally:
            e.stack.pop()
    run.items = items
    return items
