"""C01 / C02: no panic site is reachable for any argument values (abstract interpretation of the MIR)."""
import time
import semlib
from semlib import Run, obs_of, parallel, public_roots, opaque_candidates, drive

PARSERS = ("parse_str", "parse_stream", "parse_filepath")
# conversions whose documentation states that they panic on invalid text
DOCUMENTED = ("<dom::CData as std::convert::From<&str>>::from", "<dom::CData as std::convert::From<std::string::String>>::from",
              "<dom::Comment as std::convert::From<&str>>::from", "<dom::Comment as std::convert::From<std::string::String>>::from")
MIN_BLOCKS = 40


def job(p, key, opts, tl, drv=True):
    r = Run(p, key, opts, tl=tl)
    if drv and not r.stopped:
        try:
            drive(r)
        except Exception as x:
            r.stopped = "limit: " + str(x)[:100]
    lost = set()
    for x in r.e.events:
        if x.kind == "ob" and not x.data["ok"] and any(t[0] == "arena_lost" for t in x.st.tags):
            lost.add((p.bodies[x.key]["path"], tuple(x.span) if isinstance(x.span, (list, tuple)) else str(x.span), x.data["kind"]))
    return {"path": p.bodies[key]["path"], "obs": obs_of(r), "stopped": r.stopped, "unknown": dict(r.e.unknown),
            "stats": dict(r.e.stats), "lost": lost}


def report(p, rep, root, d, done):
    """enter one root's obligations into the report"""
    if isinstance(d, tuple):
        rep.undecide(f"{root}: analysis stopped: {d[1].strip().splitlines()[-1]}")
        return
    if d["stopped"]:
        rep.undecide(f"{root}: not completed ({d['stopped']})")
    for (fn, span, kind), (ok, what, n) in sorted(d["obs"].items(), key=str):
        loc = f"{span[0]}:{span[1]}" if isinstance(span, tuple) else span
        text = f"{fn} at {loc}: {kind}: {what or 'excluded on every path'} (from {d['path']}, {n} path(s))"
        if not ok and ((fn, span, kind) in d["lost"] or d["unknown"] or d["stopped"]):
            rep.undecide(text + f" [imprecise: {'arena' if (fn, span, kind) in d['lost'] else d['unknown'] or d['stopped']}]")
            continue
        rep.ob(ok, text, sample=n < 4)
        if not ok:
            rep.violate(f"{fn}|{kind}|{loc}", "panic reachable: " + text)


def verified_callees(p, roots):
    """callees that, analysed for arbitrary arguments, have no reachable panic: used as uninterpreted functions above"""
    c = opaque_candidates(p, roots)
    res = parallel(p, [(job, (k, {}, 120, False)) for k in c])
    op = []
    for k, r in zip(c, res):
        if isinstance(r, tuple) or r["stopped"] or r["unknown"]:
            continue
        if all(v[0] for v in r["obs"].values()) and r["stats"]["blocks"] >= MIN_BLOCKS:
            op.append(k)
    return op, dict(zip(c, res))


def c01(p, rep):
    t0 = time.time()
    roots = [p.by_path[x] for x in PARSERS if x in p.by_path]
    op, callee = verified_callees(p, roots)
    main = p.by_path.get("parse_str")
    inner = [k for k in roots if k == main]
    outer = [k for k in roots if k != main]
    res = {}
    if main is not None:
        d = semlib.parallel(p, [(job, (main, {"opaque": frozenset(op)}, 400, False)), ] * 1)[0]
        if not isinstance(d, tuple) and (d["stopped"] or any(not v[0] for v in d["obs"].values())) and op and time.time() - t0 < 420:
            # decide again without abstracting the callees
            d2 = job(p, main, {}, 840 - (time.time() - t0), False)
            if not d2["stopped"]:
                d = d2
        res[main] = d
    oo = frozenset(op) | frozenset(inner)
    for k, d in zip(outer, semlib.parallel(p, [(job, (k, {"opaque": oo}, 200, False)) for k in outer])):
        res[k] = d
    for k in op:
        report(p, rep, p.bodies[k]["path"], callee[k], None)
    for k in roots:
        report(p, rep, p.bodies[k]["path"], res[k], None)
    rep.cover["entry points"] = [p.bodies[k]["path"] for k in roots]
    rep.cover["callees proved on their own"] = [p.bodies[k]["path"] for k in op]
    st = [d["stats"] for d in res.values() if not isinstance(d, tuple)]
    rep.cover["basic blocks interpreted"] = sum(s["blocks"] for s in st)
    rep.cover["loops abstracted"] = sum(s["loops"] for s in st)
    rep.assumptions += ASSUME


ASSUME = ["allocation never fails and no collection or string exceeds isize::MAX bytes",
          "additions on usize and other types of 32 bits or more do not overflow",
          "models of std, regex and dyn_clone functions in absint/models*.py"]


def c02(p, rep):
    roots = [k for k in public_roots(p) if p.bodies[k]["path"] not in PARSERS]
    skip = [k for k in roots if p.bodies[k]["path"] in DOCUMENTED]
    roots = [k for k in roots if k not in skip]
    res = parallel(p, [(job, (k, {}, 250)) for k in roots])
    for k, d in zip(roots, res):
        report(p, rep, p.bodies[k]["path"], d, None)
    rep.cover["entry points"] = len(roots)
    rep.cover["entry points left out (documented panics)"] = [p.bodies[k]["path"] for k in skip]
    rep.cover["basic blocks interpreted"] = sum(d["stats"]["blocks"] for d in res if not isinstance(d, tuple))
    rep.assumptions += ASSUME + ["closures given by the caller do not panic and return"]


CHECKS = {"C01": c01, "C02": c02}
EXPLAIN = {
    "C01": "Abstract interpretation of the MIR reachable from the parse entry points for arbitrary input text: every index, slice, character boundary, unwrap/expect, subtraction, small-integer addition and explicit panic is an obligation.",
    "C02": "The same for every other public function and trait method, for arbitrary arguments and arbitrary document values; lazily evaluated iterators they return are advanced from an arbitrary position.",
}
