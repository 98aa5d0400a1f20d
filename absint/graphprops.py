"""Properties decided on the resolved call graph, effects and item tables."""
from callgraph import CallGraph, inner_types

PARSE_ROOTS = ["parse_str", "parse_stream", "parse_filepath"]


def graph(p):
    if not hasattr(p, "_graph"):
        p._graph = CallGraph(p)
    return p._graph


def where(p, k):
    b = p.bodies[k]
    return f"{b['path']} ({b['span'][0]}:{b['span'][1]})" if b.get("span") else b["path"]


# ------------------------------------------------------------------ C04
def c04(p, rep):
    g = graph(p)
    roots = [p.by_path[r] for r in PARSE_ROOTS if r in p.by_path]
    if len(roots) != 3:
        rep.violate("anchor:entry-points", f"the parse entry points {PARSE_ROOTS} are not all present")
    reach = g.reach(roots)
    cyc = g.cycles(reach)
    incyc = {k for c in cyc for k in c}
    for k in reach:
        rep.ob(k not in incyc, f"{p.bodies[k]['path']} is on no call cycle")
    for c in cyc:
        names = sorted(p.bodies[k]["path"] for k in c)
        path = " -> ".join(p.bodies[k]["path"] for k in reach[c[0]])
        rep.violate("recursion:" + "+".join(names),
                    f"recursive call cycle {{{', '.join(names)}}} reachable from parsing: {path}")
    # drop glue: a dropped value of a DOM type with children recurses; on the success path nothing nested may be dropped
    rep.cover = {"functions_reachable": len(reach), "call_edges": sum(len(g.edges[k]) for k in reach), "cycles": len(cyc)}
    if len(reach) < 60:
        rep.violate("anchor:coverage", f"only {len(reach)} functions reachable from the parse entry points (at least 60 expected)")
    rep.assumptions = ["drop glue is not counted as a call", "library callbacks are followed through the table in callgraph.py (formatting, Clone, From, Default, comparison, closures)"]


# ------------------------------------------------------------------ C20
FS_READ = ("std::fs::read", "std::fs::File::open", "std::fs::metadata", "std::fs::exists", "std::fs::symlink_metadata",
           "std::path::Path::exists", "std::path::Path::try_exists", "std::path::Path::is_dir", "std::path::Path::is_file",
           "std::path::Path::metadata", "std::path::Path::canonicalize", "std::fs::canonicalize")
FS_WRITE = ("std::fs::write", "std::fs::create_dir", "std::fs::create_dir_all", "std::fs::File::create",
            "std::fs::OpenOptions::open", "std::fs::File::create_new", "std::fs::File::set_len")
FS_HANDLE = ("std::fs::OpenOptions::", "std::fs::File::options", "std::fs::File::sync_", "std::fs::Metadata::", "std::fs::DirBuilder::", "std::fs::File::metadata")


def effect_of(path):
    q = path.replace("core::", "std::").replace("alloc::", "std::")
    import re
    q = re.sub(r"::<[^:]*?>", "", q)
    if q.startswith("std::io::_eprint") or q.startswith("std::io::stderr") or q.startswith("std::io::Stderr"):
        return None
    if q.startswith("std::io::_print") or q.startswith("std::io::stdout") or q.startswith("std::io::stdin") or q.startswith("std::io::Std"):
        return "console"
    if q.startswith("std::fs::") or q.startswith("std::path::Path::"):
        if q.startswith(FS_READ):
            return "fs-read"
        if q.startswith(FS_WRITE):
            return "fs-write"
        if q.startswith(FS_HANDLE):
            return "fs-handle"
        if q.startswith("std::fs::"):
            return "fs-other"
        if q.startswith(("std::path::Path::read_", "std::path::Path::is_symlink", "std::path::Path::symlink")):
            return "fs-other"
        return None
    for pre, e in (("std::net::", "network"), ("std::env::", "environment"), ("std::process::", "process"),
                   ("std::thread::", "thread"), ("std::time::", "clock"), ("std::os::", "os"),
                   ("std::hash::RandomState", "random"), ("std::collections::hash_map::RandomState", "random"),
                   ("std::sync::atomic", "shared-state"), ("std::sync::Mutex", "shared-state"), ("std::sync::RwLock", "shared-state"),
                   ("std::sync::mpsc", "thread"), ("std::thread::LocalKey", "shared-state"), ("std::panic::", "panic-hook"),
                   ("std::arch::", "unsafe"), ("rand::", "random"), ("libc::", "os")):
        if q.startswith(pre):
            return e
    return None


ONCE = ("std::sync::OnceLock", "std::sync::LazyLock", "std::sync::Once", "std::cell::OnceCell", "std::cell::LazyCell")


def c20(p, rep):
    g = graph(p)
    # unsafe code
    for u in p.unsafes:
        rep.violate(f"unsafe:{u[0]}:{u[1][0]}", f"unsafe code ({u[0]}) at {u[1][0]}:{u[1][1]}")
    rep.ob(not p.unsafes, "no unsafe block or extern block in the crate")
    for k, b in p.bodies.items():
        if not rep.ob(not b.get("unsafe"), f"{b['path']} is a safe function", sample=False):
            rep.violate("unsafe-fn:" + b["path"], f"unsafe function {where(p, k)}")
    for im in p.impls:
        if im.get("unsafe") and not im.get("derived"):
            rep.violate("unsafe-impl:" + str(im.get("trait")), f"unsafe impl of {im.get('trait')}")
    # statics
    for s in p.statics:
        t = p.ty(s["ty"])
        once = t[0] == "adt" and t[1] in ONCE
        inner = [x for x in inner_types(t) if x[0] == "adt" and x[1] not in ONCE]
        bad = s["mut"] or (not s["freeze"] and not once) or any(
            x[1].startswith(("std::sync::atomic", "std::sync::Mutex", "std::sync::RwLock", "std::cell::RefCell", "std::cell::Cell", "std::cell::UnsafeCell")) for x in inner)
        if not rep.ob(not bad, f"static {s['key']} is immutable or initialised once"):
            rep.violate("static:" + s["key"], f"mutable global state: static {s['key']} of type {p.show(t)} ({s['span'][0]}:{s['span'][1]})")
    # effects
    allow = {}
    for k, b in p.bodies.items():
        if b["path"] == "parse_filepath":
            allow[k] = {"fs-read", "fs-handle"}
        elif b["path"].endswith("::write_to_filepath") or b["path"].endswith("::write_to_filepath_with_indent"):
            if b["exported"]:
                allow[k] = {"fs-write", "fs-handle"}
    if len(allow) != 3:
        rep.violate("anchor:file-api", f"expected parse_filepath and the two write_to_filepath functions, found {len(allow)}")
    roots = [k for k, b in p.bodies.items() if b.get("exported") and b["kind"] in ("Fn", "AssocFn")]
    # trait impl methods are reachable through the trait
    roots += [k for im in p.impls if im.get("trait") for k in im["items"].values() if k in p.bodies]
    roots = sorted(set(roots))
    nsites = 0
    for r in roots:
        bad = []
        reach = g.reach([r])
        for k, path in reach.items():
            for ep, fn, span in g.ext[k]:
                nsites += 1
                e = effect_of(ep or "")
                if e is None or e in allow.get(r, ()):
                    continue
                bad.append((e, ep, k, span, path))
        rep.ob(not bad, f"{p.bodies[r]['path']}: effects {sorted(allow.get(r, {'none'}))} only")
        for e, ep, k, span, path in bad:
            rep.violate(f"effect:{e}:{ep}:{p.bodies[k]['path']}",
                        f"{ep} ({e}) called in {p.bodies[k]['path']} ({span[0]}:{span[1]}), reached from public {p.bodies[r]['path']}")
    rep.cover = {"public_roots": len(roots), "call_sites_classified": nsites, "statics": len(p.statics), "unsafe_blocks": len(p.unsafes)}
    if len(roots) < 150:
        rep.violate("anchor:coverage", f"only {len(roots)} public functions found")


CHECKS = {"C04": c04, "C20": c20}
EXPLAIN = {
    "C04": "resolved call graph (trait calls to all implementors, library callbacks, closures) from the three parse entry points must be acyclic",
    "C20": "effect inference: union of classified external callees over the call graph of every public function, plus inventory of unsafe code and statics",
}
