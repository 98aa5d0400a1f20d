"""C23: bulk removal removes the matching children, all of them, no other, and counts them."""
from terms import *
from semlib import Run, short, parallel
from summ import felem, fields_of, elem_agg, ufn, ftype, is_mut_elem, ELEMENT, ET
from domlib import *
import domrules
from domrules import kids, opts, incomplete, ASSUME

DIRECT = {"dom::Element::remove_by": "node", "dom::Element::remove_elements": "element", "dom::Element::remove_elements_by_name": "name"}
DEEP = {"dom::Element::remove_all": "node", "dom::Element::remove_all_elements": "element"}
LOSSY = {"it:take", "it:skip", "it:step"}


def s_rec(eng, fr, st, blk, key, args, sub):
    """removal inside a child: its children and the number removed become terms"""
    b = eng.p.bodies[key]
    if not b.get("inputs") or not is_mut_elem(eng.p.ty(b["inputs"][0])) or eng.p.ty(b["output"])[0] != "int" or args[0].op != "ref":
        return None
    a = args[0]
    v = eng.read(st, a.a[0], a.a[1])
    c = [v] + [eng.deep(st, x) for x in args[1:]]
    F = felem(eng.p)
    fs = fields_of(eng, v)
    fs[F["child_nodes"]] = ufn(eng, "reck", c, ftype(eng.p, F["child_nodes"]))
    eng.write(st, a.a[0], a.a[1], elem_agg(eng, fs))
    return [(st, ufn(eng, "recn", c, eng.p.ty(b["output"])))]


class Removal(Judge):
    def __init__(self, p, key, mode, deep):
        self.p, self.key, self.mode, self.deep = p, key, mode, deep
        self.f = Findings()
        o = opts(p)
        o["recsum"] = s_rec
        o["itloops"] = True
        if deep:
            for n in DEEP:
                k = p.by_path.get(n)
                if k is not None and k != key:
                    o["summaries"][k] = s_rec
        self.run = Run(p, key, o, tl=250)
        self.path, self.W = self.run.body["path"], where(p, key)
        self.e = self.run.e
        self.seen = {}

    # -------------------------------------------------------- the predicate
    def match(self, s, x):
        """True / False / None (not evaluated) / "?" """
        ks = self.e.kind_of(s, x)
        if self.mode != "node" and "Element" not in ks:
            return False
        vals = set()
        for b, v in s.bools.items():
            if b.op == "app" and any(y is x for y in b.a[1]):
                vals.add(v)
            elif b.op == "app" and any(y is z for y in b.a[1] for z in views(self.e, s, x)):
                vals.add(v)
            elif self.mode == "name" and b.op == "eq":
                nm = self.ename(x)
                if nm is not None and any(y is nm for y in b.a) and any(self.isarg(y) for y in b.a):
                    vals.add(v)
        if vals == {True}:
            return True if self.mode == "node" or ks == {"Element"} else "?"
        if vals == {False}:
            return False
        if vals:
            return "?"
        return None

    def ename(self, x):
        if x.op == "agg" and x.a[0] == ELEMENT:
            return fields_of(self.e, x)[felem(self.p)["name"]]
        return fields_of(self.e, x)[felem(self.p)["name"]]

    # -------------------------------------------------------- scans
    def collector(self, L, C):
        """L lists the positions of the matching children of C; returns its direction or None"""
        c = cell(L)
        l = loop_of(self.run, c) if c is not None else None
        if l is None:
            self.und(f"list of positions {short(L)}")
            return None
        if (c, C) in self.seen:
            return self.seen[(c, C)]
        self.seen[(c, C)] = None
        for s, v in l.entries(c):
            if v is None or v.op != "vec" or v.a[0]:
                self.und(f"positions start as {short(v)}")
                return None
        cnt = [x for x in l.counters() if x[1] in (1, -1)]
        if len(cnt) != 1:
            self.und("scan counter not recognised")
            return None
        ph, step, es = cnt[0]
        q = None
        for s, v in l.nexts(c):
            if v is not None and v.op == "vpush" and v.a[0] is c and v.a[1].op == "lin":
                d = lsub(v.a[1], atom(ph))
                if is_const(d):
                    q = v.a[1]
        if q is None:
            self.und("recorded position not recognised")
            return None
        off = lsub(q, atom(ph))
        self.coverage(l, c, q, [(x, ladd(v, off)) for x, v in zip(l.entries(ph), es)], step, lambda s: vlen(C), "the scan for matching nodes",
                      lambda st: self.match(st, self.e.velem(st, C, q)) is not None)
        for s, v in l.nexts(c):
            x = self.e.velem(s, C, q)
            m = self.match(s, x)
            if v is c:
                self.kept(s, m, x)
            elif v.op == "vpush" and v.a[0] is c and s.same(v.a[1], q):
                self.taken(s, m, x)
            else:
                self.und(f"list step {short(v)}")
        self.seen[(c, C)] = step
        return step

    def kept(self, s, m, x):
        if m is False:
            self.ok("a node is kept only when it does not match")
        elif m is True:
            self.bad("kept", "a matching node may be kept")
        elif m is None and set(s.bools):
            self.und(f"kept: {short(x)}")
        elif m is None:
            self.bad("kept", "a node may be kept without evaluating the predicate on it")
        else:
            self.und("match of a kept node")

    def taken(self, s, m, x):
        if m is True:
            self.ok("a node is removed only when it matches")
        elif m is False:
            self.bad("taken", "a node that does not match may be removed")
        elif m is None and not any(b.op in ("app", "eq") for b in s.bools):
            self.bad("taken", "a node may be removed without evaluating the predicate on it")
        elif m is None and self.mode == "name" and any(v and b.op == "eq" and any(self.isarg(y) for y in b.a) and any(self.around(x, y) for y in b.a) for b, v in s.bools.items()):
            self.bad("taken", "an element may be removed because the argument equals something else than its name")
        else:
            self.und("match of a removed node")

    def isarg(self, y):
        return y.op == "sym" and "arg" in str(y.a[1])

    def around(self, x, y):
        return y.op == "cat" and any(z is self.ename(x) for z in subs(y))

    def direct(self, s, K, C, N):
        """K is C without the matching nodes, N their number (None: not judged)"""
        K = strip(K)
        if K is C:
            if s.entails(lsub(num(0), vlen(C))):
                self.ok("no children to remove")
                return
            for l in loops(self.run):
                for c in l.loc:
                    if any(v is not None and v.op == "vec" for _, v in l.entries(c)) and s.entails(lsub(num(0), vlen(c))):
                        self.collector(c, C)
                        self.ok("no matching node found")
                        return
            if s.entails(lplus(vlen(C), -1)) and not any(x.op == "phi" for t in s.bools for x in subs(t)):
                self.bad("unscanned", "returns without removing although there are children")
            else:
                self.und("children unchanged on an exit")
            return
        k, b = 0, K
        while b.op == "vremove":
            k, b = k + 1, b.a[0]
        if k and b is C:
            if s.entails(lsub(num(k), vlen(C))):
                self.und("fixed number of removals")
            else:
                self.bad("few", f"removes at most {k} of the children")
            return
        if K.op == "vretain" and K.a[0] is C:
            return self.retained(s, K, C, N)
        c = cell(K)
        l = loop_of(self.run, c) if c is not None else None
        if l is None:
            self.und(f"remaining children {short(K)}")
            return
        for b, v in l.entries(c):
            if v is not C:
                self.und(f"children before the removal: {short(v)}")
                return
        rms = [(b, v) for b, v in l.nexts(c) if v is not c]
        if any(v is not None and v.op == "vremove" and v.a[0].op == "vset" and v.a[0].a[0] is c for _, v in rms):
            self.bad("swap", "a removal moves the last child to another position")
            return
        if any(v is None or v.op != "vremove" or v.a[0] is not c for _, v in rms) or not rms:
            self.und(f"removal step {[short(v) for _, v in rms]}")
            return
        idx = rms[0][1].a[1]
        a = idx.a[1][0][0] if idx.op == "lin" and len(idx.a[1]) == 1 and idx.a[0] == 0 else None
        if a is not None and a.op == "elem" and cell(a.a[0]) is not None and a.a[0] is not c:
            self.from_list(l, c, C, a, s, N)
        else:
            self.in_place(l, c, C, rms, s, N)

    def retained(self, s, K, C, N):
        for ev in self.e.events:
            if ev.kind == "retain" and ev.data["old"] is C:
                for st, args, v in ev.data["outs"]:
                    r = args[0]
                    x = self.e.deref(st, r) if r.op == "ref" else r
                    b = st.eval(v) if hasattr(st, "eval") else None
                    b = v is TRUE if v in (TRUE, FALSE) else st.bools.get(v)
                    if b is None and v.op == "not":
                        b = st.bools.get(v.a[0])
                        b = None if b is None else not b
                    m = self.match(st, x)
                    if b is True:
                        self.kept(st, m, x)
                    elif b is False:
                        self.taken(st, m, x)
                    elif v.op == "not" and self.matches_term(st, v.a[0], x) and m is None:
                        self.ok("exactly the nodes that do not match are kept")
                    elif self.matches_term(st, v, x) and m is None:
                        self.bad("kept", "the matching nodes are kept")
                    else:
                        self.und(f"retained when {short(v)}")
                break
        else:
            self.und("retain not analysed")
        if N is not None:
            if s.same(N, lsub(vlen(C), vlen(K))):
                self.ok("the difference in length is returned")
            elif N.op == "lin" and is_const(lsub(N, lsub(vlen(C), vlen(K)))) or s.same(N, vlen(C)) or s.same(N, vlen(K)):
                self.bad("count", f"returns {show(N)} instead of the difference in length")
            else:
                self.und(f"count {short(N)}")

    def matches_term(self, s, b, x):
        s = s.fork()
        s.bools = dict(s.bools)
        s.bools[b] = True
        return self.match(s, x) is True

    def from_list(self, l, c, C, a, s, N):
        L, j = a.a[0], a.a[1]
        if any(v is c for _, v in l.nexts(c)):
            self.und("a listed node may be left")
        if l.own(L):  # the list itself shrinks while the nodes are removed
            es = {v for _, v in l.entries(L)}
            ns = [v for _, v in l.nexts(L)]
            L1 = es.pop() if len(es) == 1 else None
            if L1 is None or L1.op != "phi" or j is not lplus(vlen(L), -1) or not all(
                    v is not None and v.op in ("vremove", "vslice", "vcut") and v.a[0] is L and s0.same(vlen(v), lplus(vlen(L), -1)) for s0, v in l.nexts(L)):
                self.und(f"shrinking list of positions {short(ns)}")
                return
            d = self.collector(L1, C)
            for _, x in l.exits_of(c):
                if x.entails(lsub(num(0), vlen(L))):
                    self.ok("the removal goes on until the list is used up")
                else:
                    self.und("end of the removal")
            if d is not None:
                if d == 1:
                    self.ok("positions are removed from the last to the first")
                else:
                    self.bad("order", "positions are removed in ascending order although each removal shifts the later ones")
            L = L1
        else:
            d = self.collector(L, C)
            cnt = {x[0]: x for x in l.counters()}
            jc = [t for t, _ in j.a[1] if t.op == "phi" and t in cnt] if j.op == "lin" else []
            if len(jc) != 1 or cnt[jc[0]][1] not in (1, -1):
                self.und(f"order of removal {short(j)}")
            else:
                ph, step, es = cnt[jc[0]]
                off = lsub(j, atom(ph))
                self.coverage(l, c, j, [(x, ladd(v, off)) for x, v in zip(l.entries(ph), es)], step, lambda s: vlen(L), "the removal of the listed nodes", lambda st: l.at(st, c) is not c)
                if d is not None:
                    if d * step == -1:
                        self.ok("positions are removed from the last to the first")
                    else:
                        self.bad("order", "positions are removed in ascending order although each removal shifts the later ones")
        if N is not None:
            if s.same(N, vlen(L)):
                self.ok("the number of listed nodes is returned")
            elif N.op == "lin" and is_const(lsub(N, vlen(L))):
                self.bad("count", f"returns {show(N)} for {show(vlen(L))} removed nodes")
            elif not self.counts(l, c, N, s):
                self.und(f"count {short(N)}")

    def counts(self, l, c, N, s):
        """N is a cell counting the removals of the loop"""
        n = cell(N)
        if s.same(N, lsub(vlen(self.C0), vlen(c))):
            self.ok("the difference in length is returned")
            return True
        if n is None or not l.own(n):
            if N.op == "lin" and not any(x.op in ("phi", "fresh", "call", "elem") for x in subs(N)):
                self.bad("count", f"returns {show(N)}")
                return True
            return False
        for b, v in l.entries(n):
            if v is None or not is_const(v):
                return False
            if cval(v) != 0:
                self.bad("count", f"counting starts at {cval(v)}")
                return True
        for b, v in l.nexts(n):
            w = l.at(b, c)
            if v is None or v.op != "lin" or w is None:
                return False
            dlt = lsub(v, atom(n))
            want = 0 if w is c else 1
            if not is_const(dlt) and (is_const(v) or any(x.op == "wrapadd" for x in subs(v))):
                self.bad("count", "the count can reach the limit of its type and be wrong")
                return True
            if not is_const(dlt):
                return False
            if cval(dlt) != want:
                self.bad("count", f"a step that removes {want} nodes counts {cval(dlt)}")
                return True
        self.ok("every removal is counted once")
        return True

    def in_place(self, l, c, C, rms, s, N):
        cnt = [x for x in l.counters() if x[1] in (1, -1)]
        idx = rms[0][1].a[1]
        dn = [x for x in cnt if x[1] == -1 and is_const(lsub(idx, atom(x[0])))]
        if dn:
            ph, step, es = dn[0]
            q = ladd(atom(ph), lsub(idx, atom(ph)))
            self.coverage(l, c, q, [(x, ladd(v, lsub(q, atom(ph)))) for x, v in zip(l.entries(ph), es)], -1, lambda st: vlen(C), "the removal scan",
                          lambda st: self.match(st, self.e.velem(st, c, q)) is not None)
        else:
            pc = [t for t in idx.a[1] if t[0].op == "phi"] if idx.op == "lin" else []
            ph = pc[0][0] if len(pc) == 1 and l.own(pc[0][0]) else None
            if ph is None:
                self.und(f"removal at {short(idx)}")
                return
            q = idx
            ents = [(x, x[1]) for x in l.entries(ph)]
            if any(x[1] is None or x[1].op != "lin" for x in l.entries(ph)) or any(v is None or v.op != "lin" for _, v in l.nexts(ph)):
                self.und("removal position")
                return
            for b, v in l.nexts(ph):
                w = l.at(b, c)
                dlt = lsub(v, atom(ph))
                want = 1 if w is c else 0
                if not is_const(dlt):
                    self.und(f"position step {short(v)}")
                elif cval(dlt) != want:
                    self.bad("skips", "the node after a removed one is skipped" if want == 0 else f"the scan moves by {cval(dlt)} after keeping a node")
                else:
                    self.ok("the scan moves on exactly when the node is kept")
            self.coverage(l, c, q, ents, 1, lambda st: vlen(c), "the removal scan", lambda st: False)
        for b, v in l.nexts(c):
            x = self.e.velem(b, c, q)
            m = self.match(b, x)
            if v is c:
                self.kept(b, m, x)
            elif b.same(v.a[1], q):
                self.taken(b, m, x)
            else:
                self.und(f"removes at {short(v.a[1])}")
        if N is not None and not self.counts(l, c, N, s):
            self.und(f"count {short(N)}")

    # -------------------------------------------------------- the whole function
    def judge(self):
        run = self.run
        if incomplete(run, self.f):
            return self.f.items
        x0 = run.arg0(0)
        C = self.C0 = kids(run, x0)
        done = set()
        for s, v in run.outs:
            x1 = run.arg1(s, 0)
            for n, old, new in diffs(self.e, s, x0, x1):
                if n == "child_nodes":
                    continue
                if not certain_change(new, old):
                    self.und(f"'{n}' may change")
                else:
                    self.bad(f"touches-{n}", f"also changes '{n}'")
            K = kids(run, x1)
            (self.descend if self.deep else self.direct)(s, K, C, v)
        return self.f.items

    def descend(self, s, K, C, N):
        K = strip(K)
        ls = [l for l in loops(self.run) if self.rec_loop(l)]
        for l in ls:
            if id(l.ev) not in self.seen:
                self.seen[id(l.ev)] = True
                self.descent(l, C)
        if not ls:
            if any(x.op == "call" and x.a[0] in ("recn", "reck") for x in list(subs(N)) + list(subs(K))):
                self.und("recursion outside a loop")
            elif self.run.e.unknown:
                self.und("no recursion found")
            else:
                self.bad("no-descent", "never descends into the children")
            return
        own = [l for l in ls if l.own(K) or any(l.own(x) for x in subs(K))]
        if own:
            self.final(own[0], K, N)
        elif K.op == "phi" and s.entails(lsub(num(0), vlen(K))) or K is C and s.entails(lsub(num(0), vlen(C))):
            self.ok("no children left to descend into")
        elif not self.dominates(ls):
            self.bad("no-descent", "may return without descending into the remaining children")
        else:
            self.direct(s, K, C, N)

    def rec_loop(self, l):
        for b in l.backs:
            for loc in l.loc.values():
                v = l.val(b, loc)
                if v is not None and any(x.op == "call" and x.a[0] in ("recn", "reck") for x in subs(v)):
                    return True
        return False

    def dominates(self, ls):
        """does the descent come before every return of the function (when it is in the function itself)"""
        ls = [l for l in ls if l.ev.key == self.key]
        if not ls:
            return True
        b = self.run.body
        order, succ, lp = self.p.cfg(self.key, b["body"])
        hs = {plain(l.ev.blk) for l in ls}
        seen, work = set(), [0]
        while work:
            x = work.pop()
            if x in seen or x in hs:
                continue
            seen.add(x)
            work += list(succ.get(x, ()) if isinstance(succ, dict) else succ[x])
        rets = {x for x in order if not (succ.get(x) if isinstance(succ, dict) else succ[x])}
        rets = {x for x in rets if b["body"]["blocks"][x]["t"][0] in ("return", "Return")}
        return not (seen & rets)

    def final(self, l, K, N):
        """N = number removed among the children + what the descent adds up"""
        fs = [t for t, k in N.a[1] if l.own(t) and t.op == "phi"] if N.op == "lin" else []
        sums = self.sums(l)
        if len(fs) != 1 or fs[0] not in sums or not all(k == 1 for t, k in N.a[1] if t is fs[0]):
            if N.op == "lin" and not fs and not any(x.op == "fresh" or x.op == "reduce" for x in subs(N)) and sums:
                self.bad("count", f"returns {short(N)} without the nodes removed below the children")
            elif N.op == "lin" and not fs and not any(x.op in ("fresh", "reduce") for x in subs(N)) and not sums:
                self.bad("count", "nodes removed below the children are not counted")
            else:
                self.und(f"count {short(N)}")
            return
        n = fs[0]
        self.ok("the accumulated count is returned")
        rest = lsub(N, atom(n))
        for b in l.entry:
            v = l.val(b, l.loc[n])
            for c in self.lists(l):
                k = l.val(b, l.loc[c])
                if k is None or v is None or v.op != "lin":
                    self.und("count before the descent")
                elif ("first", k, b) not in self.seen:
                    self.seen[("first", k, b)] = True
                    self.direct(b, k, self.C0, ladd(v, rest))

    def has(self, v, n):
        return v is not None and any(x.op == "call" and x.a[0] == n for x in subs(v))

    def lists(self, l):
        return [t for t, loc in l.loc.items() if any(self.has(l.val(b, loc), "reck") for b in l.backs)]

    def sums(self, l):
        return [t for t, loc in l.loc.items() if any(self.has(l.val(b, loc), "recn") and not self.has(l.val(b, loc), "reck") for b in l.backs)]

    def descent(self, l, C):
        has = lambda v, n: v is not None and any(x.op == "call" and x.a[0] == n for x in subs(v))
        locs = set(l.loc.values())
        lists = [c for c in locs if any(has(l.val(b, c), "reck") for b in l.backs)]
        sums = [c for c in locs if any(has(l.val(b, c), "recn") for b in l.backs) and c not in lists]
        for h, b in l.steps():
            ks = [(l.val(h, c), l.val(b, c)) for c in lists]
            calls = [x for _, v in ks if v is not None for x in subs(v) if x.op == "call" and x.a[0] == "reck"]
            old = {x for v, _ in ks if v is not None for x in subs(v)}
            calls = [x for x in calls if x not in old]
            if not calls:
                hit = [t for t, k in b.kinds.items() if k == {"Element"} and t.op == "elem" and any(t.a[0] is o for o, _ in ks)]
                if hit and all(v is o for o, v in ks):
                    self.bad("descent-skip", "an element child may be skipped by the descent")
                elif any(t.op == "elem" and "Element" not in k and any(t.a[0] is o for o, _ in ks) for t, k in b.kinds.items()):
                    self.ok("only non-element children are not descended into")
                else:
                    self.und("descent step without recursion")
                continue
            if not sums:
                continue
            for c in sums:
                u, v = l.val(h, c), l.val(b, c)
                if u is None or v is None or u.op != "lin" or v.op != "lin":
                    self.und("count step of the descent")
                    continue
                d = lsub(v, u)
                if d.a[0] == 0 and len(d.a[1]) == 1 and d.a[1][0][1] == 1 and d.a[1][0][0].op == "call" and d.a[1][0][0].a[0] == "recn":
                    self.ok("nodes removed below a child are added to the count")
                elif len(l.heads) > 1 and not l.src.get(id(b)):
                    self.und("count step of the descent")
                elif len(v.a[1]) == 1 and v.a[1][0][0].op == "call":
                    self.bad("descent-count", "the count is replaced by that of one child")
                elif is_const(d) and d is not None:
                    self.bad("descent-count", f"the count changes by {show(d)} instead of the number removed below the child")
                else:
                    self.bad("descent-count", f"the count changes by {short(d)} instead of the number removed below the child") if all(
                        t.op == "call" or t.op == "phi" for t, _ in d.a[1]) else self.und("count step of the descent")
        for hd in l.heads:
            for r, v in hd.mem.items():
                for x in subs(v):
                    if x.op == "agg" and x.a[0] in LOSSY and any(y.op == "agg" and str(y.a[0]).startswith("it:") for y in subs(x)):
                        self.bad("descent-part", f"the descent visits only part of the children ({x.a[0]})")
        iterating = any(x.op == "agg" and str(x.a[0]).startswith("it:") for hd in l.heads for v in hd.mem.values() for x in subs(v))
        if len({bl for bl, _ in l.exits}) > 1:
            cut = False
            for h in l.heads:
                for _, x in l.exits:
                    for c in lists:
                        u, v = l.val(h, c), l.val(x, c)
                        if u is not None and v is not None and self.has(v, "reck") and {y for y in subs(v) if y.op == "call" and y.a[0] == "reck"} - set(subs(u)):
                            cut = True
            if cut and iterating:
                self.bad("descent-break", "the descent may stop after a child that is not the last")
            else:
                self.und("several exits of the descent")
        elif l.rets:
            self.bad("descent-break", "the descent may return before the last child")

def plain(b):
    while isinstance(b, tuple):
        b = next((x for x in reversed(b) if isinstance(x, (int, tuple))), -1)
    return b


def strip(K):
    while K.op == "call" and K.a[0] == "norm":
        K = K.a[1][0]
    return K


def views(e, s, x):
    return ()


def j23(p, key, mode, deep):
    return Removal(p, key, mode, deep).judge()


def c23(p, rep):
    if felem(p) is None:
        rep.undecide("struct Element has other fields than expected")
        return
    jobs, names = [], []
    for tab, deep in ((DIRECT, False), (DEEP, True)):
        for n, m in tab.items():
            k = p.by_path.get(n)
            if k is None:
                rep.undecide(f"{n} not found")
                continue
            jobs.append((j23, (k, m, deep)))
            names.append(n)
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = names
    rep.assumptions += ASSUME + ["the caller's predicate is a pure function of the node"]


CHECKS = {"C23": c23}
EXPLAIN = {"C23": "Transfer relations of the loops of remove_by, remove_elements, remove_elements_by_name, remove_all and remove_all_elements: scan range, predicate outcome on the steps that take and keep a node, removal order, count; the recursive call of the two deep forms is a term whose result must be added to the count for every element child."}
