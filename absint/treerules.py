"""C27: the tree built from a document holds every node once, below the element open at that point, in document order.

Three parts. (1) The loop over tags (rules of C05): each tag and each text between tags is handed to the stack of open elements exactly
once. (2) The stack's operations on an arbitrary tree: a new node gets the next free number and the open element as its parent, nothing
else changes its content or parent, pop goes to the parent. (3) The conversion: nodes are moved from the last to the second into their
parents, with the list of children finished and put into document order before the move."""
from terms import *
from semlib import Run, short, parallel
from domlib import *
from domrules import opts, incomplete, ASSUME, felem, adders, find_norm, j13, j13norm
from parserules import TREE, PARSE, Unknown, Bad, Parse, parse_opts, iscall, helpers
from contentrules import split_helpers, jhelp, Real, Ends, Make, Quotes
from summ import ufn, ELEMENT, ET

NODEBOX = ("adt", "std::boxed::Box")
KEYS = {"text-dropped", "tag-dropped", "kind", "open", "unclosed", "blank-text", "pop"}


def roles(p):
    """positions of the node table and the open node in the tree, of value and parent in its entries"""
    a = p.adts.get(TREE)
    if a is None or a["kind"] != "struct":
        return None
    data = pos = node = None
    for i, f in enumerate(a["variants"][0]["fields"]):
        t = p.ty(f["ty"])
        if t[0] == "adt" and t[1].endswith("HashMap") and t[2][0] == ("int", "usize") and t[2][1][0] == "adt" and t[2][1][1] in p.adts and data is None:
            data, node = f["name"], t[2][1][1]
        elif t[0] == "adt" and t[1].endswith("Option") and t[2][0] == ("int", "usize") and pos is None:
            pos = f["name"]
    if data is None or pos is None:
        return None
    value = parent = None
    for i, f in enumerate(p.adts[node]["variants"][0]["fields"]):
        t = p.ty(f["ty"])
        if t[0] == "adt" and t[1].endswith("Box") and t[2][0] == ("dyn", "dom::Node") and value is None:
            value = f["name"]
        elif t[0] == "adt" and t[1].endswith("Option") and t[2][0] == ("int", "usize") and parent is None:
            parent = f["name"]
    if value is None or parent is None:
        return None
    return data, pos, node, value, parent


def lin(t):
    return t if t.op == "lin" else atom(t)


def known(t):
    """no part of the value is unknown to the interpretation"""
    return not any(x.op in ("phi", "fresh", "uninit") for x in subs(t))


class Ops(Judge):
    """push, append, pop, top_element, empty_stack on an arbitrary tree"""

    def __init__(self, p, key, op):
        self.setup(p, key, opts(p), 100)
        self.op = op
        self.data, self.pos, self.node, self.value, self.parent = roles(p)

    def tree(self, s):
        r = self.run.args[0]
        t = self.e.deep(s, r) if r.op == "ref" else self.e.deep(s, r)
        d = dict(sfields(self.e, t, TREE))
        return d[self.data], d[self.pos]

    def entry(self, v):
        d = dict(sfields(self.e, v, self.node))
        return d[self.value], d[self.parent]

    def some(self, s, P):
        """number of the open node: a term, None when there is none"""
        if P.op == "agg":
            return P.a[3][0] if P.a[1] == 1 else None
        vs = s.var.get(P)
        if vs == frozenset({1}):
            return self.e.payload(P, 1)
        if vs == frozenset({0}):
            return None
        raise Unknown("whether an element is open")

    def eq(self, s, a, b):
        if a is b:
            return True
        a, b = lin(a), lin(b)
        if a is b or s.entails_eq(lsub(a, b)):
            return True
        return None

    def judge(self):
        r = self.run
        if incomplete(r, self.f) and r.stopped:
            return self.f.items
        P0 = self.before()[1]
        for s, v in [(t, v) for s, v in r.outs for t, _ in self.e.split_variant(s, P0)]:
            try:
                m = getattr(self, self.op)(s, self.e.deep(s, v))
                self.ok(m)
            except Unknown as x:
                self.und(str(x))
            except Bad as x:
                self.bad(*x.args)
        return self.f.items

    def before(self):
        return self.tree(self.run.st0)

    def same(self, s):
        return self.tree(s) == self.before()

    def pop(self, s, v):
        D0, P0 = self.before()
        D, P = self.tree(s)
        o = outcome(self.run, s, v)
        p0 = self.some(s, P0)
        if p0 is None:
            if o != "Err":
                raise Bad("pop-empty", "succeeds although no element is open")
            if D is not D0 or P is not P0 and self.some(s, P) is not None:
                raise Bad("pop-empty", "changes the tree although no element is open")
            return "fails when no element is open"
        if o == "Err":
            raise Bad("pop-fails", "fails although an element is open")
        if D is not D0:
            self.kept(s, D, D0)
        want = self.entry(self.e.mval(s, D0, p0))[1]
        if P is want:
            return "goes back to the parent of the open element"
        self.judgepos(s, P, want, "goes to another element than the parent of the one closed")
        return "goes back to the parent of the open element"

    def judgepos(self, s, P, want, msg):
        if P.op == "agg" and want.op == "agg" and P.a[1] == want.a[1] and (P.a[1] == 0 or self.eq(s, P.a[3][0], want.a[3][0])):
            return
        vs = s.var.get(want)
        if P.op == "agg" and P.a[1] == 0 and vs == frozenset({0}):
            return
        if P.op == "agg" and P.a[1] == 1 and vs == frozenset({1}) and self.eq(s, P.a[3][0], self.e.payload(want, 1)):
            return
        if known(P):
            raise Bad("open-element", msg)
        raise Unknown("which element is open afterwards")

    def kept(self, s, D, D0):
        new = self.changes(s, D, D0)
        if new:
            raise Bad("adds", "adds a node")

    def changes(self, s, D, D0):
        """entries added to the table; every other entry must keep value and parent"""
        new = []
        while D is not D0:
            if D.op == "minsert":
                k, v = D.a[1], D.a[2]
                old = s.eval(self.e.mhas(s, D0, k))
                try:
                    val, par = self.entry(v)
                except Exception:
                    raise Unknown("an entry of the tree")
                if old is True:
                    w = self.e.mval(s, D0, k)
                    v0, p0 = self.entry(w)
                    if val is not v0 or par is not p0:
                        if known(val) and known(par):
                            raise Bad("entry-changed", "changes the content or parent of a node that is already in the tree")
                        raise Unknown("a changed entry of the tree")
                else:
                    new.append((k, val, par))
                D = D.a[0]
            elif D.op in ("mremove", "mempty"):
                raise Bad("entry-lost", "removes nodes from the tree")
            else:
                raise Unknown(f"table of nodes {short(show(D), 60)}")
        return new

    def add(self, s, v, up):
        D0, P0 = self.before()
        D, P = self.tree(s)
        new = self.changes(s, D, D0)
        if not new:
            raise Bad("not-added", "does not add the node")
        if len(new) > 1:
            raise Bad("added-twice", "adds more than one node")
        k, val, par = new[0]
        x = self.e.deep(s, self.run.args[1])
        if val is not x:
            if known(val):
                raise Bad("other-node", "adds another node than the one given")
            raise Unknown("the node added")
        p0 = self.some(s, P0)
        if p0 is None:
            if not is_const(lin(k)) or cval(lin(k)) != 0:
                raise Unknown("number of the first node")
            if self.some(s, par) is not None:
                raise Bad("root-parent", "gives the root a parent")
        else:
            q = self.some(s, par)
            if q is None or not self.eq(s, q, p0):
                if q is None or known(q):
                    raise Bad("wrong-parent", "gives the new node another parent than the open element")
                raise Unknown("the parent of the new node")
            n = self.e.mlen(D0)
            if not self.eq(s, k, n):
                if s.eval(self.e.mhas(s, D0, k)) is None and known(k):
                    raise Bad("number", "does not number the new node after all others, so an earlier node may be replaced or the order lost")
                raise Unknown("number of the new node")
        return k, p0, P, P0

    def push(self, s, v):
        k, p0, P, P0 = self.add(s, v, True)
        q = self.some(s, P)
        if q is None or not self.eq(s, q, k):
            if q is None or known(q):
                raise Bad("not-open", "the element pushed is not the open element afterwards")
            raise Unknown("the open element afterwards")
        return "adds the element below the open one, numbered after all others, and opens it" if p0 is not None else "makes the element the root and opens it"

    def append(self, s, v):
        D0, P0 = self.before()
        o = outcome(self.run, s, v)
        if self.some(s, P0) is None:
            if o != "Err":
                raise Bad("append-empty", "succeeds although no element is open")
            if not self.same(s):
                raise Bad("append-empty", "changes the tree although no element is open")
            return "fails when no element is open"
        if o == "Err":
            raise Bad("append-fails", "fails although an element is open")
        k, p0, P, P0 = self.add(s, v, False)
        if P is not P0 and not (self.some(s, P) is not None and self.eq(s, self.some(s, P), p0)):
            if known(P):
                raise Bad("open-changed", "changes which element is open")
            raise Unknown("the open element afterwards")
        return "adds the node below the open element, numbered after all others"

    def top_element(self, s, v):
        D0, P0 = self.before()
        p0 = self.some(s, P0)
        some = v.a[1] if v.op == "agg" else None
        if some is None:
            raise Unknown("the result")
        if p0 is None:
            if some:
                raise Bad("top", "returns an element although none is open")
            return "returns nothing when no element is open"
        if not some:
            raise Bad("top", "returns nothing although an element is open")
        want = self.entry(self.e.mval(s, D0, p0))[0]
        x = v.a[3][0]
        x = self.e.deep(s, x)
        if x is not want:
            if known(x):
                raise Bad("top", "returns another element than the open one")
            raise Unknown("the element returned")
        return "returns the open element"

    def empty_stack(self, s, v):
        D0, P0 = self.before()
        p0 = self.some(s, P0)
        for t, b in self.e.split_bool(s, v):
            n = lin(self.e.mlen(D0))
            if b == (p0 is None) or p0 is not None and t.entails(lneg(n)):
                continue
            if known(v):
                raise Bad("empty", "does not report whether an element is open")
            raise Unknown("the result")
        return "reports whether an element is open"


# ------------------------------------------------------------------ conversion
MOVES = {"dom::Element::append_boxed": "add", "dom::Element::append": "add", "dom::Element::insert": "ins", "dom::Element::reverse_children": "rev"}


def s_elem(name):
    def f(eng, fr, st, blk, key, args, sub):
        a = args[0]
        if a.op != "ref":
            return None
        T = eng.deep(st, eng.read(st, a.a[0], a.a[1]))
        x = [eng.deep(st, y) for y in args[1:]]
        if name == "ins" and not (x[0].op == "lin" and is_const(x[0]) and cval(x[0]) == 0):
            return None
        eng.write(st, a.a[0], a.a[1], ufn(eng, "e:" + name, [T] + x, ET))
        out = eng.p.subst(eng.p.ty(eng.p.bodies[key]["output"]), sub)
        if out == ("tuple", ()):
            return [(st, tup())]
        from models import ok
        return [(st, ok(UNIT))]
    return f


class Dom(Judge):
    def __init__(self, p, key):
        p.keepbox = True
        p._live = {}
        o = opts(p)
        o = dict(o, summaries=dict(o["summaries"]))
        for n, a in MOVES.items():
            if n in p.by_path:
                o["summaries"][p.by_path[n]] = s_elem(a)
        self.setup(p, key, o, 150)
        self.data, self.pos, self.node, self.value, self.parent = roles(p)
        self.lv = loops(self.run)
        self.mode = set()
        self.unsure = False

    def entry(self, v):
        d = dict(sfields(self.e, v, self.node))
        return d[self.value], d[self.parent]

    def judge(self):
        r = self.run
        if incomplete(r, self.f) and r.stopped:
            return self.f.items
        a = self.e.deep(r.st0, r.args[0])
        self.D0 = dict(sfields(self.e, a, TREE))[self.data]
        said = set()

        def say(f, *x):
            try:
                m = f(*x)
            except Unknown as u:
                m = ("?", str(u))
            except Bad as b:
                m = b.args
            if m in said:
                return
            said.add(m)
            if isinstance(m, str):
                self.ok(m)
            elif m[0] == "?":
                self.unsure = True
                self.und(m[1])
            else:
                self.bad(*m)
        maps = []
        for l in self.lv:
            for c in l.loc:
                t = type_of(c)
                if t and t[0] == "adt" and t[1].endswith("HashMap") and l.nexts(c) and any(v is not c for _, v in l.nexts(c)):
                    maps.append((l, c))
        if not maps:
            self.und("the loop that moves the nodes into their parents is not recognised")
            return self.f.items
        for l, c in maps:
            idx = [(i, k, es) for i, k, es in l.counters() if k == -1]
            if len(idx) > 1:
                mine = {id(s) for s, _ in l.nexts(c)}
                idx = [x for x in idx if {id(s) for s, _ in l.nexts(x[0])} & mine]
            if len(idx) != 1:
                say(self.upward, l, c)
                continue
            i = idx[0][0]
            for (s, v) in l.nexts(c):
                iv = l.at(s, i)
                if iv is None or not iv.op == "lin":
                    say(self.unclear, "the order in which nodes are moved")
                    continue
                say(self.move, s, v, c, {"prev": atom(i), "now": iv})
            for (s, v) in l.entries(c):
                say(self.start, s, v, l.at(s, i))
            for _, s in l.exits_of(c):
                say(self.stop, s, l.at(s, i) if l.at(s, i) is not None else atom(i), i)
        for s, v in r.outs:
            say(self.result, s, self.e.deep(s, v), [c for _, c in maps])
        if len(self.mode) > 1:
            self.und("children are added in more than one way")
        return self.f.items

    def unclear(self, w):
        raise Unknown(w)

    def upward(self, l, c):
        """moved from the front: a node leaves the table before its own children are added to it"""
        up = [i for i, k, es in l.counters() if k == 1]
        for s, v in l.nexts(c):
            while v is not c and v.op in ("minsert", "mremove"):
                if v.op == "mremove" and any(lin(v.a[1]) is atom(i) for i in up):
                    raise Bad("forward", "takes nodes out of the table before their own children are added to them")
                v = v.a[0]
        raise Unknown("the order in which nodes are moved")

    def atmost1(self, s, n):
        """True: n <= 1; False: 2 is as far as the facts go"""
        if s.entails(ladd(num(1), n, -1)):
            return True
        for c in (2, 3, 4):
            if s.entails(ladd(num(c), n, -1)):
                t = s.fork()
                if t.add_lin(ladd(n, num(c), -1)):
                    return False
        return None

    def start(self, s, v, i):
        n = lin(self.e.mlen(self.D0))
        if i is None:
            raise Unknown("where the moving starts")
        if v is self.D0:
            # nothing moved yet: the first index moved is the one before the counter
            if s.entails_eq(lsub(i, n)):
                return "the moving starts with the last node"
            if known(i):
                raise Bad("start", "does not start with the last node")
            raise Unknown("where the moving starts")
        m = self.move(s, v, self.D0, None)
        k = self.moved
        if not s.entails_eq(lsub(lin(k), ladd(n, num(1), -1))):
            if known(k):
                raise Bad("start", "does not start with the last node")
            raise Unknown("where the moving starts")
        if not s.entails_eq(lsub(i, lin(k))):
            raise Unknown("where the moving goes on")
        return "the moving starts with the last node"

    def stop(self, s, i, phi):
        x = self.atmost1(s, atom(phi))
        if x:
            return "the moving ends behind node 1"
        if x is False:
            raise Bad("stops", "stops before node 1 is moved")
        raise Unknown("where the moving ends")

    def move(self, s, v, D, steps):
        """v is D with one node moved into its parent"""
        ops = []
        x = v
        while x is not D:
            if x.op == "minsert":
                ops.insert(0, ("set", x.a[1], x.a[2]))
            elif x.op == "mremove":
                ops.insert(0, ("del", x.a[1]))
            else:
                raise Unknown(f"table of nodes {short(show(x), 60)}")
            x = x.a[0]
        if not ops:
            raise Bad("skips", "passes over a node without moving it")
        dels = [o for o in ops if o[0] == "del"]
        sets = [o for o in ops if o[0] == "set"]
        if len(dels) != 1:
            raise Unknown("which node is moved") if dels else Bad("skips", "does not take the node out of the table")
        i = dels[0][1]
        self.moved = i
        if steps is not None:
            if not s.entails_eq(lsub(lin(i), steps["now"])) and not s.entails_eq(lsub(lin(i), ladd(steps["prev"], num(1), -1))):
                raise Unknown("which node is moved")
        if not sets:
            raise Bad("lost", "takes a node out of the table without adding it to its parent")
        if len(sets) != 1:
            raise Unknown("the parents nodes are added to")
        q, node = sets[0][1], sets[0][2]
        val, par = self.entry(node)
        me, mypar = self.entry(self.e.mval(s, D, i))
        want = self.e.payload(mypar, 1)
        if not (q is want or lin(q) is lin(want) or s.entails_eq(lsub(lin(q), lin(want)))):
            if known(q) and not any(z.op == "mval" for z in subs(q)):
                raise Bad("parent", "adds a node to another element than its parent")
            raise Unknown("the parent a node is added to")
        pv, pp = self.entry(self.e.mval(s, D, q))
        if par is not pp:
            raise Unknown("the parent of the parent")
        if val is pv:
            raise Bad("lost", "takes a node out of the table without adding it to its parent")
        # val = add(pv, child)
        rev = 0
        while iscall(val, "e:rev"):
            val, rev = val.a[1][0], rev + 1
        if not (iscall(val, "e:add") or iscall(val, "e:ins")):
            raise Unknown(f"the parent afterwards: {short(show(val), 60)}")
        how = val.a[0][2:]
        base, child = val.a[1][0], val.a[1][-1]
        if iscall(child, "e:add") or iscall(child, "e:ins"):
            raise Bad("twice", "adds something to a node after it was finished")
        crev = 0
        while iscall(child, "e:rev"):
            child, crev = child.a[1][0], crev + 1
        if child is not me:
            if iscall(child, "e:add"):
                raise Unknown("the node added to its parent")
            if known(child):
                raise Bad("other-node", "adds another node to the parent than the one taken out")
            raise Unknown("the node added to its parent")
        if base is not pv:
            if iscall(base, "e:add") or iscall(base, "e:ins"):
                raise Bad("twice", "adds a node to its parent twice")
            raise Unknown("the parent before")
        if rev % 2:
            raise Bad("order", "turns the children of the parent round with every node added")
        kind = self.e.kind_of(s, me)
        elem = kind == frozenset({"Element"}) if kind and ("Element" not in kind or len(kind) == 1) else None
        self.mode.add(how)
        if how == "add":
            if elem is None:
                if crev % 2 == 0:
                    if self.guarded(s, me):
                        raise Unknown("when children are put into order")
                    raise Bad("order", "moves an element whose children are still in reverse order")
            elif elem and crev % 2 == 0:
                if self.guarded(s, me):
                    raise Unknown("when children are put into order")
                raise Bad("order", "moves an element whose children are still in reverse order")
        elif crev % 2 and elem is not False:
            raise Bad("order", "turns round the children of an element that are already in order")
        return "each node is moved once, into its own parent, with its children in document order"

    def guarded(self, s, me):
        """some fact about the number of children was consulted: reversing 0 or 1 child changes nothing"""
        ent = me.a[0] if me.op == "fld" else me
        for k, c in s.lin.items():
            for t, _ in k:
                if t.op == "vlen" and any(x is me or x is ent for x in subs(t)) and s.entails(ladd(num(1), atom(t), -1)):
                    return True
        return False

    def result(self, s, v, cells):
        o = outcome(self.run, s, v)
        n = lin(self.e.mlen(self.D0))
        if o == "Err":
            if s.entails_eq(n):
                return "fails only for an empty tree"
            if s.entails(ladd(n, num(1), -1)):
                raise Bad("refuses", "fails although there is a root")
            raise Unknown("when it fails")
        if o != "Ok":
            raise Unknown("the result")
        x = self.e.deep(s, payload(self.run, s, v))
        rev = 0
        while iscall(x, "e:rev"):
            x, rev = x.a[1][0], rev + 1
        if self.unsure:
            raise Unknown("the order of the root's children")
        root = None
        for D in [self.D0] + cells:
            try:
                w = self.entry(self.e.mval(s, D, num(0)))[0]
            except Exception:
                continue
            if x is w:
                root = D
        if root is None:
            # the last move may stand outside the loop's cell
            m = [z for z in subs(x) if z.op == "mval"]
            if iscall(x, "e:add") or iscall(x, "e:ins"):
                y = x
                if rev % 2 == 0 and iscall(x, "e:add"):
                    raise Bad("order", "returns a root whose children are still in reverse order")
                return "the root is returned with its children in document order"
            raise Unknown(f"the root returned: {short(show(x), 60)}")
        if root is self.D0:
            x = self.atmost1(s, n)
            if x is False:
                raise Bad("stops", "returns a tree of more than one node without moving the nodes")
            if not x:
                raise Unknown("a result without moving the nodes")
            return "a tree of one node is that node"
        if "ins" in self.mode:
            if rev % 2:
                raise Bad("order", "turns the children of the root round")
        elif rev % 2 == 0:
            raise Bad("order", "returns a root whose children are still in reverse order")
        return "the root is returned with its children in document order"


class Rev(Judge):
    """Element::reverse_children"""

    def __init__(self, p, key):
        self.setup(p, key, opts(p), 60)

    def judge(self):
        r = self.run
        if incomplete(r, self.f) and r.stopped:
            return self.f.items
        for s, v in r.outs:
            a = dict(sfields(self.e, self.e.deep(r.st0, r.args[0]), ELEMENT))["child_nodes"]
            b = dict(sfields(self.e, self.e.deep(s, r.args[0]), ELEMENT))["child_nodes"]
            n = lin(vlen(a))
            if b.op in ("vrev", "rev") and b.a[0] is a:
                self.ok("turns the list of children round")
            elif b.op == "vsplice" and b.a[0] is a:
                x, y, z = b.a[1:4]
                whole = s.entails_eq(lin(x)) and s.entails_eq(lsub(lin(y), n))
                if s.entails(ladd(num(1), n, -1)):
                    self.ok("nothing to turn round")
                elif z.op == "vrev" and z.a[0] in (a, mk("vslice", a, x, y)):
                    if whole:
                        self.ok("turns the list of children round")
                    elif s.entails(ladd(lin(x), num(1), -1)) or s.entails(lplus(ladd(n, lin(y), -1), -1)):
                        self.bad("rev", "turns only some of the children round")
                    else:
                        self.und("which of the children are turned round")
                else:
                    self.und(f"children afterwards {short(show(b), 60)}")
            elif b is a:
                if s.entails(ladd(num(1), vlen(a), -1)):
                    self.ok("nothing to turn round")
                else:
                    self.bad("rev", "leaves the children in their order")
            else:
                self.und(f"children afterwards {short(show(b), 60)}")
        return self.f.items


def jop(p, key, op):
    return Ops(p, key, op).judge()


def jdom(p, key):
    return Dom(p, key).judge()


def jrev(p, key):
    return Rev(p, key).judge()


def jparse(p, key):
    x = Parse()
    x.setup(p, key, parse_opts(p))
    out = []
    for it in x.nested():
        if it[0] == "bad" and it[1].split("|")[-1] not in KEYS:
            continue
        out.append(it)
    return out


def c27(p, rep):
    if roles(p) is None:
        rep.undecide("the tree under construction is not a table of numbered nodes with parents and the number of the open one")
        rep.assumptions += ASSUME
        return
    jobs, names = [], []
    for op in ("push", "append", "pop", "top_element", "empty_stack"):
        k = p.by_path.get(f"{TREE}::{op}")
        if k is None:
            rep.undecide(f"{TREE} has no operation {op}")
            continue
        jobs.append((jop, (k, op)))
        names.append(f"{TREE}::{op}")
    for n, f in ((f"{TREE}::to_dom", jdom), (f"{ELEMENT}::reverse_children", jrev), (PARSE, jparse)):
        k = p.by_path.get(n)
        if k is None:
            if n != f"{ELEMENT}::reverse_children":
                rep.undecide(f"there is no {n}")
            continue
        jobs.append((f, (k,)))
        names.append(n)
    # what delimits tags and text, and what adding a child does to its siblings
    H, S = helpers(p), split_helpers(p)
    more = [(Real, H.get("real"), None), (Ends, H.get("tag"), None), (Make, p.by_path.get("dom::Text::new"), "dom::Text")]
    more += [(Quotes, S[h], None) for h in ("split", "qfind", "nfind")]
    for cls, k, own in more:
        if k is not None:
            jobs.append((jhelp, (cls, k, own)))
            names.append(p.bodies[k]["path"])
    k = p.by_path.get(f"{ELEMENT}::append_boxed")
    if felem(p) is not None and k in adders(p):
        for f, ks in ((j13, [k]), (j13norm, find_norm(p))):
            jobs += [(f, (k,)) for k in ks]
            names += [p.bodies[k]["path"] for k in ks]
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = names
    rep.assumptions += ASSUME


CHECKS = {"C27": c27}
EXPLAIN = {"C27": "The tag loop's transitions over the uninterpreted stack (one node per tag and per text), the stack's operations on an arbitrary table of nodes, and the transfer relation of the loop that moves nodes into their parents."}
