"""C06, C16: the text the serializers build, piece by piece, through an XML lexer."""
from terms import *
from semlib import Run, short, parallel
from domlib import *
from domrules import opts, incomplete
from summ import felem, fields_of, ELEMENT, ET, s_pure
from escrules import Homo, Unknown, Wrong, pieces, strip_front, feasible, absent, ALPHA, ENT, OPTESC, SPEC
from state import is_str

KINDS = ("Element", "Text", "Comment", "CData")
WS = " \t\r\n"
ESC = tuple(SPEC)


def oopts(p, **k):
    o = opts(p)
    for n in ESC:
        if n in p.by_path:
            o["summaries"][p.by_path[n]] = s_pure("esc:" + n)
    o["dispsplit"] = True
    o.update(k)
    return o


# ------------------------------------------------------------------ what an escape function does
def escape_maps(p, key):
    """character maps of an escape function, one per path; None when not understood"""
    o = opts(p)
    o.update(OPTESC)
    run = Run(p, key, o, tl=60)
    if run.stopped:
        return None
    X = run.arg0(0)
    h = Homo(run)
    out = []
    for s, v in run.outs:
        try:
            b, m = h.of(s, run.e.deep(s, v))
        except (Unknown, Wrong):
            return None
        if b is not X:
            if b.op == "lit" and s.same(slen(X), num(0)):
                continue
            return None
        if b is v and (loops(run) or run.e.unknown):
            return None
        out.append({c: (ENT.get(c, c) if absent(s, X, c) else m[c]) for c in m})
    return out


class Texts:
    """what the string terms of a run stand for"""

    def __init__(self, p, run, maps):
        self.p, self.run, self.e, self.maps = p, run, run.e, maps
        self.lv = loops(run)
        self.by_phi = {}
        for i, l in enumerate(self.lv):
            for c in l.loc:
                self.by_phi.setdefault(c, []).append(i)
        self._items = {}

    # -------------------------------------------------------------- lists
    def items(self, L, d=0):
        """values an element of the list may have"""
        if d > 12:
            raise Unknown("list")
        if L in self._items:
            return self._items[L]
        self._items[L] = []
        r = []
        if L.op == "vec":
            r = list(L.a[0])
        elif L.op == "vpush":
            r = self.items(L.a[0], d + 1) + [L.a[1]]
        elif L.op in ("vsort", "vrev", "vperm"):
            r = list(self.items(L.a[0], d + 1))
        elif L.op == "phi":
            for i in self.by_phi.get(L, ()):
                l = self.lv[i]
                for _, v in l.entries(L) + l.nexts(L):
                    if v is None:
                        raise Unknown("list")
                    if v is not L:
                        r += self.items(v, d + 1)
        elif L.op == "collected" and L.a[0].op == "agg" and str(L.a[0].a[0]) in ("it:map", "it:bmap"):
            m, pos, hi, mode, rf, kt, vt = L.a[0].a[3]
            k = mk("mkey", m, mk("anykey"), "ord") if str(L.a[0].a[0]) == "it:bmap" else mk("mkey", m, mk("anykey"))
            v = mk("mval", m, k)
            md = mode.a[0]
            r = [k] if md == "k" else [v] if md == "v" else [tup(k, v)]
        else:
            del self._items[L]
            raise Unknown(f"list {short(show(L), 80)}")
        out = []
        for x in r:
            if x not in out:
                out.append(x)
        self._items[L] = out
        return out

    def unref(self, t, s):
        """content of a reference value"""
        d = 0
        while t.op == "ref" and d < 4:
            if t.a[0][0] == "V" and not t.a[1]:
                t = t.a[0][1]
            else:
                try:
                    t = self.e.read(s, t.a[0], t.a[1])
                except Exception:
                    return t
            d += 1
        return t

    def norm(self, t, s, d=0):
        """alternatives of a string term, list elements replaced by what was put in the list: [(term, list it came from)]"""
        if d > 8:
            return [(t, None)]
        if t.op == "ref":
            return self.norm(self.unref(t, s), s, d + 1)
        if t.op == "deref":
            return [y for x, w in self.norm(t.a[0], s, d + 1) for y in ([(a, b or w) for a, b in self.norm(self.unref(x, s), s, d + 1)] if x is not t.a[0] else [(t, w)])]
        if t.op == "fld":
            i = t.a[2]
            out = []
            for x, w in self.norm(t.a[0], s, d + 1):
                if x.op == "agg" and i < len(x.a[3]):
                    out += [(a, b or w) for a, b in self.norm(x.a[3][i], s, d + 1)]
                elif x is t.a[0]:
                    out.append((t, w))
                else:
                    out.append((mk("fld", x, *t.a[1:]), w))
            return out
        if t.op == "elem":
            L = t.a[0]
            try:
                its = self.items(L)
            except Unknown:
                return [(t, L)]
            if not its:
                return [(t, L)]
            return [(a, L) for x in its for a, _ in self.norm(x, s, d + 1)]
        return [(t, None)]

    # -------------------------------------------------------------- strings
    def is_attrs(self, m):
        return m.op == "fld" and m.a[3] == "attributes" or m.op == "agg" and False

    def classify(self, t, s):
        """what a string term is: (kind, detail)"""
        if t.op == "lit":
            return "lit", t
        if t.op == "call":
            n = t.a[0]
            if isinstance(n, str) and n.startswith("esc:"):
                return "esc", (n[4:], t.a[1][0])
            if n in self.p.bodies:
                b = self.p.bodies[n]
                if "String" in str(self.p.ty(b["output"])):
                    return "node", t
            return None, t
        if t.op == "mkey":
            return ("akey", t) if self.is_attrs(t.a[0]) else ("key", t)
        if t.op == "mval":
            return ("aval", t) if self.is_attrs(t.a[0]) else ("val", t)
        if t.op in ("pay", "fld"):
            b = t
            while b.op in ("pay", "fld"):
                inner = b.a[0]
                name = b.a[3] if b.op == "fld" and len(b.a) > 3 else None
                ks = kinds_of(self.e, s, inner)
                if ks is not None and len(ks) == 1 and name not in (None, "0"):
                    k = next(iter(ks))
                    if k == "Element":
                        return ("name" if name in ("name", "xmlns_prefix") else "raw"), t
                    return k.lower(), t
                ty = type_of(inner)
                if ty and ty[0] == "adt" and str(ty[1]).split("::")[-1] in ("Declaration", "DTD"):
                    return "prolog", t
                b = inner
            return None, t
        if t.op == "chstr":
            return "char", t
        if t.op == "sym":
            return "param", t
        return None, t


class Lexer:
    """runs the pieces of a string term through the lexer; the accumulating loops by fixpoint"""

    def __init__(self, tx, judge):
        self.tx, self.run, self.e, self.p, self.j = tx, tx.run, tx.e, tx.p, judge
        self.work = set()
        self.bind = {}
        self.calls = []
        self.uses = []
        self.steps = 0

    # -------------------------------------------------------------- loops
    def compat(self, s, env):
        for mark, (i, k) in env:
            es = self.tx.lv[i].entry_states[k]
            for t, vs in es.var.items():
                o = s.var.get(t)
                if o is not None and not (set(o) & set(vs)):
                    return False
            for b, v in es.bools.items():
                if b in s.bools and s.bools[b] != v and not any(x.op == "phi" for x in subs(b)):
                    return False
        return True

    def entries(self, i, phi):
        """[(entry number, state, value)]"""
        l = self.tx.lv[i]
        if not hasattr(l, "entry_states"):
            l.entry_states = []
        out = []
        for s, v in l.entries(phi):
            k = next((j for j, x in enumerate(l.entry_states) if x is s), None)
            if k is None:
                k = len(l.entry_states)
                l.entry_states.append(s)
            out.append((k, s, v))
        return out

    def trans(self, t, lex, env, s):
        """-> set of (lexer state, env)"""
        if self.steps > 60000:
            raise Unknown("too many cases")
        cur = {(lex, env)}
        for x in pieces(t):
            nxt = set()
            for lx, en in cur:
                self.steps += 1
                nxt |= self.piece(x, lx, en, s)
            cur = nxt
        return cur

    def piece(self, x, lex, env, s):
        if x.op == "lit":
            for i, c in enumerate(x.a[0]):
                lex = self.char(lex, c, x.a[0][i:], env)
            return {(lex, env)}
        if x.op == "phi" and x in self.tx.by_phi:
            return self.phi(x, lex, env, s)
        if x.op == "join" and x.a[1].op == "lit" and x.a[0].op in ("phi", "vpush", "vec"):
            return {(lx, en) for (lx, ne), en in self.joined(x.a[0], x.a[1].a[0], (lex, False), env, s)}
        return {(y, env) for y in self.hole(x, lex, env, s)}

    def phi(self, x, lex, env, s):
        return self.fix(x, lex, env, s, lambda t, lx, en, st: self.trans(t, lx, en, st))

    def fix(self, x, lex, env, s, run):
        """states after the value of the loop cell x: entry values, then iterations to a fixpoint"""
        if x in self.bind:
            start, cur, en = self.bind[x]
            if start != lex:
                raise Unknown("text used in two places")
            return {(cur, en)}
        out = set()
        found = dict(env)
        for i in self.tx.by_phi[x]:
            l = self.tx.lv[i]
            for k, es, v in self.entries(i, x):
                if l.mark in found and found[l.mark] != (i, k):
                    continue
                if v is None:
                    raise Unknown("loop entry")
                if not self.compat(es, env):
                    continue
                for lx, en in run(v, lex, env, es):
                    en1 = tuple(sorted(set(en) | {(l.mark, (i, k))}, key=str))
                    if not self.compat(s, en1):
                        continue
                    seen = {lx}
                    todo = [lx]
                    while todo:
                        cur = todo.pop()
                        for bs, nv in l.nexts(x):
                            if nv is None:
                                raise Unknown("loop step")
                            if not self.compat(bs, en1):
                                continue
                            self.bind[x] = (lex, cur, en1)
                            try:
                                rs = run(nv, lex, en1, bs)
                            finally:
                                del self.bind[x]
                            for ly, _ in rs:
                                if ly not in seen:
                                    if len(seen) > 60:
                                        raise Unknown("too many cases")
                                    seen.add(ly)
                                    todo.append(ly)
                    out |= {(ly, en1) for ly in seen}
        return out

    def joined(self, L, sep, lex, env, s):
        """states after the texts of a list, with a separator; the lexer state carries whether something was written"""
        if L.op == "vec":
            cur = {(lex, env)}
            for x in L.a[0]:
                cur = {y for (lx, ne), en in cur for y in self.item(x, sep, lx, ne, en, s)}
            return cur
        if L.op == "vpush":
            return {y for (lx, ne), en in self.joined(L.a[0], sep, lex, env, s) for y in self.item(L.a[1], sep, lx, ne, en, s)}
        if L.op == "phi" and L in self.tx.by_phi:
            return self.fix(L, lex, env, s, lambda t, lx, en, st: self.joined(t, sep, lx, en, st))
        raise Unknown(f"list {short(show(L), 80)}")

    def item(self, x, sep, lx, ne, en, s):
        cur = {(lx, en)}
        if ne and sep:
            cur = self.trans(lit(sep), lx, en, s)
        return {((ly, True), e2) for l1, e1 in cur for ly, e2 in self.trans(self.tx.unref(x, s), l1, e1, s)}

    def resolve(self, t, env):
        """pieces of a name, with the loop-invariant cells replaced by their entry values"""
        out = []
        for x in pieces(t):
            if x.op == "phi" and x in self.tx.by_phi:
                found = dict(env)
                for i in self.tx.by_phi[x]:
                    l = self.tx.lv[i]
                    if l.mark in found and found[l.mark][0] == i and all(v is x for _, v in l.nexts(x)):
                        v = l.at(l.entry_states[found[l.mark][1]], x)
                        if v is not None and v is not x:
                            out += self.resolve(v, env)
                            break
                else:
                    out.append(x)
                continue
            out.append(x)
        return out

    # -------------------------------------------------------------- characters
    def char(self, lex, c, rest, env):
        mode, d, stack, roots = lex
        if mode == "C":
            if c == "<":
                return ("LT", None, stack, roots)
            if c == "&" and not entity(rest):
                raise Wrong("bare-amp", "writes a bare '&' into the text")
            if not stack and c not in WS and self.j.want == 1:
                raise Wrong("outside", f"writes {c!r} outside the root element")
            return lex
        if mode == "LT":
            if c == "/":
                return ("E", (), stack, roots)
            if c == "!":
                return ("B", "", stack, roots)
            if c == "?":
                return ("PI", "", stack, roots)
            if c in WS + "<>\"'=&":
                raise Wrong("tag-start", f"writes '<' followed by {c!r}")
            return ("N", addlit((), c), stack, roots)
        if mode == "N":
            if c in WS:
                return ("T", d, stack, roots)
            if c in ">/":
                return self.endtag(c, d, stack, roots)
            if c in "<\"'=&":
                raise Wrong("tag-name", f"writes {c!r} into the tag name")
            return ("N", addlit(d, c), stack, roots)
        if mode == "T":
            if c in WS:
                return lex
            if c in ">/":
                return self.endtag(c, d, stack, roots)
            if c in "<\"'=&":
                raise Wrong("tag-body", f"writes {c!r} where an attribute name or the end of the tag is due")
            return ("A", (d, (lit("x"),)), stack, roots)
        if mode == "A":
            if c == "=":
                return ("AE", d[0], stack, roots)
            if c in WS + "<>/\"'&":
                raise Wrong("attr-name", f"an attribute name is followed by {c!r} instead of '='")
            return lex
        if mode == "AE":
            if c in "\"'":
                return ("V", (d, c), stack, roots)
            raise Wrong("attr-quote", "an attribute value does not start with a quote")
        if mode == "V":
            if c == d[1]:
                return ("Q", d[0], stack, roots)
            if c == "<":
                raise Wrong("attr-lt", "writes a raw '<' into an attribute value")
            if c == "&" and not entity(rest):
                raise Wrong("bare-amp", "writes a bare '&' into an attribute value")
            return lex
        if mode == "Q":
            if c in WS:
                return ("T", d, stack, roots)
            if c in ">/":
                return self.endtag(c, d, stack, roots)
            raise Wrong("attr-space", f"an attribute value is followed by {c!r} without a blank")
        if mode == "S":
            if c == ">":
                if not stack:
                    roots = min(2, roots + 1)
                return ("C", None, stack, roots)
            raise Wrong("empty-tag", f"'/' in a tag is followed by {c!r}")
        if mode == "E":
            if c == ">":
                return self.close(d, stack, roots)
            if c in WS:
                return ("E2", d, stack, roots)
            if c in "<\"'=&/":
                raise Wrong("tag-name", f"writes {c!r} into a closing tag")
            return ("E", addlit(d, c), stack, roots)
        if mode == "E2":
            if c == ">":
                return self.close(d, stack, roots)
            if c in WS:
                return lex
            raise Wrong("tag-name", f"writes {c!r} into a closing tag")
        if mode == "B":
            b = d + c
            for full, m in (("--", "COM"), ("[CDATA[", "CD"), ("DOCTYPE", "DT")):
                if b == full:
                    return (m, "", stack, roots)
                if full.startswith(b):
                    return ("B", b, stack, roots)
            raise Wrong("markup", f"writes '<!{b}', which opens neither a comment nor CDATA nor a DOCTYPE")
        if mode in ("COM", "CD", "PI", "DT"):
            end = {"COM": "-->", "CD": "]]>", "PI": "?>", "DT": ">"}[mode]
            b = d + c
            if b.endswith(end):
                return ("C", None, stack, roots)
            k = len(end) - 1
            while k and not end.startswith(b[-k:]):
                k -= 1
            return (mode, b[-k:] if k else "", stack, roots)
        raise Unknown(mode)

    def endtag(self, c, name, stack, roots):
        if c == "/":
            return ("S", name, stack, roots)
        if len(stack) >= 5:
            raise Wrong("balance", "may open more elements than it closes")
        return ("C", None, stack + (name,), roots)

    def close(self, name, stack, roots):
        if not stack:
            raise Wrong("balance", f"writes the closing tag </{showname(name)}> with no element open")
        if name != stack[-1]:
            if all(self.plain(x) for x in name + stack[-1]):
                raise Wrong("close-name", f"closes <{showname(stack[-1])}> with </{showname(name)}>")
            raise Unknown(f"names {showname(stack[-1])} and {showname(name)}")
        stack = stack[:-1]
        if not stack:
            roots = min(2, roots + 1)
        return ("C", None, stack, roots)

    def plain(self, x):
        return x.op in ("lit", "fld", "pay") or x.op == "lit"

    # -------------------------------------------------------------- typed text
    def hole(self, x, lex, env, s):
        return {self.hole1(y, x, src, lex, env, s) for y, src in self.tx.norm(x, s)}

    def hole1(self, x, orig, src, lex, env, s):
        mode, d, stack, roots = lex
        kind, det = self.tx.classify(x, s)
        if kind == "akey" or kind == "aval" and x.a[1].op == "mkey":
            self.uses.append((kind, x, orig, src, s))
        maps, inner, fname = None, None, None
        if kind == "esc":
            fname, inner = det
            maps = self.tx.maps.get(fname)
        elif kind is None and x.op in ("replace", "join"):
            b, m = Homo(self.run).of(s, x)
            kind, inner, maps, fname = "esc", b, [m], "the replacements"
        ik = None
        if inner is not None:
            its = {self.tx.classify(z, s)[0] for z, w in self.tx.norm(inner, s)}
            for z, w in self.tx.norm(inner, s):
                k2 = self.tx.classify(z, s)[0]
                if k2 == "akey" or k2 == "aval" and z.a[1].op == "mkey":
                    self.uses.append((k2, z, inner, w, s))
            ik = its.pop() if len(its) == 1 else None
            if ik == "esc":
                raise Wrong("twice", "escapes the same text twice")
        if kind is None:
            # part of a stored text
            for z in subs(x):
                k2 = self.tx.classify(z, s)[0]
                if k2 in ("comment", "cdata") and mode in ("COM", "CD") and x.op in ("slice", "strfn", "replace", "case"):
                    raise Wrong("verbatim", f"writes {short(show(x), 90)} instead of the content itself")
            raise Unknown(f"text {short(show(x), 90)}")
        if kind == "char":
            return self.onechar(x, lex, s)
        if mode in ("C", "V"):
            need = "&<>" if mode == "C" else "&<" + d[1]
            where_ = "text content" if mode == "C" else "an attribute value"
            if kind == "esc":
                if mode == "C" and ik in ("comment", "cdata"):
                    raise Wrong("verbatim", f"writes the content of a {ik} node as escaped text")
                if maps is None:
                    raise Unknown(f"what {fname} escapes")
                for m in maps:
                    for c in need:
                        if m.get(c) == c and not absent(s, inner, c):
                            raise Wrong(f"raw-{mode}-{c}", f"{c!r} reaches {where_} unescaped ({fname})")
                    for c in m:
                        o = m[c]
                        if o != c and any(z in o for z in ("<", d[1] if mode == "V" else "<")):
                            raise Wrong(f"raw-{mode}-{c}", f"{c!r} is written as {o!r} in {where_}")
                        if len(o) > 1 and o.startswith("&") and o.count("&") == 1 and o.endswith(";") and o.count(";") == 1 or o == c:
                            continue
                        if "&" in o:
                            raise Wrong(f"twice-{c}", f"{c!r} is written as {o!r} in {where_}: escaped more than once")
                if ik is None:
                    raise Unknown(f"escaped text {short(show(inner), 90)}")
                if mode == "C" and not stack and self.j.want == 1:
                    raise Wrong("outside", "writes text outside the root element")
                self.j.good(f"{ik} is written with {' '.join(need)} escaped in {where_}")
                return lex
            if kind in ("text", "aval", "raw", "val"):
                if all(absent(s, x, c) for c in need):
                    return lex
                left = [c for c in need if not absent(s, x, c)]
                if any(not simple_fact(b, x) for b in s.bools if any(z is x for z in subs(b))):
                    raise Unknown(f"{short(show(x), 60)} is written as it is under a condition")
                raise Wrong(f"raw-{mode}", f"{short(show(x), 60)} is written without escaping {' '.join(left)} into {where_}")
            if mode == "V" and kind in ("name", "akey", "key"):
                return lex
            if mode == "C":
                if kind == "param":
                    return lex
                if kind == "node":
                    self.work.add(x.a[0])
                    self.calls.append((x, s))
                    if not stack:
                        roots = min(2, roots + 1)
                    return (mode, d, stack, roots)
                if kind in ("comment", "cdata"):
                    raise Wrong("delimiters", f"writes the content of a {kind} node outside its delimiters")
            raise Unknown(f"{kind} in {where_}: {short(show(x), 80)}")
        if mode in ("COM", "CD"):
            own = {"COM": "comment", "CD": "cdata"}[mode]
            if kind == own:
                self.j.good(f"{own} content is written verbatim inside its delimiters")
                return (mode, "", stack, roots)
            if kind == "esc" and ik == own:
                raise Wrong("verbatim", f"escapes the content of a {own} node")
            raise Wrong("delimiters", f"writes {kind} content inside {own} delimiters") if kind in ("comment", "cdata", "text") else Unknown(f"{kind} inside {own} delimiters")
        if mode in ("PI", "DT"):
            return (mode, "", stack, roots) if kind in ("prolog", "param") else lex
        if kind in ("name", "akey", "key"):
            ps = tuple(self.resolve(x, env))
            if mode == "LT":
                return ("N", ps, stack, roots)
            if mode == "N":
                if kind == "akey":
                    raise Wrong("attr-space", "an attribute name follows the tag name without a blank")
                return ("N", addname(d, ps), stack, roots)
            if mode == "T":
                return ("A", (d, (lit("x"),)), stack, roots)
            if mode == "A":
                return lex
            if mode == "AE":
                raise Wrong("attr-quote", "an attribute value does not start with a quote")
            if mode == "Q":
                raise Wrong("attr-space", "an attribute name follows a value without a blank")
            if mode == "E":
                return ("E", addname(d, ps), stack, roots)
        if mode == "T" and kind == "param":
            return lex
        if mode == "AE" and kind in ("aval", "esc", "raw", "val", "text"):
            raise Wrong("attr-quote", "an attribute value does not start with a quote")
        if mode in ("N", "T", "Q", "A") and (kind == "node" or kind == "esc" and ik == "text" or kind == "text"):
            raise Wrong("tag-open", "writes content before the tag is ended by '>'")
        if mode in ("A", "N", "T", "LT", "E") and kind in ("aval", "text", "raw"):
            raise Wrong("place", f"writes {kind} {short(show(x), 60)} inside a tag outside any value")
        raise Unknown(f"{kind} in state {mode}: {short(show(x), 80)}")

    def onechar(self, x, lex, s):
        mode, d, stack, roots = lex
        c = x.a[0]
        if mode in ("C", "V"):
            need = "&<>" if mode == "C" else "&<" + d[1]
            for k in need:
                may, sure = feasible(s, c, k)
                if may and sure:
                    raise Wrong(f"raw-{mode}-{k}", f"{k!r} reaches {'text content' if mode == 'C' else 'an attribute value'} unescaped")
                if may:
                    raise Unknown("which characters are written as they are")
            return lex
        if mode in ("COM", "CD"):
            return (mode, "", stack, roots)
        raise Unknown(f"a single character in state {mode}")


def simple_fact(b, x):
    return b.op == "pr" and b.a[0] in ("contains", "starts_with", "ends_with") and len(b.a) > 2 and b.a[2].op in ("lit", "ch") or b.op in ("ge", "eqz") or b.op == "eq" and any(z.op == "lit" for z in b.a)


def entity(rest):
    import re
    return re.match(r"&(#x?[0-9a-fA-F]+|[a-z]+);", rest) is not None


def addlit(d, c):
    if d and d[-1].op == "lit":
        return d[:-1] + (lit(d[-1].a[0] + c),)
    return d + (lit(c),)


def addname(d, ps):
    for x in ps:
        if x.op == "lit" and d and d[-1].op == "lit":
            d = d[:-1] + (lit(d[-1].a[0] + x.a[0]),)
        else:
            d = d + (x,)
    return d


def showname(d):
    return "".join(x.a[0] if x.op == "lit" else "{" + short(show(x), 60) + "}" for x in d)


def mkcat(ps):
    if not ps:
        return lit("")
    return ps[0] if len(ps) == 1 else mk("cat", tuple(ps))


# ------------------------------------------------------------------ the serializers
def routes(p):
    """[(key, what the text is of, number of elements it consists of, index of a formatter argument)]"""
    out = []
    for t in KINDS:
        n = 1 if t == "Element" else 0
        for m in ("to_string_with_indent", "to_string"):
            for q in (f"<dom::{t} as dom::Node>::{m}", f"dom::{t}::{m}"):
                if q in p.by_path:
                    out.append((p.by_path[q], t, n, None))
        q = f"<dom::{t} as std::fmt::Display>::fmt"
        if q in p.by_path:
            out.append((p.by_path[q], t, n, 1))
    for m in ("to_string_with_indent",):
        q = f"dom::Document::{m}"
        if q in p.by_path:
            out.append((p.by_path[q], "Document", 1, None))
    return out


class Ser(Judge):
    def __init__(self, p, key, kind, want, fmt, maps):
        self.setup(p, key, oopts(p))
        self.kind, self.want, self.fmt, self.maps = kind, want, fmt, maps
        self.said = set()

    def good(self, t):
        self.said.add(t)

    def results(self):
        run = self.run
        for s, v in run.outs:
            v = run.e.deep(s, v)
            if self.fmt is not None:
                if outname(v) == "Err":
                    continue
                old, new = run.arg0(self.fmt), run.arg1(s, self.fmt)
                r = strip_front(s, new, old)
                if r is None:
                    yield s, None
                    continue
                v = mkcat(r)
            yield s, v


class C06(Ser):
    def judge(self):
        work = set()
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items, work
        tx = Texts(self.p, self.run, self.maps)
        lx = Lexer(tx, self)
        bad = set()
        for s, v in self.results():
            if v is None:
                self.und("what is written to the formatter")
                continue
            try:
                for (mode, d, stack, roots), env in lx.trans(v, ("C", None, (), 0), (), s):
                    if not lx.compat(s, env):
                        continue
                    if mode != "C" or stack:
                        what = f"leaves <{showname(stack[-1])}> open" if stack else "ends inside markup"
                        raise Wrong("balance", what)
                    if roots != self.want:
                        raise Wrong("roots", f"writes {roots} elements instead of {self.want}")
                self.good("ends outside markup with every opened element closed by its own name")
            except Unknown as x:
                self.und(str(x))
            except Wrong as x:
                if x.key not in bad:
                    bad.add(x.key)
                    self.bad(x.key, str(x))
        for t in sorted(self.said):
            self.ok(t)
        return self.f.items, lx.work


def j06(p, key, kind, want, fmt, maps):
    return C06(p, key, kind, want, fmt, maps).judge()


def all_maps(p):
    ks = [n for n in ESC if n in p.by_path]
    return dict(zip(ks, parallel(p, [(escape_maps, (p.by_path[n],)) for n in ks])))


def self_kind(p, key):
    for t in p.bodies[key]["inputs"]:
        x = p.ty(t)
        while x[0] == "ref":
            x = x[2]
        if x[0] == "adt" and str(x[1]).split("::")[-1] in KINDS:
            return str(x[1]).split("::")[-1]
    return None


def c06(p, rep):
    """C06: every text a serializer can build passes an XML lexer"""
    over_routes(p, rep, j06)


# ------------------------------------------------------------------ C16
class Order:
    """is the order the attributes are written in a total order of their names"""

    def __init__(self, tx, judge):
        self.tx, self.j, self.run = tx, judge, tx.run
        self.sorts = {}
        for ev in self.run.e.events:
            if ev.kind == "sort":
                self.sorts.setdefault(ev.data["old"], []).append(ev)
        self.done = {}

    def use(self, kind, x, orig, src, s, nsrc):
        """one attribute part reaching the output"""
        if src is None or not any(z.op == "vsort" for z in subs(src)):
            if len(x.a) > 2:
                return "ok" if nsrc > 1 else "name-order"
            return "hash"
        L = src
        if L.op == "vsort":
            r = self.judge(L)
            if r == "ok" and self.descending(orig, L):
                return "reversed" if nsrc == 1 else "ok"
            return "name-order" if r == "order" and nsrc == 1 else "ok" if r == "order" else r
        if L.op == "vrev" and L.a[0].op == "vsort":
            r = self.judge(L.a[0])
            return "reversed" if r == "ok" else r
        raise Unknown(f"list {short(show(src), 70)}")

    def descending(self, t, L):
        """is the list walked from its end"""
        for z in subs(t):
            if z.op == "elem" and z.a[0] is L and z.a[1].op == "lin":
                for y, k in z.a[1].a[1]:
                    for i in self.tx.by_phi.get(y, ()):
                        for c, step, _ in self.tx.lv[i].counters():
                            if c is y and step * k < 0:
                                return True
        return False

    def judge(self, L):
        if L in self.done:
            return self.done[L]
        self.done[L] = "ok"
        evs = self.sorts.get(L.a[0])
        if not evs:
            raise Unknown("how the list was sorted")
        res = set()
        for ev in evs:
            res.add(self.event(ev, L))
        for r in ("partial", "asym", "order", "undecided"):
            if r in res:
                self.done[L] = r
                break
        return self.done[L]

    # -------------------------------------------------------------- comparators
    def role(self, t, s, idx):
        """(side, kind, exact) of a text inside a comparator: side 0/1, kind akey/aval"""
        side = None
        for z in subs(t):
            if z.op == "elem":
                for n, i in enumerate(idx):
                    if z.a[1] is i or z.a[1] == i:
                        side = n
        if side is None:
            return None
        def kinds(u):
            try:
                ks = {self.tx.classify(y, s)[0] for y, _ in self.tx.norm(u, s)}
            except Exception:
                return None
            return ks.pop() if len(ks) == 1 else None
        k = kinds(t)
        if k in ("akey", "aval"):
            return side, k, True
        found = {kinds(z) for z in subs(t) if z.op in ("fld", "deref", "elem", "mkey", "mval")}
        for k in ("akey", "aval"):
            if k in found:
                return side, k, False
        return side, None, False

    def event(self, ev, L):
        outs, name = ev.data["outs"], ev.data["name"]
        T = Table(self)
        if ev.data["f"] is None:
            its = self.tx.items(ev.data["old"])
            T.natural(its, ev.st)
        elif not outs:
            return "ok" if ev.data["old"].op == "vec" and len(ev.data["old"].a[0]) < 2 else "undecided"
        else:
            for s, a, v in outs:
                T.out(s, [self.index(x) for x in a], self.run.e.deep(s, v))
        return T.verdict()

    def index(self, a):
        return a.a[1][-1][1] if a.op == "ref" and a.a[1] and a.a[1][-1][0] == "idx" else None


LESS, EQUAL, GREATER = 0, 1, 2
LENS = ("len", "", "akey")
COMMON = ("common prefix", "", "akey")


class Table:
    """a comparison of two list items, evaluated for every relation two different names can have"""

    def __init__(self, order):
        self.o = order
        self.outs = []      # (constraints, result, certain)
        self.keyed = False
        self.free = []
        self.bad = False

    def natural(self, its, s):
        cols = None
        for x in its:
            ps = list(x.a[3]) if x.op == "agg" and x.a[0] == "tuple" else [x]
            ks = tuple(self.kind(y, s) for y in ps)
            if cols is not None and cols != ks:
                self.bad = True
            cols = ks
        if not cols or any(k not in ("akey", "aval") for k in cols):
            self.bad = True
            return
        self.outs.append(([], ("lex", [("col", k) for k in cols]), True))

    def kind(self, t, s):
        try:
            ks = {self.o.tx.classify(y, s)[0] for y, _ in self.o.tx.norm(t, s)}
        except Exception:
            return None
        return ks.pop() if len(ks) == 1 else None

    def out(self, s, idx, v):
        self.keyed = len(idx) < 2
        if len(idx) == 2 and idx[0] == idx[1]:
            self.bad = True
            return
        cons, sure = [], True
        for b, val in s.bools.items():
            if not any(z.op == "elem" and any(z.a[1] == i for i in idx if i is not None) for z in subs(b)):
                continue
            e = self.bool(b, s, idx)
            if e is None:
                sure = False
            else:
                cons.append((e, val))
        for t, vs in s.var.items():
            if t.op == "cmp" and any(z.op == "elem" and any(z.a[1] == i for i in idx if i is not None) for z in subs(t)):
                e = self.ord(t, s, idx)
                if e is None:
                    sure = False
                else:
                    cons.append((e, frozenset(vs)))
        if self.keyed:
            r = self.key(v, s, idx)
        else:
            r = self.ord(v, s, idx)
            c = self.lens(s, v, idx)
            if c:
                cons.append(c)
        self.outs.append((cons, r, sure))

    def lens(self, s, v, idx):
        """what the path knows about the lengths of the two names"""
        names = {}
        for t in [v] + list(s.bools):
            for z in subs(t):
                if z.op in ("deref", "fld", "mkey") and (z.op == "deref" or not any(y.op == "deref" and y.a[0] is z for y in subs(t))):
                    r = self.o.role(z, s, idx)
                    if r and r[1] == "akey" and r[2]:
                        names.setdefault(r[0], z)
        if len(names) < 2:
            return None
        d = lsub(slen(names[1]), slen(names[0]))
        rel = {LESS, EQUAL, GREATER}
        if s.entails(lsub(d, num(1))):
            rel = {LESS}
        elif s.entails(lsub(lsub(num(0), d), num(1))):
            rel = {GREATER}
        else:
            if s.entails(d):
                rel.discard(GREATER)
            if s.entails(lsub(num(0), d)):
                rel.discard(LESS)
        if len(rel) == 3:
            return None
        return self.freesig(LENS), frozenset(rel)

    def freesig(self, sig):
        if sig not in self.free:
            self.free.append(sig)
        return ("free", sig)

    def prefixes(self, x, y, s, idx):
        """the two terms are the names cut to the length of the shorter one: side of the first"""
        if x.op != y.op or x.op not in ("vslice", "slice") or x.a[1] is not y.a[1] or x.a[2] is not y.a[2]:
            return None
        if not is_const(x.a[1]) or s.entails(lsub(x.a[1], num(1))):
            return None
        p, q = x.a[0], y.a[0]
        if p.op == q.op == "bytesof":
            p, q = p.a[0], q.a[0]
        rp, rq = self.o.role(p, s, idx), self.o.role(q, s, idx)
        if not rp or not rq or rp[1] != "akey" or rq[1] != "akey" or not rp[2] or not rq[2] or rp[0] == rq[0]:
            return None
        for a in (p, q):
            if not s.entails(lsub(slen(a), x.a[2])):
                return None
        if not any(s.entails(lsub(x.a[2], slen(a))) for a in (p, q)):
            return None
        return rp[0]

    # expressions over the case: ('r',) relation of names, ('n', side), ('lex', …) …
    def bool(self, b, s, idx):
        if b.op in ("true", "false"):
            return ("const", b.op == "true")
        if b.op == "not":
            e = self.bool(b.a[0], s, idx)
            return None if e is None else ("not", e)
        if b.op == "eq":
            x, y = self.o.role(b.a[0], s, idx), self.o.role(b.a[1], s, idx)
            if x and y and x[1] == y[1] and x[1] and x[2] and y[2] and x[0] != y[0]:
                return ("is", x[1], EQUAL)
        if b.op == "pr" and b.a[0] == "starts_with" and b.a[2].op == "lit" and b.a[2].a[0] == "xmlns":
            x = self.o.role(b.a[1], s, idx)
            if x and x[1] == "akey" and x[2]:
                return ("n", x[0])
        return None

    def ord(self, v, s, idx):
        if v.op == "agg" and v.a[2] in ("Less", "Equal", "Greater"):
            return ("const", ("Less", "Equal", "Greater").index(v.a[2]))
        if v.op == "cmp":
            return self.cmp(v.a[0], v.a[1], s, idx)
        return None

    def cmp(self, x, y, s, idx):
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] == "tuple":
            es = [self.cmp(p, q, s, idx) for p, q in zip(x.a[3], y.a[3])]
            return None if None in es else ("lex", es)
        if x.op in ("pr", "not", "true", "false", "eq") or y.op in ("pr", "not", "true", "false", "eq"):
            p, q = self.bool(x, s, idx), self.bool(y, s, idx)
            return None if p is None or q is None else ("cmpb", p, q)
        side = self.prefixes(x, y, s, idx)
        if side is not None:
            e = self.freesig(COMMON)
            return e if side == 0 else ("rev", e)
        p, q = self.o.role(x, s, idx), self.o.role(y, s, idx)
        if not p or not q or p[0] == q[0] or p[1] != q[1] or p[1] is None:
            return None
        lx, ly = lenof(x), lenof(y)
        if lx is not None and ly is not None and p[1] == q[1] == "akey" and all((self.o.role(z, s, idx) or (0, 0, 0))[2] for z in (lx, ly)):
            e = self.freesig(LENS)
        elif p[2] and q[2]:
            e = ("rel", p[1])
        elif lossy_key(x) and lossy_key(y):
            sig = (x.op, x.a[0] if isinstance(x.a[0] if x.a else None, str) else "", p[1])
            if sig not in self.free:
                self.free.append(sig)
            e = ("free", sig)
        else:
            return None
        return e if p[0] == 0 else ("rev", e)

    def key(self, v, s, idx):
        """one-sided key: a function of the side"""
        if v.op == "agg" and v.a[0] == "tuple":
            es = [self.key(x, s, idx) for x in v.a[3]]
            return None if None in es else ("lex", es)
        if v.op in ("true", "false", "pr", "not", "eq"):
            e = self.bool(v, s, idx)
            return None if e is None else ("kb", e)
        if v.op == "lit" or v.op == "lin" and is_const(v):
            return ("kc", v)
        r = self.o.role(v, s, idx)
        if not r or r[1] is None:
            return None
        if r[2]:
            return ("col", r[1])
        if lossy_key(v):
            sig = (v.op, v.a[0] if v.a and isinstance(v.a[0], str) else "", r[1])
            if sig not in self.free:
                self.free.append(sig)
            return ("free", sig)
        return None

    # evaluation
    def ev(self, e, c, side=None):
        k = e[0]
        if k == "const":
            return e[1]
        if k == "not":
            return not self.ev(e[1], c, side)
        if k == "n":
            return c["n"][e[1] if side is None else side]
        if k == "is":
            return c[e[1]] == e[2]
        if k in ("rel", "col"):
            return c[e[1]]
        if k == "free":
            return c[e[1]]
        if k == "rev":
            return 2 - self.ev(e[1], c, side)
        if k == "cmpb":
            p, q = self.ev(e[1], c, side), self.ev(e[2], c, side)
            return 1 + (p > q) - (p < q)
        if k == "kc":
            return EQUAL
        if k == "kb":
            p, q = self.ev(e[1], c, 0), self.ev(e[1], c, 1)
            return 1 + (p > q) - (p < q)
        if k == "lex":
            for x in e[1]:
                r = self.ev(x, c, side)
                if r != EQUAL:
                    return r
            return EQUAL
        raise Unknown(k)

    def holds(self, cons, c, side=None):
        for e, val in cons:
            v = self.ev(e, c, side)
            if isinstance(val, frozenset):
                if v not in val:
                    return False
            elif v != val:
                return False
        return True

    def results(self, c):
        """[(result, certain)]"""
        out = []
        if not self.keyed:
            for cons, r, sure in self.outs:
                if self.holds(cons, c):
                    out.append((self.ev(r, c) if r is not None else None, sure))
            return out
        A = [(r, sure) for cons, r, sure in self.outs if self.holds(cons, c, 0)]
        B = [(r, sure) for cons, r, sure in self.outs if self.holds(cons, c, 1)]
        for r, s1 in A:
            for q, s2 in B:
                out.append((self.two(r, q, c), s1 and s2))
        return out

    def two(self, r, q, c):
        if r is None or q is None:
            return None
        if r == q:
            if r[0] == "kc":
                return EQUAL
            return self.ev(r, c)
        if r[0] == q[0] == "lex":
            for x, y in zip(r[1], q[1]):
                z = self.two(x, y, c)
                if z is None or z != EQUAL:
                    return z
            return EQUAL
        if r[0] == q[0] == "kb":
            p, w = self.ev(r[1], c, 0), self.ev(q[1], c, 1)
            return 1 + (p > w) - (p < w)
        if r[0] == q[0] == "kc":
            x, y = r[1], q[1]
            x, y = x.a[0], y.a[0]
            return 1 + (x > y) - (x < y) if type(x) is type(y) else None
        return None

    def cases(self):
        import itertools
        for r in (LESS, GREATER):
            for na in (False, True):
                for nb in (False, True):
                    for rv in (LESS, EQUAL, GREATER):
                        for fs in itertools.product((LESS, EQUAL, GREATER), repeat=len(self.free)):
                            c = dict(zip(self.free, fs), akey=r, aval=rv, n=(na, nb))
                            if COMMON in c and c[COMMON] != EQUAL and c[COMMON] != r:
                                continue
                            if COMMON in c and c[COMMON] == EQUAL and c.get(LENS, r) != r:
                                continue
                            if COMMON in c and c[COMMON] == EQUAL and r == LESS and na and not nb:
                                continue        # the longer name starts like the shorter
                            if COMMON in c and c[COMMON] == EQUAL and r == GREATER and nb and not na:
                                continue
                            yield c

    def mirror(self, c):
        m = {k: 2 - v for k, v in c.items() if k != "n"}
        m["n"] = (c["n"][1], c["n"][0])
        return m

    def verdict(self):
        if self.bad or len(self.free) > 3:
            return "undecided"
        found = set()
        for c in self.cases():
            rs = self.results(c)
            if not rs or any(r is None or not sure for r, sure in rs):
                found.add("undecided")
                continue
            n = c["n"]
            want = (LESS if n[0] else GREATER) if n[0] != n[1] else c["akey"]
            for r, _ in rs:
                if r == want:
                    continue
                if r == EQUAL:
                    found.add("partial")
                elif any(q == r for q, _ in self.results(self.mirror(c))):
                    found.add("asym")
                else:
                    found.add("order")
        for x in ("partial", "asym", "order", "undecided"):
            if x in found:
                return x
        return "ok"


def lenof(t):
    """x when the term is the length of x"""
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
        t = t.a[1][0][0]
    return t.a[0] if t.op == "len" else None


def lossy_key(t):
    """a function of the name under which different names may be equal"""
    return t.op == "lin" or t.op in ("len", "strfn", "case", "slice", "lower", "upper")


class C16(Ser):
    def judge(self):
        work = set()
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items, work
        tx = Texts(self.p, self.run, self.maps)
        lx = Lexer(tx, self)
        unk = False
        for s, v in self.results():
            if v is None:
                continue
            try:
                lx.trans(v, ("C", None, (), 0), (), s)
            except (Unknown, Wrong):
                unk = True
        o = Order(tx, self)
        srcs = {u[3] for u in lx.uses}
        said = set()
        for kind, x, orig, src, s in lx.uses:
            try:
                r = o.use(kind, x, orig, src, s, len(srcs))
            except Unknown as e:
                r = "undecided " + str(e)
            if r in said:
                continue
            said.add(r)
            if r == "ok":
                self.ok("attributes are written in the order of a comparison that tells all names apart, namespace declarations first")
            elif r == "hash":
                self.bad("hash-order", "attributes are written in the iteration order of a hash map")
            elif r == "partial":
                self.bad("partial", "attributes are ordered by a comparison under which different names may be equal, so hash-map order shows")
            elif r == "asym":
                self.bad("asym", "the comparison of two attribute names does not depend on both of them")
            elif r in ("order", "name-order"):
                self.bad("order", "attributes are not ordered with namespace declarations first, then by name")
            elif r == "reversed":
                self.bad("order", "the sorted attributes are written in reverse")
            else:
                self.und(f"order of the attributes: {r}")
        if unk and not said:
            self.und("text that is not understood")
        return self.f.items, lx.work


def j16(p, key, kind, want, fmt, maps):
    return C16(p, key, kind, want, fmt, maps).judge()


def over_routes(p, rep, job):
    maps = {k: v if not (isinstance(v, tuple) and v and v[0] == "exc") else None for k, v in all_maps(p).items()}
    todo = [(k, t, n, f) for k, t, n, f in routes(p)]
    done = set()
    while todo:
        done |= {k for k, *_ in todo}
        res = parallel(p, [(job, (k, t, n, f, maps)) for k, t, n, f in todo])
        names = [p.bodies[k]["path"] for k, *_ in todo]
        more = set()
        plain = []
        for r in res:
            if isinstance(r, tuple) and r and r[0] == "exc":
                plain.append(r)
            else:
                plain.append(r[0])
                more |= r[1]
        merge(rep, plain, names)
        todo = []
        for k in sorted(more - done):
            t = self_kind(p, k) or "Element"
            todo.append((k, t, 1 if t == "Element" else 0, None))
    rep.cover["serializers"] = sorted(p.bodies[k]["path"] for k in done)
    return done


NONDET = ("clock", "random", "environment", "thread", "shared-state", "network", "process", "fs-read", "fs-other")


def c16(p, rep):
    """C16: the order of attributes is a total order of their names; no other source of variation is reachable"""
    from graphprops import graph, effect_of
    done = over_routes(p, rep, j16)
    g = graph(p)
    for r in sorted(done):
        bad = []
        n = 0
        for k, path in g.reach([r]).items():
            for ep, fn, span in g.ext[k]:
                n += 1
                if effect_of(ep or "") in NONDET:
                    bad.append((ep, k, span))
        if not rep.ob(not bad, f"{p.bodies[r]['path']}: none of the {n} library calls below it reads a clock, a random source or the environment"):
            for ep, k, span in bad:
                rep.violate(f"nondet|{ep}|{p.bodies[k]['path']}", f"{ep} called in {p.bodies[k]['path']} ({span[0]}:{span[1]}), reached from {p.bodies[r]['path']}")


CHECKS = {"C06": c06, "C16": c16}
EXPLAIN = {"C06": "Text built by each serializer, as a regular structure of literals, stored strings and loops, run through an XML lexer with a stack of open names.",
           "C16": "Every attribute part that reaches the text is traced to the list it came from; the comparison that list was sorted by is judged case by case."}
