"""C17, C18, C19, C22: what leaves and enters a Document as a whole: output routes, indents, I/O, prolog."""
from terms import *
from semlib import Run, short, parallel
from domlib import *
from domrules import opts, incomplete
from summ import s_pure
from escrules import pieces, strip_front, Unknown, feasible
from outrules import mkcat

T = "dom::Document::to_string_with_indent"
DEFAULT = "  "
ROUTES = (  # path, position of the indent argument, position of the writer argument, position of the path argument
    ("dom::Document::to_string", None, None, None, "ret"),
    ("<dom::Document as std::fmt::Display>::fmt", None, 1, None, "fmt"),
    ("<dom::Document as std::fmt::Debug>::fmt", None, 1, None, "fmt"),
    ("dom::Document::write_to_file", None, 1, None, "io"),
    ("dom::Document::write_to_file_with_indent", 2, 1, None, "io"),
    ("dom::Document::write_to_filepath", None, None, 1, "file"),
    ("dom::Document::write_to_filepath_with_indent", 2, None, 1, "file"),
)
WRITERS = ("Write::write_fmt", "Write::write_all", "Write::write")


# ------------------------------------------------------------------ what a route emits
def is_text(p, t):
    return t.op == "call" and t.a[0] == "doc:text"


def core(p):
    """the functions through which a document becomes text: the outermost public one, and one below it when that is only a wrapper"""
    from graphprops import graph
    g = graph(p)
    top = p.by_path.get(T)
    if top is None:
        return None
    cand = []
    for k in g.reach([top]):
        b = p.bodies[k]
        if "inputs" not in b or "{closure" in b["path"] or b["path"].startswith("<"):
            continue
        ins = [p.ty(t) for t in b["inputs"]]
        if len(ins) == 2 and ins[0][0] == "ref" and ins[0][2] == ("adt", "dom::Document", ()) and "String" in str(p.ty(b["output"])):
            cand.append(k)
    inner = [k for k in cand if not any(m != k and m in g.reach([k]) for m in cand)]
    return inner[0] if len(inner) == 1 else top


def textopts(p):
    o = opts(p)
    k = core(p)
    if k is not None:
        o["summaries"][k] = s_pure("doc:text")
    return o


def plainarg(run, i):
    """term a parameter converts to: the string behind `impl Into<String>`, `&str`"""
    return run.arg0(i)


def sink(e, s, t, seq, d=0):
    """where a writer leads: ('arg', term) / ('file', path term, options) with the adaptors on the way"""
    ad = []
    while d < 8:
        d += 1
        if t.op == "ref":
            t = e.deep(s, t)
            continue
        if t.op == "io":
            ad.append(t.a[0])
            t = t.a[-1] if t.a[0] != "take" else t.a[1]
            continue
        break
    for n, c, v in seq:
        if v is t and n in ("File::create", "OpenOptions::open", "File::open", "File::create_new"):
            return ("file", n, c), ad
    return ("val", t), ad


def unbytes(t):
    return t.a[0] if t.op == "bytesof" else t


def samepath(e, s, a, b):
    def base(x):
        n = 0
        while n < 6 and x.op in ("path", "ref", "deref"):
            x = e.deep(s, x) if x.op == "ref" else x.a[0]
            n += 1
        return x
    return base(a) is base(b)


def ioseq(s):
    seq = s.ghost.get("ioseq", ())
    if any(x[0] == "?" for x in seq):
        raise Unknown("what is read or written in a loop")
    return seq


class Route(Judge):
    def __init__(self, p, key, ind, wr, pa, how, forms, o=None):
        self.setup(p, key, o or textopts(p))
        self.ind, self.wr, self.pa, self.how, self.forms = ind, wr, pa, how, forms

    def emitted(self, s, v):
        """(text term, list of remarks) on a successful path; raises Unknown"""
        run, e = self.run, self.e
        if self.how == "ret":
            return v, []
        if self.how == "fmt":
            r = strip_front(s, run.arg1(s, self.wr), run.arg0(self.wr))
            if r is None:
                raise Unknown("what is written to the formatter")
            return mkcat(r), []
        seq = ioseq(s)
        out, notes = [], []
        buffered, flushed = False, False
        for n, c, _ in seq:
            if self.how == "io":
                if n in WRITERS:
                    sk, ad = sink(e, s, c[0], seq)
                    if sk[0] != "val" or sk[1] is not self.run.arg0(self.wr) and sk[1] is not e.deep(s, self.run.args[self.wr]):
                        raise Unknown("where the text is written")
                    out.append(unbytes(c[1]))
                    buffered, flushed = buffered or bool(ad), flushed if not ad else False
                    if n == "Write::write":
                        notes.append(("partial", "writes with a single write(), which may stop before the end of the text"))
                elif n == "Write::flush":
                    flushed = True
                else:
                    raise Unknown(f"{n} in a function that writes to a stream")
            else:
                if n == "fs::write":
                    if not samepath(e, s, c[0], run.arg0(self.pa)):
                        raise Unknown("writes to another path")
                    out = [unbytes(c[1])]
                elif n in WRITERS:
                    sk, ad = sink(e, s, c[0], seq)
                    if sk[0] != "file":
                        raise Unknown("where the text is written")
                    if not samepath(e, s, sk[2][-1], run.arg0(self.pa)):
                        raise Unknown("writes to another path")
                    if sk[1] == "OpenOptions::open":
                        fl = {}
                        ob = sk[2][0]
                        if ob.op != "agg":
                            raise Unknown("options the file is opened with")
                        for x in ob.a[3]:
                            fl[x.a[3][0].a[0]] = x.a[3][1].op
                        if fl.get("append") == "true":
                            notes.append(("append", "appends to an existing file instead of replacing its content"))
                        elif fl.get("truncate") != "true" and fl.get("create_new") != "true":
                            notes.append(("leftover", "opens an existing file without truncating it: the end of a longer old file stays"))
                    elif sk[1] != "File::create":
                        raise Unknown(sk[1])
                    out.append(unbytes(c[1]))
                    buffered, flushed = buffered or bool(ad), flushed if not ad else False
                    if n == "Write::write":
                        notes.append(("partial", "writes with a single write(), which may stop before the end of the text"))
                elif n == "Write::flush":
                    flushed = True
                elif n in ("fs::create_dir_all", "fs::create_dir", "File::create", "OpenOptions::open", "File::sync_all", "File::sync_data", "DirBuilder::create"):
                    pass
                else:
                    raise Unknown(f"{n} in a function that writes a file")
        if buffered and not flushed:
            notes.append(("unflushed", "leaves the text in a buffer whose flush errors are lost when it is dropped"))
        return mkcat([y for x in out for y in pieces(x)]), notes

    def conditioned(self, s):
        """the path was chosen by looking at the text itself or at the writer's state"""
        for b in s.bools:
            if any(is_text(self.p, z) for z in subs(b)):
                return True
        for k in s.lin:
            if any(z.op in ("trimlo", "trimhi") for t, _ in k for z in subs(t)):
                continue        # how trim works, not a choice of the program
            for t, _ in k:
                if any(is_text(self.p, z) for z in subs(t)):
                    return True
        return False

    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        run, e = self.run, self.e
        self_ = run.arg0(0)
        want = run.arg0(self.ind) if self.ind is not None else lit(DEFAULT)
        seen = set()
        got = set()
        for s, v in run.outs:
            v = e.deep(s, v)
            if self.how != "ret" and (outname(v) == "Err" or "ioerrs" in s.ghost):
                continue
            try:
                t, notes = self.emitted(s, v)
            except Unknown as x:
                self.und(str(x))
                continue
            for k, m in notes:
                if k in ("append", "leftover") and k not in seen:
                    seen.add(k)
                    self.bad(k, m)
            r = self.compare(s, t, self_, want, got)
            if r in seen:
                continue
            seen.add(r)
            if r is None:
                self.ok(f"emits the text of {short(self.p.bodies[core(self.p)]['path'], 80)} for the same document and indent, nothing else")
            elif r[0] == "?":
                self.und(r[1])
            else:
                self.bad(*r)
        self.linewise()
        if "param" in got and "default" in self.forms and "default" not in got and self.ind is not None:
            self.bad("indent", "uses the indent as it is where the other output functions replace invalid ones")
        return self.f.items

    def linewise(self):
        """text written in pieces of its lines(), which have lost how each line ended"""
        for ev in self.run.e.events:
            if ev.kind != "io" or ev.data["name"] not in WRITERS:
                continue
            for x in ev.data["contents"][1:]:
                for z in subs(x):
                    if z.op == "slice" and is_text(self.p, z.a[0]) and any(
                            y.op == "agg" and str(y.a[0]) == "it:split" and y.a[3][0] is z.a[0] and y.a[3][1].op == "lit" and y.a[3][1].a[0] == "lines"
                            for v in ev.st.mem.values() if hasattr(v, "op") for y in subs(v)):
                        self.bad("lines", "writes the lines of the text one by one: carriage returns before a line break are lost")
                        return

    def compare(self, s, t, self_, want, got):
        ps = pieces(t)
        calls = [x for x in ps if is_text(self.p, x)]
        if not ps:
            return ("?", "emits nothing on some path") if self.conditioned(s) else ("nothing", "may succeed without emitting anything")
        if len(ps) == 1 and calls:
            c = calls[0]
            if not same(self.e, s, c.a[1][0], self_):
                return ("?", "the text is that of another value")
            ind = c.a[1][1]
            if ind is want:
                got.add("param" if self.ind is not None else "default")
                return None
            if ind.op == "lit" and ind.a[0] == DEFAULT:
                got.add("default")
                if "default" in self.forms:
                    return None
                return ("indent", "uses the default indent instead of the one it was given")
            if ind.op == "lit" and want.op == "lit":
                return ("indent", f"uses the indent {ind.a[0]!r} instead of the default")
            if ind.op == "lit":
                return ("indent", f"uses the indent {ind.a[0]!r} instead of the one it was given")
            return ("?", f"uses the indent {short(show(ind), 60)}")
        if self.conditioned(s):
            return ("?", "emits different text under a condition on the text")
        if len(calls) > 1:
            return ("twice", "emits the text more than once")
        if calls:
            rest = [x for x in ps if x is not calls[0]]
            if all(x.op == "lit" or x.op == "chstr" for x in rest):
                return ("extra", f"adds {' '.join(repr(x.a[0]) if x.op == 'lit' else show(x) for x in rest)} to the text")
            return ("?", f"emits {short(show(t), 90)}")
        if len(ps) == 1 and ps[0].op in ("slice", "strfn", "replace", "case") and any(is_text(self.p, z) for z in subs(ps[0])):
            return ("changed", f"emits {short(show(t), 90)} instead of the text itself")
        return ("?", f"the text is composed separately: {short(show(t), 90)}")


def j17(p, key, ind, wr, pa, how, forms):
    return Route(p, key, ind, wr, pa, how, forms).judge()


def reference(p):
    """indents the public text function passes on: its own argument, the default"""
    k, top = core(p), p.by_path[T]
    if k == top:
        return ("param",)
    run = Run(p, top, textopts(p), tl=60)
    got = set()
    for s, v in run.outs:
        v = run.e.deep(s, v)
        if is_text(p, v) and v.a[1][1] is run.arg0(1):
            got.add("param")
        elif is_text(p, v) and v.a[1][1].op == "lit" and v.a[1][1].a[0] == DEFAULT:
            got.add("default")
        else:
            return None
    return tuple(sorted(got))


def c17(p, rep):
    """C17: every output route emits exactly the text of to_string_with_indent"""
    if T not in p.by_path:
        rep.undecide(f"{T} is not there")
        return
    forms = parallel(p, [(reference, ())])[0]
    if forms is None or forms and forms[0] == "exc":
        rep.undecide(f"{T} is not understood as a wrapper")
        return
    jobs, names = [], []
    for path, ind, wr, pa, how in ROUTES:
        if path not in p.by_path:
            rep.undecide(f"{path} is not there")
            continue
        k = p.by_path[path]
        if k == core(p):
            continue
        jobs.append((j17, (k, ind, wr, pa, how, forms)))
        names.append(path)
    merge(rep, parallel(p, jobs), names)
    rep.cover["routes"] = names


# ------------------------------------------------------------------ C19
class IO(Route):
    """no error of an I/O call is dropped, nothing is cut"""

    def mentions(self, s, e0):
        return any(e0 in subs(b) for b in s.bools) or any(e0 in subs(t) for t in s.var)

    def errors(self, crate):
        n = 0
        for s, v in self.run.outs:
            es = s.ghost.get("ioerrs", ())
            if not es:
                continue
            n += 1
            v = self.e.deep(s, v)
            o = outcome(self.run, s, v)
            calls = [x[0] for x in s.ghost["ioseq"] if x[2] is es[0]]
            what = calls[0] if calls else "an I/O call"
            if any(self.mentions(s, x) for x in es) and (loops(self.run) or "create_dir" in what or "Builder" in what):
                self.und(f"the error of {what} is treated by its kind")
            elif v.op == "call" and v.a[0] == "parse":
                self.bad(f"dropped|{what}", f"goes on and parses although {what} failed")
            elif o == "Ok":
                self.bad(f"dropped|{what}", f"returns Ok although {what} failed")
            elif o != "Err":
                self.und(f"what is returned when {what} failed")
            else:
                pl = payload(self.run, s, v)
                if es[0] in subs(pl):
                    if crate and not (pl.op == "agg" and pl.a[2] == "IOError"):
                        if pl.op == "agg" and str(pl.a[0]).endswith("KissXmlError"):
                            self.bad(f"kind|{what}", f"reports the error of {what} as {pl.a[2]}, not as the I/O error")
                        else:
                            self.und(f"error {short(show(pl), 80)}")
                    else:
                        self.ok(f"the error of {what} is returned")
                elif len(es) > 1 and es[-1] in subs(pl):
                    self.bad(f"dropped|{what}", f"the error of {what} is dropped, a later one is returned")
                elif crate and pl.op == "agg" and str(pl.a[0]).endswith("KissXmlError") and pl.a[2] != "IOError":
                    self.bad(f"kind|{what}", f"reports the error of {what} as {pl.a[2]}, not as the I/O error")
                else:
                    self.und(f"the error returned when {what} failed: {short(show(pl), 80)}")
        return n

    def swallow(self):
        """a fallible call whose result decides nothing"""
        return

    def out(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        n = self.errors(False)
        if not n:
            self.und("no I/O call was seen")
        said = set()
        for s, v in self.run.outs:
            v = self.e.deep(s, v)
            if "ioerrs" in s.ghost or outname(v) == "Err":
                continue
            try:
                t, notes = self.emitted(s, v)
            except Unknown as x:
                self.und(str(x))
                continue
            for k, m in notes:
                if k in ("partial", "unflushed", "leftover"):
                    if k == "partial" and loops(self.run):
                        self.und("writes in a loop")
                    elif k not in said:
                        said.add(k)
                        self.bad(k, m)
            ps = pieces(t)
            if not ps:
                if self.conditioned(s):
                    self.und("succeeds without writing under a condition")
                elif "nothing" not in said:
                    said.add("nothing")
                    self.bad("nothing", "may succeed without writing anything")
                continue
            for x in ps:
                if x.op == "slice" and is_text(self.p, x.a[0]):
                    b, lo, hi = sbase(x)
                    if not (is_const(lo) and cval(lo) == 0 and s.same(hi, slen(b))) and "cut" not in said:
                        said.add("cut")
                        self.bad("cut", f"writes only {short(show(x), 90)}")
            if not notes and not said:
                self.ok("the complete text is handed to one writing call before Ok is returned")
        return self.f.items

    def inp(self, src, isfile):
        """src: index of the reader or path argument"""
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items
        n = self.errors(True)
        if not n:
            self.und("no I/O call was seen")
        said = set()
        for s, v in self.run.outs:
            if "ioerrs" in s.ghost:
                continue
            v = self.e.deep(s, v)
            calls = [x for x in subs(v) if x.op == "call" and x.a[0] == "parse"]
            if not calls:
                if outcome(self.run, s, v) != "Err":
                    self.und(f"result {short(show(v), 80)}")
                continue
            if v is not calls[0]:
                self.und(f"result {short(show(v), 80)}")
            try:
                r = self.complete(s, calls[0].a[1][0], src, isfile)
            except Unknown as x:
                r = ("?", str(x))
            if r in said:
                continue
            said.add(r)
            if r is None:
                self.ok("the parser is given everything up to the end of the input, decoded as UTF-8 with errors reported")
            elif r[0] == "?":
                self.und(r[1])
            else:
                self.bad(*r)
        return self.f.items

    def complete(self, s, x, src, isfile, d=0):
        seq = ioseq(s)
        if d > 6:
            raise Unknown("input text")
        if x.op == "cat":
            ps = pieces(x)
            raise Unknown(f"input text {short(show(x), 80)}")
        if x.op == "slice":
            b, lo, hi = sbase(x)
            if is_const(lo) and cval(lo) == 0 and s.same(hi, slen(b)):
                return self.complete(s, b, src, isfile, d + 1)
            self.complete(s, b, src, isfile, d + 1)
            if any(z.op in ("trimlo", "trimhi") for z in subs(x)) or any(b in subs(y) for y in s.bools):
                raise Unknown(f"parses {short(show(x), 80)}")
            return ("cut", f"parses only {short(show(x), 80)} of the input")
        if x.op == "lossy":
            return ("lossy", "bytes that are not UTF-8 are replaced instead of reported")
        if x.op == "utf8":
            x = x.a[0]
        if x.op in ("strfn", "replace", "case"):
            self.complete(s, x.a[-1] if hasattr(x.a[-1], "op") else x.a[0], src, isfile, d + 1)
            raise Unknown(f"parses {short(show(x), 80)}")
        # a value produced by an I/O call of this path
        for n, c, v in seq:
            hit = v is x or x.op == "sym" and len(x.a) > 1 and isinstance(x.a[1], tuple) and x.a[1][:1] == ("input",) or x.op == "fresh" and False
            if not hit:
                continue
            if n in ("fs::read_to_string", "fs::read"):
                if isfile and samepath(self.e, s, c[0], self.run.arg0(src)):
                    return None
                raise Unknown("reads another path")
            if n in ("Read::read_to_string", "Read::read_to_end", "io::read_to_string"):
                return self.reader(s, c[0], seq, src, isfile)
            if n in ("Read::read", "Read::read_exact", "BufRead::read_line"):
                if loops(self.run):
                    raise Unknown("reads in a loop")
                return ("partial", f"{n} need not reach the end of the input")
        for n, c, v in seq:
            if n == "Read::read_to_end" and "inputbytes" in str(x):
                return self.reader(s, c[0], seq, src, isfile)
            if n == "Read::read" and not loops(self.run):
                return ("partial", "one read() need not reach the end of the input")
        raise Unknown(f"input text {short(show(x), 80)}")

    def reader(self, s, t, seq, src, isfile):
        n = 0
        while n < 8:
            n += 1
            if t.op == "ref":
                t = self.e.deep(s, t)
            elif t.op == "io" and t.a[0] == "take":
                return ("partial", f"reads at most {short(show(t.a[2]), 30)} bytes of the input")
            elif t.op == "io":
                t = t.a[-1]
            else:
                break
        if isfile:
            for m, c, v in seq:
                if v is t and m == "File::open":
                    if samepath(self.e, s, c[-1], self.run.arg0(src)):
                        return None
                    raise Unknown("reads another path")
            raise Unknown("which file is read")
        if t is self.run.arg0(src) or t is self.e.deep(s, self.run.args[src]):
            return None
        raise Unknown(f"reads {short(show(t), 60)}")


def parseopts(p):
    o = opts(p)
    if "parse_str" in p.by_path:
        o["summaries"][p.by_path["parse_str"]] = s_pure("parse")
    return o


def j19out(p, key, ind, wr, pa, how):
    return IO(p, key, ind, wr, pa, how, ()).out()


def j19in(p, key, isfile):
    r = IO(p, key, None, None, None, "in", (), parseopts(p))
    return r.inp(0, isfile)


LOSSY = ("String::from_utf8_lossy", "str::from_utf8_unchecked", "String::from_utf8_unchecked", "OsStr::to_string_lossy", "Path::to_string_lossy")


def c19(p, rep):
    """C19: every I/O error is returned, input is read to its end, output is written completely"""
    from graphprops import graph
    jobs, names = [], []
    for path, ind, wr, pa, how in ROUTES:
        if how in ("io", "file") and path in p.by_path:
            jobs.append((j19out, (p.by_path[path], ind, wr, pa, how)))
            names.append(path)
    for path, isfile in (("parse_filepath", True), ("parse_stream", False)):
        if path in p.by_path:
            jobs.append((j19in, (p.by_path[path], isfile)))
            names.append(path)
        else:
            rep.undecide(f"{path} is not there")
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = names
    g = graph(p)
    roots = [p.by_path[x] for x in names]
    hits = []
    n = 0
    for k in g.reach(roots):
        for ep, fn, span in g.ext[k]:
            n += 1
            if any((ep or "").endswith(x.split("::", 1)[1]) for x in LOSSY):
                hits.append((ep, k, span))
    if not rep.ob(not hits, f"none of the {n} library calls below the I/O functions decodes text without reporting errors"):
        for ep, k, span in hits:
            rep.violate(f"lossy|{ep}|{p.bodies[k]['path']}", f"{ep} called in {p.bodies[k]['path']} ({span[0]}:{span[1]})")


# ------------------------------------------------------------------ C18
class Unk(Exception):
    pass


def evl(t, X, w, asg):
    """value of a term when the string X is w and the loop cells are asg"""
    o = t.op
    if t is X:
        return w
    if o == "lin":
        r = t.a[0]
        for x, k in t.a[1]:
            v = evl(x, X, w, asg)
            if isinstance(v, str):
                if len(v) != 1:
                    raise Unk
                v = ord(v)
            r += k * v
        return r
    if t in asg:
        return asg[t]
    if o == "lit":
        return t.a[0]
    if o == "ch":
        return chr(t.a[0])
    if o in ("true", "false"):
        return o == "true"
    if o == "len":
        return len(evl(t.a[0], X, w, asg).encode())
    if o == "w":
        return len(evl(t.a[0], X, w, asg).encode())
    if o == "chstr":
        return evl(t.a[0], X, w, asg)
    if o == "charat":
        b = evl(t.a[0], X, w, asg).encode()
        n = evl(t.a[1], X, w, asg)
        if not 0 <= n < len(b):
            raise IndexError
        return b[n:].decode()[0]
    if o == "slice":
        b = evl(t.a[0], X, w, asg).encode()
        return b[evl(t.a[1], X, w, asg):evl(t.a[2], X, w, asg)].decode()
    if o in ("trimlo", "trimhi"):
        b = evl(t.a[0], X, w, asg)
        m = cls(t.a[1])
        if o == "trimlo":
            n = 0
            while n < len(b) and m(b[n]):
                n += 1
            return len(b[:n].encode())
        lo = evl(t.a[2], X, w, asg)
        n = len(b)
        while n > 0 and len(b[:n - 1].encode()) >= lo and m(b[n - 1]):
            n -= 1
        return len(b[:n].encode())
    if o == "not":
        return not evl(t.a[0], X, w, asg)
    if o == "or":
        return any(evl(x, X, w, asg) for x in t.a)
    if o == "and":
        return all(evl(x, X, w, asg) for x in t.a)
    if o == "eq":
        return evl(t.a[0], X, w, asg) == evl(t.a[1], X, w, asg)
    if o == "ge" or o == "ge0":
        return evl(t.a[0], X, w, asg) >= 0
    if o == "eqz":
        return evl(t.a[0], X, w, asg) == 0
    if o == "pr" and t.a[0] == "ch":
        from state import char_pred
        r = char_pred(t.a[1], ord(evl(t.a[2], X, w, asg)))
        if r is None:
            raise Unk
        return r
    if o == "pr" and t.a[0] in ("contains", "starts_with", "ends_with"):
        a, b = evl(t.a[1], X, w, asg), evl(t.a[2], X, w, asg)
        return b in a if t.a[0] == "contains" else a.startswith(b) if t.a[0] == "starts_with" else a.endswith(b)
    raise Unk


def cls(tag):
    from state import char_pred
    if tag == "ws":
        return lambda c: char_pred("whitespace", ord(c))
    if isinstance(tag, (tuple, list)) and len(tag) == 2 and tag[0] == "m":
        x = tag[1]
        x = x.a[0] if hasattr(x, "op") and x.op == "lit" else chr(x.a[0]) if hasattr(x, "op") and x.op == "ch" else x
        if isinstance(x, str) and len(x) == 1:
            return lambda c: c == x
    raise Unk


def facts(s):
    for b, v in s.bools.items():
        yield b, v
    for k, c in s.lin.items():
        yield mk("ge", mk("lin", c, tuple(k))), True


def fits(s, X, w, asg, cells):
    """do the facts of the state that speak about X hold for the string w: True / False / None"""
    sure = True
    for b, v in facts(s):
        zs = set(subs(b))
        if X not in zs and not (zs & cells):
            continue
        try:
            if evl(b, X, w, asg) != v:
                return False
        except IndexError:
            return False
        except (Unk, TypeError, UnicodeDecodeError):
            sure = False
    for t, vs in s.var.items():
        if X in subs(t):
            sure = False
    return True if sure else None


WITNESS = ("x", "\t\t", " x", "x ", "   x", "\t ", " \t", "  \t", "\n", " \n", "\u00a0", "  \u2003", " " * 30 + "x", "\tx", "<!", "\u00e9", "x\t", "    \n    ")


class Indents(Judge):
    def __init__(self, p, key, ind, work):
        o = opts(p)
        for k in work:
            o["summaries"][k] = s_pure("ser:" + k)
        self.setup(p, key, o)
        self.ind, self.work = ind, work
        self.lv = loops(self.run)
        self.by_phi = {}
        for i, l in enumerate(self.lv):
            for c in l.loc:
                self.by_phi.setdefault(c, []).append(i)

    def alts(self, t, s, d=0):
        """values a term may stand for: [(value, state)]"""
        if d > 6:
            raise Unknown("indent")
        if t.op == "ref":
            return self.alts(self.e.deep(s, t), s, d + 1)
        if t.op == "phi" and t in self.by_phi:
            out = []
            for i in self.by_phi[t]:
                l = self.lv[i]
                for bs, nv in l.nexts(t):
                    if nv is not t:
                        raise Unknown("an indent that changes in a loop")
                for es, v in l.entries(t):
                    if v is None:
                        raise Unknown("indent")
                    out += self.alts(v, es, d + 1)
            return out
        return [(t, s)]

    # -------------------------------------------------------------- validity
    def valid(self, s, X):
        """True: certainly a tab or spaces; a string: counterexample; None: not known"""
        if X.op == "lit":
            return True if X.a[0] == "\t" or not X.a[0].strip(" ") else X.a[0]
        if s.bools.get(mk("eq", X, lit("\t"))) or s.bools.get(mk("eq", lit("\t"), X)) or s.cst.get(X) is lit("\t"):
            return True
        if s.same(slen(X), num(0)):
            return True
        if self.spaces(s, X):
            return True
        cells = {c for c in self.by_phi if any(X in subs(x) for i in self.by_phi[c] for _, x in self.lv[i].nexts(c) if x is not None)}
        cells |= {c for i, l in enumerate(self.lv) if any(x in l.loc for x in cells) for c in l.loc}
        used = {c for b, _ in facts(s) for c in subs(b) if c in cells}
        marks = {c.a[0] for c in used}
        if len(marks) > 2:
            return None
        for w in WITNESS:
            opts_ = [{}]
            for mk_ in marks:
                runs = self.simulate(mk_, X, w, cells)
                opts_ = [{**a, **b} for a in opts_ for b in runs]
            for asg in opts_[:4000]:
                if fits(s, X, w, asg, cells):
                    return w
        return None

    def simulate(self, mark, X, w, cells):
        """values the cells of a loop over X take when X is w"""
        out = []
        for l in self.lv:
            if l.mark != mark:
                continue
            cs = [c for c in l.loc if c in cells]
            for es in l.entry:
                asg = {}
                for c in cs:
                    v = l.at(es, c)
                    if v is None or v.op != "lin":
                        continue
                    try:
                        asg[c] = evl(v, X, w, {})
                    except (Unk, IndexError, TypeError):
                        pass
                if fits(es, X, w, {}, set()) is not True:
                    continue
                n = 0
                while n < 80:
                    n += 1
                    if asg in out:
                        break
                    out.append(asg)
                    nxt = None
                    for bs in l.backs:
                        if fits(bs, X, w, asg, set(cs)) is True:
                            nxt = bs
                            break
                    if nxt is None:
                        break
                    new = {}
                    for c in asg:
                        v = l.at(nxt, c)
                        try:
                            new[c] = evl(v, X, w, asg)
                        except (Unk, IndexError, TypeError, AttributeError):
                            pass
                    asg = new
        return out

    def spaces(self, s, X):
        """every character of X is known to be a space"""
        sp = mk("ch", ord(" "))
        for l in self.lv:
            for c in l.loc:
                es, ns = l.entries(c), l.nexts(c)
                if not ns or any(v is None or v.op != "lin" for _, v in es + ns):
                    continue
                if not s.entails(lsub(atom(c), slen(X))):
                    continue
                if not all(is_const(v) and cval(v) == 0 for _, v in es):
                    continue
                ch = mk("charat", X, atom(c))
                okk = True
                for bs, v in ns:
                    if not (bs.bools.get(mk("eq", sp, ch)) or bs.bools.get(mk("eq", ch, sp)) or bs.cst.get(ch) is sp):
                        okk = False
                    if not (bs.same(v, lplus(atom(c), 1)) or bs.same(v, ladd(atom(c), wchar(ch)))):
                        okk = False
                if okk:
                    return True
        for k in s.lin:
            for t, _ in k:
                if t.op == "trimhi" and t.a[0] is X:
                    try:
                        m = cls(t.a[1])
                    except Unk:
                        continue
                    lo = t.a[2]
                    if all(m(x) == (x == " ") for x in " \t\nx\u00a0") and s.entails(lsub(lo, atom(t))):
                        return True
                if t.op == "trimlo" and t.a[0] is X:
                    try:
                        m = cls(t.a[1])
                    except Unk:
                        continue
                    if all(m(x) == (x == " ") for x in " \t\nx\u00a0") and s.entails(lsub(atom(t), slen(X))):
                        return True
        return False

    # -------------------------------------------------------------- judge
    def uses(self):
        """[(state, term, where)] places the argument of the function reaches the text"""
        I = self.run.arg0(self.ind) if self.ind is not None else None
        out = []
        for ev in self.run.e.events:
            if ev.kind == "pure" and str(ev.data["name"]).startswith("ser:"):
                out.append((ev.st, ev.data["callee"], ev.data["args"]))
        return I, out

    def texts(self, s, v):
        v = self.e.deep(s, v)
        for t in [v] + [x for n, c, _ in s.ghost.get("ioseq", ()) for x in c]:
            yield t

    def judge(self):
        if incomplete(self.run, self.f) and self.run.stopped:
            return self.f.items, []
        I, calls = self.uses()
        tainted = []
        seen = set()
        for s, callee, args in calls:
            for i, a in enumerate(args):
                if i == 0 or not is_text_arg(self.p, callee, i):
                    continue
                try:
                    al = self.alts(a, s)
                except Unknown as x:
                    tainted.append((callee, i, None))
                    continue
                for t, st in al:
                    for x in pieces(t):
                        if I is None or I not in subs(x):
                            continue
                        tainted.append((callee, i, True))
                        self.value(st, x, I, seen)
                    if I is not None and I not in subs(t) and t.op == "lit":
                        tainted.append((callee, i, t.a[0]))
        for s, v in self.run.outs:
            for t in self.texts(s, v):
                for x in pieces(t):
                    if x is I or x.op == "slice" and x.a[0] is I:
                        self.value(s, x, I, seen)
                    elif x.op == "phi" and x in self.by_phi:
                        for l in (self.lv[i] for i in self.by_phi[x]):
                            for bs, nv in l.nexts(x):
                                for y in pieces(nv) if nv is not None else ():
                                    if y is I:
                                        self.value(bs, y, I, seen)
        return self.f.items, tainted

    def value(self, s, x, I, seen):
        if x is not I:
            r = "?"
        else:
            r = self.valid(s, I)
        k = ("?" if r is None or r == "?" else "ok" if r is True else "bad")
        if k in seen:
            return
        seen.add(k)
        if k == "ok":
            self.ok("the indent it was given is used only where it is known to be one tab or spaces")
        elif k == "bad":
            self.bad("invalid", f"uses the indent it was given although it may be invalid, for example {r!r}")
        else:
            self.und(f"whether {short(show(x), 60)} is a valid indent where it is used")


def is_text_arg(p, key, i):
    t = p.ty(p.bodies[key]["inputs"][i])
    while t[0] == "ref":
        t = t[2]
    return t[0] == "str" or t[0] == "adt" and t[1] == "std::string::String"


def workers(p, roots):
    """private functions that recurse over the tree and return text"""
    from graphprops import graph
    g = graph(p)
    out = []
    reach = g.reach(roots)
    incyc = {k for c in g.cycles(reach) for k in c}
    for k in reach:
        b = p.bodies[k]
        if "inputs" not in b or "{closure" in b["path"] or b["path"].startswith("<") or b.get("exported"):
            continue
        if "String" not in str(p.ty(b["output"])) or not any(is_text_arg(p, k, i) for i in range(len(b["inputs"]))):
            continue
        if k in incyc:
            out.append(k)
    return out


INDENTED = (("dom::Document::to_string_with_indent", 1), ("<dom::Element as dom::Node>::to_string_with_indent", 1), ("<dom::Text as dom::Node>::to_string_with_indent", 1),
            ("<dom::Comment as dom::Node>::to_string_with_indent", 1), ("<dom::CData as dom::Node>::to_string_with_indent", 1),
            ("dom::Document::write_to_file_with_indent", 2), ("dom::Document::write_to_filepath_with_indent", 2))


def j18(p, key, ind, work):
    return Indents(p, key, ind, work).judge()


def j18w(p, key, work, pos):
    """inside the recursive function: which of its text parameters travel on, and with what added"""
    j = Indents(p, key, None, work)
    if incomplete(j.run, j.f) and j.run.stopped:
        return j.f.items, []
    mine = {j.run.arg0(i): i for i in range(len(j.run.args)) if is_text_arg(p, key, i)}
    taint = []
    for ev in j.run.e.events:
        if ev.kind != "pure" or not str(ev.data["name"]).startswith("ser:"):
            continue
        for i, a in enumerate(ev.data["args"]):
            if i == 0 or not is_text_arg(p, ev.data["callee"], i):
                continue
            try:
                al = j.alts(a, ev.st)
            except Unknown:
                continue
            for t, st in al:
                for x in pieces(t):
                    if x in mine:
                        taint.append((ev.data["callee"], i, (key, mine[x])))
                    elif x.op == "lit":
                        taint.append((ev.data["callee"], i, x.a[0]))
    return j.f.items, taint


def c18(p, rep):
    """C18: an indent reaches the text only when it is one tab or spaces"""
    roots = [(p.by_path[x], i) for x, i in INDENTED if x in p.by_path]
    if not roots:
        rep.undecide("no function with an indent")
        return
    work = workers(p, [k for k, _ in roots])
    res = parallel(p, [(j18, (k, i, work)) for k, i in roots] + [(j18w, (k, work, None)) for k in work])
    names = [p.bodies[k]["path"] for k, _ in roots] + [p.bodies[k]["path"] for k in work]
    taint = []
    plain = []
    for r in res:
        if r and r[0] == "exc":
            plain.append(r)
        else:
            plain.append(r[0])
            taint += r[1]
    merge(rep, plain, names)
    pos = {(c, i) for c, i, v in taint if v is True}
    while True:
        more = {(c, i) for c, i, v in taint if isinstance(v, tuple) and v in pos} - pos
        if not more:
            break
        pos |= more
    for c, i, v in sorted({(c, i, v) for c, i, v in taint if isinstance(v, str) and (c, i) in pos}):
        q = p.bodies[c]["path"]
        if not rep.ob(v == "\t" or not v.strip(" "), f"{q}: literal {v!r} passed as indentation consists of spaces or is one tab"):
            rep.violate(f"{q}|literal", f"{q} is given {v!r} as indentation")
    for k in work:
        ps = {v for c, i, v in taint if (c, i) in pos and isinstance(v, str)}
        mixed = [(c, i) for c, i, v in taint if (c, i) in pos and isinstance(v, str) and v == "\t" and any(
            isinstance(u, tuple) and u in pos for d, j, u in taint if (d, j) == (c, i))]
        for c, i in sorted(set(mixed)):
            q = p.bodies[c]["path"]
            rep.ob(False, f"{q}: tab added to the indentation")
            rep.violate(f"{q}|mixed", f"{q} is given a tab in addition to the indent in use")
    dflt = {v for c, i, v in taint if isinstance(v, str) and (c, i) in {(c2, i2) for c2, i2, v2 in taint if v2 is True}}
    for v in sorted(dflt):
        if not rep.ob(v in (DEFAULT, ""), f"the indent used instead of an invalid one is {v!r}"):
            rep.violate("default", f"an invalid indent is replaced by {v!r}, not by two spaces")
    rep.cover["functions"] = names


# ------------------------------------------------------------------ C22
PROLOG = (("dom::Declaration", ("dom::Declaration::from_str",)), ("dom::DTD", ("dom::DTD::from_string",)))


def fmt_pieces(p, ty):
    """pieces Display writes, with the stored text as None; None when not understood"""
    q = f"<{ty} as std::fmt::Display>::fmt"
    if q not in p.by_path:
        return None
    run = Run(p, p.by_path[q], opts(p), tl=60)
    if run.stopped:
        return None
    me = run.arg0(0)
    out = []
    for s, v in run.outs:
        if outname(run.e.deep(s, v)) == "Err":
            continue
        r = strip_front(s, run.arg1(s, 1), run.arg0(1))
        if r is None:
            return None
        fs = [x for _, x in sfields(run.e, me, ty)]
        ps = []
        for x in r:
            ps.append(None if any(x is y for y in fs) else x.a[0] if x.op == "lit" else x)
        if ps not in out:
            out.append(ps)
    return out


class Prolog(Judge):
    """construct from text, display: the same text"""

    def judge(self, ty, forms):
        run, e = self.run, self.e
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        X = run.arg0(0)
        seen = set()
        for s, v in run.outs:
            v = e.deep(s, v)
            o = outcome(run, s, v)
            if o == "Err":
                continue
            if o != "Ok":
                self.und(f"result {short(show(v), 80)}")
                continue
            pl = payload(run, s, v)
            fs = sfields(e, pl, ty)
            if len(fs) != 1:
                self.und(f"{ty} has {len(fs)} fields")
                return self.f.items
            S = fs[0][1]
            for ps in forms:
                try:
                    r = self.compare(s, X, S, ps)
                except Unknown as x:
                    r = ("?", str(x))
                if r in seen:
                    continue
                seen.add(r)
                if r is None:
                    self.ok("what is displayed is the text it was made from, surrounding blanks aside")
                elif r[0] == "?":
                    self.und(r[1])
                else:
                    self.bad(*r)
        return self.f.items

    def compare(self, s, X, S, ps):
        if any(isinstance(x, tuple) or hasattr(x, "op") for x in ps) or ps.count(None) != 1:
            if ps.count(None) == 0 and all(isinstance(x, str) for x in ps):
                return ("constant", "the stored text is not written back")
            ext = [x for x in ps if hasattr(x, "op")]
            if ps.count(None) == 0 and len(ext) == 1 and ext[0].op in ("slice", "replace", "case"):
                # the stored text displayed changed: only harmless if it is stored in that form
                base, lo, hi = sbase(S)
                if base is X and not any(self.ends(s, X, t, left) for t, left in ((lo, True), (hi, False))) and not any(
                        z.op in ("trimlo", "trimhi") and (z.a[0] is not X or lo in z.a or hi in z.a) for z in subs(S)):
                    return ("display", f"displays {short(show(ext[0]), 80)} instead of the stored text")
            raise Unknown("the displayed form")
        i = ps.index(None)
        a, b = "".join(ps[:i]), "".join(ps[i + 1:])
        xs = pieces(S)
        # literal parts of the stored text belong to the delimiters
        while xs and xs[0].op == "lit":
            a, xs = a + xs[0].a[0], xs[1:]
        while xs and xs[-1].op == "lit":
            b, xs = xs[-1].a[0] + b, xs[:-1]
        if not xs:
            raise Unknown("a constant text")
        if len(xs) != 1:
            raise Unknown(f"stored text {short(show(S), 80)}")
        x = xs[0]
        base, lo, hi = sbase(x)
        if base is not X:
            y = x
            while y.op in ("replace", "case", "strfn", "lossy", "slice"):
                y = next((z for z in y.a if hasattr(z, "op") and (z is X or X in subs(z))), X)
            if y is X and not any(z.op in ("phi", "call", "sym") and z is not X for z in subs(x)):
                return ("changed", f"stores {short(show(x), 80)} instead of the text")
            raise Unknown(f"stored text {short(show(S), 80)}")
        L, H = lplus(lo, -utf8len(a)), lplus(hi, utf8len(b))
        blo = self.ends(s, X, L, True)
        bhi = self.ends(s, X, H, False)
        for okk, side, d in ((blo, "start", a), (bhi, "end", b)):
            if okk is None:
                if s.bools and any(x in subs(q) for q in s.bools):
                    raise Unknown(f"stored text {short(show(S), 80)}")
                return (f"cut-{side}", f"stores {short(show(x), 100)}; with {d!r} written around it the {side} is not the one it was read from")
        if a and not self.fact(s, X, L, H, "starts_with", a):
            if self.weaker(s, X, "starts_with", a):
                return ("delimiter", f"accepts text that does not start with {a!r} but writes it back starting so")
            raise Unknown(f"whether the text starts with {a!r}")
        if b and not self.fact(s, X, L, H, "ends_with", b):
            if self.weaker(s, X, "ends_with", b):
                return ("delimiter", f"accepts text that does not end with {b!r} but writes it back ending so")
            raise Unknown(f"whether the text ends with {b!r}")
        return None

    def ends(self, s, X, t, left):
        """is t the start (end) of X, or of X without surrounding blanks"""
        if s.same(t, num(0) if left else slen(X)):
            return "whole"
        if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
            z = t.a[1][0][0]
            if z.op == ("trimlo" if left else "trimhi") and z.a[0] is X and z.a[1] in ("ws", "aws"):
                return "trim"
        return None

    def fact(self, s, X, L, H, kind, d):
        for b, v in s.bools.items():
            if not v or b.op != "pr" or b.a[0] != kind or b.a[2].op not in ("lit", "ch"):
                continue
            w = b.a[2].a[0] if b.a[2].op == "lit" else chr(b.a[2].a[0])
            base, lo, hi = sbase(b.a[1])
            if base is not X:
                continue
            if kind == "starts_with" and s.same(lo, L) and (w.startswith(d)):
                return True
            if kind == "ends_with" and s.same(hi, H) and w.endswith(d):
                return True
        o = [(o, q) for bb, o, q in s.occ if bb is X and q]
        for off, q in o:
            if kind == "starts_with" and s.same(off, L) and q.startswith(d) or kind == "ends_with" and s.same(lplus(off, utf8len(q)), H) and q.endswith(d):
                return True
        return False

    def weaker(self, s, X, kind, d):
        """every fact about that end is a plain literal test shorter than d"""
        for b, v in s.bools.items():
            if X in subs(b) and not (b.op == "pr" and b.a[0] in ("starts_with", "ends_with") and b.a[2].op in ("lit", "ch")):
                return False
        return not s.var or not any(X in subs(t) for t in s.var)


def j22p(p, key, ty, forms):
    j = Prolog()
    j.setup(p, key, opts(p))
    return j.judge(ty, forms)


def docfields(e, s, v):
    return dict(sfields(e, e.deep(s, v), "dom::Document"))


class Bad(Exception):
    pass


def old_(old, name):
    return None if old is None else old.get(name)


class Fields(Judge):
    """constructors and setters of the prolog"""

    def opt_slice(self, s, arg):
        """list behind an Option<&[DTD]> argument on this path: a term, 'none' or None"""
        vs = s.var.get(arg)
        if arg.op == "agg" and arg.a[2] == "None" or vs is not None and set(vs) == {0}:
            return "none"
        if arg.op == "agg" and arg.a[2] == "Some":
            return self.e.deep(s, arg.a[3][0])
        if vs is not None and set(vs) == {1}:
            return self.e.deep(s, self.e.payload(arg, 1, None, 0))
        return None

    def is_list(self, s, v, arg):
        w = self.opt_slice(s, arg)
        if w is None:
            # both outcomes joined: a default of the option
            raise Unknown(f"list {short(show(v), 60)}")
        if w == "none":
            return v.op == "vec" and not v.a[0] or v.op == "agg" and False
        if v is w or same(self.e, s, v, w):
            return True
        y = v
        while y.op in ("deref", "pay", "fld") and y is not w:
            y = y.a[0]
        if y is w or arg in subs(v) and v.op in ("deref", "pay"):
            return True
        if v.op == "vec" and not v.a[0]:
            return False
        if v.op in ("vslice", "vrev", "vremove", "vpush", "vcat", "vconcat"):
            y = v
            while y.op in ("vslice", "vrev", "vremove", "vpush", "vcat", "vconcat", "deref"):
                y = y.a[0]
            if y is w or y in self.old or y.op == "vec":
                return False
        if v.op == "phi":
            self.copied(v, w)
            return True
        if v.op == "collected":
            it = v.a[0]
            while it.op == "agg" and str(it.a[0]).startswith("it:"):
                if str(it.a[0]) in ("it:rev", "it:take", "it:skip", "it:filter", "it:step"):
                    return False
                it = it.a[3][0]
        raise Unknown(f"list {short(show(v), 60)}")

    def copied(self, x, w):
        """x is built by a loop that pushes a copy of every element of w in order"""
        ls = [l for l in loops(self.run) if x in l.loc and l.nexts(x)]
        if not ls:
            raise Unknown("list of a loop")
        for l in ls:
            cellp = None
            pushed, kept = False, None
            for bs, nv in l.nexts(x):
                if nv is None:
                    raise Unknown("list of a loop")
                if nv is x:
                    kept = bs
                    continue
                if nv.op != "vpush" or nv.a[0] is not x:
                    raise Unknown(f"list {short(show(nv), 60)}")
                z = nv.a[1]
                while z.op in ("deref", "clone"):
                    z = z.a[0]
                if z.op == "agg" and z.a[3] and all(y.op == "fld" and y.a[0] is z.a[3][0].a[0] for y in z.a[3]):
                    z = z.a[3][0].a[0]
                if z.op != "elem" or not (z.a[0] is w or same(self.e, bs, z.a[0], w) or z.a[0].op == "deref" and z.a[0].a[0] is w):
                    raise Unknown(f"element {short(show(z), 60)}")
                c = cell(z.a[1])
                if c is None or c not in l.loc:
                    raise Unknown("which element is copied")
                cellp, ln, pushed = c, z.a[0], True
            if not pushed:
                raise Unknown("list of a loop")
            for _, v in l.nexts(cellp):
                if v is None or v is not lplus(atom(cellp), 1):
                    raise Unknown("order of the elements copied")
            if kept is not None:
                raise Bad("leaves out some of the elements it is given")
            for es, v in l.entries(cellp):
                if v is None or not is_const(v):
                    raise Unknown("first element copied")
                if cval(v) != 0:
                    raise Bad("leaves out the first elements it is given")
            for es, v in l.entries(x):
                if v is None or not (v.op == "vec" and not v.a[0]):
                    if v in self.old:
                        raise Bad("keeps the former elements too")
                    raise Unknown("list of a loop")
            for _, s in l.exits:
                if not s.entails(lsub(atom(cellp), vlen(ln))):
                    raise Unknown("where the copy ends")

    def judge(self, what, spec):
        run, e = self.run, self.e
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        self.old = [] if what == "new" else list(docfields(e, run.st0, run.arg0(0)).values())
        said = set()
        for s, v in run.outs:
            v = e.deep(s, v)
            got = docfields(e, s, v if what == "new" else run.arg1(s, 0))
            old = None if what == "new" else docfields(e, run.st0, run.arg0(0))
            for name, x in got.items():
                w = spec.get(name)
                try:
                    if w is None:
                        okk, k = x is old[name] or same(e, s, x, old[name]), f"leaves {name} alone"
                        if not okk and any(z.op in ("phi", "call", "sym") and z is not old[name] and z not in [run.arg0(i) for i in range(len(run.args))] for z in subs(x)):
                            raise Unknown(f"{name}: {short(show(x), 60)}")
                    elif w[0] == "arg":
                        a = run.arg0(w[1])
                        okk, k = x is a or same(e, s, x, a), f"stores its argument as {name}"
                        av = s.var.get(a)
                        if not okk and x is old_(old, name) and not (av is not None and av == s.var.get(x) and len(av) == 1):
                            pass
                        elif not okk and x.op == "agg" and x.a[2] == "Some" and av is not None and set(av) == {0}:
                            pass
                        elif not okk and not (x.op == "agg" and x.a[2] == "None") and not any(x is run.arg0(i) for i in range(len(run.args))):
                            raise Unknown(f"{name}: {short(show(x), 60)}")
                        if not okk and any(a in subs(b) for b in s.bools):
                            raise Unknown(f"{name} depends on the argument")
                    elif w[0] == "list":
                        okk, k = self.is_list(s, x, run.arg0(w[1])), f"stores the given list as {name}, in order"
                    elif w[0] == "empty":
                        okk, k = x.op == "vec" and not x.a[0], f"starts without {name}"
                        if not okk and x.op != "vec":
                            raise Unknown(f"{name}: {short(show(x), 60)}")
                    elif w[0] == "some":
                        vs = s.var.get(x)
                        okk, k = x.op == "agg" and x.a[2] == "Some", "has the default declaration"
                        if not okk and not (x.op == "agg" and x.a[2] == "None"):
                            raise Unknown(f"{name}: {short(show(x), 60)}")
                except Unknown as u:
                    if str(u) not in said:
                        said.add(str(u))
                        self.und(str(u))
                    continue
                except Bad as u:
                    if (name, "bad") not in said:
                        said.add((name, "bad"))
                        self.bad(name, f"{u} ({name})")
                    continue
                if okk and k not in said:
                    said.add(k)
                    self.ok(k)
                elif not okk and (name, "bad") not in said:
                    said.add((name, "bad"))
                    self.bad(name, f"does not keep what it was given: {name} becomes {short(show(x), 80)}")
        return self.f.items

    def view(self, how):
        run, e = self.run, self.e
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        for s, v in run.outs:
            w = e.deep(s, v)
            if how == "decl":
                d = docfields(e, run.st0, run.arg0(0))["declaration"]
                if w is d or same(e, s, w, d):
                    self.ok("returns the stored declaration")
                else:
                    self.und(f"returns {short(show(w), 60)}")
                continue
            d = docfields(e, run.st0, run.arg0(0))["dtds"]
            if w.op == "agg" and str(w.a[0]) == "it:slice":
                m, lo, hi = w.a[3][0], w.a[3][1], w.a[3][2]
                if e.deep(s, m) is not d and m is not d:
                    self.und(f"iterates {short(show(m), 60)}")
                elif is_const(lo) and cval(lo) == 0 and s.same(hi, vlen(d)):
                    self.ok("iterates all document type definitions in order")
                else:
                    self.bad("range", f"iterates the document type definitions {show(lo)} to {show(hi)} only")
            elif w.op == "agg" and str(w.a[0]) in ("it:skip", "it:take", "it:rev", "it:step"):
                self.bad("range", "does not iterate all document type definitions in order")
            else:
                self.und(f"iterates {short(show(w), 60)}")
        return self.f.items


def j22f(p, key, what, spec):
    j = Fields()
    j.setup(p, key, opts(p))
    return j.judge(what, spec) if what in ("new", "set") else j.view(what)


class Layout(Judge):
    """declaration, newline, each DTD, newline, root, newline"""

    def judge(self, forms):
        run, e = self.run, self.e
        if incomplete(run, self.f) and run.stopped:
            return self.f.items
        self.lv = loops(run)
        doc = docfields(e, run.st0, run.arg0(0))
        self.decl, self.dtds, self.root = doc["declaration"], doc["dtds"], doc["root_element"]
        self.len = vlen(self.dtds)
        self.forms = forms
        self.stepped = {}
        said = set()
        for s, v in run.outs:
            v = e.deep(s, v)
            try:
                rs = [self.flat(s, ds, ts) for ds, ts in self.expand(s, self.tokens(pieces(v)))]
            except Unknown as x:
                rs = [("?", str(x))]
            except Bad as x:
                rs = [x.args]
            for r in rs:
                if r in said:
                    continue
                said.add(r)
                if r is None:
                    self.ok("writes the declaration if there is one, then every document type definition in order, then the root element, each followed by a line break")
                elif r[0] == "?":
                    self.und(r[1])
                else:
                    self.bad(*r)
        return self.f.items

    def tokens(self, ps):
        """pieces -> D (declaration), T:<index term> (a DTD), R (root), X(phi), literal characters"""
        out = []
        for x in ps:
            if x.op == "lit":
                out += list(x.a[0])
            elif x.op == "call" and str(x.a[0]).startswith("root:"):
                if not (x.a[1][0] is self.root or same(self.e, self.run.st0, x.a[1][0], self.root)):
                    raise Unknown("text of another element")
                out.append(("R",))
            elif x.op == "fld" and x.a[0].op in ("pay", "fld") and x.a[0].a[0] is self.decl:
                out.append(("D",))
            elif x.op == "fld" and x.a[0].op == "elem":
                m = x.a[0].a[0]
                if m is self.dtds:
                    out.append(("T", x.a[0].a[1]))
                elif m.op in ("vsort", "vrev") and m.a[0] is self.dtds:
                    raise Bad("dtd-order", "writes the document type definitions in another order")
                else:
                    raise Unknown(f"text {short(show(x), 80)}")
            elif x.op == "phi":
                out.append(("X", x))
            elif x.op == "join" and x.a[1].op == "lit" and x.a[1].a[0] == "":
                m = x.a[0]
                tail = []
                while m.op == "vpush":
                    tail.insert(0, m.a[1])
                    m = m.a[0]
                if m.op == "vec":
                    tail = list(m.a[0]) + tail
                elif m.op == "phi":
                    out.append(("X", m))
                else:
                    raise Unknown(f"text {short(show(x), 80)}")
                for z in tail:
                    out += self.tokens(pieces(z))
            else:
                raise Unknown(f"text {short(show(x), 80)}")
        return out

    def delta(self, s, v, x):
        """tokens value v has after phi x (a text or a list of texts)"""
        if v.op in ("vpush", "vec") or v.op == "phi" and (type_of(v) or ("",))[0] != "str":
            m, tail = v, []
            while m.op == "vpush":
                tail.insert(0, m.a[1])
                m = m.a[0]
            if m.op == "vec" and x is None:
                tail = list(m.a[0]) + tail
            elif m.op == "phi" and x is None:
                return [("X", m)] + [t for z in tail for t in self.tokens(pieces(z))]
            elif m is not x:
                return None
            return [t for z in tail for t in self.tokens(pieces(z))]
        if x is None:
            return self.tokens(pieces(v))
        r = strip_front(s, v, x)
        return None if r is None else self.tokens(r)

    def form(self, k):
        """tokens of one displayed item"""
        ps = self.forms[k]
        return [y for x in ps for y in ([None] if x is None else list(x))]

    def eat(self, toks, k, tag):
        """strip the displayed form of a prolog item from the front: (token, rest) or None"""
        f = self.form(k)
        if len(toks) < len(f):
            return None
        for t, w in zip(toks, f):
            if w is None:
                if not (isinstance(t, tuple) and t[0] == tag):
                    return None
                it = t
            elif t != w:
                return None
        return it, toks[len(f):]

    def expand(self, s, toks, d=0):
        """[(state of the declaration test, tokens without phis)]: a loop's text is its entry text, then LOOP"""
        if d > 4:
            raise Unknown("text of a loop")
        res = [(s, [])]
        for n, t in enumerate(toks):
            if not (isinstance(t, tuple) and t[0] == "X"):
                res = [(z, ts + [t]) for z, ts in res]
                continue
            x = t[1]
            ls = [l for l in self.lv if x in l.loc and l.nexts(x)]
            if not ls:
                raise Unknown("text of a loop")
            opts_ = []
            for l in ls:
                info = self.step(l, x)
                for es, v in l.entries(x):
                    ts0 = None if v is None else self.delta(es, v, None)
                    if ts0 is None:
                        raise Unknown("text of a loop")
                    lp = []
                    if info is not None:
                        st_ = l.at(es, info)
                        if st_ is None or not is_const(st_):
                            raise Unknown("first document type definition")
                        lp = [("LOOP", cval(st_))]
                    for z, ts in self.expand(es, ts0, d + 1):
                        o = (z, ts + lp)
                        if o not in opts_:
                            opts_.append(o)
            nres = []
            for z, ts in res:
                for z2, ts2 in opts_:
                    o = (z2 if n == 0 else z, ts + ts2)
                    if o not in nres:
                        nres.append(o)
            res = nres
            if len(res) > 200:
                raise Unknown("several loops build the text")
        return res

    def step(self, l, x):
        """one iteration appends exactly one DTD and a line break; all are visited.  The index cell, None if
        the iteration is an unrolled first one"""
        if (id(l), x) not in self.stepped:
            try:
                r = self.step1(l, x)
            except (Unknown, Bad) as z:
                r = z
            self.stepped[(id(l), x)] = r
        r = self.stepped[(id(l), x)]
        if isinstance(r, Exception):
            raise r
        return r

    def step1(self, l, x):
        found = None
        ns = l.nexts(x)
        for bs, nv in ns:
            if nv is None:
                raise Unknown("text of a loop")
            if nv is x:
                continue
            toks = self.delta(bs, nv, x)
            if toks is None:
                ps = pieces(nv)
                if ps and ps[-1] is x and any(isinstance(t, tuple) and t[0] == "T" for t in self.tokens(ps[:-1])):
                    raise Bad("dtd-order", "puts each document type definition in front of the ones before it")
                raise Unknown("text of a loop")
            h = self.eat(toks, 1, "T")
            if h is None:
                if not any(isinstance(t, tuple) and t[0] in "TX" for t in toks):
                    raise Bad("dtd-text", f"writes {lit_of(toks)} for each document type definition")
                raise Unknown("what is written for a document type definition")
            it, rest = h
            c = it[1]
            if is_const(c):
                if found not in (None, "const"):
                    raise Unknown("which document type definition is written")
                found = "const"
                continue
            if rest != ["\n"]:
                raise Bad("dtd-line", f"writes {lit_of(rest)} instead of a line break after a document type definition")
            cell_ = c if c.op == "phi" else c.a[1][0][0] if c.op == "lin" and len(c.a[1]) == 1 and c.a[1][0][1] == 1 else None
            if cell_ is None or cell_ not in l.loc or found not in (None, cell_):
                raise Unknown("which document type definition is written")
            found = cell_
            off = c.a[0] if c.op == "lin" else 0
            steps = set()
            for _, v in l.nexts(cell_):
                k = None if v is None else lsub(v, atom(cell_))
                steps.add(cval(k) if k is not None and is_const(k) else None)
            if None in steps:
                raise Unknown("order of the document type definitions")
            if any(k < 0 for k in steps):
                raise Bad("dtd-order", "writes the document type definitions in reverse order")
            if steps != {1}:
                raise Bad("dtd-skip", "leaves out document type definitions")
            if off:
                raise Unknown("which document type definition is written")
        if found is None:
            raise Unknown("text of a loop")
        if found == "const":
            return None
        if any(nv is x for _, nv in ns):
            raise Bad("dtd-skip", "leaves out a document type definition under a condition")
        for _, s in l.exits:
            if s.entails(lsub(atom(found), self.len)):
                continue
            if any(self.dtds in subs(b) and found in subs(b) for b in s.bools):
                raise Bad("dtd-last", "stops before the last document type definition under a condition")
            w = self.early(l, s, found)
            if w is not None:
                raise Bad("dtd-last", f"stops after {w} document type definitions")
            raise Unknown("where the loop over document type definitions ends")
        return found

    def early(self, l, s, c):
        """number of rounds after which the loop is left although more follow, when the facts there say so"""
        cs = {t: (k, es) for t, k, es in l.counters()}
        if c not in cs:
            return None
        N = len(cs[c][1])
        la = self.len.a[1][0][0] if self.len.op == "lin" else self.len
        found = set()
        for i in range(N):
            val = {t: (k, cval(es[i])) for t, (k, es) in cs.items() if i < len(es) and is_const(es[i])}
            if c not in val:
                return None
            fs = [(k, w) for k, w in s.lin.items() if all(t is la or t in val for t, _ in k)]
            for n in range(0, 70):
                m = val[c][0] * n + val[c][1]
                if any(a * n + b < 0 for a, b in val.values()):
                    continue   # lengths and positions
                for L in range(0, m + 3):
                    if all(sum(q * (L if t is la else val[t][0] * n + val[t][1]) for t, q in k) + w >= 0 for k, w in fs) and m < L:
                        found.add(m)
        return found.pop() if len(found) == 1 else None

    def flat(self, s, ds, toks):
        vs = ds.var.get(self.decl)
        if vs is None or len(vs) != 1:
            vs = s.var.get(self.decl)
        have = None if vs is None or len(vs) != 1 else 1 in vs
        t = list(toks)
        h = self.eat(t, 0, "D")
        if h is not None:
            if have is False:
                raise Unknown("declaration")
            t = h[1]
            if t[:1] != ["\n"]:
                return ("decl-line", "writes no line break after the declaration")
            t = t[1:]
        elif any(x == ("D",) for x in t):
            i = t.index(("D",))
            if any(isinstance(x, tuple) and x[0] in ("LOOP", "R", "T") for x in t[:i]):
                return ("decl-order", "does not write the declaration first")
            raise Unknown("what is written for the declaration")
        elif have is not False:
            if have is None:
                raise Unknown("whether there is a declaration")
            return ("decl-lost", "leaves the declaration out")
        k = 0
        while True:
            h = self.eat(t, 1, "T")
            if h is None or not is_const(h[0][1]):
                break
            if cval(h[0][1]) != k:
                return ("dtd-order", f"writes document type definition {cval(h[0][1]) + 1} where number {k + 1} belongs")
            if h[1][:1] != ["\n"]:
                return ("dtd-line", "writes no line break after a document type definition")
            t, k = h[1][1:], k + 1
        if t and isinstance(t[0], tuple) and t[0][0] == "LOOP":
            if t[0][1] != k:
                return ("dtd-first", "leaves out the first document type definition" if t[0][1] > k else "writes a document type definition twice")
            t = t[1:]
        elif any(isinstance(x, tuple) and x[0] == "LOOP" for x in t):
            i = next(i for i, x in enumerate(t) if isinstance(x, tuple) and x[0] == "LOOP")
            if ("R",) in t[:i]:
                return ("dtd-order", "writes the document type definitions after the root element")
            return ("extra", f"writes {lit_of(t[:i])} before the document type definitions")
        elif any(isinstance(x, tuple) and x[0] == "T" for x in t):
            return ("?", "which document type definition is written")
        elif not s.entails(lsub(num(k), self.len)):
            return ("dtd-last", f"leaves out the document type definitions after the first {k}" if k else "leaves document type definitions out")
        if t[:1] != [("R",)]:
            if ("R",) in t:
                return ("extra", f"writes {lit_of(t[:t.index(('R',))])} before the root element")
            return ("root-lost", "leaves the root element out") if all(isinstance(x, str) for x in t) else ("?", "where the root element is written")
        if t[1:] != ["\n"]:
            return ("end", f"writes {lit_of(t[1:])} instead of one line break after the root element")
        return None


def lit_of(ts):
    return repr("".join(x if isinstance(x, str) else "…" for x in ts))


def j22l(p, forms):
    o = opts(p)
    for k in serializers_of_element(p):
        o["summaries"][k] = s_pure("root:" + k)
    for k, b in p.bodies.items():
        if b["path"] == "validate_indent" and "inputs" in b:
            o["summaries"][k] = s_pure("vi")
    j = Layout()
    j.setup(p, core(p), o)
    return j.judge(forms)


def serializers_of_element(p):
    from graphprops import graph
    g = graph(p)
    top = p.by_path[T]
    out = []
    reach = g.reach([top])
    incyc = {k for c in g.cycles(reach) for k in c}
    for k in reach:
        b = p.bodies[k]
        if "inputs" not in b or "{closure" in b["path"] or not b["inputs"]:
            continue
        t = p.ty(b["inputs"][0])
        if t[0] == "ref" and t[2] == ("adt", "dom::Element", ()) and "String" in str(p.ty(b["output"])) and k in incyc:
            out.append(k)
    return out


def c22(p, rep):
    """C22: declaration and DTDs are stored and written back verbatim, in order"""
    forms = {}
    for ty, _ in PROLOG:
        f = parallel(p, [(fmt_pieces, (ty,))])[0]
        forms[ty] = None if f is None or f and f[0] == "exc" else f
        if not forms[ty]:
            rep.undecide(f"<{ty} as Display>::fmt is not understood")
    jobs, names = [], []

    def add(f, *a, name):
        jobs.append((f, a))
        names.append(name)
    for ty, ctors in PROLOG:
        for q in ctors:
            if q in p.by_path and forms[ty]:
                add(j22p, p.by_path[q], ty, forms[ty], name=q)
    for q, what, spec in (
            ("dom::Document::new", "new", {"declaration": ("some",), "dtds": ("empty",), "root_element": ("arg", 0)}),
            ("dom::Document::new_with_decl_dtd", "new", {"declaration": ("arg", 1), "dtds": ("list", 2), "root_element": ("arg", 0)}),
            ("dom::Document::set_declaration", "set", {"declaration": ("arg", 1)}),
            ("dom::Document::set_doctype_defs", "set", {"dtds": ("list", 1)}),
            ("dom::Document::declaration", "decl", None),
            ("dom::Document::doctype_defs", "iter", None),
            ("dom::Document::doctype_defs_mut", "iter", None)):
        if q in p.by_path:
            add(j22f, p.by_path[q], what, spec, name=q)
    if T in p.by_path and all(forms[ty] and len(forms[ty]) == 1 for ty, _ in PROLOG):
        add(j22l, [forms[ty][0] for ty, _ in PROLOG], name=T)
    import contentrules
    if contentrules.PARSE in p.by_path:
        add(contentrules.jprolog, name=contentrules.PARSE)
    merge(rep, parallel(p, jobs), names)
    rep.cover["functions"] = names


CHECKS = {"C17": c17, "C18": c18, "C19": c19, "C22": c22}
EXPLAIN = {"C17": "Each output function interpreted with the text function as a term: what it returns, formats or hands to the writer must be exactly that term.",
           "C18": "Every place an indent argument reaches the text or the recursive serializer, with the facts known there; counterexamples from a concrete evaluation of those facts.",
           "C19": "Each I/O function interpreted with every fallible library call failing or not: the error must be in the returned Err; the text read or written must be the whole one.",
           "C22": "Declaration and DTD: text in, stored field, displayed form compared as slices of the input; setters and constructors field by field; layout of the document text as a sequence."}
