"""P28: the comparison program pairs the right columns of the right files, and the programs
report misuse through their exit status."""
import itertools

import bench
import persist
from flow import *
from persist import Sub, brief, load

FILES = ("size", "files")
NPOS = (1 << 64) - 1


def files(opt, n):
    k = ("k", "file" + opt)
    return (("rep", n, k, (("one", S(("file", opt, k))),)),)


def hooks(args, lists, parsed=TRUE):
    """command line, responses and comparisons as opaque objects; lists: option -> contents"""
    base = bench.options(args)

    def hook(fn, e):
        q, name = fn["q"], fn["name"]
        if q == "CmdOptions::parseCmd":
            return lambda ev: parsed
        if e is None:
            return base(fn, e)
        if name in ("is_open", "operator bool", "operator!", "good", "fail") and ("fstream" in q or "basic_ios" in q):
            def opened(ev):
                st = ev.ev(e["obj"] if e["k"] == "mcall" else e["args"][0])
                if not isinstance(st, Stream) or st.kind != "in":
                    ev.bad(e, "state of %r" % (st,))
                c = op("!=", ("opened", ev.target(st)), C(0))
                return op("!", c) if name in ("operator!", "fail") else c
            return opened
        if q == "std::basic_ifstream::open" or name == "open" and "fstream" in q:
            def reopen(ev):
                st = ev.ev(e["obj"])
                ev.set(ev.cell(st), ev.ev(e["args"][0]))
                ev.set(st.ev, ())
                return None
            return reopen
        if q == "std::getline":
            def line(ev):
                st, loc = ev.ev(e["args"][0]), ev.lv(e["args"][1])
                if not isinstance(st, Stream) or len(e["args"]) > 2:
                    ev.bad(e, "getline")
                n = len(st.ev.v)
                ev.set(st.ev, st.ev.v + (("getline",),))
                ev.assign(loc, S(("textline", ev.target(st), n)), e)
                return st
            return line
        rec = fn.get("rec", "")
        m = re.match(r"I?fcn(Response|Comparison)(1D|2D)?<(float|double)>$", rec)
        if m:
            kind = m.group(1), "2D" if m.group(2) == "2D" else "1D", m.group(3)
            if e["k"] == "construct":
                def make(ev):
                    o = Obj(rec)
                    vals = [ev.ev(a) for a in e["args"]]
                    if not all(term(v) for v in vals):
                        ev.bad(e, "%s built from %r" % (rec, vals))
                    ev.set(o.cell("what"), ("made", kind, tuple(vals)))
                    return o
                return make

            def use(ev):
                o = ev.ev(e["obj"])
                if isinstance(o, Ptr) and o.cell is not None:
                    o = o.cell.v
                if not isinstance(o, Obj):
                    ev.bad(e, "%s of %r" % (name, o))
                what = o.cell("what").v
                if name in ("printStats", "writeFile", "print"):
                    ev.note((name, what, tuple(ev.ev(a) for a in e["args"])))
                    return ("void",)
                if re.match(r"get(Input|Output)\w*$", name):
                    return ("column", "Input1" if name == "getInput" else name[3:], what)
                ev.bad(e, "%s::%s" % (rec, name))
            return use
        if "std::vector<std::basic_string" in fn.get("t", "") and not q.startswith("std::") and e["args"]:
            # the list of files of an option
            def split(ev):
                s = ev.ev(e["args"][0])
                o = s[1][0][1] if term(s) and s[0] == "str" and len(s[1]) == 1 and isinstance(s[1][0], tuple) else None if s != S("") else ""
                if o is None or o not in lists and o != "":
                    ev.bad(e, "list made of %s" % show(s))
                segs = lists[o] if o else ()
                if len(e["args"]) > 1:
                    v = ev.ev(e["args"][1])
                    v = v.cell.v if isinstance(v, Ptr) and v.cell is not None else v
                    if isinstance(v, Vec):
                        ev.set(v.c, segs)
                        return None
                return Vec(segs)
            return split
        return base(fn, e)
    return hook


class Prog(Ev):
    def cell(self, st):
        if not hasattr(st, "tcell"):
            st.tcell = Cell(st.target, "target", "target")
        return st.tcell

    def target(self, st):
        return self.cell(st).v


def run(prog, entry, args, lists=None, parsed=TRUE, decide=None):
    main = [f for f in prog.fn.values() if f["name"] == entry]
    if len(main) != 1:
        raise Broken("no function %s" % entry)
    ev = Prog(prog)
    ev.trace = Cell((), "trace", "trace")
    ev.hook = hooks(args, lists or {}, parsed)
    ev.patterns = set()
    ev.decide = decide
    r = ev.invoke(main[0], [], None, values=[("s", p["name"]) for p in main[0]["params"]])
    return ev, C(0) if r is None else r


# ---------------------------------------------------------------- misuse

def misuse(ctx, prog, where, entry, lists, required):
    """status and created files for every way of calling the program that does no work"""
    every = set(required)
    cases = [("the options are not accepted", dict(args=set(), parsed=FALSE), False), ("help is asked for", dict(args={"-h"}), True),
             ("help is asked for beside the other options", dict(args=every | {"-h"}), True)]
    for o in required:
        cases.append(("%s is missing" % o, dict(args=every - {o}), False))
    if lists:
        cases.append(("the lists have different lengths", dict(args=every, lists=dict(lists, **{"-T": files("-T", ("size", "more"))}),
                                                              decide=lambda c: unequal(c)), False))
    for what, kw, fine in cases:
        kw.setdefault("lists", lists)
        ev, r = run(prog, entry, **kw)
        ctx.count("ways_of_calling")
        if not isc(r):
            ctx.violation(where, "when %s the exit status is %s" % (what, brief(r)))
            continue
        if (r[1] & 255 == 0) != fine:
            ctx.violation(where, "when %s the exit status is %s" % (what, r[1]))
        if [s for s in ev.streams if s.kind in ("out", "io") and not s.sid.startswith("std::")] or any(e[0] != "apply" for e in flat(ev.trace.v)):
            ctx.violation(where, "when %s files are written nevertheless" % what)
    return ev


def unequal(c):
    if c[0] == "op" and len(c) == 4:
        d = lin(("op", "-", c[2], c[3]))
        if set(d) == {FILES, ("size", "more")} and d[FILES] == -d["size", "more"]:
            return {"==": FALSE, "!=": TRUE}.get(c[1], c)
    return c


def flat(t):
    for e in t:
        if e[0] == "rep":
            yield from flat(e[3])
        elif e[0] == "if":
            yield from flat(e[2])
            yield from flat(e[3])
        else:
            yield e


# ---------------------------------------------------------------- one pair of files

class Model:
    """truth of the conditions for one kind of pair"""

    def __init__(self, k, opened, ref, test, precision, name):
        self.k, self.opened = k, opened
        self.name = {"-R": ref, "-T": test}
        self.text = {1: precision, 2: "Function Name = " + name}

    def file(self, t):
        if term(t) and t[0] == "str" and len(t[1]) == 1 and t[1][0][0] == "file":
            _, o, i = t[1][0]
            if norm(i) != self.k:
                raise Wrong("pair number %s uses the %s file number %s" % (brief(self.k), long(o), brief(norm(i))))
            return o
        raise Unsupported("file %s" % show(t))

    def value(self, e):
        if isc(e):
            return e[1]
        if e[0] == "str":
            return "".join(p if isinstance(p, str) else self.part(p) for p in e[1])
        if e[0] == "strval":
            return self.value(e[1])
        if e[0] == "opened":
            return int(self.opened[self.file(e[1])])
        if e[0] == "cast":
            v = self.value(e[2])
            w = WIDTH.get(e[1])
            if w:
                v &= (1 << w) - 1
                if not e[1].startswith("unsigned") and e[1] != "bool" and v >> (w - 1):
                    v -= 1 << w
            return v
        if e[0] == "ite":
            return self.value(e[2] if self.value(e[1]) else e[3])
        if e[0] == "op":
            if len(e) == 3:
                return int(not self.value(e[2])) if e[1] == "!" else -self.value(e[2])
            if e[1] in ("&&", "||"):
                a = bool(self.value(e[2]))
                return int(a and bool(self.value(e[3]))) if e[1] == "&&" else int(a or bool(self.value(e[3])))
            a, b = self.value(e[2]), self.value(e[3])
            if isinstance(a, str) != isinstance(b, str):
                raise Unsupported("condition %s" % show(e))
            f = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                 "+": lambda: (a + b) & NPOS if not isinstance(a, str) else a + b, "-": lambda: (a - b) & NPOS}.get(e[1])
            if not f:
                raise Unsupported("condition %s" % show(e))
            r = f()
            return int(r) if isinstance(r, bool) else r
        if e[0] == "call" and e[1].startswith("string::"):
            s, a = self.value(e[2]), [self.value(x) for x in e[3:]]
            a = [x for x in a if x is not None]
            n = e[1][8:]
            if n in ("find", "rfind", "find_first_of", "find_last_of"):
                what = chr(a[0]) if isinstance(a[0], int) else a[0]
                at = a[1] if len(a) > 1 else None
                if n == "find":
                    r = s.find(what, at or 0)
                elif n == "rfind":
                    r = s.rfind(what, 0, len(s) if at is None or at >= len(s) else at + len(what))
                else:
                    hits = [i for i, c in enumerate(s) if c in what and (at is None or (i >= at if n == "find_first_of" else i <= at))]
                    r = (hits[0] if n == "find_first_of" else hits[-1]) if hits else -1
                return r if r >= 0 else NPOS
            if n == "substr":
                if a and a[0] > len(s):
                    raise Wrong("substr beyond the end of %r" % s)
                return s[a[0] if a else 0:][:a[1] if len(a) > 1 else None]
            if n in ("erase", "insert", "replace") and a and isinstance(a[0], int):
                if a[0] > len(s):
                    raise Wrong("%s beyond the end of %r" % (n, s))
                if n == "erase":
                    return s[:a[0]] + (s[a[0] + a[1]:] if len(a) > 1 else "")
                if n == "insert" and len(a) == 2 and isinstance(a[1], str):
                    return s[:a[0]] + a[1] + s[a[0]:]
                if n == "replace" and len(a) == 3 and isinstance(a[2], str):
                    return s[:a[0]] + a[2] + s[a[0] + a[1]:]
            if n == "pop_back" and s:
                return s[:-1]
            if n == "resize" and len(a) == 1 and a[0] <= len(s):
                return s[:a[0]]
            if n == "compare" and len(a) == 1:
                return (s > a[0]) - (s < a[0])
            if n == "compare" and len(a) == 3:
                return (s[a[0]:a[0] + a[1]] > a[2]) - (s[a[0]:a[0] + a[1]] < a[2])
        if e[0] == "call" and e[1] in ("strlen", "strempty"):
            n = len(self.value(e[2]))
            return n if e[1] == "strlen" else int(n == 0)
        if e[0] == "char":
            return ord(self.value(e[1])[self.value(e[2])])
        raise Unsupported("value %s" % show(e))

    def part(self, p):
        if p[0] == "file":
            return self.name[self.file(S(p))]
        if p[0] == "textline":
            if self.file(p[1]) == "-R" and p[2] in self.text:
                return self.text[p[2]]
            raise Wrong("line %d of %s is used" % (p[2] + 1, self.name[self.file(p[1])]))
        if p[0] == "s" and p[1] == "-n":
            return "NICK"
        if p[0] in ("call", "ite", "str"):
            return self.value(p)
        raise Unsupported("text %s" % show(p))

    def events(self, t):
        for e in t:
            if e[0] == "if":
                yield from self.events(e[2] if self.value(e[1]) else e[3])
            else:
                yield e


class Wrong(Exception):
    pass


def short(ctx, prog, where, entry, names):
    """two pairs of files one by one, every combination of present and missing files"""
    for present in itertools.product((True, False), repeat=4):
        there = {(o, C(i)): present[2 * i + j] for i in (0, 1) for j, o in enumerate(("-R", "-T"))}

        def decide(c):
            def f(a):
                if a[0] == "opened" and term(a[1]) and a[1][0] == "str" and len(a[1][1]) == 1 and a[1][1][0][0] == "file":
                    return C(int(there[a[1][1][0][1:]]))
                return None
            return subst(c, {a: f(a) for a in atoms(c, lambda a: f(a) is not None)})
        lists = {o: tuple(("one", S(("file", o, C(i)))) for i in (0, 1)) for o in ("-R", "-T")}
        ev, r = run(prog, entry, {"-n", "-R", "-T"}, lists, decide=decide)
        if r != C(0):
            ctx.violation(where, "the exit status of a normal run is %s" % brief(r))
        for name, double, two in names:
            evs = []
            for i in (0, 1):
                m = Model(C(i), {o: there[o, C(i)] for o in ("-R", "-T")}, "libA__%s__response.txt" % name, "libB__Fast_%s__response.txt" % name,
                          "Double Precision" if double else "Single Precision", name)
                mine = [e for e in ev.trace.v if e[0] != "apply" and first(e) == C(i)]
                try:
                    one(m, [e for e in m.events(mine) if e[0] != "apply"], all(m.opened.values()), name, double, two)
                except Wrong as e:
                    ctx.violation(where, "%s, pair %d of two, %s: %s" % (name, i + 1, ", ".join("%s file %d %s" % (long(o), j[1] + 1, "present" if b else "missing") for (o, j), b in there.items()), e))
                    return


def first(e):
    """pair an event is about"""
    for a in atoms(e, lambda a: a[0] == "file"):
        return a[2]


def pairs(ctx, prog, where, entry, names):
    try:
        ev, r = run(prog, entry, {"-n", "-R", "-T"}, {"-R": files("-R", FILES), "-T": files("-T", FILES)})
    except Unsupported:
        # no summary for a pair at any position: what lists of two do can still be wrong
        short(ctx, prog, where, entry, names)
        if ctx.violations:
            return
        raise
    ctx.coverage["source_lines_interpreted"] = len(ev.lines)
    if r != C(0):
        ctx.violation(where, "the exit status of a normal run is %s" % brief(r))
    top = [e for e in ev.trace.v if e[0] != "apply"]
    if len(top) != 1 or top[0][0] != "rep":
        ctx.violation(where, "the files are not gone through one pair after the other")
        return
    _, n, k, body = top[0]
    if norm(n) != FILES:
        ctx.violation(where, "%s pairs are compared instead of %s" % (brief(n), brief(FILES)))
    for f, l, v, t in ev.narrow:
        ctx.violation("%s:%s" % (f, l), "loop counter %s of type %s wraps before the end of the list" % (v, t))
    for name, double, two in names:
        for both in ((True, True), (True, False), (False, True), (False, False)):
            m = Model(k, {"-R": both[0], "-T": both[1]}, "libA__%s__response.txt" % name, "libB__Fast_%s__response.txt" % name,
                      "Double Precision" if double else "Single Precision", name)
            ctx.count("kinds_of_pairs")
            try:
                one(m, list(e for e in m.events(body) if e[0] != "apply"), all(both), name, double, two)
            except Wrong as e:
                ctx.violation(where, "%s, reference file %s, test file %s: %s" % (name, *("present" if b else "missing" for b in both), e))
                return


def one(m, evs, both, name, double, two):
    if not both:
        if evs:
            raise Wrong("a comparison is made although a file is missing")
        return
    kinds = [e[0] for e in evs]
    if sorted(k for k in kinds if k != "print") != ["printStats", "writeFile"]:
        raise Wrong("the pair gives %s" % (", ".join(kinds) or "nothing"))
    layout = ("Comparison", "2D" if two else "1D", "double" if double else "float")
    for e in evs:
        _, kind, vals = e[1]
        if kind != layout:
            raise Wrong("compared as %s %s" % kind[1:])
        title, cols = m.value(vals[0]), vals[1:]
        want = [("-R", c) for c in (("Input1", "Input2") if two else ("Input1",))] + [("-R", "Output"), ("-T", "Output")]
        if len(cols) != len(want):
            raise Wrong("%d columns" % len(cols))
        for c, (o, g) in zip(cols, want):
            if c[0] != "column" or c[2][0] != "made" or c[2][1] != ("Response",) + layout[1:]:
                raise Wrong("a column is %s" % brief(c))
            src = m.file(c[2][2][0])
            if (src, c[1]) != (o, g):
                raise Wrong("a column holds %s of the %s file instead of %s of the %s file" % (c[1], long(src), g, long(o)))
        base = re.sub(r"^(Fast|VC)_", "", name)
        if title.split() != [base, "libA", "VS", "libB"]:
            raise Wrong("the comparison is called %r" % title)
        if e[0] == "writeFile":
            f = m.value(e[2][0])
            if f != "comparison__NICK__%s.txt" % base:
                raise Wrong("the comparison is written to %r" % f)


def long(o):
    return "reference" if o == "-R" else "test"


BASES = ["Exp", "Log", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Tanh", "Isqrt", "Inverse"]


def names():
    """names the accuracy benchmark gives its files (see P22)"""
    for b in BASES:
        for p in ("", "Fast_"):
            for single in ("", "f"):
                for v in ("", "v"):
                    yield p + b + single + v, single == "", b == "Atan2"


def controls(ctx):
    src = os.path.join(VERIF, "selftest", "compare.cc")
    prog = load(ctx, src)
    cases = re.findall(r"^int ((?:good|bad)\w*)\(", open(src).read(), re.M)
    for n in cases:
        sub = Sub()
        try:
            check_program(sub, prog, n, n)
        except Unsupported as e:
            raise Broken("control %s: %s" % (n, e))
        if bool(sub.violations) != n.startswith("bad"):
            raise Broken("control %s: %s" % (n, sub.violations or "not noticed"))
        ctx.count("controls_confirmed")
    ctx.need("controls_confirmed", 13)


def check_program(ctx, prog, where, entry):
    lists = {"-R": files("-R", FILES), "-T": files("-T", FILES)}
    misuse(ctx, prog, where, entry, lists, ["-n", "-R", "-T"])
    pairs(ctx, prog, where, entry, list(names()))


def check(ctx):
    controls(ctx)
    where = "progs/vdtArithmComparison.cpp"
    check_program(ctx, load(ctx, os.path.join(REPO, where)), where, "main")
    for p in ("progs/vdtArithmBenchmark.cpp", "progs/vdtPerfBenchmark.cpp"):
        prog = load(ctx, os.path.join(REPO, p))
        misuse(ctx, prog, p, "main", {}, ["-n"])
    ctx.coverage["explanation"] = ("The program is summarised over its syntax tree once for a pair of files at a symbolic position of the lists; presence of the files, "
                                   "precision line and names are the conditions of the summary and are evaluated for every name the accuracy benchmark gives. Exit statuses and created files for every misuse.")
    ctx.assumptions += ["the command-line class returns the argument given for each option and rejects the others",
                        "the list of an option is split at its commas", "nicknames do not contain the text Atan2 or a double underscore"]
    if not ctx.violations:
        ctx.need("kinds_of_pairs", 300)
        ctx.need("ways_of_calling", 15)
