"""P32, P33: function responses as objects; what the diagnostic classes and helpers print."""
import persist
from bench import K, column
from flow import *
from persist import Mismatch, Sub, brief, load
from stats import method, result, where

N = persist.N
RESPONSES = {"fcnResponse1D": 1, "fcnResponse2D": 2, "fcnResponse_old": 1}
POOLS = {"randomPool1D": 1, "randomPool2D": 2, "randomPool_old": 1}
COMPARISONS = {"fcnComparison1D": 1, "fcnComparison2D": 2, "fcnComparison_old": 1}
DIGITS = {"double": 15, "float": 6}
SETS = {"SSE2": "__SSE2__", "SSE3": "__SSE3__", "SSE4.1": "__SSE4_1__", "AVX": "__AVX__"}
TARGETS = [("-mno-sse2", ()), ("-mno-sse3", ("SSE2",)), ("-msse3", ("SSE2", "SSE3")), ("-msse4.1", ("SSE2", "SSE3", "SSE4.1")), ("-mavx", tuple(SETS))]


# ---------------------------------------------------------------- responses

def shape(f):
    """(number of arguments, array form) of the function a constructor or helper takes, from its type"""
    for p in f["params"]:
        m = re.search(r"std::function<([\w ]+?) ?\(([^()]*)\)>", p["t"])
        if m:
            args = [a for a in m.group(2).split(",")]
            array = m.group(1).strip() == "void"
            return (len(args) - 2, True) if array else (len(args), False)
    return None


def vector(T, n):
    return Vec((("sym", n, N),), "std::vector<%s>" % T, n)


def contents(ev, f, o):
    """element K and length of the vector a getter returns"""
    v = result(ev, f, o, [])
    if not isinstance(v, Vec):
        raise Unsupported("%s returns %r" % (f["diag"], v))
    return element(v.c.v, K), ev.size(v)


def element(segs, k):
    if len(segs) == 1 and segs[0][0] == "sym":
        return ("elem", segs[0][1], norm(k))
    if len(segs) == 1 and segs[0][0] == "raw":
        raise Mismatch("the results are taken from memory nothing was written to")
    if len(segs) == 1 and segs[0][0] == "shift":
        return element(segs[0][2], op("+", k, segs[0][1]))
    if not segs:
        raise Mismatch("a column is empty")
    if len(segs) == 1 and segs[0][0] == "rep" and any(x[0] == "if" for x in segs[0][3]):
        raise Mismatch("results are stored under the condition %s" % brief(next(x for x in segs[0][3] if x[0] == "if")[1]))
    return column(segs, k)[0]


def applied(v, fn, ins, k=K):
    """v is fn of the inputs at index k"""
    if v[0] == "arr":
        _, g, n, cols, size, j = v
        if g != fn:
            return "%s is called" % brief(g)
        if norm(n) != N:
            return "the array function is called for %s elements" % brief(n)
        at = [element(c, j) for c in cols]
        return None if at == [("elem", i, j) for i in ins] and j == k else "the array function gets %s" % ", ".join(map(brief, at))
    if v[0] == "call" and v[1] == fn:
        return None if list(v[2:]) == [("elem", i, k) for i in ins] else "the function gets %s" % ", ".join(map(brief, v[2:]))
    return "the result is %s" % brief(v)


def responses(ctx, prog, rec, T, n):
    ctors = [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and shape(f)]
    lines = set()
    for f in ctors:
        ev, o = Ev(prog), Obj(rec)
        ins = ["input"] if n == 1 else ["input1", "input2"]
        it = iter(ins)
        vals = []
        for p in f["params"]:
            vals.append(S(("s", "name")) if "basic_string" in p["t"] else vector(T, next(it)) if "std::vector" in p["t"] else ("s", "fn") if "std::function" in p["t"] else persist.argument(p))
        args, array = shape(f)
        label = "%s from %s function" % (rec, "an array" if array else "a scalar")
        if args != n:
            raise Unsupported("%s takes %d arguments" % (label, args))
        try:
            ev.ctor(o, f, [], vals)
            for i, g in zip(ins, ["getInput"] if n == 1 else ["getInput1", "getInput2"]):
                v, size = contents(ev, method(prog, rec, g), o)
                if v != ("elem", i, K) or norm(size) != N:
                    raise Mismatch("%s gives %s for k < %s" % (g, brief(v), brief(size)))
                ctx.count("columns")
            v, size = contents(ev, method(prog, rec, "getOutput"), o)
            w = applied(v, ("s", "fn"), ins)
            if w:
                raise Mismatch("getOutput: %s" % w)
            if norm(size) != N:
                raise Mismatch("%s results for %s inputs" % (brief(size), brief(N)))
            ctx.count("columns")
            header(ctx, prog, rec, T, ev, o, True)
        except (Mismatch, Undefined) as e:
            ctx.violation(where(f), "%s: %s" % (label, e))
        persist.narrow(ctx, ev, rec)
        lines |= ev.lines
        ctx.count("ways_to_make_a_response")
    return lines


def header(ctx, prog, rec, T, ev, o, named):
    """the lines writeFile puts before the records"""
    ev.streams = []
    ev.invoke(method(prog, rec, "writeFile"), [], o, values=[S(("s", "output file"))])
    files = [s for s in ev.streams if s.kind == "out"]
    if len(files) != 1 or files[0].target != S(("s", "output file")):
        raise Mismatch("writeFile does not write the file named")
    h = head(files[0].ev.v)
    want = "Double Precision" if T == "double" else "Single Precision"
    if len(h) < 3 or h[1] != [want]:
        raise Mismatch("the second line of the file is %s" % (h[1:2],))
    if named and h[2][-1:] != [("sym", ("s", "name"))]:
        raise Mismatch("the third line of the file does not give the name of the function")
    ctx.count("headers")


def other_headers(ctx, prog, rec, T, n):
    """headers of the files of pools and comparisons"""
    pool = rec.split("<")[0] in POOLS
    ev, o = Ev(prog), Obj(rec)
    ev.hook = outside("diffbit", "getbsasstr")
    if pool:
        f = pool_maker(prog, rec)
        vals = [persist.argument(q) for q in f["params"]]
    else:
        f, names = comparison_maker(prog, rec, n)
        vals = [S(("s", "name"))] + [vector(T, i) for i in names]
    try:
        ev.ctor(o, f, [], vals)
        if pool:
            ev.assume.append(("op", ">", N, C(0)))
        header(ctx, prog, rec, T, ev, o, not pool)
    except (Mismatch, Undefined) as e:
        ctx.violation(where(method(prog, rec, "writeFile")), "%s: %s" % (rec, e))
    return ev.lines


def head(events):
    """lines before the records, as lists of texts and values"""
    out, cur = [], []
    for e in events:
        if e[0] == "rep":
            break
        if e[0] == "lit":
            parts = e[1].split("\n")
            for i, t in enumerate(parts):
                if i:
                    out.append(cur)
                    cur = []
                if t:
                    if cur and isinstance(cur[-1], str):
                        cur[-1] += t
                    else:
                        cur.append(t)
        else:
            cur.append(e[:2] if e[0] == "sym" else e)
    return out


def check_responses(ctx):
    controls(ctx, "Response")
    src = persist.driver(ctx)
    prog = load(ctx, src)
    lines = set()
    for c, n in RESPONSES.items():
        for t in persist.TYPES:
            lines |= responses(ctx, prog, "%s<%s>" % (c, t), t, n)
            ctx.count("classes")
    for c, n in [*POOLS.items(), *COMPARISONS.items()]:
        for t in persist.TYPES:
            lines |= other_headers(ctx, prog, "%s<%s>" % (c, t), t, n)
            ctx.count("other_classes_with_files")
    ctx.coverage["source_lines_interpreted"] = len(lines)
    ctx.coverage["explanation"] = "Every constructor of the response classes that takes a function is summarised over its syntax tree for a symbolic function and input vectors; the getters have to give the inputs and the function of the inputs at the same index, as many as there are inputs, and the header of the file the precision and the name."
    ctx.assumptions += ["an array function writes its output array only", "fewer than 2^32 numbers"]
    if not ctx.violations:
        ctx.need("classes", 6)
        ctx.need("ways_to_make_a_response", 12)
        ctx.need("columns", 28)
        ctx.need("headers", 24)


# ---------------------------------------------------------------- printing

def screen(ev):
    return next((c.v for c in ev.globals.values() if isinstance(c.v, Stream)), None)


class Printed:
    """what was printed, as values in order, each with a description of how it is set apart"""

    def __init__(self, events):
        self.items = []             # ("v", event) | ("nl",) | ("rep", n, k, Printed) | ("text", s)
        for e in events:
            if e[0] == "lit":
                for i, t in enumerate(e[1].split("\n")):
                    if i:
                        self.items.append(("nl",))
                    if t:
                        self.items.append(("text", t))
            elif e[0] == "rep":
                self.items.append(("rep", norm(e[1]), e[2], [Printed(x) for x in e[3:]]))
            elif e[0] in ("num", "sym", "char"):
                self.items.append(("v", e))
            else:
                raise Unsupported("printing of %s" % e[0])

    def values(self):
        return [x[1] for x in self.items if x[0] == "v"]

    def reps(self):
        return [x for x in self.items if x[0] == "rep"]


def touching(p):
    """two values of a line with nothing between them"""
    last = None
    for x in p.items:
        if x[0] == "v":
            e = x[1]
            wide = e[0] == "num" and e[7] != C(0)
            if last is not None and not wide:
                return "%s and %s are printed without anything between them" % (brief(last[-1] if last[0] == "sym" else last[6]), brief(e[-1] if e[0] == "sym" else e[6]))
            last = e
        elif x[0] == "text" and last is not None and re.search(r"[^\w.]", x[1]):
            last = None
        elif x[0] in ("nl", "rep"):
            last = None
    return None


def whole(e, want, what):
    if e[0] != "num" or e[1] != "int" or e[3] != C(10) or norm(strip_casts(e[6])) != want:
        raise Mismatch("%s is printed as %s%s" % (what, brief(e[6] if e[0] == "num" else e[1]), " in base %s" % brief(e[3]) if e[0] == "num" and e[3] != C(10) else ""))


def strip_casts(v):
    while v[0] == "cast" and WIDTH.get(v[1], 0) >= 32:
        v = v[2]
    return v


def decimal(e, want, T, what, digits=None):
    if e[0] != "num" or e[1] != "float" or e[6] != want:
        raise Mismatch("%s is printed as %s" % (what, brief(e[6] if e[0] == "num" else e[1])))
    if not isc(e[4]):
        raise Unsupported("precision %s" % brief(e[4]))
    if "fixed" in e[5] or "hexfloat" in e[5] or e[4][1] + ("scientific" in e[5]) < (DIGITS[T] if digits is None else digits):
        raise Mismatch("%s is printed with %d digits%s" % (what, e[4][1], " after the point" if "fixed" in e[5] else ""))


def named(e, want, what):
    if e[0] != "sym" or e[1] != want:
        raise Mismatch("%s where %s is expected" % (brief(e[6] if e[0] == "num" else e[1]), what))


def table(ctx, p, fields, T):
    """one line per element: index/size, then the fields"""
    r = p.reps()
    if len(r) != 1 or r[0][1] != N:
        raise Mismatch("the elements are printed in %s" % (", ".join("a loop of %s" % brief(x[1]) for x in r) or "no loop"))
    k = r[0][2]
    for body in r[0][3]:
        line(ctx, body, k, fields, T)
    return p.items[p.items.index(r[0]) + 1:]


def line(ctx, body, k, fields, T):
    if body.reps():
        raise Unsupported("nested printing")
    t = touching(body)
    if t:
        raise Mismatch(t)
    kinds = [x[0] for x in body.items]
    if kinds.count("nl") != 1 or kinds[-1] != "nl" and kinds[0] != "nl":
        raise Mismatch("an element takes %d lines" % kinds.count("nl"))
    v = body.values()
    want = 2 + len(fields)
    if len(v) != want:
        raise Mismatch("%d values are printed per element, not %d" % (len(v), want))
    first = norm(strip_casts(v[0][6])) if v[0][0] == "num" else None
    if first not in (k, norm(op("+", k, C(1)))):
        raise Mismatch("the number of the line is %s" % brief(v[0][6] if v[0][0] == "num" else v[0][1]))
    whole(v[0], first, "the number of the line")
    whole(v[1], N, "the number of elements")
    for e, (how, what, w) in zip(v[2:], fields):
        w = subst(w, {K: k})
        if how == "name":
            named(e, w, what)
        elif how == "float":
            decimal(e, w, T, what)
        elif how == "int":
            whole(e, w, what)
        elif how == "bits":
            W = 8 if T == "double" else 4
            if e[0] != "num" or e[1] != "int" or e[3] != C(16) or pun(e[6], uint(W), T) != w:
                raise Mismatch("%s is printed as %s" % (what, brief(e[6] if e[0] == "num" else e[1])))
        ctx.count("fields")


def outside(*names):
    def hook(fn, e):
        if fn["name"] in names and e is not None:
            return lambda ev: ev.outside(("fn", fn["name"]), [ev.ev(a) for a in e["args"]], e)
        return None
    return hook


def printed(prog, rec, f, vals):
    ev, o = Ev(prog), Obj(rec)
    ev.hook = outside("diffbit", "getbsasstr")
    ev.ctor(o, f, [], vals)
    ev.globals = {}
    ev.invoke(method(prog, rec, "print"), [], o, values=[])
    s = screen(ev)
    if s is None:
        raise Mismatch("nothing is printed")
    return ev, o, Printed(s.ev.v)


def pool_maker(prog, rec):
    return [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and len(f["params"]) > 2][0]


def comparison_maker(prog, rec, n):
    names = (["input"] if n == 1 else ["input1", "input2"]) + ["out1", "out2"]
    f = [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and len(f["params"]) == 1 + len(names)]
    if len(f) != 1:
        raise Broken("%s: %d constructors from columns" % (rec, len(f)))
    return f[0], names


def pool_lines(ctx, prog, rec, T, n):
    f = pool_maker(prog, rec)
    try:
        ev, o, p = printed(prog, rec, f, [persist.argument(q) for q in f["params"]])
        cols = [contents(ev, method(prog, rec, g), o)[0] for g in (["getNumbers"] if n == 1 else ["getNumbersX", "getNumbersY"])]
        table(ctx, p, [("float", "number %d" % i, c) for i, c in enumerate(cols)], T)
    except (Mismatch, Undefined) as e:
        ctx.violation(where(method(prog, rec, "print")), "%s: %s" % (rec, e))
        return set()
    persist.narrow(ctx, ev, rec)
    return ev.lines


def response_lines(ctx, prog, rec, T, n):
    ins = ["input"] if n == 1 else ["input1", "input2"]
    lines = set()
    for f in [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and shape(f)]:
        it = iter(ins)
        vals = [S(("s", "name")) if "basic_string" in p["t"] else vector(T, next(it)) if "std::vector" in p["t"] else ("s", "fn") if "std::function" in p["t"] else persist.argument(p) for p in f["params"]]
        try:
            ev, o, p = printed(prog, rec, f, vals)
            out = contents(ev, method(prog, rec, "getOutput"), o)[0]
            table(ctx, p, [("name", "the name of the function", ("s", "name"))] + [("float", "the input", ("elem", i, K)) for i in ins] + [("float", "the result", out)], T)
        except (Mismatch, Undefined) as e:
            ctx.violation(where(method(prog, rec, "print")), "%s: %s" % (rec, e))
            continue
        persist.narrow(ctx, ev, rec)
        lines |= ev.lines
    return lines


def comparison_lines(ctx, prog, rec, T, n):
    f, names = comparison_maker(prog, rec, n)
    try:
        ev, o, p = printed(prog, rec, f, [S(("s", "name"))] + [vector(T, i) for i in names])
        d = ("call", ("fn", "diffbit"), ("elem", "out1", K), ("elem", "out2", K))
        fields = [("name", "the name", ("s", "name"))] + [("float", "the input" if i < n else "result %d" % (i - n + 1), ("elem", x, K)) for i, x in enumerate(names)]
        fields += [("bits", "the pattern of result 1", ("elem", "out1", K)), ("bits", "the pattern of result 2", ("elem", "out2", K)), ("diff", "the difference", d)]
        rest = table(ctx, p, fields, T)
        for body in p.reps()[0][3]:
            last = body.values()[-1]
            v = last[6]
            while v[0] == "cast" and WIDTH.get(v[1], 0) >= 16:
                v = v[2]
            if last[1] != "int" or last[3] != C(10) or v != subst(d, {K: p.reps()[0][2]}):
                raise Mismatch("the difference is printed as %s in base %s" % (brief(v), brief(last[3])))
        stats = [x[1] for x in rest if x[0] == "v" and x[1][0] == "num"]
        if len(stats) != 4:
            raise Mismatch("%d statistics follow the elements" % len(stats))
        for e in stats:
            if e[1] == "int" and e[3] != C(10):
                raise Mismatch("statistics are printed in base %s" % brief(e[3]))
        ctx.count("statistics_after_the_elements", len(stats))
    except (Mismatch, Undefined) as e:
        ctx.violation(where(method(prog, rec, "print")), "%s: %s" % (rec, e))
        return set()
    persist.narrow(ctx, ev, rec)
    return ev.lines


# ---- two functions side by side

def pairs(ctx, prog, f, T):
    """printFuncDiff: the argument, then both results with their difference"""
    n, array = shape(f)
    ev = Ev(prog)
    ev.hook = outside("diffbit", "getbsasstr")
    ins = ["x", "y"][:n]
    it, fs = iter(ins), iter(["first", "second"])
    vals, many = [], False
    for p in f["params"]:
        t = p["t"]
        if "basic_string" in t:
            vals.append(S(("s", "name")))
        elif "std::function" in t:
            vals.append(("s", next(fs)))
        elif "*" in t:
            many = True
            vals.append(Ptr(vector(T, next(it)), C(0)))
        elif T in t:
            vals.append(("s", next(it)))
        else:
            vals.append(N)
    label = "printFuncDiff of %s functions of %d argument%s%s in %s precision" % ("array" if array else "scalar", n, "s" if n > 1 else "", "" if many else " at one point", "double" if T == "double" else "single")
    try:
        ev.globals = {}
        ev.invoke(f, [], None, values=vals)
        s = screen(ev)
        if s is None:
            raise Mismatch("nothing is printed")
        p = Printed(s.ev.v)
        k = None
        if many:
            r = p.reps()
            if len(r) != 1 or r[0][1] != N:
                raise Mismatch("the points are gone through in %s" % (", ".join("a loop of %s" % brief(x[1]) for x in r) or "no loop"))
            k, bodies = r[0][2], r[0][3]
        else:
            bodies = [p]
        args = [("elem", i, k) if many else ("s", i) for i in ins]
        for body in bodies:
            t = touching(body)
            if t:
                raise Mismatch(t)
            v = body.values()
            if not array:
                named(v[0], ("s", "name"), "the name of the function")
                v = v[1:]
            elif [x for x in p.values() if x[0] == "sym"] != [("sym", ("s", "name"))]:
                raise Mismatch("the name of the function is not printed")
            if len(v) != n + 5:
                raise Mismatch("%d values are printed per point, not %d" % (len(v), n + 5))
            for e, a in zip(v, args):
                decimal(e, a, T, "the argument", 6)
            got = []
            for e, g in zip(v[n:], ("first", "second")):
                x = e[6] if e[0] == "num" else e[1]
                if many and array:
                    w = applied(x, ("s", g), ins, k)
                else:
                    w = None if x == ("call", ("s", g)) + tuple(args) else "%s is printed as the result of the %s function" % (brief(x), g)
                if w:
                    raise Mismatch("%s function: %s" % (g, w))
                decimal(e, x, T, "the result of the %s function" % g, min(10, DIGITS[T]))
                got.append(x)
            d = v[n + 2]
            x = d[6] if d[0] == "num" else d[1]
            while x[0] == "cast" and WIDTH.get(x[1], 0) >= 16:
                x = x[2]
            if x[:2] != ("call", ("fn", "diffbit")) or sorted(map(repr, x[2:])) != sorted(map(repr, got)) or d[0] == "num" and d[3] != C(10):
                raise Mismatch("the difference is printed as %s" % brief(x))
            for e, x, g in zip(v[n + 3:], got, ("first", "second")):
                if e[0] != "sym" or e[1] != ("call", ("fn", "getbsasstr"), x):
                    raise Mismatch("the bits of the %s result are printed as %s" % (g, brief(e[6] if e[0] == "num" else e[1])))
            ctx.count("side_by_side_values", n + 5)
    except (Mismatch, Undefined) as e:
        ctx.violation(where(f), "%s: %s" % (label, e))
    for file, l, c, t in ev.narrow:
        ctx.violation("%s:%s" % (file, l), "loop counter %s of type %s wraps before the end of the data" % (c, t))
    ctx.count("side_by_side_forms")
    return ev.lines


def sets(ctx):
    """the list of enabled instruction sets"""
    src = os.path.join(ctx.tmp, "sets.cc")
    with open(src, "w") as f:
        f.write(persist.STANDARD + '#include "vdtdiag_helper.h"\nvoid listed() { vdth::print_instructions_info(); }\n')
    for flag, on in TARGETS:
        prog = load(ctx, src, (flag,))
        f = [f for f in prog.fn.values() if f["name"] == "listed"][0]
        ev = Ev(prog)
        ev.globals = {}
        ev.invoke(f, [], None, values=[])
        s = screen(ev)
        text = "".join(e[1] for e in s.ev.v if e[0] == "lit") if s else ""
        for name in SETS:
            l = [l for l in text.split("\n") if re.search(r"(?<![\w.])%s(?![\w.])" % re.escape(name), l)]
            if len(l) != 1 or ("not" not in l[0].split()) != (name in on):
                g = [g for g in prog.fn.values() if g["name"] == "print_instructions_info"]
                ctx.violation(where(g[0]) if g else "include/diagnostic/vdtdiag_helper.h", "compiled with %s the list says %s" % (flag, l or "nothing about " + name))
            ctx.count("instruction_sets_listed")


INSTANCES = """
template void vdth::printFuncDiff<T>(const std::string &, std::function<T(T)>, std::function<T(T)>, const T);
template void vdth::printFuncDiff<T>(const std::string &, std::function<T(T, T)>, std::function<T(T, T)>, const T, const T);
template void vdth::printFuncDiff<T>(const std::string &, vdth::genfpfunctionv<T>, vdth::genfpfunctionv<T>, T *, const uint32_t);
template void vdth::printFuncDiff<T>(const std::string &, vdth::genfp2functionv<T>, vdth::genfp2functionv<T>, T *, T *, const uint32_t);
template void vdth::printFuncDiff<T>(const std::string &, std::function<T(T)>, std::function<T(T)>, T *, const uint32_t);
template void vdth::printFuncDiff<T>(const std::string &, std::function<T(T, T)>, std::function<T(T, T)>, T *, T *, const uint32_t);
"""


def check_screen(ctx):
    controls(ctx, "Printed")
    src = persist.driver(ctx)
    with open(src, "a") as f:
        for t in persist.TYPES:
            f.write(re.sub(r"\bT\b", t, INSTANCES))
    prog = load(ctx, src)
    lines = set()
    for classes, one in ((POOLS, pool_lines), (RESPONSES, response_lines), (COMPARISONS, comparison_lines)):
        for c, n in classes.items():
            for t in persist.TYPES:
                lines |= one(ctx, prog, "%s<%s>" % (c, t), t, n)
                ctx.count("classes")
    for t in persist.TYPES:
        for f in [f for f in prog.fn.values() if f["name"] == "printFuncDiff" and f.get("body") and not f.get("dependent") and shape(f) and re.search(r"\b%s\b" % t, f["params"][1]["t"])]:
            lines |= pairs(ctx, prog, f, t)
    sets(ctx)
    ctx.coverage["source_lines_interpreted"] = len(lines)
    ctx.coverage["explanation"] = "print of every diagnostic class and every form of printFuncDiff are summarised over their syntax tree for symbolic vectors and functions; the printed stream has to hold, in one loop over all elements, the values of element k in order, each set apart from the next, in the right base and with enough digits. The list of instruction sets is read for five targets."
    ctx.assumptions += ["the stream is in its initial format when printing starts", "bit difference and bit text of a number: P23"]
    if not ctx.violations:
        ctx.need("classes", 18)
        ctx.need("side_by_side_forms", 12)
        ctx.need("fields", 60)
        ctx.need("instruction_sets_listed", 20)


def controls(ctx, kind):
    src = os.path.join(VERIF, "selftest", "screen.cc")
    prog = load(ctx, src)
    n = 0
    todo = [(r, r) for r in sorted(prog.rec) if re.match("(good|bad)" + kind, r)]
    todo += [(f["name"], f) for f in prog.fn.values() if re.match("(good|bad)" + kind, f["name"]) and not f.get("ctor") and f.get("body") and not f.get("rec")]
    for name, r in todo:
        sub = Sub()
        try:
            if isinstance(r, dict):
                pairs(sub, prog, r, "double")
            elif kind == "Response":
                responses(sub, prog, r, "double", 1)
            else:
                response_lines(sub, prog, r, "double", 1)
        except Unsupported as e:
            raise Broken("control %s: %s" % (name, e))
        if bool(sub.violations) != name.startswith("bad"):
            raise Broken("control %s: %s" % (name, sub.violations or "not noticed"))
        n += 1
    ctx.coverage["controls_confirmed"] = n
    ctx.need("controls_confirmed", 8)
