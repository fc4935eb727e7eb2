"""P22, P27: the benchmark programs apply the function they name to its own pool of numbers."""
import persist
from flow import *
from rational import Rational, Odd
from persist import Mismatch, Sub, brief, load

PROGS = os.path.join(REPO, "progs")
K = ("k", "index")
LIBM = {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "tanh", "sqrt"}


# ---------------------------------------------------------------- a whole program

def options(args, matching=None):
    """stand-ins for what the program reaches outside the repository: the command line, the clock"""
    def hook(fn, e):
        q, name = fn["q"], fn["name"]
        if q.startswith("CmdOptions::"):
            if name == "CmdOptions":
                return lambda ev: Obj("CmdOptions")
            if name == "parseCmd":
                return lambda ev: TRUE
            if name in ("addOption", "printHelp"):
                return lambda ev: ("void",)
            if name in ("isSet", "getArgument"):
                def given(ev):
                    o = text(ev.ev(e["args"][0]))
                    if name == "isSet":
                        return C(int(o in args))
                    return S(("s", o, "nonempty")) if o in args else S("")
                return given
            return None
        if q.startswith("vdt::") and "details" not in q:
            return lambda ev: ev.outside(("fn", q, fn["t"]), [ev.ev(a) for a in e["args"]], e)
        if name in ("stoi", "atoi", "stol", "atol", "strtol", "stoul", "strtoul", "stoll", "stoull"):
            return lambda ev: ("size", option_of(ev, e))
        if name in ("stod", "atof", "strtod", "stof", "stold"):
            return lambda ev: ("s", option_of(ev, e))
        if q == "std::regex_match":
            def match(ev):
                a = [ev.ev(x) for x in e["args"]]
                subject = {x for v in a if term(v) for x in atoms(v, lambda t: t[0] == "str")}
                pattern = [x for x in a if isinstance(x, Obj)]
                if len(subject) != 1 or len(pattern) != 1:
                    ev.bad(e, "regular expression match")
                name = text(next(iter(subject)))
                ev.patterns.add(pattern[0].cell("pattern").v)
                return C(int(matching is None or name in matching))
            return match
        if "basic_regex" in q:
            def regex(ev):
                o = Obj("regex")
                a = [ev.ev(x) for x in e["args"]]
                ev.set(o.cell("pattern"), a[0])
                return o
            return regex
        if name == "clock_gettime":
            def clock(ev):
                o = ev.ev(e["args"][1])
                if isinstance(o, Ptr) and o.cell is not None:
                    o = o.cell.v
                if not isinstance(o, Obj):
                    ev.bad(e, "clock read into %r" % (o,))
                t = ("clock", len(ev.trace.v), ev.loop, "/".join(str(l[1]) for l in ev.loop))
                ev.note(("clock", ev.ev(e["args"][0])))
                for m in ("tv_sec", "tv_nsec"):
                    ev.set(o.cell(m), ("field", t, m))
                return C(0)
            return clock
        return None
    return hook


def option_of(ev, e):
    v = ev.ev(e["args"][0])
    if not (term(v) and v[0] == "str" and len(v[1]) == 1 and isinstance(v[1][0], tuple)):
        ev.bad(e, "conversion of %s" % (show(v),))
    return v[1][0][1]


def run(prog, args, matching=None, entry="main"):
    main = [f for f in prog.fn.values() if f["name"] == entry]
    if len(main) != 1:
        raise Broken("no function %s" % entry)
    ev = Ev(prog)
    ev.trace = Cell((), "trace", "trace")
    ev.hook = options(args, matching)
    ev.patterns = set()
    r = ev.invoke(main[0], [], None, values=[("s", p["name"]) for p in main[0]["params"]])
    return ev, r


# ---------------------------------------------------------------- names and functions

def wanted(name, single, array):
    """(variant, function) a benchmark name stands for"""
    n = name
    for flag, suffix in ((array, "v"), (single, "f")):
        if flag:
            if not n.endswith(suffix):
                return None
            n = n[:-1]
    n = n.lower()
    m = re.match(r"(fast_)?(apr_|approx_)?(\w+)$", n)
    if not m:
        return None
    base = {"inverse": "inv", "identity2d": "identity2D"}.get(m.group(3), m.group(3))
    return ("fast" if m.group(1) else "", "approx" if m.group(2) else "", base)


def actual(fn, single, array):
    """(variant, function) of a function symbol, with its precision and form"""
    if isinstance(fn, tuple) and fn[0] == "fn":
        n, t = fn[1], fn[2]
        n = re.sub(r"^(vdt|std|refMath)?::", "", n)
        if ("float" in t) != single or array != ("*" in t):
            return None
    else:
        n = fn
        if n in LIBM:
            return None if single else ("", "", n)
        if not single:
            return None
    m = re.match(r"(fast_)?(approx_)?(\w+)$", n)
    base = m.group(3)
    for flag, suffix in ((array, "v"), (single, "f")):
        if flag:
            if not base.endswith(suffix) or base == "inv":
                return None
            base = base[:-1]
    return ("fast" if m.group(1) else "", "approx" if m.group(2) else "", base)


def domain(base, single):
    """(lowest, highest) argument, None where any; whether zero is excluded; both signs expected"""
    if base == "exp":
        return (-87, 88) if single else (-708, 709)
    if base in ("asin", "acos"):
        return (-1, 1)
    if base in ("log", "isqrt"):
        return ("positive", None)
    return None


def draws(v):
    """(type, low, high, stream position) of a pool number"""
    t, d = None, v
    while d[0] == "cast" and d[1] in FLOATS:
        t, d = t or d[1], d[2]
    if d[0] != "draw" or "uniform_real_distribution" not in d[1]:
        return None
    if t is None:
        t = re.search(r"<(.*)>", d[1]).group(1) or "double"
    return (t, d[2][0], d[2][1], d[3]) if t in ("float", "double") else None


def same_stream(p):
    """position in a random sequence; engines with equal seeds give equal sequences"""
    def f(a):
        return ("stream", a[2]) + tuple(a[3:]) if a[0] == "state" else None
    return rewrite(p, f)


def rewrite(e, f):
    if not isinstance(e, tuple):
        return e
    r = f(e)
    if r is not None:
        return r
    return tuple(rewrite(x, f) for x in e)


def range_fits(base, single, lo, hi):
    d = domain(base, single)
    if d is None:
        if isc(lo) and isc(hi) and base not in ("sqrt",):
            return None if lo[1] < 0 < hi[1] else "the numbers do not cover both signs: [%s, %s]" % (float(lo[1]), float(hi[1]))
        return None
    if d[0] == "positive":
        if isc(lo):
            return None if lo[1] > 0 else "numbers from %s on, outside the domain" % float(lo[1])
        return "the lower limit %s of the numbers is not known to be positive" % brief(lo)
    if not (isc(lo) and isc(hi)):
        return "the limits %s, %s of the numbers are not fixed" % (brief(lo), brief(hi))
    if lo[1] < d[0] or hi[1] > d[1]:
        return "numbers in [%s, %s], outside the domain [%s, %s]" % (float(lo[1]), float(hi[1]), d[0], d[1])
    return None


def column(v, k):
    """number k of an array input and how many there are"""
    if len(v) == 1 and v[0][0] == "rep" and len(v[0][3]) == 1 and v[0][3][0][0] == "one":
        return subst(v[0][3][0][1], {v[0][2]: k}), v[0][1]
    if len(v) == 1 and v[0][0] == "map" and v[0][2] is not None:
        return subst(v[0][3], {v[0][2]: k}), v[0][1]
    if len(v) == 1 and v[0][0] == "sym" and len(v[0]) > 2:
        return ("elem", v[0][1], norm(k)), v[0][2]
    if len(v) == 1 and v[0][0] == "shift":
        x, n = column(v[0][2], norm(op("+", k, v[0][1])))
        return x, norm(op("-", n, v[0][1]))
    raise Unsupported("array input %s" % brief(v))


def judge(ctx, where, name, fn, ins, count, requested, seen):
    """one (name, function, inputs) triple; ins are the values of the input columns at index k"""
    cols = [draws(v) for v in ins]
    if not all(cols):
        ctx.violation(where, "%s is fed with %s, not with random numbers" % (name, brief([v for v, c in zip(ins, cols) if not c][0])))
        return None
    types = {c[0] for c in cols}
    if len(types) != 1:
        ctx.violation(where, "%s is fed with numbers of two types" % name)
        return None
    single = types == {"float"}
    sym, array = fn
    w = wanted(name, single, array)
    a = actual(sym, single, array)
    pretty = sym[1] + " of type " + sym[2] if isinstance(sym, tuple) else sym
    if w is None:
        ctx.violation(where, "the name %s does not go with %s precision%s" % (name, "single" if single else "double", " arrays" if array else ""))
        return None
    if w != a:
        ctx.violation(where, "the entry %s calls %s" % (name, pretty))
    if norm(count) != norm(requested):
        ctx.violation(where, "%s: %s numbers instead of %s" % (name, brief(count), brief(requested)))
    for c in cols:
        bad = range_fits(w[2], single, c[1], c[2])
        if bad:
            ctx.violation(where, "%s: %s" % (name, bad))
        ctx.count("ranges_checked")
    if len(cols) == 2 and cols[0] == cols[1]:
        ctx.violation(where, "%s is given the same number twice" % name)
    key = (w[2], single)
    inputs = tuple((c[1], c[2], same_stream(c[3])) for c in cols)
    if key in seen and seen[key][1] != inputs:
        ctx.violation(where, "%s and %s are not given the same numbers" % (seen[key][0], name))
    seen.setdefault(key, (name, inputs))
    return w, single, array


FUNCTIONS = [(v, a, b) for b in ("acos", "asin", "atan", "cos", "exp", "inv", "isqrt", "log", "sin", "tan", "tanh", "atan2") for v in ("", "fast") for a in ("", "approx")
             if not a or v and b in ("inv", "isqrt")] + [("", "", "identity")]


def complete(ctx, where, entries):
    """every form and precision offers every function of the library beside its reference"""
    forms = {}
    there = {w for _, (w, _, _) in entries}
    for w in FUNCTIONS:
        if w not in there:
            ctx.violation(where, "no entry for %s" % "_".join(x for x in w if x))
    for name, (w, single, array) in entries:
        s = forms.setdefault((single, array, w[2] in ("atan2", "identity2D")), {})
        if w in s:
            ctx.violation(where, "%s and %s are the same function" % (s[w], name))
        s[w] = name
    for two in (False, True):
        group = {k: v for k, v in forms.items() if k[2] == two}
        every = {}
        for s in group.values():
            every.update(s)
        if group and len(group) != 4:
            ctx.violation(where, "only %d of the four forms are present" % len(group))
        for k, s in group.items():
            for w, n in every.items():
                if w not in s:
                    ctx.violation(where, "%s has no counterpart for %s precision %s" % (n, "single" if k[0] else "double", "arrays" if k[1] else "scalars"))


# ---------------------------------------------------------------- accuracy benchmark

def readers(ctx):
    """how the response files are read"""
    prog = load(ctx, persist.driver(ctx))
    return readers_of(prog, {"fcnResponse1D<%s>": ("getInput", "getOutput"), "fcnResponse2D<%s>": ("getInput1", "getInput2", "getOutput")}, ("double", "float"))


def readers_of(prog, classes, types):
    out = {}
    for c, getters in classes.items():
        for t in types:
            rec = c % t if "%" in c else c
            rf = [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and len(f["params"]) == 1 and "basic_string" in f["params"][0]["t"]]
            if len(rf) != 1:
                raise Broken("no reading constructor of %s" % rec)
            ev, o = persist.build(prog, rf[0])
            st = [s for s in ev.streams if s.kind == "in"][0]
            cols = []
            for g in getters:
                f = persist.method(prog, rec, g)
                if not f:
                    raise Broken("%s has no %s" % (rec, g))
                v = ev.invoke(f, [], o, values=[])
                v = v.v if isinstance(v, Cell) else v
                if not isinstance(v, Vec):
                    raise Unsupported("%s::%s gives %r" % (rec, g, v))
                cols.append(v.c.v)
            out[c, t] = persist.reader_plan(st), cols
    return out


def header(events):
    """the first lines of the file, as text"""
    s = ""
    for e in events:
        if e[0] == "lit":
            s += e[1]
        elif e[0] == "sym":
            s += "?"
        elif e[0] == "rep":
            break
        else:
            s += "?"
    return s.split("\n")


def accuracy(ctx, prog, plans, where, args, size, start="main"):
    """entries of the files vdtArithmBenchmark writes"""
    ev, status = run(prog, args, None, start)
    files = [s for s in ev.streams if s.kind == "out"]
    entries, seen, names = [], {}, set()
    for s in files:
        t = s.target
        parts = t[1] if term(t) and t[0] == "str" else ()
        if not (len(parts) == 2 and parts[0][:2] == ("s", "-n") and isinstance(parts[1], str) and parts[1].startswith("__") and parts[1].endswith("__response.txt")):
            ctx.violation(where, "file name %s is not <nick>__<function>__response.txt" % brief(t))
            continue
        name = parts[1][2:-len("__response.txt")]
        if name in names:
            ctx.violation(where, "%s is written twice" % name)
        names.add(name)
        ctx.count("files")
        h = header(s.ev.v)
        if len(h) < 3 or h[2].split("= ")[-1] != name:
            ctx.violation(where, "the file of %s says in its header %r" % (name, h[2] if len(h) > 2 else ""))
            continue
        try:
            one_file(ctx, where, name, h, s, plans, seen, entries, size)
        except Mismatch as e:
            ctx.violation(where, "%s: %s" % (name, e))
    for f, l, n, t in ev.narrow:
        ctx.violation("%s:%s" % (f, l), "loop counter %s of type %s wraps before the end of the data" % (n, t))
    if start == "main":
        complete(ctx, where, entries)
    return ev


def exact(e):
    """without conversions that keep the value of a function"""
    while e[0] == "cast" and e[1] in FLOATS:
        d = e[2]
        while d[0] == "cast" and d[1] in FLOATS and FLOATS[d[1]] >= FLOATS[e[1]]:
            d = d[2]
        f = d[1] if d[0] == "call" else None
        if not (isinstance(f, str) and f.rstrip("f") in LIBM or isinstance(f, tuple) and f[0] == "fn"):
            break
        single = f.endswith("f") if isinstance(f, str) else signature(f[2])[1] == "float"
        if e[1] == "float" and not single:
            break
        e = e[2]
    return e


def one_file(ctx, where, name, h, s, plans, seen, entries, size):
    found = []
    for (c, t), (plan, cols) in plans.items():
        if (h[1] == "Double Precision") != (t == "double"):
            continue
        try:
            lines, before, loop = plan
            persist.whole_lines(s.ev.v, loop)
            fixed, rep = persist.value_map(before, loop, persist.tokens(persist.skip_lines(s.ev.v, lines)))
            count, q, its = rep
            vals = [persist.appended(v, loop, its, q) for v in cols]
        except Mismatch:
            continue
        if any(len(v) != 1 for v in vals):
            continue
        vals = [same_stream(v[0]) for v in vals]
        out = vals[-1] = exact(vals[-1])
        if out[0] == "call" and out[2:] == tuple(vals[:-1]) or out[0] == "arr":
            found.append((count, q, vals))
        elif len(vals) == (3 if "2D" in name or "Atan2" in name else 2):
            raise Mismatch("the result recorded is %s, not the function of the input recorded" % brief(out))
    if len(found) != 1:
        raise Mismatch("the %s file cannot be read back as values of a function" % h[1])
    count, q, vals = found[0]
    out = vals[-1]
    if out[0] == "arr":
        _, fn, n, ins, size, k = out
        if norm(n) != norm(count) or norm(size) != norm(count):
            raise Mismatch("the array function is called for %s elements, %s are recorded" % (brief(n), brief(count)))
        at = []
        for v in ins:
            at.append(column(v, k)[0])
        if at != list(vals[:-1]):
            raise Mismatch("the array function is not applied to the inputs recorded")
        fn = fn, True
    else:
        fn = out[1], False
    r = judge(ctx, where, name, fn, [subst(v, {q: K}) for v in vals[:-1]], count, size, seen)
    if r:
        entries.append((name, r))


def controls(ctx, timed):
    src = os.path.join(VERIF, "selftest", "bench.cc")
    prog = load(ctx, src)
    plans = readers_of(prog, {"Response": ("getInput", "getOutput")}, ("double",))
    names = re.findall(r"^CASE\((\w+)" if timed else r"^void ((?:good|bad)\w+)", open(src).read(), re.M)
    for n in names:
        sub = Sub()
        try:
            if timed:
                timing(sub, prog, n, {"-n", "-s", "-r"}, ("size", "-s"), ("size", "-r"), None, n)
            else:
                accuracy(sub, prog, plans, n, {"-n", "-s"}, ("size", "-s"), n)
        except Unsupported as e:
            raise Broken("control %s: %s" % (n, e))
        if bool(sub.violations) != n.startswith("bad"):
            raise Broken("control %s: %s" % (n, sub.violations or "not noticed"))
        ctx.count("controls_confirmed")
    ctx.need("controls_confirmed", 14)


def check(ctx):
    controls(ctx, False)
    plans = readers(ctx)
    where = "progs/vdtArithmBenchmark.cpp"
    prog = load(ctx, os.path.join(REPO, where))
    ev = accuracy(ctx, prog, plans, where, {"-n", "-s"}, ("size", "-s"))
    n = ctx.coverage.get("files", 0)
    if not ctx.violations:
        ctx.need("files", 100)
        accuracy(ctx, prog, plans, where + " (no size given)", {"-n"}, C(50000))
        if ctx.coverage["files"] != 2 * n:
            ctx.violation(where, "%d files without the size option, %d with it" % (ctx.coverage["files"] - n, n))
    ctx.coverage["source_lines_interpreted"] = len(ev.lines)
    ctx.coverage["explanation"] = "The main program is summarised over its syntax tree, with and without the size option; every file it writes is read with the repository's reader and name, header, precision, function, argument columns, range and number of records are compared as terms."
    ctx.assumptions += ["the command-line class returns the argument given for each option", "fewer than 2^32 numbers"]


# ---------------------------------------------------------------- timing benchmark

def lines_of(events):
    """report lines as white-space separated tokens, numbers kept as their events"""
    line, cur, out = [], "", []

    def flush():
        nonlocal cur
        if cur:
            line.append(cur)
        cur = ""
    for e in events:
        if e[0] == "lit":
            for part in re.split(r"(\s)", e[1]):
                if part == "\n":
                    flush()
                    out.append(line)
                    line = []
                elif part.isspace():
                    flush()
                else:
                    cur += part
        elif e[0] == "num":
            flush()
            line.append(e)
        elif e[0] == "sym":
            cur += "?"
        else:
            raise Unsupported("report made of %s" % e[0])
    flush()
    if line:
        out.append(line)
    return out


def plain(e):
    """conversions that keep the value are dropped"""
    while e[0] == "cast":
        if e[1] in ("double", "long double") or WIDTH.get(e[1], 0) >= 64 or WIDTH.get(e[1], 0) == 32 and e[2][0] in ("size", "c"):
            e = e[2]
        else:
            break
    return e


class Timing:
    """time sums of one report entry"""

    def __init__(self, reps, loops, least=2):
        self.reps, self.all, self.least = reps, loops, least
        self.R = Rational(self.prepare, self.assume)
        self.inner = Rational(plain, self.assume)
        self.loops = {}

    def assume(self, c):
        """conditions on the number of repetitions, which is at least two, or one"""
        if self.least == 1:
            c = subst(c, {self.reps: C(1)})
            c = op(c[1], plain(c[2]), plain(c[3])) if c[0] == "op" and len(c) == 4 else c
            return bool(c[1]) if isc(c) else None
        if c[0] == "op" and c[1] in ("<", "<=", ">", ">=", "==", "!="):
            d = lin(("op", "-", plain(c[2]), plain(c[3])))
            a, b = d.get(self.reps, 0), d.get(1, 0)
            if set(d) <= {1, self.reps} and a:
                lo = 2 * a + b
                up = a > 0
                if c[1] in (">", ">=") and up:
                    return True if (lo > 0 or c[1] == ">=" and lo >= 0) else None
                if c[1] in ("<", "<=") and up:
                    return False if (lo > 0 or c[1] == "<" and lo >= 0) else None
                if c[1] in ("<", "<=") and not up:
                    return True if (lo < 0 or c[1] == "<=" and lo <= 0) else None
                if c[1] in (">", ">=") and not up:
                    return False if (lo < 0 or c[1] == ">" and lo <= 0) else None
                if c[1] in ("==", "!="):
                    return (c[1] == "!=") if (lo > 0 if up else lo < 0) else None
        return None

    def prepare(self, e):
        e = plain(e)
        if e[0] == "sum":
            return self.total(e)
        if e[0] == "call" and e[1] in ("fmax", "max") and C(0) in (plain(e[2]), plain(e[3])):
            return self.prepare(e[3] if plain(e[2]) == C(0) else e[2])
        return e

    def total(self, e):
        """sum over the repetitions that count"""
        _, n, k, body = e
        body = plain(body)
        count = n
        if body[0] == "ite":
            c, a, b = body[1], plain(body[2]), plain(body[3])
            if a == C(0):
                c, a, b = op("!", c), b, a
            if b != C(0):
                raise Mismatch("time recorded under the condition %s" % brief(c))
            d = lin(("op", "-", plain(c[2]), plain(c[3]))) if c[0] == "op" and len(c) == 4 and c[1] in ("<", "<=", ">", ">=") else {}
            a1 = d.pop(k, 0)
            rest = unlin(d)
            if a1 == 1 and c[1] in (">", ">="):
                skipped = op("-", C(1 if c[1] == ">" else 0), rest)
            elif a1 == -1 and c[1] in ("<", "<="):
                skipped = op("+", C(1 if c[1] == "<" else 0), rest)
            elif a1 == 1 and c[1] in ("<", "<="):
                skipped = op("-", n, op("-", C(1 if c[1] == "<=" else 0), rest))
            elif a1 == -1 and c[1] in (">", ">="):
                skipped = op("-", n, op("+", C(1 if c[1] == ">=" else 0), rest))
            else:
                raise Mismatch("time recorded under the condition %s" % brief(c))
            count = norm(op("-", n, norm(skipped)))
            body = a
        # times kept in a table first: number k of the table is that of repetition k + t
        at = {(a[2], a[3]) for a in atoms(body, lambda a: a[0] == "clock")}
        if len(at) == 1:
            (where, loop), = at
            if len(where) == 1 and where[0] != k and "/" not in loop and loop:
                d = lin(("op", "-", where[0], k))
                if not mentions(tuple(d), k):
                    k = next(x for x in self.all if str(x[1]) == loop)
                    body = rewrite(body, lambda a: ("clock", a[1], (k,), loop) if a[0] == "clock" else None)
        num, den = self.inner.frac(body)
        if den != Rational.const(1):
            raise Unsupported("time sum %s" % brief(body))
        self.loops[k] = norm(count)
        return ("total", norm(count), k, Rational.key(num))


def delta(k, i, j):
    """nanoseconds between clock readings i and j of one repetition"""
    f = lambda n, m: ("field", ("clock", n, (k,), str(k[1])), m)
    p = {((f(j, "tv_sec"), 1),): Fraction(10**9), ((f(i, "tv_sec"), 1),): Fraction(-10**9),
         ((f(j, "tv_nsec"), 1),): Fraction(1), ((f(i, "tv_nsec"), 1),): Fraction(-1)}
    return {tuple(m): c for m, c in p.items()}


def reps_in(trace, out):
    for e in trace:
        if e[0] == "rep":
            out[e[2]] = e
            reps_in(e[3], out)
        elif e[0] == "if":
            reps_in(e[2], out)
            reps_in(e[3], out)
    return out


def entry(ctx, where, name, avg, err, loops, size, R, seen):
    fn, ins, n = measured(ctx, avg, err, loops, R)
    return judge(ctx, where, name, fn, ins, n, size, seen)


def measured(ctx, avg, err, loops, R):
    """(function and form, its inputs, their number) whose mean time and error these are"""
    t = Timing(R, loops)
    f = t.R.frac(avg)
    if len(t.loops) != 1:
        raise Mismatch("the average is %s" % brief(avg))
    k, recorded = next(iter(t.loops.items()))
    if recorded != norm(R):
        raise Mismatch("%s repetitions are recorded instead of %s" % (brief(recorded), brief(R)))
    body = loops[k][3]
    clocks = [i for i, e in enumerate(body) if e[0] == "clock"]
    if len(clocks) != 2:
        raise Mismatch("the clock is read %d times per repetition" % len(clocks))
    i, j = clocks
    if body[i] != body[j]:
        raise Mismatch("two different clocks are read")
    timed = list(body[i + 1:j])
    if len(timed) != 1:
        raise Mismatch("%d things are timed at once" % len(timed))
    one = ("total", recorded, k, Rational.key(delta(k, i, j)))
    two = ("total", recorded, k, Rational.key(Rational.mul(delta(k, i, j), delta(k, i, j))))
    e = timed[0]
    if e[0] == "rep" and len(e[3]) == 1 and e[3][0][0] == "apply":
        n, call = e[1], e[3][0]
        fn, ins = (call[1], False), [subst(v, {e[2]: K}) for v in call[2:]]
    elif e[0] == "applyv":
        _, sym, n, arrays, room = e
        if norm(room) != norm(n):
            raise Mismatch("results for %s numbers in an array of %s" % (brief(n), brief(room)))
        fn, ins = (sym, True), []
        for v in arrays:
            x, have = column(v, K)
            if norm(have) != norm(n):
                raise Mismatch("%s of the %s numbers are used" % (brief(n), brief(have)))
            ins.append(x)
    else:
        raise Mismatch("what is timed is not a run of the function over the numbers: %s" % brief(e))
    mean = t.R.frac(op("/", one, op("*", n, R)))
    if not t.R.equal(f, mean):
        raise Mismatch("the average printed is %s, not the time of the recorded repetitions per call" % brief(avg))
    try:
        got = t.R.squared(err)
    except Odd:
        raise Mismatch("the error printed is %s" % brief(err))
    want = t.R.frac(op("/", op("-", two, op("/", op("*", one, one), R)), op("*", op("*", op("-", R, C(1)), R), op("*", n, n))))
    if not t.R.equal(got, want):
        raise Mismatch("the error printed is not the standard error of the mean of the repetitions: %s" % brief(err))
    if not isc(R):
        once = Timing(R, loops, 1)
        try:
            _, den = once.R.squared(err)
        except Odd:
            raise Mismatch("the error printed for one repetition is %s" % brief(err))
        left = {}
        for m, c in den.items():
            left = Rational.add(left, {tuple(x for x in m if x[0] != R): c})
        if not left:
            raise Mismatch("the error printed for one repetition is not a number: %s" % brief(err))
        ctx.count("single_repetitions")
    return fn, ins, n


def hundredths(e):
    """a time is printed with two decimals at least"""
    if not (isc(e[4]) and (e[4][1] >= 2 if "fixed" in e[5] else e[4][1] >= 15) and "scientific" not in e[5]):
        raise Mismatch("a time is printed with %s%s digits" % (brief(e[4]), "" if "fixed" in e[5] else " significant"))


def timing(ctx, prog, where, args, size, R, matching=None, start="main"):
    """lines of the report vdtPerfBenchmark writes"""
    ev, status = run(prog, args, matching, start)
    files = [s for s in ev.streams if s.kind == "out"]
    if len(files) != 1:
        ctx.violation(where, "%d report files" % len(files))
        return ev, []
    if files[0].target != S(("s", "-n", "nonempty"), "__performance_benchmark.txt"):
        ctx.violation(where, "the report is written to %s" % brief(files[0].target))
    loops = reps_in(ev.trace.v, {})
    entries, seen, names = [], {}, []
    for l in lines_of(files[0].ev.v):
        shape = [x if isinstance(x, str) else "#" for x in l]
        if len(shape) != 7 or shape[0] != "Function" or shape[2:] != [":", "#", "+-", "#", "ns"]:
            ctx.violation(where, "report line %s" % " ".join(shape))
            continue
        name = l[1]
        if name in names:
            ctx.violation(where, "%s is reported twice" % name)
        names.append(name)
        ctx.count("report_lines")
        try:
            hundredths(l[3])
            hundredths(l[5])
            r = entry(ctx, where, name, l[3][6], l[5][6], loops, size, R, seen)
        except Mismatch as e:
            ctx.violation(where, "%s: %s" % (name, e))
            continue
        if r:
            entries.append((name, r))
            if matching is None and start == "main" and not r[0][2].startswith("identity") and not any(x[0][2].startswith("identity") and x[1:] == r[1:] for _, x in entries):
                ctx.violation(where, "%s comes before the identity function its time is measured against" % name)
    for f, l, n, t in ev.narrow:
        ctx.violation("%s:%s" % (f, l), "loop counter %s of type %s wraps before the end of the data" % (n, t))
    if start != "main":
        return ev, names
    if matching is None:
        complete(ctx, where, entries)
    elif sorted(names) != sorted(matching):
        ctx.violation(where, "with a pattern that only %s match, the report lists %s" % (", ".join(sorted(matching)), ", ".join(names) or "nothing"))
    return ev, names


def objects(ctx):
    """timing objects made directly: what they measure, print and return"""
    from stats import method, where as at
    src = os.path.join(ctx.tmp, "perf.cc")
    with open(src, "w") as f:
        f.write(persist.STANDARD + '#include "vdtdiag_fcnPerformance.h"\ntemplate class fcnPerformance<double>;\ntemplate class fcnPerformance<float>;\n')
    prog = load(ctx, src)
    lines = set()
    scale, R = ("s", "scale"), ("size", "repetitions")
    for T in ("double", "float"):
        rec = "fcnPerformance<%s>" % T
        for f in [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and any("std::function" in p["t"] for p in f["params"])]:
            cols = ["column%d" % i for i in range(sum("std::vector" in p["t"] for p in f["params"]))]
            it = iter(cols)
            vals = [S(("s", "name")) if "basic_string" in p["t"] else Vec((("sym", next(it), persist.N),), "std::vector<%s>" % T, "") if "std::vector" in p["t"] else ("s", "fn") if "std::function" in p["t"] else R for p in f["params"]]
            array = any("void (" in p["t"] or "void(" in p["t"] for p in f["params"])
            label = "%s of %s function of %d argument%s" % (rec, "an array" if array else "a scalar", len(cols), "s" if len(cols) > 1 else "")
            where = at(f)
            ev, o = Ev(prog), Obj(rec)
            ev.trace = Cell((), "trace", "trace")
            ev.hook = options(set())
            try:
                ev.ctor(o, f, [], vals)
                loops = reps_in(ev.trace.v, {})
                ev.trace = None
                for given in (None, scale):
                    st = Stream("out", "report")
                    ev.assume = [op("!=", scale, C(1))]
                    ev.invoke(method(prog, rec, "print"), [], o, values=[st, given or C(1)])
                    ls = lines_of(st.ev.v)
                    shape = [x if isinstance(x, str) else "#" for x in ls[0]] if len(ls) == 1 else []
                    want = ["Function", "?", ":", "#", "+-", "#", "ns"] + (["-->", "#"] if given else [])
                    if shape[:len(want)] != want or len(shape) > 7 and not given or [e for e in st.ev.v if e[0] == "sym"][0][1] != ("s", "name"):
                        raise Mismatch("printed: %s" % " ".join(shape))
                    avg, err = ls[0][3], ls[0][5]
                    hundredths(avg)
                    hundredths(err)
                    (fn, isarray), ins, n = measured(ctx, avg[6], err[6], loops, R)
                    if fn != ("s", "fn") or isarray != array or ins != [("elem", c, K) for c in cols] or norm(n) != persist.N:
                        raise Mismatch("timed is %s of %s for %s numbers" % (brief(fn), ", ".join(map(brief, ins)), brief(n)))
                    t = Timing(R, loops)
                    if given:
                        hundredths(ls[0][8])
                        if not t.R.equal(t.R.frac(ls[0][8][6]), t.R.frac(op("/", scale, avg[6]))):
                            raise Mismatch("the speedup printed is %s" % brief(ls[0][8][6]))
                    for g, v in (("getAvg", avg), ("getAvgErr", err)):
                        r = ev.invoke(method(prog, rec, g), [], o, values=[])
                        while term(r) and r[0] == "cast" and r[1] in FLOATS:
                            r = r[2]
                        if r != v[6]:
                            raise Mismatch("%s returns %s" % (g, brief(r)))
                        ctx.count("values_returned")
                ctx.count("timing_objects")
            except (Mismatch, Undefined) as e:
                ctx.violation(where, "%s: %s" % (label, e))
            lines |= ev.lines
    return lines


def limits(ctx, prog, where):
    """the interval given on the command line reaches the functions without a domain of their own"""
    ev, status = run(prog, {"-n", "-s", "-r", "-m", "-M", "-p"})
    if ev.patterns != {S(("s", "-p", "nonempty"))}:
        ctx.violation(where, "the pattern matched is not the one given")
    low, high = ("s", "-m"), ("s", "-M")
    for k, e in reps_in(ev.trace.v, {}).items():
        for x in e[3]:
            if x[0] == "apply" and isinstance(x[1], tuple):
                fn, ins = x[1], list(x[2:])
            elif x[0] == "applyv":
                fn, ins = x[1], [column(v, K)[0] for v in x[3]]
            else:
                continue
            single, array = "float" in fn[2], "*" in fn[2]
            a = actual(fn, single, array)
            if a is None or a[2] in ("atan2", "identity2D"):
                continue
            d = domain(a[2], single)
            for v in ins:
                c = draws(v)
                if not c:
                    continue
                ctx.count("limits_followed")
                lo, hi = [x[2] if x[0] == "cast" and x[1] in FLOATS else x for x in c[1:3]]
                if d is None and (lo, hi) != (low, high) or d and d[0] == "positive" and hi != high:
                    ctx.violation(where, "%s is timed on [%s, %s] whatever limits are given" % (fn[1], brief(lo), brief(hi)))


def check_timing(ctx):
    controls(ctx, True)
    where = "progs/vdtPerfBenchmark.cpp"
    prog = load(ctx, os.path.join(REPO, where))
    ev, names = timing(ctx, prog, where, {"-n", "-s", "-r"}, ("size", "-s"), ("size", "-r"))
    if not ctx.violations:
        ctx.need("report_lines", 100)
        _, again = timing(ctx, prog, where + " (no options)", {"-n"}, C(50000), C(150))
        if again != names:
            ctx.violation(where, "the report lists other functions without options")
        some = set(names[::17])
        ev2, _ = timing(ctx, prog, where + " (pattern)", {"-n", "-s", "-r", "-p"}, ("size", "-s"), ("size", "-r"), some)
        limits(ctx, prog, where)
        ctx.need("limits_followed", 80)
    lines = ev.lines | objects(ctx)
    if not ctx.violations:
        ctx.need("timing_objects", 8)
        ctx.need("values_returned", 32)
    ctx.coverage["source_lines_interpreted"] = len(lines)
    ctx.coverage["explanation"] = "The main program is summarised over its syntax tree (options given, none given, a pattern that some names match, interval given); the numbers of every report line are traced to the clock readings and to the calls between them and compared as rational functions; the same for the objects made from a symbolic function, with what they print and return."
    ctx.assumptions += ["the command-line class returns the argument given for each option", "at least one repetition", "sums of times below 2^64 ns"]
