"""P23, P24: statistics of bit differences and pools of random numbers."""
import persist
from bench import K, draws, lines_of
from flow import *
from persist import Mismatch, Sub, brief, load
from rational import Odd, Rational

N = persist.N
POOLS = {"randomPool1D": ("getNumbers",), "randomPool2D": ("getNumbersX", "getNumbersY"), "randomPool_old": ("getNumbers",)}
COMPARISONS = {"fcnComparison1D": 1, "fcnComparison2D": 2, "fcnComparison_old": 1}


def where(f):
    return "%s:%s" % (os.path.relpath(f["file"], REPO), f["line"])


def constructor(prog, rec):
    """the constructor that does not read a file"""
    fs = [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and len([p for p in f["params"] if "default" not in p]) > 1]
    if len(fs) != 1:
        raise Broken("%s: %d constructors" % (rec, len(fs)))
    return fs[0]


def method(prog, rec, name):
    f = persist.method(prog, rec, name)
    if not f:
        raise Broken("%s has no %s" % (rec, name))
    return f


def result(ev, f, o, values):
    v = ev.invoke(f, [], o, values=values)
    return ev.load(v) if isinstance(v, (Cell, Lv, UCell, PCell)) else v


# ---------------------------------------------------------------- random pools

def unwrapped(e):
    while e[0] == "cast" and (WIDTH.get(e[1], 0) >= 32 or e[1] in FLOATS):
        e = e[2]
    return e


def position(p, seed):
    """(engine, step per number, offset) of the draw for number k"""
    d = lin(p)
    st = [a for a in d if term(a) and a[0] == "state"]
    if len(st) != 1 or d[st[0]] != 1:
        raise Unsupported("random sequence at %s" % brief(p))
    d.pop(st[0])
    step = d.pop(K, 0)
    if step < 1 or any(a != 1 and a != N for a in d):
        raise Mismatch("number k is draw %s of the sequence" % brief(p))
    if not mentions(st[0][2], seed):
        raise Mismatch("the sequence is started from %s, not from the seed given" % brief(st[0][2]))
    if lossy(st[0][2], seed):
        raise Mismatch("the sequence is started from %s: different seeds give the same numbers" % brief(lossy(st[0][2], seed)))
    return st[0][2], step, d


def lossy(e, seed):
    """the part of a term by which different seeds become the same number, or None"""
    if not mentions(e, seed) or e == seed:
        return None
    if e[0] == "cast":
        if e[1] in WIDTH and WIDTH[e[1]] < 32 or e[1] == "float":
            return e
        return lossy(e[2], seed)
    if e[0] == "op" and len(e) == 4:
        a, b = e[2], e[3]
        if e[1] == "idiv" and isc(b) and abs(b[1]) > 1 or e[1] == "mod" and isc(b) and abs(b[1]) < 1 << 32:
            return e
        if e[1] in ("&", "|") and (isc(a) or isc(b)):
            c = (a if isc(a) else b)[1] & 0xffffffff
            if e[1] == "&" and c != 0xffffffff or e[1] == "|" and c:
                return e
        return lossy(a, seed) or lossy(b, seed)
    return None


def disjoint(a, b):
    if a[0] != b[0]:
        return True          # differently seeded
    if a[1] != b[1]:
        return False
    d = lin(("op", "-", unlin(b[2]), unlin(a[2])))
    n, c = d.get(N, 0), d.get(1, 0)
    if n == 0:
        return c % a[1] != 0
    return n >= a[1] and c >= 0 or n <= -a[1] and c <= 0


def pool(ctx, prog, rec, T, getters):
    f = constructor(prog, rec)
    two = len(getters) == 2
    if len(f["params"]) != (6 if two else 4):
        raise Broken("%s: constructor with %d parameters" % (rec, len(f["params"])))
    lo = [("s", "min" + c) for c in ("XY" if two else " ")]
    hi = [("s", "max" + c) for c in ("XY" if two else " ")]
    seed = ("s", "seed")
    if WIDTH.get(f["params"][-1]["t"].replace("const ", ""), 32) < 32:
        ctx.violation(where(f), "%s: the seed is cut to the type %s" % (rec, f["params"][-1]["t"]))
    ev, o = Ev(prog), Obj(rec)
    ev.ctor(o, f, [], lo + hi + [N, seed])
    seen = []
    try:
        for j, g in enumerate(getters):
            v = result(ev, method(prog, rec, g), o, [])
            if not isinstance(v, Vec):
                raise Unsupported("%s::%s gives %r" % (rec, g, v))
            if norm(ev.size(v)) != N:
                raise Mismatch("%s holds %s numbers" % (g, brief(ev.size(v))))
            c = ev.index(v, K)
            d = draws(c)
            if d is None:
                raise Mismatch("%s: number k is %s" % (g, brief(c)))
            inner = unwrapped(c)
            wide = re.search(r"<(.*)>", inner[1]).group(1) or "double"
            if FLOATS[wide] <= FLOATS[T]:
                raise Mismatch("%s: drawn as %s, in which the width of the interval can overflow" % (g, wide))
            if d[0] != T:
                raise Mismatch("%s: numbers of type %s" % (g, d[0]))
            if (d[1], d[2]) != (lo[j], hi[j]):
                raise Mismatch("%s: numbers between %s and %s instead of %s and %s" % (g, brief(d[1]), brief(d[2]), brief(lo[j]), brief(hi[j])))
            seen.append(position(d[3], seed))
            ctx.count("number_columns")
        if two and not disjoint(*seen):
            raise Mismatch("%s and %s repeat the same draws" % getters)
        g = persist.method(prog, rec, "getSize")
        if g and norm(unwrapped(result(ev, g, o, []))) != N:
            raise Mismatch("getSize gives %s" % brief(result(ev, g, o, [])))
    except Mismatch as e:
        ctx.violation(where(f), "%s: %s" % (rec, e))
    persist.narrow(ctx, ev, rec)
    return ev.lines


def pools(ctx):
    controls(ctx, "Pool")
    src = persist.driver(ctx)
    with open(src, "a") as f:
        for c, getters in POOLS.items():
            for t in persist.TYPES:
                f.write("%s unseeded_%s_%s(uint64_t n, uint64_t i) { %s<%s> p(%s); return p.%s()[i]; }\n" % (t, c, t, c, t, "0,0,1,1,n" if len(getters) == 2 else "0,1,n", getters[0]))
    prog = load(ctx, src)
    lines, seeds = set(), {}
    for c, getters in POOLS.items():
        for t in persist.TYPES:
            lines |= pool(ctx, prog, "%s<%s>" % (c, t), t, getters)
            ctx.count("classes")
            f = [f for f in prog.fn.values() if f["name"] == "unseeded_%s_%s" % (c, t)][0]
            v = result(Ev(prog), f, None, [("s", "n"), K])
            for s in {a[2] for a in atoms(v, lambda a: a[0] == "state")} or {("none",)}:
                seeds.setdefault(s, where(constructor(prog, "%s<%s>" % (c, t))))
            ctx.count("default_seeds")
    if len(seeds) != 1 or not isc(next(iter(seeds))):
        ctx.violation(list(seeds.values())[-1], "pools made without a seed start from %s" % ", ".join(show(s) for s in seeds))
    ctx.coverage["source_lines_interpreted"] = len(lines)
    ctx.coverage["explanation"] = "The constructors of the pools are summarised over their syntax tree for symbolic limits, size and seed; number k of every column has to be a draw from the requested interval of a wider type, and the draws of the columns have to be different ones."
    ctx.assumptions += ["std::uniform_real_distribution and std::mt19937_64 as specified by the standard"]
    if not ctx.violations:
        ctx.need("classes", 6)
        ctx.need("number_columns", 8)


# ---------------------------------------------------------------- the bit length of a difference

def bitlen(n):
    return int(n).bit_length()


class Ranges:
    """interval domain over the difference D of two bit patterns; the patterns themselves are arbitrary"""

    def __init__(self, D, lo, hi):
        self.D, self.lo, self.hi = D, lo, hi

    def form(self, e):
        """affine form, conversions kept unless the value is known to fit"""
        if isc(e):
            return {1: e[1]}
        if e[0] == "cast":
            if WIDTH.get(e[1], 0) >= 64:
                return self.form(e[2])
            r = self.of(e[2])
            if r is not None and e[1] in WIDTH and self.fits(r, e[1]) and all(isinstance(x, int) for x in r):
                return self.form(e[2])
        if e[0] == "op" and len(e) == 4 and e[1] in ("+", "-"):
            a, b = self.form(e[2]), self.form(e[3])
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + (v if e[1] == "+" else -v)
            return {k: v for k, v in r.items() if v}
        if e[0] == "op" and len(e) == 4 and e[1] == "*" and (isc(e[2]) or isc(e[3])):
            c, x = (e[2], e[3]) if isc(e[2]) else (e[3], e[2])
            return {k: v * c[1] for k, v in self.form(x).items() if v * c[1]}
        return {e: 1}

    @staticmethod
    def fits(r, t):
        w = WIDTH[t]
        lo, hi = (0, (1 << w) - 1) if t.startswith("unsigned") or t == "bool" else (-(1 << w - 1), (1 << w - 1) - 1)
        return lo <= r[0] and r[1] <= hi

    def of(self, e):
        """(lowest, highest) value or None"""
        if isc(e):
            v = e[1]
            v = v if isinstance(v, int) else int(v) if v.denominator == 1 else float(v)
            return v, v
        if e == self.D:
            return self.lo, self.hi
        if e[0] == "op" and len(e) == 4 and e[1] in ("+", "-", "*"):
            f = self.form(e)
            if len(f) == 1 and e in f:
                return self.arith(e)
            lo = hi = f.pop(1, 0)
            for a, c in f.items():
                r = self.of(a)
                if r is None:
                    return None
                p, q = sorted((self.num(c) * r[0], self.num(c) * r[1]))
                lo, hi = self.num(lo) + p, self.num(hi) + q
            return lo, hi
        if e[0] == "op" and len(e) == 4 and e[1] in ("idiv", "/"):
            return self.arith(e)
        if e[0] == "op" and len(e) == 4 and e[1] in ("<", ">", "<=", ">=", "==", "!="):
            v = self.decide(e)
            return (v[1], v[1]) if isc(v) else (0, 1)
        if e[0] == "cast":
            r = self.of(e[2])
            if r is None:
                return None
            if e[1] in WIDTH:
                if isinstance(r[0], float) and r[1] <= -1 and e[1].startswith("unsigned"):
                    raise Mismatch("a negative number %s is converted to %s" % (r[1], e[1]))
                r = int(r[0]), int(r[1])
                return r if self.fits(r, e[1]) else None
            if e[1] == "float":
                return None if r[1] > 1 << 24 else r
            return r
        if e[0] == "ite":
            c = self.decide(e[1])
            if isc(c):
                return self.of(e[2] if c[1] else e[3])
            a, b = self.of(e[2]), self.of(e[3])
            return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
        if e[0] == "call":
            return self.call(e)
        return None

    @staticmethod
    def num(x):
        return x if isinstance(x, (int, float)) else int(x) if x.denominator == 1 else float(x)

    def arith(self, e):
        a, b = self.of(e[2]), self.of(e[3])
        if a is None or b is None:
            return None
        if e[1] == "idiv":
            return (a[0] // b[0], a[1] // b[0]) if b[0] == b[1] and b[0] > 0 and a[0] >= 0 and isinstance(a[0], int) else None
        if e[1] == "/":
            if b[0] <= 0 <= b[1]:
                return None
            c = [x / y for x in a for y in b]
        elif e[1] == "*":
            c = [x * y for x in a for y in b]
        else:
            return None
        return min(c), max(c)

    def call(self, e):
        n = e[1].split("::")[-1] if isinstance(e[1], str) else ""
        if n in ("min", "max") and len(e) == 4:
            a, b = self.of(e[2]), self.of(e[3])
            f = min if n == "min" else max
            return None if a is None or b is None else (f(a[0], b[0]), f(a[1], b[1]))
        r = self.of(e[2]) if len(e) > 2 else None
        if r is None:
            return None
        lo, hi = r
        if n.startswith("log") and hi < 0 and isinstance(lo, int):
            lo, hi = lo + (1 << 64), hi + (1 << 64)      # unsigned difference the wrong way round
        if n == "abs":
            return (lo, hi) if lo >= 0 else (-hi, -lo) if hi <= 0 else (0, max(-lo, hi))
        if n in ("log2f", "logf", "log10f") and lo > 0:
            f = {"log2f": math.log2, "logf": math.log, "log10f": math.log10}[n]
            return tuple(float(struct_float(f(float(x)))) for x in (lo, hi))
        if n in ("log2", "log2l", "log", "log10") and lo > 0:
            # monotone, correctly rounded, exact at powers of two
            f = {"log2": math.log2, "log2l": math.log2, "log": math.log, "log10": math.log10}[n]
            a, b = f(float(lo)), f(float(hi))
            if n == "log2l" and isinstance(hi, int) and b == bitlen(hi) and hi < 1 << bitlen(hi):
                b = math.nextafter(b, 0)
            return a, b
        if n in ("ilogb", "logb") and lo > 0:
            return bitlen(float(lo)) - 1, bitlen(float(hi)) - 1
        if n in ("clz", "clzl", "clzll") and lo > 0 and isinstance(lo, int):
            w = 32 if n == "clz" else 64
            return (w - bitlen(hi), w - bitlen(lo)) if hi >> w == 0 else None
        if n in ("floor", "trunc"):
            return math.floor(lo), math.floor(hi)
        if n == "ceil":
            return math.ceil(lo), math.ceil(hi)
        return None

    def decide(self, c):
        if isc(c):
            return c
        if c[0] == "op" and c[1] in ("<", ">", "<=", ">=", "==", "!=") and len(c) == 4:
            r = self.of(("op", "-", c[2], c[3]))
            if r is not None:
                lo, hi = r
                t = {"<": hi < 0, ">": lo > 0, "<=": hi <= 0, ">=": lo >= 0, "==": lo == hi == 0, "!=": lo > 0 or hi < 0}[c[1]]
                f = {"<": lo >= 0, ">": hi <= 0, "<=": lo > 0, ">=": hi < 0, "==": lo > 0 or hi < 0, "!=": lo == hi == 0}[c[1]]
                if t or f:
                    return C(int(t))
        if c[0] == "op" and c[1] == "!":
            v = self.decide(c[2])
            return C(int(not v[1])) if isc(v) else c
        if c[0] == "op" and c[1] in ("&&", "||") and len(c) == 4:
            return op(c[1], self.decide(c[2]), self.decide(c[3]))
        return c


def differences(ctx, where, name, T, evaluate):
    """evaluate(a, b, ranges) is the number of differing bits of two numbers given by their bit patterns"""
    W = 64 if T == "double" else 32
    bits = lambda x: ("bits", T, uint(W // 8), x)
    B, D = ("s", "pattern"), ("s", "difference", "count")
    try:
        same = evaluate(bits(B), bits(B), Ranges(D, 1, 1))
        r = Ranges(D, 1, 1).of(same)
        if r is None or tuple(r) != (0, 0):
            raise Mismatch("%s for two identical numbers" % brief(same))
        ctx.count("bit_lengths")
        for n in range(1, W + 1):
            lo, hi = 1 << n - 1, (1 << n) - 1
            for first, second in ((op("+", B, D), B), (B, op("+", B, D))):
                rg = Ranges(D, lo, hi)
                v = evaluate(bits(first), bits(second), rg)
                r = rg.of(v)
                exact = n <= 47
                if r is None:
                    w = refuted(evaluate, bits, n, W, exact)
                    if w:
                        raise Mismatch(w)
                    for a in atoms(v, lambda a: a[0] == "bits" and a[3][0] == "cast" and a[3][1] in FLOATS):
                        raise Mismatch("the numbers are converted to %s before their bits are taken" % a[3][1])
                    raise Unsupported("%s for a difference of %d bits: %s" % (name, n, brief(v)))
                if not (tuple(r) == (n, n) or not exact and n <= r[0] and r[1] <= n + 1):
                    raise Mismatch("differences of %d bits count as %s..%s" % (n, r[0], r[1]))
            ctx.count("bit_lengths")
    except (Mismatch, Undefined) as e:
        ctx.violation(where, "%s: %s" % (name, e))


def refuted(evaluate, bits, n, W, exact):
    """a pair of constants for which the result is wrong, or None"""
    for base in (1 << n, (1 << W - 1) - 1, (1 << W - 2) - 1, 1):
        for d in {1 << n - 1, (1 << n) - 1}:
            if base + d >> W:
                continue
            rg = Ranges(("none",), 0, 0)
            for p, q in ((base + d, base), (base, base + d)):
                r = rg.of(evaluate(bits(C(p)), bits(C(q)), rg))
                if r is not None and not (tuple(r) == (n, n) or not exact and n <= r[0] and r[1] <= n + 1):
                    return "bit patterns %#x and %#x, %#x apart, count as %s bits" % (p, q, d, r[0])
    return None


# ---------------------------------------------------------------- statistics

X = ("bit difference",)


class Moments(Rational):
    """closed forms in the sums of x and x^2 over all N differences"""

    def __init__(self, element):
        Rational.__init__(self, self.plain, self.two)
        self.element = element

    def plain(self, e):
        while e[0] == "cast" and (e[1] in ("double", "long double") or WIDTH.get(e[1], 0) >= 64 or WIDTH.get(e[1], 0) >= 16 and e[2] == X or WIDTH.get(e[1], 0) >= 32 and lin(e[2]).keys() <= {N, 1}):
            e = e[2]
        if e[0] == "op" and e[1] == "*32" and self.plain(e[2]) == self.plain(e[3]) == X:
            return ("op", "*", X, X)           # differences are small
        if e[0] == "call" and e[1] in ("fmax", "max") and C(0) in (self.plain(e[2]), self.plain(e[3])):
            return self.plain(e[3] if self.plain(e[2]) == C(0) else e[2])
        return e

    def narrow(self, e):
        """a difference in whatever type it is kept"""
        while e[0] == "cast" and WIDTH.get(e[1], 0) >= 16:
            e = e[2]
        return e

    def two(self, c):
        """at least two values"""
        if c[0] == "op" and len(c) == 4 and c[1] in ("<", ">", "<=", ">=", "==", "!="):
            d = lin(("op", "-", self.plain(c[2]), self.plain(c[3])))
            a, b = d.get(N, 0), d.get(1, 0)
            if set(d) <= {1, N} and a:
                lo = 2 * a + b
                if a < 0:
                    return self.two(("op", {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[c[1]], op("-", C(0), c[2]), op("-", C(0), c[3])))
                if lo > 0:
                    return c[1] in (">", ">=", "!=")
                if lo == 0 and c[1] in (">=", "<"):
                    return c[1] == ">="
        return None

    def frac(self, e):
        e = self.plain(e)
        if e[0] != "sum":
            return Rational.frac(self, e)
        _, n, k, body = e
        if norm(n) != N:
            raise Mismatch("a sum over %s of the %s differences" % (brief(n), brief(N)))
        num, den = self.frac(subst(body, {self.element(k): X, self.narrow(self.element(k)): X}))
        if any(mentions(m, X) for m in den):
            raise Unsupported("sum of %s" % brief(body))
        r = {}
        for m, c in num.items():
            if mentions(m, k):
                raise Mismatch("a sum of %s" % brief(body))
            p = dict(m).get(X, 0)
            t = (("total", p), 1) if p else (N, 1)
            r = self.add(r, self.mul({tuple(x for x in m if x[0] != X): c}, {(t,): Fraction(1)}))
        return r, den

    def extreme(self, e, which):
        """e is the least/greatest of all differences"""
        e = self.narrow(e)
        if e[0] == "call" and e[1] == which and len(e) == 4:
            a, b = self.narrow(e[2]), self.narrow(e[3])
            if isc(a):
                a, b = b, a
            if isc(b):
                return (b[1] >= 65 if which == "min" else b[1] <= 0) and self.extreme(a, which)
            if any(x == self.narrow(self.element(C(0))) for x in (a, b)):
                return self.extreme(b if a == self.narrow(self.element(C(0))) else a, which)
        if e[0] == "call" and e[1] in ("min", "max"):
            raise Unsupported("extreme %s" % brief(e))
        if e[0] != which or e[2][0] != "all":
            return False
        start, (_, n, k, v) = self.narrow(e[1]), e[2]
        v = self.narrow(v)
        at = lambda i: self.narrow(self.element(i))
        if v == at(k) and norm(n) == N:
            if start == ("none",) or start == at(C(0)):
                return True
            return isc(start) and (start[1] >= 65 if which == "min" else start[1] <= 0)
        if v == at(norm(op("+", k, C(1)))) and norm(n) == norm(op("-", N, C(1))):
            return start == at(C(0))
        return False


def comparison(ctx, prog, rec, T, inputs):
    f = constructor(prog, rec)
    names = (["input"] if inputs == 1 else ["input1", "input2"]) + ["out1", "out2"]
    if len(f["params"]) != 1 + len(names):
        raise Broken("%s: constructor with %d parameters" % (rec, len(f["params"])))
    vecs = lambda: [Vec((("sym", n, N),), "std::vector<%s>" % T, n) for n in names]
    ev, o = Ev(prog), Obj(rec)
    ev.hook = lambda fn, e: (lambda ev: ev.outside(("fn", fn["q"], fn["t"]), [ev.ev(a) for a in e["args"]], e)) if fn["name"] == "diffbit" else None
    ev.ctor(o, f, [], [S(("s", "name"))] + vecs())
    persist.narrow(ctx, ev, rec)
    try:
        # the differences themselves, from the file
        ev.streams = []
        wf = method(prog, rec, "writeFile")
        ev.invoke(wf, [], o, values=[S(("s", "output file"))])
        files = [s for s in ev.streams if s.kind == "out"]
        if len(files) != 1:
            raise Unsupported("%s: %d output streams" % (rec, len(files)))
        column = file_columns(ctx, rec, T, files[0].ev.v, names)
        element = lambda i: subst(column, {K: norm(i)})
        bit_difference(ctx, prog, rec, T, f, column, names)
        m = Moments(element)
        mean = m.frac(op("/", ("sum", N, K, column), N))
        var = m.frac(op("/", op("-", ("sum", N, K, op("*", column, column)), op("/", op("*", ("sum", N, K, column), ("sum", N, K, column)), N)), op("-", N, C(1))))

        def judge(what, e, kind):
            if what in ("max", "min"):
                if not m.extreme(e, what):
                    raise Mismatch("%s prints %s as the %simum difference" % (kind, brief(e), what))
            elif what == "mean":
                if not m.equal(m.frac(e), mean):
                    raise Mismatch("%s gives %s as the mean difference" % (kind, brief(e)))
            else:
                try:
                    ok = m.equal(m.squared(e), var)
                except Odd:
                    ok = False
                if not ok:
                    raise Mismatch("%s gives %s as the RMS" % (kind, brief(e)))
            ctx.count("statistics_checked")
        # on the screen
        for tabular in (FALSE, TRUE):
            mk = len(ev.journal)
            ev.globals = {}
            ev.invoke(method(prog, rec, "printStats"), [], o, values=[tabular])
            out = next(c.v for c in ev.globals.values() if isinstance(c.v, Stream))
            written = out.ev.v
            ls = [l for l in lines_of(written) if l]
            ev.undo(mk)
            if tabular == TRUE:
                nums = [x for l in ls for x in l if not isinstance(x, str)]
                if len(nums) != 4:
                    raise Mismatch("the table line has %d numbers" % len(nums))
                apart(ctx, written)
                for w, x in zip(("max", "min", "mean", "rms"), nums):
                    judge(w, x[6], "the table line")
            else:
                got = set()
                for l in ls:
                    w = l[0].lower() if isinstance(l[0], str) else ""
                    if w in ("max", "min", "mean", "rms"):
                        nums = [x for x in l if not isinstance(x, str)]
                        if len(nums) != 1:
                            raise Mismatch("line %s" % w)
                        judge(w, nums[0][6], "the list")
                        got.add(w)
                if got != {"max", "min", "mean", "rms"}:
                    raise Mismatch("only %s are printed" % ", ".join(sorted(got)))
        # in the file
        head = stats_line(files[0].ev.v)
        for w, x in zip(("max", "min", "mean", "rms"), head):
            v = x[6]
            if w in ("mean", "rms"):
                v = pun(v, "unsigned long", "double")
            judge(w, v, "the file")
        # hasDifference
        h = method(prog, rec, "hasDifference")
        v = ev.known(result(ev, h, o, []))
        v = truth(v)
        pos = v[0] == "op" and len(v) == 4 and (v[1] in (">", "!=") and v[3] == C(0) and m.extreme(v[2], "max") or v[1] == "<" and v[2] == C(0) and m.extreme(v[3], "max") or v[1] == ">=" and v[3] == C(1) and m.extreme(v[2], "max"))
        if not pos:
            raise Mismatch("hasDifference is %s" % brief(v))
        ctx.count("has_difference")
    except Mismatch as e:
        ctx.violation(where(f), "%s: %s" % (rec, e))
    return ev.lines


def longest(e):
    """characters a statistic can take"""
    if e[1] == "int":
        return 3
    if not isc(e[4]):
        raise Unsupported("precision %s" % brief(e[4]))
    return 3 + e[4][1] if "fixed" in e[5] else 7 + e[4][1]


def apart(ctx, events):
    """the columns of a table line do not touch"""
    open_, n = False, 0
    for e in events:
        if e[0] == "lit":
            if e[1]:
                open_ = not e[1][-1].isspace()
            continue
        pad = False
        if e[0] == "num":
            if not isc(e[7]):
                raise Unsupported("field width %s" % brief(e[7]))
            pad = e[7][1] > longest(e) and e[8] == C(32)
            n += 1
            if open_ and not (pad and "left" not in e[5]):
                raise Mismatch("column %d of the table line (%s) can touch the column before it" % (n, brief(e[6])))
        open_ = not (pad and "left" in e[5])
    ctx.count("table_columns", n)


def stats_line(events):
    """the numbers between the header and the records"""
    out = []
    for e in events:
        if e[0] == "rep":
            break
        if e[0] == "num":
            out.append(e)
    if len(out) != 4:
        raise Mismatch("%d numbers precede the records" % len(out))
    return out


def file_columns(ctx, rec, T, events, names):
    reps = [e for e in events if e[0] == "rep"]
    if len(reps) != 1 or norm(reps[0][1]) != N:
        raise Mismatch("the file does not hold one record per input")
    vals = []
    for e in reps[0][3]:
        if e[0] == "num":
            v = e[6]
            vals.append((e[1], subst(v, {reps[0][2]: K})))
    n = len(names)
    if len(vals) != n + 1 + (n - 2):
        raise Mismatch("records of %d numbers" % len(vals))
    W = 8 if T == "double" else 4
    for name, (kind, v) in zip(names, vals):
        if pun(v, uint(W), T) != ("elem", name, K):
            raise Mismatch("column %s of the file holds %s" % (name, brief(v)))
        ctx.count("columns_checked")
    for name, (kind, v) in zip(names, vals[n + 1:]):
        if kind != "float" or v != ("elem", name, K):
            raise Mismatch("the decimal column of the file holds %s" % brief(v))
        ctx.count("columns_checked")
    if vals[n][0] != "int":
        raise Mismatch("the differences are written as %s" % vals[n][0])
    return vals[n][1]


def bit_difference(ctx, prog, rec, T, f, column, names):
    a, b = ("elem", "out1", K), ("elem", "out2", K)
    c = column
    while c[0] == "cast" and WIDTH.get(c[1], 0) >= 16:
        c = c[2]
    if c[0] == "call" and c[1][0] == "fn" and c[1][1].endswith("diffbit") and c[2:] in ((a, b), (b, a)):
        ctx.count("columns_from_diffbit")       # looked at by itself
        return
    if c[0] == "call" and c[1][0] == "fn":
        raise Mismatch("the difference column is %s" % brief(c))

    def evaluate(p, q, rg):
        return subst(column, {a: p, b: q})
    differences(ctx, where(f), rec + " difference column", T, evaluate)


def diffbits(ctx, prog):
    n = 0
    for T in persist.TYPES:
        for g in [g for g in prog.fn.values() if g["name"] == "diffbit" and g.get("body") and not g.get("dependent") and re.sub(r"^const ", "", g["params"][0]["t"]) == T]:
            def evaluate(p, q, rg):
                ev = Ev(prog)
                ev.decide = rg.decide
                return result(ev, g, None, [p, q])
            differences(ctx, where(g), "%s(%s)" % (g["name"], T), T, evaluate)
            n += 1
    return n


def digit(p):
    return p[1] if p[0] == "char" and len(p) == 2 else p


def pattern(ctx, prog):
    """getbsasstr: sign, exponent and mantissa bits in order"""
    for T in persist.TYPES:
        for g in [g for g in prog.fn.values() if g["name"] == "getbsasstr" and g.get("body") and not g.get("dependent") and re.sub(r"^const ", "", g["params"][0]["t"]) == T]:
            ev = Ev(prog)
            try:
                v = result(ev, g, None, [("s", "x")])
            except Undefined as e:
                ctx.violation(where(g), "getbsasstr(%s): %s" % (T, e))
                continue
            W, x = (64, 11) if T == "double" else (32, 8)
            got = []
            for p in v[1]:
                if isinstance(p, str):
                    got += list(p)
                elif p[0] == "rep":
                    if not isc(p[1]):
                        raise Unsupported("bit pattern text with %s digits" % brief(p[1]))
                    for j in range(min(p[1][1], 100)):
                        got += [digit(q) for q in subst(list(p[3]), {p[2]: C(j)})]
                else:
                    got.append(digit(p))
            want = []
            s = None
            for c in got:
                if term(c) and c[0] == "char":
                    s = s or c[1]
            bs = None
            if s is not None:
                bs = [a for a in atoms(s, lambda a: a[0] == "call" and a[1] == "bitset")]
            num = pun(("s", "x"), T, uint(W // 8))
            if not bs:
                raise Unsupported("bit pattern text %s" % brief(v))
            if lin(bs[0][2]) != lin(num):
                ctx.violation(where(g), "getbsasstr(%s): the digits are those of %s" % (T, brief(bs[0][2])))
                continue
            idx = [("char", s, C(i)) for i in range(64 - W, 64)]
            want = idx[:1] + [" "] + idx[1:1 + x] + [" "] + idx[1 + x:]
            if got != want:
                ctx.violation(where(g), "getbsasstr(%s): the bits are not given as sign, %d exponent and %d mantissa digits in order" % (T, x, W - 1 - x))
            ctx.count("bit_texts")


def check(ctx):
    controls(ctx, "Comparison")
    src = persist.driver(ctx)
    with open(src, "a") as f:
        for t in persist.TYPES:
            f.write("template uint16_t vdth::diffbit<%s>(const %s, const %s);\ntemplate const std::string vdth::getbsasstr<%s>(const %s);\n" % (t, t, t, t, t))
            for c in COMPARISONS:
                f.write("bool used(%s<%s> &c) { return c.hasDifference(); }\n" % (c, t))
    prog = load(ctx, src)
    lines = set()
    if diffbits(ctx, prog) != 2:
        raise Broken("diffbit not found")
    for c, inputs in COMPARISONS.items():
        for t in persist.TYPES:
            lines |= comparison(ctx, prog, "%s<%s>" % (c, t), t, inputs)
            ctx.count("classes")
    pattern(ctx, prog)
    ctx.coverage["source_lines_interpreted"] = len(lines)
    ctx.coverage["explanation"] = "The constructors, printStats and writeFile of the comparison classes are summarised over their syntax tree; mean and RMS are compared with the moments of the difference column as rational functions, the extremes as reductions, and the difference of two numbers is evaluated in an interval domain for every length of the difference of their bit patterns."
    ctx.assumptions += ["at least two values", "log2 of the C library monotone, correctly rounded and exact at powers of two"]
    if not ctx.violations:
        ctx.need("classes", 6)
        ctx.need("bit_lengths", 98)
        ctx.need("statistics_checked", 72)
        ctx.need("columns_checked", 28)
        ctx.need("bit_texts", 2)


def controls(ctx, kind):
    src = os.path.join(VERIF, "selftest", "stats.cc")
    prog = load(ctx, src)
    n = 0
    for r in sorted(prog.rec):
        if not re.match("(good|bad)" + kind, r):
            continue
        sub = Sub()
        sub.count = lambda *a: None
        try:
            if kind == "Pool":
                pool(sub, prog, r, "double", ("getNumbersX", "getNumbersY") if "2" in r else ("getNumbers",))
            else:
                comparison(sub, prog, r, "double", 1)
        except Unsupported as e:
            raise Broken("control %s: %s" % (r, e))
        if bool(sub.violations) != r.startswith("bad"):
            raise Broken("control %s: %s" % (r, sub.violations or "not noticed"))
        n += 1
    if kind == "Comparison":
        for g in sorted((g for g in prog.fn.values() if re.match("(good|bad)Bits", g["name"])), key=lambda g: g["name"]):
            sub = Sub()

            def evaluate(p, q, rg):
                ev = Ev(prog)
                ev.decide = rg.decide
                return result(ev, g, None, [p, q])
            differences(sub, where(g), g["name"], "double", evaluate)
            if bool(sub.violations) != g["name"].startswith("bad"):
                raise Broken("control %s: %s" % (g["name"], sub.violations or "not noticed"))
            n += 1
    ctx.coverage["controls_confirmed"] = n
    ctx.need("controls_confirmed", 8 if kind == "Pool" else 14)
