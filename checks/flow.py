"""Dataflow over the resolved syntax tree: what a function writes to and reads
from streams, vectors and fields, with loops summarised in closed form.

Values are terms: ('c', number), ('s', name), ('op', sym, a, b), ('ite', c, a, b),
('elem', vector name, index), ('size', vector name), ('tok', stream, where), ...
A loop over a symbolic range is analysed once for a symbolic iteration number k;
every location it changes has to be an induction variable, a reduction, an
append or a write-before-read temporary.  Anything else is Unsupported (no
answer), never silently accepted."""
import itertools, json, math, os, re
from fractions import Fraction
from common import *


class Unsupported(Broken):
    pass


class Undefined(Unsupported):
    """the code has no defined value here"""


# ------------------------------------------------------------------ terms

def C(n):
    return ("c", n)


TRUE, FALSE = C(1), C(0)


def isc(e):
    return isinstance(e, tuple) and len(e) == 2 and e[0] == "c"


def term(e):
    return isinstance(e, tuple) and e and isinstance(e[0], str)


WIDTH = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32,
         "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "__int128": 128, "unsigned __int128": 128}
FLOATS = {"float": 24, "double": 53, "long double": 64}
OVERLOADED = {"exp", "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "tanh", "sqrt"}
NUMBERS = set(FLOATS) | set(WIDTH)


def lin(e):
    """affine form {atom: coefficient, 1: constant}; casts to 32 bits or more are transparent (sizes below 2^32)"""
    if isc(e):
        return {1: e[1]}
    if e[0] == "cast" and WIDTH.get(e[1], 0) >= 32:
        return lin(e[2])
    if e[0] == "op" and e[1] in "+-" and len(e) == 4:
        a, b = lin(e[2]), lin(e[3])
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if e[1] == "+" else -v)
        return {k: v for k, v in r.items() if v != 0}
    if e[0] == "op" and e[1] in ("*", "*32"):
        a, b = lin(e[2]), lin(e[3])
        for x, y in ((a, b), (b, a)):
            if set(x) <= {1}:
                c = x.get(1, 0)
                return {k: v * c for k, v in y.items() if v * c != 0}
    return {e: 1}


def unlin(d):
    r = None
    for k in sorted((k for k in d if k != 1), key=repr):
        t = k if d[k] == 1 else ("op", "*", C(d[k]), k)
        r = t if r is None else ("op", "+", r, t)
    c = d.get(1, 0)
    if r is None:
        return C(c)
    return r if c == 0 else ("op", "+", r, C(c))


def norm(e):
    """canonical form of an integer index term"""
    return unlin(lin(e))


def op(s, *a):
    if len(a) == 1:
        x = a[0]
        if s == "!":
            if isc(x):
                return C(int(not x[1]))
            if x[0] == "op" and x[1] == "!":
                return x[2]
            neg = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
            if x[0] == "op" and x[1] in neg:
                return ("op", neg[x[1]], x[2], x[3])
        if s == "-":
            return C(-x[1]) if isc(x) else op("*", C(-1), x)
        if s == "+":
            return x
        if s == "~" and isc(x):
            return C(~x[1])
        return ("op", s, x)
    x, y = a
    if isc(x) and isc(y):
        p, q = x[1], y[1]
        try:
            if s == "+": return C(p + q)
            if s == "-": return C(p - q)
            if s == "*": return C(p * q)
            if s == "*32": return C((p * q) & 0xffffffff)
            if s == "/": return C(Fraction(p) / q)
            if s == "idiv": return C(int(p // q) if (p >= 0) == (q > 0) else -int(-p // q))
            if s == "mod": return C(p % q)
            if s == "<": return C(int(p < q))
            if s == ">": return C(int(p > q))
            if s == "<=": return C(int(p <= q))
            if s == ">=": return C(int(p >= q))
            if s == "==": return C(int(p == q))
            if s == "!=": return C(int(p != q))
            if s == "&&": return C(int(bool(p) and bool(q)))
            if s == "||": return C(int(bool(p) or bool(q)))
            if s == "<<": return C(p << q)
            if s == ">>": return C(p >> q)
            if s == "&": return C(p & q)
            if s == "|": return C(p | q)
            if s == "^": return C(p ^ q)
        except (TypeError, ZeroDivisionError):
            pass
    if s == "&&":
        if isc(x): return y if x[1] else FALSE
        if isc(y): return x if y[1] else FALSE
        if x == y: return x
    if s == "||":
        if isc(x): return TRUE if x[1] else y
        if isc(y): return TRUE if y[1] else x
        if x == y: return x
    if s == ">>" and isc(y):
        return op("idiv", x, C(1 << y[1]))
    if s == "<<" and isc(y):
        return op("*", x, C(1 << y[1]))
    if s == "&" and isc(y) and y[1] >= 0 and (y[1] & (y[1] + 1)) == 0 and y[1] < 256:
        return op("mod", x, C(y[1] + 1))
    if s == "&" and isc(x):
        return op("&", y, x)
    if s in ("idiv", "mod") and isc(y) and y[1] > 0:
        m = y[1]
        if m == 1:
            return x if s == "idiv" else C(0)
        l = lin(x)
        hi = {k: v for k, v in l.items() if k != 1 and v % m == 0}
        lo = {k: v for k, v in l.items() if k != 1 and v % m != 0}
        if not lo and hi:
            c = l.get(1, 0)
            if s == "mod":
                return C(c % m)
            r = {k: v // m for k, v in hi.items()}
            r[1] = c // m
            return unlin(r)
    if s in ("+", "-") and isc(y) and y[1] == 0:
        return x
    if s == "+" and isc(x) and x[1] == 0:
        return y
    if s in ("*", "*32"):
        for u, v in ((x, y), (y, x)):
            if isc(u) and u[1] == 1: return v
            if isc(u) and u[1] == 0: return C(0)
    if s == "-" and x == y:
        return C(0)
    if s in ("<", ">", "<=", ">=", "==", "!="):
        d = lin(("op", "-", x, y))
        if set(d) <= {1}:
            return op(s, C(d.get(1, 0)), C(0))
        if all(nonneg(k) for k in d if k != 1):
            # sizes are at least one, counters at least zero
            lo = d.get(1, 0) + sum(v * atleast(k) for k, v in d.items() if k != 1) if all(v > 0 for k, v in d.items() if k != 1) else None
            hi = d.get(1, 0) + sum(v * atleast(k) for k, v in d.items() if k != 1) if all(v < 0 for k, v in d.items() if k != 1) else None
            if lo is not None and lo > 0:
                return {"<": FALSE, "<=": FALSE, ">": TRUE, ">=": TRUE, "==": FALSE, "!=": TRUE}[s]
            if lo is not None and lo == 0 and s in (">=", "<"):
                return TRUE if s == ">=" else FALSE
            if hi is not None and hi < 0:
                return {"<": TRUE, "<=": TRUE, ">": FALSE, ">=": FALSE, "==": FALSE, "!=": TRUE}[s]
            if hi is not None and hi == 0 and s in ("<=", ">"):
                return TRUE if s == "<=" else FALSE
    return ("op", s, x, y)


def nonneg(k):
    return term(k) and (k[0] in ("size", "k", "mod") or k[0] == "s" and k[-1] in ("count",) or k[:2] == ("call", "strlen") or k[0] == "op" and k[1] in ("mod", "idiv") and all(nonneg(a) or isc(a) and a[1] >= 0 for a in lin(k[2]) if a != 1))


def atleast(k):
    return 1 if k[0] == "size" or k[0] == "s" or k[:2] == ("call", "strlen") and filled(k[2]) else 0


def filled(s):
    return any(isinstance(p, str) or p[-1] == "nonempty" for p in s[1])


def ite(c, a, b):
    if isc(c):
        return a if c[1] else b
    if a == b:
        return a
    if c[0] == "op" and c[1] == "!":
        return ite(c[2], b, a)
    return ("ite", c, a, b)


def truth(e):
    """a choice between the constants 0 and 1 as the condition it stands for"""
    while term(e) and e[0] == "cast" and e[1] in WIDTH:
        e = e[2]
    if e[0] == "ite" and isc(e[2]) and isc(e[3]) and bool(e[2][1]) != bool(e[3][1]):
        return truth(e[1]) if e[2][1] else op("!", truth(e[1]))
    if e[0] == "op" and len(e) == 4 and e[1] in ("==", "!=") and isc(e[3]) and e[3][1] in (0, 1) and truth(e[2])[0] == "op" and truth(e[2])[1] in LOGIC:
        c = truth(e[2])
        return c if (e[1] == "==") == bool(e[3][1]) else op("!", c)
    return e


LOGIC = {"<", ">", "<=", ">=", "==", "!=", "&&", "||", "!"}


def cast(t, e):
    if not term(e):
        return e
    if isc(e):
        v = e[1]
        if t in WIDTH:
            if isinstance(v, Fraction):
                v = int(v)
            w = WIDTH[t]
            if t == "bool":
                return C(int(v != 0))
            v &= (1 << w) - 1
            if not t.startswith("unsigned") and v >> (w - 1):
                v -= 1 << w
            return C(v)
        if t in FLOATS:
            return C(v) if t != "float" or Fraction(v) == Fraction(struct_float(v)) else C(struct_float(v))
        return e
    return ("cast", t, e)


def bare(t):
    return re.sub(r"^const ", "", t).strip("& ")


def signature(t):
    """(parameter types, result type) of a function type"""
    m = re.match(r"([\w ]+?) ?\(([\w ,*&]*)\)", t)
    if not m:
        return None, None
    return [bare(x.strip()) for x in m.group(2).split(",")] if m.group(2) not in ("", "void") else [], m.group(1)


def struct_float(v):
    import struct
    try:
        return Fraction(struct.unpack("f", struct.pack("f", float(v)))[0])
    except OverflowError:
        return v


def rebuild(e):
    if e[0] == "op":
        return op(e[1], *e[2:])
    if e[0] == "ite":
        return ite(*e[1:])
    if e[0] == "cast":
        return cast(e[1], e[2])
    if e[0] == "elem":
        return ("elem", e[1], norm(e[2]))
    if e[0] == "bits":
        return pun(e[3], e[2], e[1])
    return e


def subst(e, m):
    """replace atoms of a term (or of nested lists of terms)"""
    if not isinstance(e, (tuple, list)):
        return e
    if isinstance(e, tuple):
        if e in m:
            return m[e]
        r = tuple(subst(x, m) for x in e)
        return rebuild(r) if r and isinstance(r[0], str) and r != e else r
    return [subst(x, m) for x in e]


def atoms(e, pred, out=None):
    out = [] if out is None else out
    if isinstance(e, (tuple, list)):
        if isinstance(e, tuple) and e and isinstance(e[0], str) and pred(e):
            out.append(e)
        for x in e:
            atoms(x, pred, out)
    return out


def mentions(e, a):
    if e == a:
        return True
    return isinstance(e, (tuple, list)) and any(mentions(x, a) for x in e)


BYTES = {"float": 4, "double": 8, "long double": 16}


def bytesof(t):
    t = re.sub(r"^const ", "", t)
    m = re.match(r"(.*?)\[(\d+)\]$", t)
    if m:
        return bytesof(m.group(1).strip()) * int(m.group(2))
    if t in WIDTH:
        return max(1, WIDTH[t] // 8)
    if t in BYTES:
        return BYTES[t]
    raise Unsupported("size of %s" % t)


def uint(n):
    return {1: "unsigned char", 2: "unsigned short", 4: "unsigned int", 8: "unsigned long"}[n]


def pun(v, src, dst):
    """the bytes of v, a value of type src, read as type dst of the same size"""
    src, dst = re.sub(r"^const ", "", src), re.sub(r"^const ", "", dst)
    if src == dst:
        return v
    if src in WIDTH and dst in WIDTH:
        return v if dst == uint(bytesof(dst)) else cast(dst, v)
    if src in WIDTH:
        while v[0] == "cast" and WIDTH.get(v[1], 0) >= WIDTH[src]:
            v = v[2]
        if v[0] == "bits" and v[2] == dst:
            return v[3]
        return ("bits", dst, uint(bytesof(src)), v)
    if v[0] == "bits" and v[1] == src and v[2] in WIDTH:
        return v[3]
    return ("bits", uint(bytesof(dst)), src, v)


# ------------------------------------------------------------------ storage

class Cell:
    __slots__ = ("v", "t", "name")

    def __init__(self, v=None, t="", name=""):
        self.v, self.t, self.name = v, t, name


class Obj:
    def __init__(self, rec):
        self.rec, self.f = rec, {}

    def cell(self, n):
        if n not in self.f:
            self.f[n] = Cell(("undef", n), "", n)
        return self.f[n]


class Vec:
    """vector, C array or string buffer; contents are an immutable tuple of segments
    ('sym', name) | ('one', value) | ('rep', count, k, (segments of one iteration)) | ('if', c, segs, segs)
    | ('until', loop, k, segs) | ('raw', count)"""

    def __init__(self, segs=(), et="", name=""):
        self.c, self.et, self.name = Cell(tuple(segs), "vec", name), et, name


class Stream:
    def __init__(self, kind, sid, target=None):
        self.kind, self.sid, self.target = kind, sid, target
        self.ev = Cell((), "stream", sid)
        self.base = Cell(C(10), "", "base")
        self.prec = Cell(C(6), "", "precision")
        self.flags = Cell(frozenset(), "", "flags")
        self.width = Cell(C(0), "", "width")
        self.fill = Cell(C(32), "", "fill")
        self.n = 0
        self.failed = False


class Fn:
    def __init__(self, ref, this=None):
        self.ref, self.this = ref, this


class Lambda:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class Tup:
    def __init__(self, items):
        self.items = items


class Format:
    """what ios_base::flags returns"""

    def __init__(self, base, flags):
        self.base, self.flags = base, flags


class Engine:
    def __init__(self, seed, sid):
        self.seed, self.sid = seed, sid
        self.st = Cell(("state", sid, seed, 0), "", "engine")


class Dist:
    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class Bind:
    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class Ptr:
    """pointer or iterator: vector and index, or the cell pointed to"""

    def __init__(self, vec, idx, cell=None):
        self.vec, self.idx, self.cell = vec, idx, cell


def S(*parts):
    """string value"""
    out = []
    for p in parts:
        if isinstance(p, str):
            if out and isinstance(out[-1], str):
                out[-1] += p
            elif p:
                out.append(p)
        else:
            out.append(p)
    return ("str", tuple(out))


def text(s):
    """concrete text of a string value or None"""
    if isinstance(s, tuple) and s and s[0] == "str" and all(isinstance(p, str) for p in s[1]):
        return "".join(s[1])
    return None


def event(p):
    """output of a part of a string value"""
    if isinstance(p, str):
        return ("lit", p)
    if p[0] == "rep":
        return p[:3] + (tuple(event(q) for q in p[3]),) + p[4:]
    if p[0] == "if":
        return p[:2] + tuple(tuple(event(q) for q in r) for r in p[2:])
    if p[0] in ("num", "lit", "sym", "rdbuf") or p[0] == "char" and len(p) == 2:
        return p
    return ("sym", p)


class UCell:
    """typed view of the bytes of a union"""

    def __init__(self, cell, off, t):
        self.cell, self.off, self.t = cell, off, t


class PCell:
    """the bytes of a variable seen as another type"""

    def __init__(self, cell, src, t):
        self.cell, self.src, self.t = cell, src, t


class Lv:
    """element of a vector as an lvalue"""

    def __init__(self, vec, idx):
        self.vec, self.idx = vec, idx


# ------------------------------------------------------------------ program

class Program:
    def __init__(self, dump):
        self.fn, self.rec = {}, {}
        for f in dump["functions"]:
            if "body" in f or f.get("inits"):
                self.fn[f["id"]] = f
        for r in dump["records"]:
            self.rec[r["rec"]] = r
        self.all = [f for f in dump["functions"] if not f.get("dependent")]

    def find(self, diag, pred=None):
        r = [f for f in self.fn.values() if f["diag"] == diag and not f.get("dependent") and (not pred or pred(f))]
        return r


ASSERTS = {"__assert_fail", "__assert_perror_fail", "abort", "std::abort", "exit", "std::exit", "std::terminate"}
IOS_FLAGS = {"fixed", "scientific", "hexfloat", "defaultfloat", "left", "right", "internal", "showbase", "noshowbase", "showpoint", "noshowpoint",
             "uppercase", "nouppercase", "boolalpha", "noboolalpha", "skipws", "noskipws", "showpos", "noshowpos"}


class Ev:
    def __init__(self, prog, lines=None):
        self.p = prog
        self.journal = []
        self.fresh = itertools.count(1)
        self.lines = set() if lines is None else lines
        self.depth = 0
        self.env = {}
        self.this = None
        self.rettype = ""
        self.statics = {}
        self.assume = []
        self.loop = ()            # enclosing symbolic loops (innermost last)
        self.calls = set()
        self.globals = {}
        self.deep = 0
        self.reading = 0          # inside a loop whose end may depend on a read
        self.probe = 0
        self.lenient = 0            # only finding out which locations a loop changes
        self.narrow = []
        self.later = {}
        self.renewed = set()
        self.okmode = None        # within a reading loop: do the reads succeed
        self.hook = None          # (callee, object, arguments) -> value, or None to analyse the body
        self.streams = []
        self.emptied = []
        self.decide = None        # (condition) -> condition, constant if another domain settles it
        self.trace = None         # sequence of opaque calls and clock readings, if wanted

    # --- state with undo -------------------------------------------------
    def set(self, cell, v):
        self.journal.append((cell, cell.v))
        cell.v = v

    def undo(self, mark):
        while len(self.journal) > mark:
            c, v = self.journal.pop()
            c.v = v

    def changed(self, mark):
        seen = {}
        for c, v in self.journal[mark:]:
            if id(c) not in seen:
                seen[id(c)] = (c, v)
        return seen

    def bad(self, node, why):
        raise Unsupported("%s:%s: %s" % (node.get("f", "?") if isinstance(node, dict) else "?", node.get("l", "?") if isinstance(node, dict) else "?", why))

    # --- merging two branch outcomes --------------------------------------
    def merge(self, c, old, a, b):
        if a is b or self.same(a, b):
            return a
        if isinstance(old, tuple) and not term(old):
            n = len(old)
            if any(isinstance(w, tuple) and w and w[0] == "w" for w in a + b):
                if [w[:4] for w in a] == [w[:4] for w in b]:
                    return tuple(x[:4] + (self.merge(c, None, x[4], y[4]),) for x, y in zip(a, b))
                return ()       # unreadable from here on
            if a[:n] == old and b[:n] == old:
                return old + (("if", c, a[n:], b[n:]),)
            if len(a) == len(b) and all(x[0] == y[0] == "one" for x, y in zip(a, b)):
                return tuple(("one", self.merge(c, None, x[1], y[1])) for x, y in zip(a, b))
            raise Unsupported("contents rewritten differently in two branches")
        if term(a) and term(b):
            return ite(c, a, b)
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a & b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.vec is b.vec and a.vec is not None:
            return Ptr(a.vec, ite(c, a.idx, b.idx))
        return Choice(c, a, b)

    def same(self, a, b):
        return a is b or (isinstance(a, (tuple, frozenset)) and isinstance(b, (tuple, frozenset)) and a == b)

    def branch(self, c, f, g):
        """run f under c and g under not c, join the states; returns both results"""
        c0 = self.known(c)
        if isc(c0):
            return (f(), None) if c0[1] else (None, g())
        m = len(self.journal)
        self.assume.append(c)
        ra = f()
        self.assume.pop()
        A = {k: (x, x.v) for k, (x, _) in self.changed(m).items()}
        oldA = self.changed(m)
        self.undo(m)
        self.assume.append(op("!", c))
        rb = g()
        self.assume.pop()
        B = {k: (x, x.v) for k, (x, _) in self.changed(m).items()}
        self.undo(m)
        for k in list(A) + [k for k in B if k not in A]:
            cell = (A.get(k) or B.get(k))[0]
            va = A[k][1] if k in A else cell.v
            vb = B[k][1] if k in B else cell.v
            self.set(cell, self.merge(c, cell.v, va, vb))
        return ra, rb

    def known(self, c):
        if isc(c):
            return c
        for a in self.assume:
            if a == c:
                return TRUE
            if a == op("!", c):
                return FALSE
        return self.decide(c) if self.decide else c

    # --- statements --------------------------------------------------------
    def run(self, s):
        """one statement -> status None | ('ret', v) | ('brk',) | ('cnt',) | ('mix', c, s1, s2)"""
        return self.seq([s])

    def exits(self, s):
        if isinstance(s, dict):
            if s.get("k") in ("return", "break", "continue"):
                return True
            if s.get("k") in ("lambda",):
                return False
            return any(self.exits(v) for v in s.values() if isinstance(v, (dict, list)))
        if isinstance(s, list):
            return any(self.exits(v) for v in s)
        return False

    def seq(self, ss):
        i = 0
        ss = list(ss)
        while i < len(ss):
            s = ss[i]
            if s is None:
                i += 1
                continue
            k = s.get("k")
            if "l" in s:
                self.lines.add((s.get("f"), s["l"]))
            if k == "block":
                ss[i:i + 1] = s["s"]
                continue
            n, loop = self.rotated(ss[i:i + 4])
            if n:
                ss[i:i + n] = [loop]
                continue
            if k == "try":
                ss[i:i + 1] = [s["body"]]
                continue
            if k == "if":
                if s.get("init"):
                    st = self.seq([s["init"]])
                if s.get("cv"):
                    self.declare(s["cv"])
                c = self.cond(s["i"])
                c = self.known(c)
                if isc(c):
                    ss[i:i + 1] = [s["a"] if c[1] else s["b"]]
                    continue
                rest = ss[i + 1:]
                if self.exits(s["a"]) or self.exits(s["b"]):
                    a, b = self.branch(c, lambda: self.seq([s["a"]] + rest), lambda: self.seq([s["b"]] + rest))
                    if a == b and not (a and a[0] == "ret" and not term(a[1])):
                        return a
                    if a and b and a[0] == "ret" and b[0] == "ret":
                        if a[1] is None and b[1] is None:
                            return a
                        return ("ret", self.merge(c, None, a[1], b[1]))
                    if all(x is None or x[0] == "cnt" for x in (a, b)):
                        return None
                    if a and a[0] == "dead":
                        return b
                    if b and b[0] == "dead":
                        return a
                    return ("mix", c, a, b)
                self.branch(c, lambda: self.seq([s["a"]]), lambda: self.seq([s["b"]]))
                i += 1
                continue
            if k == "switch":
                body = self.desugar_switch(s)
                ss[i:i + 1] = body
                continue
            if k == "decl":
                for v in s["v"]:
                    self.declare(v)
            elif k == "return":
                if s["e"] is None:
                    return ("ret", None)
                if self.rettype.endswith("&"):
                    v = self.lv(s["e"])
                else:
                    v = self.ev(s["e"])
                return ("ret", v)
            elif k == "break":
                return ("brk",)
            elif k == "continue":
                return ("cnt",)
            elif k == "for":
                r = self.loop_stmt(s, s["init"], s["i"], s["inc"], s["body"])
                if r:
                    return r
            elif k == "while":
                r = self.loop_stmt(s, None, s["i"], None, s["body"])
                if r:
                    return r
            elif k == "do":
                r = self.loop_stmt(s, None, s["i"], None, s["body"], post=True)
                if r:
                    return r
            elif k == "range":
                r = self.range_stmt(s)
                if r:
                    return r
            elif k in ("null_stmt",):
                pass
            elif k == "otherstmt":
                self.bad(s, "statement %s" % s["kind"])
            else:
                v = self.ev(s, discard=True)
                if v == ("dead",):
                    return ("dead",)
            i += 1
        return None

    def rotated(self, ss):
        """read; while (c) { ...; read; } -> for (;;) { read; if (!c) break; ...; }"""
        def same(a, b):
            if isinstance(a, dict) and isinstance(b, dict):
                return all(same(a.get(x), b.get(x)) for x in set(a) | set(b) if x not in ("l", "f", "c"))
            if isinstance(a, list) and isinstance(b, list):
                return len(a) == len(b) and all(map(same, a, b))
            return a == b

        def has(s, what):
            if isinstance(s, dict):
                return what(s) or any(has(x, what) for x in s.values())
            return isinstance(s, list) and any(has(x, what) for x in s)

        def reads(s):
            return s.get("k") != "decl" and has(s, lambda x: x.get("fn", {}).get("name") in ("operator>>", "getline") if isinstance(x.get("fn"), dict) else False)
        s = ss[0]
        if s.get("k") == "for" and s["init"] and s["inc"] and s["i"] and same(s["init"], s["inc"]) and reads(s["inc"]):
            body = [s["inc"], dict(k="if", i=s["i"], a=dict(k="null_stmt"), b=dict(k="break"), l=s["l"], f=s["f"]), s["body"]]
            return 1, dict(k="for", init=None, i=None, inc=None, body=dict(k="block", s=body, l=s["l"], f=s["f"]), l=s["l"], f=s["f"])
        if s.get("k") in ("for", "while", "if", "do", "range", "return", "decl"):
            return 0, None
        for n in range(1, len(ss)):
            w = ss[n]
            if w and w.get("k") == "while" and w["body"] and w["body"].get("k") == "block":
                b = w["body"]["s"]
                if len(b) >= n and same(ss[:n], b[-n:]) and any(reads(x) for x in ss[:n]) and not has(w["body"], lambda x: x.get("k") == "continue"):
                    body = b[-n:] + [dict(k="if", i=w["i"], a=dict(k="null_stmt"), b=dict(k="break"), l=w["l"], f=w["f"])] + b[:-n]
                    return n + 1, dict(k="for", init=None, i=None, inc=None, body=dict(k="block", s=body, l=w["l"], f=w["f"]), l=w["l"], f=w["f"])
                break
        return 0, None

    def desugar_switch(self, s):
        """switch without fall-through into the middle -> if chain"""
        val = s["i"]
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        groups, cur = [], None
        for x in body:
            labels = []
            while isinstance(x, dict) and x.get("k") in ("case", "default"):
                labels.append(x.get("e") if x["k"] == "case" else None)
                x = x["body"]
            if labels:
                cur = (labels, [])
                groups.append(cur)
            if cur is None:
                self.bad(s, "switch body")
            if x is not None:
                cur[1].append(x)
        node = None
        default = None
        chain = []
        for j, (labels, stmts) in enumerate(groups):
            st = list(stmts)
            jj = j
            while not (st and st[-1].get("k") in ("break", "return")) and jj + 1 < len(groups):
                jj += 1
                st += groups[jj][1]
            if st and st[-1].get("k") == "break":
                st = st[:-1]
            if self.breaks(st):
                self.bad(s, "break inside a switch branch")
            blk = dict(k="block", s=st, l=s["l"], f=s["f"])
            if None in labels:
                default = blk
            cs = [l for l in labels if l is not None]
            if cs:
                chain.append((cs, blk))
        node = default
        for cs, blk in reversed(chain):
            c = None
            for l in cs:
                e = dict(k="bin", op="==", a=val, b=l, t="bool", l=s["l"], f=s["f"])
                c = e if c is None else dict(k="bin", op="||", a=c, b=e, t="bool", l=s["l"], f=s["f"])
            node = dict(k="if", i=c, a=blk, b=node, l=s["l"], f=s["f"])
        return [node]

    def breaks(self, s):
        if isinstance(s, dict):
            if s.get("k") == "break":
                return True
            if s.get("k") in ("for", "while", "do", "range", "switch", "lambda"):
                return False
            return any(self.breaks(v) for v in s.values() if isinstance(v, (dict, list)))
        return isinstance(s, list) and any(self.breaks(v) for v in s)

    def declare(self, v):
        if v.get("static"):
            if v["id"] in self.statics:
                self.env[v["id"]] = self.statics[v["id"]]
                return
        if v.get("ref"):
            self.env[v["id"]] = self.bind(v["init"])
            return
        c = Cell(None, v["t"], v["name"])
        self.env[v["id"]] = c
        if v.get("init"):
            x = self.ev(v["init"])
            x = self.own(x, v["t"], v["name"])
        else:
            x = ("undef", v["name"])
            m = re.match(r"(.*)\[(\d+)\]$", v["t"])
            if m:
                x = Vec((("raw", C(int(m.group(2)))),), m.group(1).strip(), v["name"])
        c.v = x
        if v.get("static"):
            self.statics[v["id"]] = c

    def own(self, x, t, name):
        if isinstance(x, list):        # initialiser list
            if "[" in t:
                et = t.split("[")[0].strip()
                return Vec(tuple(("one", self.own(y, et, name)) for y in x), et, name)
            if "std::vector" in t or "std::array" in t or "initializer_list" in t:
                et = element_type(t)
                if "std::array" in t and len(x) == 1 and isinstance(x[0], list):
                    x = x[0]
                return Vec(tuple(("one", self.own(y, et, name)) for y in x), t, name)
            if len(x) == 1:
                return x[0]
            o = Obj(t)
            r = self.p.rec.get(t.replace("const ", ""))
            if r:
                for fl, y in zip(r["fields"], x):
                    o.cell(fl["name"]).v = self.own(y, fl["t"], fl["name"])
                return o
            return Tup([Cell(y) for y in x])
        m = re.match(r"(.*basic_string.*)\[(\d+)\]$", t)
        if m and text(x) == "" and int(m.group(2)) <= 64:
            return Vec((("one", x),) * int(m.group(2)), m.group(1).strip(), name)
        return x

    def bind(self, e):
        """cell (or element) an expression denotes, for references"""
        x = self.lv(e)
        return x if isinstance(x, (Cell, Lv, UCell, PCell)) else Cell(x)

    # --- loops ---------------------------------------------------------------
    def range_stmt(self, s):
        r = self.ev(s["range"])
        if isinstance(r, list):
            r = Vec(tuple(("one", y) for y in r))
        if isinstance(r, Ptr) and r.vec is not None and r.idx == C(0):
            r = r.vec
        if not isinstance(r, Vec):
            self.bad(s, "range-for over %r" % (r,))
        n = self.size(r)
        if isc(n) and (n[1] <= 32 or n[1] <= 256 and any(g[0] == "one" for g in r.c.v)):
            for j in range(n[1]):
                self.bind_range(s["var"], r, C(j))
                st = self.seq([s["body"]])
                if st:
                    if st[0] == "brk":
                        return None
                    if st[0] == "ret":
                        return st
                    if st[0] == "mix":
                        self.bad(s, "conditional exit from a loop: %s" % show(st[1]))
            return None
        k = ("k", next(self.fresh))
        return self.summarise(s, k, n, lambda: (self.bind_range(s["var"], r, k), self.seq([s["body"]]))[1])

    def bind_range(self, v, vec, idx):
        if v.get("ref"):
            self.env[v["id"]] = Lv(vec, idx)
        else:
            x = self.index(vec, idx)
            self.env[v["id"]] = Cell(self.copy(x), v["t"], v["name"])

    def loop_stmt(self, s, init, cond, inc, body, post=False):
        if init:
            self.seq([init])
        endless = cond is None or "c" in cond and int(cond["c"]) != 0
        n = 0
        m0 = len(self.journal)
        bound = cond is not None and not post and self.symbolic_bound(cond)
        if bound == "long":
            keep = self.loop, self.probe, self.okmode, self.reading, self.this, dict(self.env)
            try:
                return self.counted(s, cond, inc, body)
            except Unsupported:
                self.undo(m0)
                self.loop, self.probe, self.okmode, self.reading, self.this, self.env = keep
        elif bound:
            return self.counted(s, cond, inc, body)
        while True:
            m = len(self.journal)
            if not post or n:
                self.reading += 1
                c = self.known(self.cond(cond)) if cond else TRUE
                self.reading -= 1
                if not isc(c):
                    self.undo(m0)
                    if post:
                        # the first iteration was carried out before the bound was seen
                        if reads(c):
                            return self.until(s, cond, inc, body, post)
                        self.bad(s, "do loop with a data-dependent bound")
                    return self.until(s, cond, inc, body, post) if reads(c) else self.counted(s, cond, inc, body)
                if not c[1]:
                    return None
            m2 = len(self.journal)
            self.reading += endless or post
            try:
                st = self.seq([body])
            finally:
                self.reading -= endless or post
            if st and st[0] == "mix":
                if not reads(st[1]):
                    self.bad(s, "conditional exit from a loop: %s" % show(st[1]))
                self.undo(m0)
                return self.until(s, cond, inc, body, post)
            if st and st[0] == "brk":
                return None
            if st and st[0] in ("ret", "dead"):
                return st
            if post and not n:
                # see whether the condition depends on a read, before keeping the effects
                m3 = len(self.journal)
                self.reading += 1
                c = self.cond(cond)
                self.reading -= 1
                self.undo(m3)
                if reads(c):
                    self.undo(m)
                    return self.until(s, cond, inc, body, post)
            if inc:
                self.ev(inc, discard=True)
            n += 1
            if n > 5000:
                raise Undefined("%s:%s: loop does not end" % (s.get("f", "?"), s.get("l", "?")))

    def symbolic_bound(self, c):
        """a comparison against something that is not a constant (and not input)"""
        if c["k"] == "bin" and c["op"] in ("<", ">", "<=", ">=", "!="):
            sides = c["a"], c["b"]
        elif c["k"] == "opcall" and c["op"] in ("<", ">", "<=", ">=", "!=") and len(c["args"]) == 2:
            sides = c["args"]
        else:
            return False
        m = len(self.journal)
        vals = []
        for x in sides:
            v = self.ev(x)
            vals.append(v.idx if isinstance(v, Ptr) and v.vec is not None else v)
        self.undo(m)
        if self.decide and all(term(v) for v in vals) and isc(self.decide(op(c["op"], *vals))):
            return False
        if all(isc(v) for v in vals) and abs(vals[0][1] - vals[1][1]) > 32:
            return "long"
        return all(term(v) and v[0] != "str" for v in vals) and any(not isc(v) for v in vals) and not any(atoms(v, lambda a: a[0] in ("tok", "line", "ok", "eof", "peek")) for v in vals)

    def counted(self, s, cond, inc, body):
        k = ("k", next(self.fresh))

        def one():
            self.cond(cond)
            st = self.seq([body])
            if st and st[0] == "cnt":
                st = None
            if st:
                return st
            if inc:
                self.ev(inc, discard=True)
            return None
        return self.summarise(s, k, None, one, cond)

    def kind(self, c):
        """how a changed location behaves in a loop"""
        if c.t == "bytes":
            return "bytes"
        if isinstance(c.v, frozenset) or c.name in ("base", "precision", "width", "fill"):
            return "flag"
        if isinstance(c.v, tuple) and not term(c.v):
            return "contents"
        if isinstance(c.v, Ptr):
            return "ptr" if c.v.vec is not None else "other"
        return "value" if term(c.v) else "other"

    def unread(self, c, sym, k=None, grown=None):
        """contents at the start of an iteration: an array keeps its size, a vector grows"""
        if len(c.v) == 1 and c.v[0][0] in ("raw", "map"):
            return (("raw", c.v[0][1], sym),)
        if c.t == "vec":
            return (("prior", sym, norm(op("+", self.size(Vec(c.v)), op("*", C(grown), k))) if grown is not None else ("len", sym)),)
        return ()

    def iterate(self, s, k, one, cond=None):
        """analyse one iteration for a symbolic iteration number; -> changed locations, their
        induction steps, start symbols, final values, condition before the iteration (twice:
        over start symbols and over k)"""
        m = len(self.journal)
        self.probe += 1
        st = one()
        self.probe -= 1
        if st and st[0] != "cnt":
            self.undo(m)
            self.bad(s, "exit from inside a counted loop")
        touched = [c for c, _ in self.changed(m).values()]
        self.undo(m)
        start = {id(c): ("start", next(self.fresh), c.name) for c in touched}
        ind, end, c0, cc = {}, {}, None, None
        grown = {}
        strict = False
        for rounds in range(10):
            for c in touched:
                kd = self.kind(c)
                if id(c) in ind:
                    self.set(c, self.advance(ind[id(c)][0], ind[id(c)][1], k))
                elif kd == "contents":
                    self.set(c, self.unread(c, start[id(c)], k, grown.get(id(c))))
                elif kd == "ptr":
                    self.set(c, Ptr(c.v.vec, start[id(c)]))
                elif kd == "value":
                    self.set(c, S(start[id(c)]) if c.v[0] == "str" else start[id(c)])
            if cond is not None:
                mm = len(self.journal)
                cc = self.cond(cond)
                self.undo(mm)
                c0 = cc if c0 is None else c0
            used = self.lenient
            self.probe += not strict
            one()
            self.probe -= not strict
            # branches not taken by the first iteration reach further locations
            more = False
            for c, v in self.changed(m).values():
                if id(c) not in start:
                    touched.append(c)
                    start[id(c)] = ("start", next(self.fresh), c.name)
                    more = True
            end, fresh = {}, set()
            for c in touched:
                v, sym = c.v, start[id(c)]
                if self.kind(c) == "contents" and v and (v[0][0] == "raw" and len(v[0]) == 3 and v[0][2] == sym or v[0][:2] == ("prior", sym)):
                    v = v[1:]
                elif c.t == "vec" and self.kind(c) == "contents":
                    fresh.add(id(c))
                end[id(c)] = v
            self.undo(m)
            for c in touched:
                if c.t == "vec" and self.kind(c) == "contents" and id(c) not in grown and id(c) not in fresh and not (end[id(c)] and end[id(c)][0][0] in ("map", "raw")):
                    e = end[id(c)]
                    if len(e) == 1 and e[0][0] == "if" and not e[0][3] and e[0][1][0] == "op" and e[0][1][1] in ("<", "<=", "!="):
                        # appended until it is long enough
                        e = e[0][2] if lin(e[0][1][2]).get(("len", start[id(c)])) == 1 and not mentions(e[0][1][3], start[id(c)]) else e
                    try:
                        n = norm(self.size(Vec(e)))
                    except Unsupported:
                        continue
                    if isc(n) and (n[1] == 1 or e is end[id(c)]):
                        grown[id(c)] = n[1]
                        more = True
            for c in touched:
                if id(c) in ind or self.kind(c) not in ("ptr", "value"):
                    continue
                e = end[id(c)]
                if isinstance(e, Ptr) != isinstance(c.v, Ptr) or isinstance(e, Ptr) and e.vec is not c.v.vec:
                    continue
                e1 = e.idx if isinstance(e, Ptr) else e
                if not term(e1) or e1[0] == "str":
                    continue
                if isc(c.v) and c.v[1] in (0, 1) and truth(e1) in (op("==", start[id(c)], C(0)), op("!", start[id(c)])) or isc(c.v) and e1 == op("-", C(1), start[id(c)]):
                    ind[id(c)] = (c.v, "alternates")
                    more = True
                    continue
                d = lin(("op", "-", e1, start[id(c)]))
                if set(d) <= {1} and not isinstance(d.get(1, 0), Fraction):
                    ind[id(c)] = (c.v, d.get(1, 0))
                    more = True
            if not more and (strict or self.lenient == used):
                break
            strict = not more
        # formats set by one iteration are found by the next
        left = [c for c in touched if self.kind(c) == "flag" and end[id(c)] != c.v]
        if left:
            for c in touched:
                kd = self.kind(c)
                if id(c) in ind:
                    self.set(c, self.advance(ind[id(c)][0], ind[id(c)][1], k))
                elif kd == "contents":
                    self.set(c, self.unread(c, start[id(c)], k, grown.get(id(c))))
                elif kd == "ptr":
                    self.set(c, Ptr(c.v.vec, start[id(c)]))
                elif kd == "value":
                    self.set(c, S(start[id(c)]) if c.v[0] == "str" else start[id(c)])
            for c in left:
                self.set(c, end[id(c)])
            one()
            for c in touched:
                if c.t == "stream" and c.v != end[id(c)]:
                    self.later[start[id(c)]] = c.v
            self.undo(m)
        for c in touched:
            t = re.sub(r"^const ", "", c.t or "")
            if id(c) in ind and ind[id(c)][1] and ind[id(c)][1] != "alternates" and t in WIDTH and WIDTH[t] < 32 and c0 is not None and mentions(c0, start[id(c)]):
                self.narrow.append((s.get("f"), s.get("l"), c.name, t))
        for c in touched:
            if id(c) in fresh and id(c) in end and end[id(c)] and end[id(c)][0][0] not in ("map", "raw"):
                if mentions_any(end[id(c)], list(start.values())):
                    self.bad(s, "%s is made anew from what it was" % (c.name or "a sequence"))
                self.renewed.add(start[id(c)])
        return touched, start, ind, end, cc

    def summarise(self, s, k, count, one, cond=None):
        """effects of `count` iterations of one(); the iteration number is k"""
        self.loop += (k,)
        touched, start, ind, end, cc = self.iterate(s, k, one, cond)
        if count is None:
            count = self.trip(s, cc, k)
        open_ = [start[id(c)] for c in touched if id(c) not in ind]
        after = []
        for c in touched:
            kd, e = self.kind(c), end[id(c)]
            if id(c) in ind:
                after.append((c, self.advance(ind[id(c)][0], ind[id(c)][1], count)))
            elif kd == "contents":
                # a location overwritten by a[k] = ... is completed here, appends repeat
                if e and e[0][0] == "map" and e[0][2] == k:
                    after.append((c, self.complete(s, c, e[0], count, k)))
                elif e and e[0][0] == "map":
                    after.append((c, (("raw", e[0][1], ("carried", next(self.fresh), c.name)),) if mentions_any(e, open_ + [k]) else e))
                elif e:
                    if mentions_any(e, open_):
                        self.bad(s, "running value stored in %s" % (c.name or "a sequence"))
                    if start[id(c)] in self.renewed:
                        after.append((c, subst(e, {k: norm(op("-", count, C(1)))})))
                        continue
                    later = self.later.get(start[id(c)])
                    if later is not None and mentions_any(later, open_):
                        self.bad(s, "running value stored in %s" % (c.name or "a sequence"))
                    after.append((c, c.v + (self.thinned(count, k, e) if c.t == "vec" else (("rep", norm(count), k, e) + ((later,) if later is not None else ()),))))
            elif kd == "flag":
                after.append((c, e))
            elif kd == "bytes":
                after.append((c, ()))
            elif kd == "other":
                after.append((c, e))
            elif kd == "ptr":
                self.bad(s, "pointer %s moves irregularly" % c.name)
            elif c.v[0] == "str" and term(e) and e[0] == "str" and e[1][:1] == (start[id(c)],) and not mentions_any(e[1][1:], open_):
                after.append((c, S(*(c.v[1] + ((("rep", norm(count), k, e[1][1:]),) if e[1][1:] else ())))))
            else:
                sc = start[id(c)]
                red = self.reduction(e, sc, k, count)
                t = re.sub(r"^const ", "", c.t or "")
                if red is not None and red[0] == "op" and (t == "float" or WIDTH.get(t, 64) < 32 or WIDTH.get(t, 64) == 32 and atoms(red, lambda a: a[0] == "clock")):
                    red = ("cast", t, red)
                if red is not None and not mentions_any(red, [o for o in open_ if o != sc]):
                    after.append((c, subst(red, {sc: c.v})))
                elif term(e) and not mentions_any(e, open_):
                    after.append((c, subst(e, {k: norm(op("-", count, C(1)))}) if mentions(e, k) else e))
                elif not term(e):
                    after.append((c, e))
                else:
                    # a value carried from one iteration to the next without a closed form
                    after.append((c, ("carried", next(self.fresh), c.name)))
        for c, v in after:
            self.set(c, v)
        self.loop = self.loop[:-1]
        return None

    def thinned(self, count, k, e):
        """appends of a loop; those made from some iteration on, or up to it, as a shorter loop"""
        if len(e) == 1 and e[0][0] == "if" and (not e[0][2] or not e[0][3]):
            _, c, a, b = e[0]
            if not a:
                c, a = op("!", c), b
            if c[0] == "op" and len(c) == 4 and c[1] in ("<", "<=", ">", ">="):
                d = lin(("op", "-", c[2], c[3]))
                up = d.pop(k, 0)
                o = c[1]
                if up == -1:
                    d, o = {x: -v for x, v in d.items()}, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[o]
                if up in (1, -1):
                    # k + d (o) 0
                    at = norm(op("-", C(1 if o in (">", "<=") else 0), unlin(d)))
                    if op(">=", at, C(0)) == TRUE and op("<=", at, count) == TRUE:
                        if o in (">", ">="):
                            return (("rep", norm(op("-", count, at)), k, subst(a, {k: norm(op("+", k, at))})),)
                        return (("rep", at, k, a),)
        return (("rep", norm(count), k, e),)

    def complete(self, s, c, g, count, k):
        """array after a[k] = x for k = 0..count-1"""
        old = c.v[0] if len(c.v) == 1 else None
        n = g[1]
        if norm(n) == norm(count):
            return (("map", n, k, g[3]),)
        prev = subst(old[3], {old[2]: k}) if old and old[0] == "map" else ("undef", c.name)
        return (("map", n, k, ite(op("<", k, count), g[3], prev)),)

    def advance(self, v, step, k):
        if step == "alternates":
            return ite(op("==", op("mod", k, C(2)), C(0)), v, C(1 - v[1]))
        if isinstance(v, Ptr):
            return Ptr(v.vec, norm(op("+", v.idx, op("*", C(step), k))))
        return norm(op("+", v, op("*", C(step), k)))

    def trip(self, s, c, k):
        """number of iterations for which the condition holds, from its affine form in k"""
        if c[0] == "op" and c[1] in ("<", ">", "<=", ">=", "!="):
            d = lin(("op", "-", c[2], c[3]))
            a = d.pop(k, 0)
            rest = unlin(d)
            o = c[1]
            if a == 1 and o in ("<", "!="):
                return norm(op("-", C(0), rest))
            if a == 1 and o == "<=":
                return norm(op("-", C(1), rest))
            if a == -1 and o in (">", "!="):
                return norm(rest)
            if a == -1 and o == ">=":
                return norm(op("+", rest, C(1)))
            if a > 1 and o in ("<", "!="):
                if all(v % a == 0 for v in d.values()):
                    return unlin({x: -v // a for x, v in d.items()})
                return op("idiv", norm(op("-", C(a - 1), rest)), C(a))
            if a < 0 and o in ("<", "<=") or a > 0 and o in (">", ">="):
                raise Undefined("%s:%s: the loop counts away from its bound: %s" % (s.get("f", "?"), s.get("l", "?"), show(c)))
        self.bad(s, "loop bound %s" % (show(c),))

    def reduction(self, e, s, k, count):
        """closed form of x <- e(x) repeated count times, or None"""
        if not term(e) or e[0] == "str":
            return None
        while e[0] == "cast" and (e[1] in FLOATS or WIDTH.get(e[1], 0) >= 16) and mentions(e[2], s):
            e = e[2]
        d = lin(e)
        if d.get(s) == 1:
            t = unlin({x: v for x, v in d.items() if x != s})
            if not mentions(t, s):
                return op("+", s, ("sum", count, k, t))
        if e[0] == "ite":
            c, a, b = e[1], e[2], e[3]
            for x, y, cc in ((a, b, c), (b, a, op("!", c))):
                # conditional accumulation
                if y == s and not mentions(cc, s):
                    dd = lin(strip(x))
                    if dd.get(s) == 1:
                        t = unlin({q: v for q, v in dd.items() if q != s})
                        if not mentions(t, s):
                            return op("+", s, ("sum", count, k, ite(cc, t, C(0))))
            if c[0] == "op" and c[1] in ("<", ">", "<=", ">="):
                p, q, ca, cb = strip(c[2]), strip(c[3]), strip(a), strip(b)
                if {p, q} == {ca, cb} and s in (p, q):
                    v = q if p == s else p
                    if not mentions(v, s):
                        less = c[1] in ("<", "<=")
                        return ("min" if less == (ca == p) else "max", s, ("all", count, k, v))
        if e[0] == "call" and e[1] in ("min", "max") and s in (strip(e[2]), strip(e[3])):
            v = strip(e[3]) if strip(e[2]) == s else strip(e[2])
            if not mentions(v, s):
                return (e[1], s, ("all", count, k, v))
        return None

    def until(self, s, cond, inc, body, post=False):
        """loop that ends with the data: one iteration in which every read succeeds, and the
        last one, in which they fail"""
        lid = next(self.fresh)
        k = ("k", next(self.fresh))
        self.loop += (("until", lid, k),)
        if self.okmode is not None:
            self.bad(s, "reading loop inside a reading loop")

        def iteration():
            if not post and cond is not None:
                c = self.cond(cond)
                if c == FALSE:
                    return ("brk",)
                if c != TRUE:
                    self.bad(s, "end of a reading loop: %s" % show(c))
            st = self.seq([body])
            if st and st[0] == "mix":
                self.bad(s, "exit of a reading loop: %s" % show(st[1]))
            if st and st[0] != "cnt":
                return st
            if inc:
                self.ev(inc, discard=True)
            if post:
                c = self.cond(cond)
                if c == FALSE:
                    return ("brk",)
                if c != TRUE:
                    self.bad(s, "end of a reading loop: %s" % show(c))
            return None
        self.okmode = True
        touched, start, ind, end, _ = self.iterate(s, k, iteration)
        # the iteration that finds no more data
        m = len(self.journal)
        for c in touched:
            kd = self.kind(c)
            if kd == "contents":
                self.set(c, self.unread(c, start[id(c)]))
            elif kd == "value":
                self.set(c, S(start[id(c)]) if c.v[0] == "str" else start[id(c)])
        m2 = len(self.journal)
        self.okmode = False
        st = iteration()
        if not (st and st[0] in ("brk", "ret")):
            self.okmode = True       # eof() alone is seen by the next test of the condition
            self.okmode = False
            c = self.cond(cond) if cond is not None and not post else TRUE
            if c != FALSE:
                self.okmode = None
                self.bad(s, "the loop goes on after the last record")
        self.okmode = None
        tail = {i: x.v[1:] if x.v and x.v[0][0] == "prior" else x.v for i, (x, _) in self.changed(m2).items() if self.kind(x) == "contents" and not isinstance(x.v, str) and not (x.v and x.v[0][0] == "raw" and len(x.v[0]) == 3)}
        streams = {i for i, (x, _) in self.changed(m2).items() if x.t == "stream"}
        self.undo(m)
        open_ = [start[id(c)] for c in touched if id(c) not in ind]
        for c in touched:
            e = end[id(c)]
            kd = self.kind(c)
            if kd == "contents":
                if mentions_any(e, open_):
                    self.bad(s, "a value of an earlier iteration is stored")
                new = c.v + ((("until", lid, k, e),) if e else ())
                if start[id(c)] in self.renewed:
                    new = (("stale", lid, e),)
                if tail.get(id(c)) and id(c) not in streams:
                    new += (("stale", lid, tail[id(c)]),)
                self.set(c, new)
            elif kd == "flag":
                self.set(c, e)
            elif kd == "bytes":
                self.set(c, ())
            elif kd == "value":
                self.set(c, ("after", lid, c.name) if not ind.get(id(c)) or ind[id(c)][1] else c.v)
            elif kd == "other":
                self.set(c, e)
            else:
                self.bad(s, "pointer moved in a reading loop")
        self.loop = self.loop[:-1]
        return ("ret", None) if st and st[0] == "ret" else None

    # --- vectors ------------------------------------------------------------
    def seglen(self, g):
        if g[0] == "sym":
            return g[2] if len(g) > 2 else ("size", g[1])
        if g[0] == "one":
            return C(1)
        if g[0] == "raw":
            return g[1]
        if g[0] == "prior":
            return g[2]
        if g[0] == "map":
            return g[1]
        if g[0] == "rep":
            n = C(0)
            for x in g[3]:
                n = op("+", n, self.seglen(x))
            if mentions(n, g[2]):
                return ("sum", norm(g[1]), g[2], n)
            return op("*", g[1], n)
        if g[0] == "until":
            return ("size", "until%s" % g[1])
        if g[0] == "if":
            a = b = C(0)
            for x in g[2]:
                a = op("+", a, self.seglen(x))
            for x in g[3]:
                b = op("+", b, self.seglen(x))
            return ite(g[1], a, b)
        raise Unsupported("vector length")

    def size(self, v):
        n = C(0)
        for g in v.c.v:
            n = op("+", n, self.seglen(g))
        return norm(n)

    def index(self, v, i):
        i = norm(i)
        if isinstance(v, Choice):
            raise Unsupported("choice of vectors")
        segs = v.c.v
        if len(segs) == 1:
            g = segs[0]
            if g[0] == "sym":
                return ("elem", g[1], i)
            if g[0] == "rep" and len(g[3]) == 1 and g[3][0][0] == "one":
                return subst(g[3][0][1], {g[2]: i})
            if g[0] == "map":
                if g[2] is None and self.probe:
                    self.lenient += 1
                    return ("undef", v.name)
                if g[2] is None:
                    raise Unsupported("array written irregularly")
                return subst(g[3], {g[2]: i})
            if g[0] == "raw":
                return ("elem", g[2], i) if len(g) > 2 else ("undef", v.name)
            if g[0] == "filled":
                return ("out", g[1], i)
            if g[0] == "until":
                return ("elem", "until%s" % g[1], i)
        if isc(i):
            j = 0
            for g in segs:
                if g[0] != "one":
                    break
                if j == i[1]:
                    return g[1]
                j += 1
        if segs and segs[0][0] == "prior" and self.probe:
            self.lenient += 1
            return ("undef", v.name)
        if not segs:
            raise Undefined("element %s of an empty vector is used" % show(i))
        if isc(i) and not self.probe and all(g[0] == "one" for g in segs) and not 0 <= i[1] < len(segs):
            raise Undefined("element %s of a vector of %d is used" % (show(i), len(segs)))
        raise Unsupported("element of a vector with mixed contents: %s" % (show(segs),))

    def store(self, v, i, x, node):
        i = norm(i)
        segs = v.c.v
        if len(segs) == 1 and segs[0][0] in ("raw", "map") and self.loop and not isinstance(self.loop[-1][0], tuple):
            k = self.loop[-1]
            n = segs[0][1]
            # a[k] = x inside a counted loop: recorded, completed by finish_map
            if i == k:
                self.set(v.c, (("map", n, k, x),))
                return
        if isc(i) and all(g[0] == "one" for g in segs) and 0 <= i[1] < len(segs):
            self.set(v.c, segs[:i[1]] + (("one", x),) + segs[i[1] + 1:])
            return
        if len(segs) == 1 and segs[0][0] == "raw" and isc(segs[0][1]) and isc(i):
            l = [("one", ("undef", v.name))] * segs[0][1][1]
            l[i[1]] = ("one", x)
            self.set(v.c, tuple(l))
            return
        if self.probe:
            self.lenient += 1
            return self.set(v.c, (("map", self.size(v), None, x),))
        self.bad(node, "store to element %s" % (show(i),))

    def push(self, v, x):
        self.set(v.c, v.c.v + (("one", x),))

    def copy(self, x):
        if isinstance(x, Vec):
            return Vec(x.c.v, x.et, x.name)
        if isinstance(x, Obj):
            o = Obj(x.rec)
            for n, c in x.f.items():
                o.f[n] = Cell(self.copy(c.v), c.t, n)
            return o
        if isinstance(x, Tup):
            return Tup([Cell(self.copy(c.v)) for c in x.items])
        if isinstance(x, Engine):
            e = Engine(x.seed, x.sid)
            e.st.v = x.st.v
            return e
        return x

    # --- expressions ----------------------------------------------------------
    def cond(self, e):
        c = self.ev(e)
        if isinstance(c, Stream):
            return self.okay(c)
        if isinstance(c, Ptr):
            return TRUE
        if not term(c):
            self.bad(e, "condition %r" % (c,))
        if c == ("null",):
            return FALSE
        c = truth(c)
        if c[0] in ("cmp", "ok", "op", "c"):
            return c
        if isc(c):
            return C(int(bool(c[1])))
        return op("!=", c, C(0)) if c[0] not in ("s",) or c[-1] != "bool" else c

    def okay(self, st):
        """whether the last read succeeded: decided inside loops that may end with the data,
        taken for granted elsewhere (the file exists and is complete)"""
        if self.okmode is not None:
            return C(int(self.okmode))
        return ("ok", st.sid, st.n) if self.reading else TRUE

    def lv(self, e):
        """location of an expression: Cell, Lv, or a (class) value"""
        k = e["k"]
        if k == "ref":
            if e["id"] in self.env:
                return self.env[e["id"]]
            if e.get("global"):
                return self.global_cell(e)
            self.bad(e, "unknown variable %s" % e["name"])
        if k == "member":
            b = self.ev(e["e"])
            if isinstance(b, Ptr) and b.cell is not None:
                b = b.cell.v
            if isinstance(b, Ptr) and b.vec is not None:
                b = self.index(b.vec, b.idx)
            if isinstance(b, Obj):
                if e.get("union"):
                    if "union" not in b.f:
                        b.f["union"] = Cell((), "bytes", "union")
                    return UCell(b.f["union"], 0, e.get("ft", e["t"]))
                return b.cell(e["name"])
            if isinstance(b, Choice):
                return Cell(b.map(lambda o: o.cell(e["name"]).v))
            if isinstance(b, tuple) and term(b):
                return Cell(("field", b, e["name"]), e["t"], e["name"])
            if isinstance(b, Tup) and e["name"] in ("first", "second"):
                return b.items[0 if e["name"] == "first" else 1]
            self.bad(e, "member %s of %r" % (e["name"], b))
        if k == "index":
            x = e["a"]
            while x["k"] == "cast":
                x = x["e"]
            if x["k"] == "member" and x.get("union"):
                u, i = self.lv(x), self.ev(e["b"])
                if not isc(i):
                    self.bad(e, "union array element")
                et = re.sub(r"\[\d+\]$", "", u.t).strip()
                return UCell(u.cell, u.off + int(i[1]) * bytesof(et), et)
            a, i = self.ev(e["a"]), self.ev(e["b"])
            if isinstance(a, Vec):
                return Lv(a, i)
            if isinstance(a, Ptr) and a.vec is not None:
                return Lv(a.vec, norm(op("+", a.idx, i)))
            if isinstance(a, Ptr) and a.cell is not None and isc(i) and i[1] == 0:
                return a.cell
            if term(a):
                return Cell(("elem", a, norm(i)))
            self.bad(e, "subscript")
        if k == "un" and e["op"] == "*":
            return self.deref(self.ev(e["e"]), e)
        if k == "un" and e["op"] in ("++", "--") and not e["post"]:
            self.ev(e)
            return self.lv(e["e"])
        if k in ("assign", "assignop"):
            self.ev(e)
            return self.lv(e["a"])
        if k == "this":
            return self.this
        if k == "cond":
            c = self.known(self.cond(e["i"]))
            if isc(c):
                return self.lv(e["a"] if c[1] else e["b"])
            return Cell(self.ev(e))
        if k == "bin" and e["op"] == ",":
            self.ev(e["a"], discard=True)
            return self.lv(e["b"])
        if k in ("mcall", "opcall", "call"):
            r = self.call(e, want_ref=True)
            return r if isinstance(r, (Cell, Lv, UCell, PCell)) else Cell(r)
        if k == "cast" and e["ck"] == "LValueBitCast":
            return self.view(self.lv(e["e"]), e["from"], e["t"], e)
        if k == "cast" and e["ck"] == "BitCast":
            return Cell(self.ev(e))
        v = self.ev(e)
        return Cell(v)

    def view(self, loc, src, dst, e):
        src, dst = re.sub(r"^const ", "", src), re.sub(r"^const ", "", dst)
        if src == dst:
            return loc
        if isinstance(loc, PCell):
            return self.view(loc.cell, loc.src, dst, e)
        if isinstance(loc, (Cell, Lv)) and (src in WIDTH or src in FLOATS) and (dst in WIDTH or dst in FLOATS) and bytesof(src) == bytesof(dst):
            return PCell(loc, src, dst)
        self.bad(e, "%s read as %s" % (src, dst))

    def global_cell(self, e):
        if e["id"] in self.globals:
            return self.globals[e["id"]]
        if e["q"] in ("std::cout", "std::cerr", "std::clog"):
            c = Cell(Stream("out", e["q"]))
        elif e["q"] == "std::cin":
            c = Cell(Stream("in", e["q"]))
        elif e.get("init"):
            c = Cell(self.own(self.ev(e["init"]), e["t"], e["name"]), e["t"], e["name"])
        elif "npos" in e["q"]:
            c = Cell(C((1 << 64) - 1))
        elif "fmtflags" in e["t"] or "_Ios" in e["t"] or "openmode" in e["t"].lower():
            c = Cell(("flag", e["name"]))
        else:
            c = Cell(("s", e["q"]), e["t"], e["name"])
        self.globals[e["id"]] = c
        return c

    def deref(self, p, e):
        if isinstance(p, Ptr):
            if p.cell is not None:
                return p.cell
            return Lv(p.vec, p.idx)
        if isinstance(p, Vec):
            return Lv(p, C(0))
        if isinstance(p, (Obj, Fn, Lambda)):
            return Cell(p)
        if term(p):
            return Cell(("deref", p))
        self.bad(e, "dereference of %r" % (p,))

    def load(self, c):
        if isinstance(c, Lv):
            return self.index(c.vec, c.idx)
        if isinstance(c, UCell):
            return self.uread(c)
        if isinstance(c, PCell):
            return pun(self.load(c.cell), c.src, c.t)
        return c.v

    def uread(self, c):
        n = bytesof(c.t)
        ws = c.cell.v
        for j in range(len(ws) - 1, -1, -1):
            _, off, size, t, v = ws[j]
            if off + size <= c.off or c.off + n <= off:
                continue
            if off == c.off and size == n:
                return pun(v, t, c.t)
            if off <= c.off and off + size >= c.off + n and size <= 8:
                x = pun(v, t, uint(size))
                if c.off > off:
                    x = op(">>", x, C(8 * (c.off - off)))
                return pun(cast(uint(n), x), uint(n), c.t)
            # wider than the last write: the rest has to be zero
            if off == c.off and size < n:
                rest = next((w for w in reversed(ws[:j]) if w[1] <= c.off and w[1] + w[2] >= c.off + n), None)
                if rest and rest[4] == C(0):
                    return pun(pun(v, t, uint(size)), uint(n), c.t)
            return pun(self.compose(ws[:j + 1], c.off, n), uint(n), c.t)
        raise Undefined("bytes of a union read before they are written")

    def compose(self, ws, off, n):
        """integer made of the bytes of several writes"""
        x, left = C(0), set(range(off, off + n))
        for _, o, size, t, v in reversed(ws):
            mine = left & set(range(o, o + size))
            if not mine:
                continue
            if v != C(0):
                if mine != set(range(o, o + size)):
                    break
                x = op("+", x, op("<<", pun(v, t, uint(size)), C(8 * (o - off))))
            left -= mine
            if not left:
                return x
        raise Undefined("bytes of a union read before they are written")

    def uwrite(self, c, x):
        n = bytesof(c.t)
        keep = tuple(w for w in c.cell.v if not (c.off <= w[1] and w[1] + w[2] <= c.off + n))
        self.set(c.cell, keep + (("w", c.off, n, re.sub(r"^const ", "", c.t), x),))

    def assign(self, loc, x, node, t=""):
        if isinstance(loc, Lv):
            return self.store(loc.vec, loc.idx, x, node)
        if isinstance(loc, UCell):
            return self.uwrite(loc, x)
        if isinstance(loc, PCell):
            return self.assign(loc.cell, pun(x, loc.t, loc.src), node)
        if not isinstance(loc, Cell):
            self.bad(node, "assignment to a value")
        old = loc.v
        if isinstance(x, list):
            x = self.own(x, loc.t, loc.name)
        if isinstance(old, Vec) and isinstance(x, Vec):
            self.set(old.c, x.c.v)
            return
        if isinstance(old, Obj) and isinstance(x, Obj):
            for n in set(old.f) | set(x.f):
                self.set(old.cell(n), self.copy(x.cell(n).v))
            return
        self.set(loc, x)

    def arith(self, sym, a, b, t, node):
        if isinstance(a, Stream) or isinstance(b, Stream):
            self.bad(node, "stream arithmetic")
        if isinstance(a, Vec):
            a = Ptr(a, C(0))
        if isinstance(b, Vec):
            b = Ptr(b, C(0))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.vec is None or a.vec is not b.vec:
                self.bad(node, "pointers into different objects")
            return op(sym, a.idx, b.idx)
        if isinstance(a, Ptr):
            if sym in "+-":
                return Ptr(a.vec, norm(op(sym, a.idx, b)))
            if sym in ("==", "!=") and b in (C(0), ("null",)):
                return C(int(sym == "!="))
        if isinstance(b, Ptr):
            if sym == "+":
                return Ptr(b.vec, norm(op("+", b.idx, a)))
            if sym in ("==", "!="):
                return C(int(sym == "!="))
        if isinstance(a, Choice) or isinstance(b, Choice):
            if isinstance(a, Choice):
                return a.map(lambda x: self.arith(sym, x, b, t, node))
            return b.map(lambda x: self.arith(sym, a, x, t, node))
        if ("null",) in (a, b) and sym in ("==", "!=") and all(isinstance(x, Obj) or x in (C(0), ("null",)) for x in (a, b)):
            return C(int((isinstance(a, Obj) or isinstance(b, Obj)) == (sym == "!=")))
        if not term(a) or not term(b):
            if sym in ("==", "!=") and (a is None or b is None):
                self.bad(node, "comparison")
            self.bad(node, "operands of %s" % sym)
        if t in WIDTH:
            if sym == "/":
                sym = "idiv"
            elif sym == "%":
                sym = "mod"
            elif sym == "*" and WIDTH[t] == 32 and not (isc(a) or isc(b)):
                sym = "*32"
        r = op(sym, a, b)
        if isc(r) and t in WIDTH and t.startswith("unsigned"):
            return cast(t, r)
        return r

    def ev(self, e, discard=False):
        if e is None:
            return None
        if "c" in e and e["k"] not in ("assign", "assignop", "call", "mcall", "opcall"):
            return C(int(e["c"]))
        if "fc" in e and e["k"] not in ("assign", "assignop", "call", "mcall", "opcall"):
            return fconst(e["fc"])
        k = e["k"]
        if k in ("int", "float"):
            self.bad(e, "constant without a value")
        if k == "value":
            return e["v"]
        if k == "str":
            return S(e["s"])
        if k == "null":
            return ("null",)
        if k == "this":
            return self.this
        if k == "fn":
            return Fn(e["fn"])
        if k in ("ref", "member", "index"):
            return self.load(self.lv(e))
        if k == "cast":
            x = self.ev(e["e"])
            ck = e["ck"]
            if ck in ("IntegralToBoolean", "FloatingToBoolean"):
                return op("!=", x, C(0)) if term(x) and x[0] not in ("ok",) else x
            if ck in ("PointerToBoolean",):
                return TRUE if isinstance(x, (Ptr, Vec, Obj, Stream)) else FALSE if x == ("null",) else op("!=", x, C(0))
            if ck in ("IntegralCast", "FloatingToIntegral", "FloatingCast", "BooleanToSignedIntegral"):
                f, t = e["from"], e["t"]
                if ck == "FloatingCast" and FLOATS.get(t, 0) >= FLOATS.get(f, 99):
                    return x
                if ck == "IntegralCast" and WIDTH.get(t, 0) >= WIDTH.get(f, 99):
                    return x
                return cast(t, x)
            if ck == "IntegralToFloating":
                return x
            if ck == "LValueBitCast":
                return self.load(self.view(self.lv(e["e"]), e["from"], e["t"], e))
            if ck == "BitCast":
                return self.repoint(x, e)
            return x
        if k == "assign":
            x = self.ev(e["b"])
            loc = self.lv(e["a"])
            self.assign(loc, x, e)
            return x
        if k == "assignop":
            loc = self.lv(e["a"])
            y = self.ev(e["b"])
            x = self.load(loc)
            sym = e["op"][:-1]
            if isinstance(x, tuple) and x and x[0] == "str":
                r = self.concat(x, y, e)
            else:
                r = self.arith(sym, x, y, e.get("ct", e["t"]), e)
                if e["t"] in WIDTH and e.get("ct") in FLOATS:
                    r = cast(e["t"], r)
            self.assign(loc, r, e)
            return r
        if k == "bin":
            if e["op"] == ",":
                self.ev(e["a"], discard=True)
                return self.ev(e["b"])
            if e["op"] in ("&&", "||"):
                a = self.known(self.cond(e["a"]))
                if isc(a):
                    if bool(a[1]) == (e["op"] == "||"):
                        return a
                    return self.cond(e["b"])
                m = len(self.journal)
                self.assume.append(a if e["op"] == "&&" else op("!", a))
                b = self.cond(e["b"])
                self.assume.pop()
                if len(self.journal) > m and not all(c.name.startswith("read") for c, _ in self.journal[m:]):
                    # effects on one side only: keep them when the left side is a successful read
                    if a[0] != "ok":
                        self.bad(e, "conditional side effect")
                if a[0] == "ok" and b[0] == "ok" and e["op"] == "&&" and a[1] == b[1]:
                    return b
                return op(e["op"], a, b)
            return self.arith(e["op"], self.ev(e["a"]), self.ev(e["b"]), e["t"], e)
        if k == "un":
            if e["op"] == "&":
                loc = self.lv(e["e"])
                if isinstance(loc, Lv):
                    return Ptr(loc.vec, loc.idx)
                if isinstance(loc.v, (Obj, Stream)):
                    return loc.v
                if isinstance(loc.v, Fn):
                    return loc.v
                return Ptr(None, None, loc)
            if e["op"] == "*":
                return self.load(self.lv(e))
            if e["op"] in ("++", "--"):
                loc = self.lv(e["e"])
                x = self.load(loc)
                if isinstance(x, Ptr):
                    y = Ptr(x.vec, norm(op("+", x.idx, C(1 if e["op"] == "++" else -1))))
                else:
                    y = norm(op("+", x, C(1 if e["op"] == "++" else -1)))
                self.assign(loc, y, e)
                return x if e["post"] else y
            x = self.ev(e["e"])
            if e["op"] == "!":
                if isinstance(x, Stream):
                    x = self.okay(x)
                if isinstance(x, (Ptr, Obj)) or x == ("null",):
                    return C(int(x == ("null",)))
                x = truth(x)
                return op("!", x) if x[0] in ("ok", "c") or x[0] == "op" and x[1] in LOGIC else op("==", x, C(0))
            if isinstance(x, (Ptr, Fn, Lambda)) and e["op"] == "+":
                return x
            return op(e["op"], x)
        if k == "cond":
            c = self.known(self.cond(e["i"]))
            if isc(c):
                return self.ev(e["a"] if c[1] else e["b"])
            a, b = self.branch(c, lambda: self.ev(e["a"]), lambda: self.ev(e["b"]))
            if a == ("dead",):
                self.undo_dead = True
                return b
            if b == ("dead",):
                return a
            return self.merge(c, None, a, b)
        if k == "initlist":
            return [self.ev(x) for x in e["e"]]
        if k == "zero":
            return C(0)
        if k == "lambda":
            env = dict(self.env)
            for c in e["caps"]:
                if "id" in c and not c["ref"] and c["id"] in self.env:
                    env[c["id"]] = Cell(self.copy(self.load(self.env[c["id"]])))
            return Lambda(e, env, self.this)
        if k == "construct":
            return self.construct(e)
        if k == "new":
            if "size" in e:
                n = self.ev(e["size"])
                return Ptr(Vec((("raw", norm(n)),), e["at"], "array@%s" % e["l"]), C(0))
            if e.get("init"):
                return self.ev(e["init"])
            return Ptr(None, None, Cell(("undef", "new")))
        if k == "delete":
            self.ev(e["e"])
            return None
        if k in ("call", "mcall", "opcall"):
            r = self.call(e)
            return self.load(r) if isinstance(r, (Cell, Lv, UCell, PCell)) else r
        if k == "mfn":
            return Fn(e["fn"], self.ev(e["e"]))
        if k == "other" and e.get("kind") in ("CXXTypeidExpr", "PredefinedExpr"):
            return S(("s", e["kind"]))
        if k == "other" and e.get("kind") == "CXXThrowExpr":
            return ("dead",)
        if k == "other" and len(e.get("e", [])) == 1:
            return self.ev(e["e"][0])
        self.bad(e, "expression %s %s" % (k, e.get("kind", "")))

    def repoint(self, x, e):
        """pointer conversion"""
        src, dst = (re.sub(r"\bconst\b", "", y).replace(" *", "*").strip() for y in (e["from"], e["t"]))
        if not src.endswith("*") or not dst.endswith("*") or dst in ("void*", "char*", "unsigned char*") or not isinstance(x, Ptr):
            return x
        src, dst = src[:-1].strip(), dst[:-1].strip()
        if x.vec is not None:
            if src != dst and src not in ("void", "char", "unsigned char"):
                self.bad(e, "%s array read as %s" % (src, dst))
            return x
        if src in ("void", "char", "unsigned char") and isinstance(x.cell, (Cell, PCell)):
            src = x.cell.t
        if src not in WIDTH and src not in FLOATS:
            return x
        return Ptr(None, None, self.view(x.cell, src, dst, e))

    def transfer(self, d, s, n, e):
        """memcpy between two variables"""
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            self.bad(e, "memcpy")
        for p in (d, s):
            if p.cell is None and not (p.vec is not None and p.vec.et):
                self.bad(e, "memcpy")
        def loc(p):
            if p.cell is not None:
                return p.cell, re.sub(r"^const ", "", p.cell.t)
            m = re.match(r"(?:std::vector<)?([\w ]+)", p.vec.et)
            return Lv(p.vec, p.idx), m.group(1).strip()
        (dc, dt), (sc, st) = loc(d), loc(s)
        if not isc(n):
            self.bad(e, "memcpy of a variable length")
        if n[1] != bytesof(dt) or n[1] != bytesof(st):
            if dt in WIDTH and n[1] == bytesof(st) < bytesof(dt) and self.load(dc) == C(0):
                self.assign(dc, pun(self.load(sc), st, uint(n[1])), e)
                return
            self.bad(e, "memcpy of part of a variable")
        self.assign(dc, pun(self.load(sc), st, dt), e)

    def concat(self, a, b, node):
        if isinstance(b, tuple) and b and b[0] == "str":
            return S(*(a[1] + b[1]))
        if term(b) and isc(b):
            return S(*(a[1] + (chr(b[1]),)))
        if term(b):
            return S(*(a[1] + (b,)))
        self.bad(node, "string concatenation")

    # --- calls ------------------------------------------------------------------
    def construct(self, e):
        rec, q = e["rec"], e["recq"]
        if e.get("copy") and len(e["args"]) == 1:
            return self.copy(self.ev(e["args"][0]))
        f = self.p.fn.get(e["fn"]["id"])
        if self.hook:
            r = self.hook(e["fn"], e)
            if r is not None:
                return r(self)
        if rec.startswith(("std::", "__gnu_cxx::")) or not f:
            return self.std_construct(e, rec, q)
        o = Obj(rec)
        self.ctor(o, f, e["args"])
        return o

    def ctor(self, o, f, args, values=None):
        env = self.params(f, args, values)
        save = self.env, self.this, self.rettype
        self.deep += 1
        if self.deep > 60:
            raise Unsupported("call depth")
        self.env, self.this, self.rettype = env, o, "void"
        for i in f.get("inits", []):
            if "member" in i:
                c = o.cell(i["member"])
                x = self.ev(i["e"])
                r = self.p.rec.get(i.get("rec", ""), {})
                t = next((g["t"] for g in r.get("fields", []) if g["name"] == i["member"]), "")
                c.t = t
                if t.endswith("&") and i["e"]["k"] == "ref":
                    b = self.lv(i["e"])
                    if isinstance(b, Cell):
                        o.f[i["member"]] = b
                        continue
                c.v = self.own(x, t, i["member"])
            elif "base" in i or "delegate" in i:
                ce = i["e"]
                if ce["k"] == "construct":
                    bf = self.p.fn.get(ce["fn"]["id"])
                    if bf:
                        self.ctor(o, bf, ce["args"])
        if f.get("body"):
            self.seq([f["body"]])
        self.env, self.this, self.rettype = save
        self.deep -= 1

    def params(self, f, args, values=None):
        env = {}
        for j, p in enumerate(f["params"]):
            if values is not None:
                env[p["id"]] = values[j] if isinstance(values[j], (Cell, Lv, UCell, PCell)) else Cell(values[j], p["t"], p["name"])
                continue
            if j < len(args):
                a = args[j]
            elif "default" in p:
                a = p["default"]
            else:
                raise Unsupported("missing argument")
            if p["t"].endswith("&"):
                x = self.lv(a)
                env[p["id"]] = x if isinstance(x, (Cell, Lv, UCell, PCell)) else Cell(x, p["t"], p["name"])
            else:
                env[p["id"]] = Cell(self.own(self.ev(a), p["t"], p["name"]), p["t"], p["name"])
        return env

    def invoke(self, f, args, this=None, values=None):
        self.lines.add((os.path.basename(f["file"]), f["line"]))
        self.calls.add(f["diag"])
        env = self.params(f, args, values)
        save = self.env, self.this, self.rettype
        self.deep += 1
        if self.deep > 60:
            raise Unsupported("call depth (recursion)")
        self.env, self.this, self.rettype = env, this, f.get("ret", "")
        st = self.seq([f["body"]])
        self.env, self.this, self.rettype = save
        self.deep -= 1
        st = self.ended(st)
        if st and st[0] == "mix":
            raise Unsupported("%s returns on some paths only" % f["diag"])
        if st and st[0] == "dead":
            return ("dead",)
        return st[1] if st else None

    def ended(self, st):
        """status at the end of a function: falling off the end is a return without a value"""
        if st and st[0] == "mix":
            a, b = self.ended(st[2]), self.ended(st[3])
            if all(x is None or x == ("ret", None) for x in (a, b)):
                return None
            if a and a[0] == "dead":
                return b
            if b and b[0] == "dead":
                return a
        return st

    def call_value(self, fn, args, node):
        """call of a function object with evaluated arguments"""
        has, ret = signature(((node or {}).get("fn") or {}).get("t", "")) if "std::function" in ((node or {}).get("fn") or {}).get("q", "") else (None, None)
        if has is not None and isinstance(fn, (Fn, Lambda)):
            # a std::function converts to the parameters and from the result of its target
            takes, gives = signature(fn.ref["t"]) if isinstance(fn, Fn) else ([bare(p["t"]) for p in fn.node["params"]], None)
            if takes is not None and len(takes) == len(has) == len(args):
                args = [cast(w, self.load(a) if isinstance(a, (Cell, Lv, UCell, PCell)) else a) if w != h and w in NUMBERS and h in NUMBERS else a for a, w, h in zip(args, takes, has)]
            if gives is not None and gives != ret and gives in NUMBERS and ret in NUMBERS:
                return cast(ret, self.target(fn, args, node))
        return self.target(fn, args, node)

    def target(self, fn, args, node):
        if isinstance(fn, Choice):
            raise Unsupported("choice of functions")
        if isinstance(fn, Fn):
            f = self.p.fn.get(fn.ref["id"])
            if f and f.get("body") and not (self.hook and self.hook(fn.ref, None)):
                return self.invoke(f, [], fn.this, values=args)
            vals = [self.load(a) if isinstance(a, (Cell, Lv, UCell, PCell)) else a for a in args]
            if any(isinstance(v, (Ptr, Vec)) for v in vals):
                return self.opaque_array(("fn", fn.ref["q"], fn.ref["t"]), vals, node)
            self.note(("apply", ("fn", fn.ref["q"], fn.ref["t"])) + tuple(vals))
            return ("call", ("fn", fn.ref["q"], fn.ref["t"])) + tuple(vals)
        if isinstance(fn, Lambda):
            save = self.env, self.this, self.rettype
            env = dict(fn.env)
            for p, a in zip(fn.node["params"], args):
                env[p["id"]] = a if isinstance(a, (Cell, Lv, UCell, PCell)) else Cell(self.own(a, p["t"], p["name"]), p["t"], p["name"])
            self.env, self.this, self.rettype = env, fn.this, ""
            st = self.seq([fn.node["body"]])
            self.env, self.this, self.rettype = save
            st = self.ended(st)
            if st and st[0] == "mix":
                raise Unsupported("lambda returns on some paths only")
            return st[1] if st else None
        if isinstance(fn, Bind):
            return self.call_value(fn.fn, list(fn.args), node)
        if isinstance(fn, Dist):
            eng = args[0].v if isinstance(args[0], Cell) else args[0]
            if len(args) > 1:
                p = self.load(args[1]) if isinstance(args[1], (Cell, Lv)) else args[1]
                if not isinstance(p, Dist):
                    self.bad(node, "parameters %r" % (p,))
                return self.draw(Dist(fn.kind, p.args), eng, node)
            return self.draw(fn, eng, node)
        if isinstance(fn, Engine):
            return self.draw(Dist("raw", ()), fn, node)
        if term(fn):
            vals = [self.load(a) if isinstance(a, (Cell, Lv, UCell, PCell)) else a for a in args]
            ptrs = [a for a in vals if isinstance(a, (Ptr, Vec))]
            if ptrs:
                return self.opaque_array(fn, vals, node)
            self.note(("apply", fn) + tuple(vals))
            return ("call", fn) + tuple(vals)
        self.bad(node, "call of %r" % (fn,))

    def note(self, event):
        if self.trace is not None:
            self.set(self.trace, self.trace.v + (event,))

    def outside(self, fn, args, node):
        """a function whose body is not looked into"""
        vals = [self.load(a) if isinstance(a, (Cell, Lv, UCell, PCell)) else a for a in args]
        if any(isinstance(a, (Ptr, Vec)) for a in vals):
            return self.opaque_array(fn, vals, node)
        self.note(("apply", fn) + tuple(vals))
        return ("call", fn) + tuple(vals)

    def opaque_array(self, fn, vals, node):
        """f(n, in..., out): the last array receives f of the others"""
        ptrs = [a if isinstance(a, Ptr) else Ptr(a, C(0)) for a in vals if isinstance(a, (Ptr, Vec))]
        nums = [a for a in vals if term(a)]
        out = ptrs[-1]
        if any(p.vec is None for p in ptrs) or out.idx != C(0) or len(nums) != 1:
            self.bad(node, "array call with offset pointers")
        ins = tuple(p.vec.c.v if p.idx == C(0) else (("shift", p.idx, p.vec.c.v),) for p in ptrs[:-1])
        n = self.size(out.vec)
        self.note(("applyv", fn, norm(nums[0]), ins, n))
        self.set(out.vec.c, (("map", n, ("K",), ("arr", fn, norm(nums[0]), ins, n, ("K",))),))
        return None

    def draw(self, dist, eng, node):
        if not isinstance(eng, Engine):
            self.bad(node, "random engine %r" % (eng,))
        st = eng.st.v
        self.set(eng.st, norm(op("+", st, C(1))))
        return ("draw", dist.kind, tuple(dist.args), st)

    def call(self, e, want_ref=False):
        fn = e.get("fn")
        k = e["k"]
        if fn is None:
            callee = self.ev(e["callee"])
            args = [self.ev(a) for a in e["args"]]
            return self.call_value(callee, args, e)
        q = fn["q"]
        f = self.p.fn.get(fn["id"])
        if self.hook:
            r = self.hook(fn, e)
            if r is not None:
                return r(self)
        if f and f.get("body") and not q.startswith("std::"):
            if k == "mcall":
                this = self.ev(e["obj"])
                if isinstance(this, Ptr) and this.cell is not None:
                    this = this.cell.v
                return self.invoke(f, e["args"], this)
            if k == "opcall" and "rec" in fn and not fn.get("static"):
                return self.invoke(f, e["args"][1:], self.ev(e["args"][0]))
            return self.invoke(f, e["args"])
        if q in ASSERTS:
            return ("dead",)
        if k == "opcall" and "operator()" in q:
            o = self.ev(e["args"][0])
            args = [self.lv(a) for a in e["args"][1:]]
            if isinstance(o, (Lambda, Fn, Bind, Dist, Engine)) or term(o):
                vals = args if isinstance(o, (Lambda, Dist)) else [self.load(a) if isinstance(a, (Cell, Lv, UCell, PCell)) else a for a in args]
                return self.call_value(o, vals, e)
        return self.std_call(e, fn, q, k)

    # --- the standard library, as far as the repository uses it ------------------
    def std_construct(self, e, rec, q):
        args = e["args"]
        if q in ("std::basic_string",):
            if not args:
                return S()
            a = self.ev(args[0])
            if len(args) >= 2 and term(a) and isc(a) and len(args) >= 2:
                b = self.ev(args[1])
                if isc(b):
                    return S(chr(b[1]) * a[1])
            more = [self.ev(x) for x in args[1:] if "allocator" not in x["t"]]
            if more and (term(a) or isinstance(a, list)):
                # a part of another string
                if not (isinstance(a, tuple) and a[0] == "str") or not all(term(v) for v in more):
                    self.bad(e, "string from a part")
                more = ([C(0)] if len(more) == 1 and "char *" in args[0]["t"] else []) + more
                t = text(a)
                if t is not None and all(isc(v) for v in more):
                    return S(t[more[0][1]:][:more[1][1] if len(more) > 1 else None])
                return S(("call", "string::substr", a) + tuple(more))
            if isinstance(a, tuple) and a and a[0] == "str":
                return a
            if term(a):
                return S(a)
            if isinstance(a, list):
                return S("".join(chr(x[1]) for x in a))
            self.bad(e, "string from %r" % (a,))
        if q in ("std::vector", "std::array", "std::deque", "std::list", "std::initializer_list"):
            if not args:
                return Vec((), rec)
            a = self.ev(args[0])
            if isinstance(a, list):
                return Vec(tuple(("one", x) for x in a), rec)
            if isinstance(a, Vec):
                return Vec(a.c.v, rec)
            if isinstance(a, Ptr) and len(args) >= 2:
                b = self.ev(args[1])
                if isinstance(b, Ptr) and b.vec is a.vec:
                    n = self.size(a.vec)
                    if a.idx == C(0) and norm(b.idx) == n:
                        return Vec(a.vec.c.v, rec)
                    if isc(a.idx) and isc(b.idx) and 0 <= a.idx[1] <= b.idx[1] and all(g[0] == "one" for g in a.vec.c.v):
                        return Vec(a.vec.c.v[a.idx[1]:b.idx[1]], rec)
                return Vec((("slice",),), rec)
            if term(a):
                x = self.ev(args[1]) if len(args) > 1 and "allocator" not in args[1]["t"] else C(0)
                kk = ("k", next(self.fresh))
                if isc(a) and a[1] <= 64:
                    return Vec((("one", x),) * a[1], rec)
                return Vec((("map", norm(a), kk, x),), rec)
            self.bad(e, "vector construction")
        if q in ("std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream", "std::basic_ostringstream", "std::basic_istringstream", "std::basic_stringstream"):
            kind = "text" if "ostring" in q else "out" if "ofstream" in q else "in" if "ifstream" in q or "istring" in q else "text" if "string" in q else "io"
            t = self.ev(args[0]) if args else None
            if kind == "out":
                self.replaces(e, t, args[1:])
            if "istring" in q and term(t) and t[0] == "str" and len(t[1]) == 1 and t[1][0][0] == "line":
                of = next((s for s in self.streams if s.sid == t[1][0][1]), None)
                if of is not None and len(of.ev.v) == t[1][0][2] and of.ev.v[-1:] == (("getline",),):
                    # the numbers of the line just read
                    st = Stream(kind, of.sid, t)
                    st.ev, st.of = of.ev, of
                    return st
            st = Stream(kind, "%s#%d" % (kind, next(self.fresh)), t)
            st.line = (e.get("f"), e.get("l"))
            self.streams.append(st)
            return st
        if q in ("std::function", "std::reference_wrapper"):
            if not args:
                return ("null",)
            return self.ev(args[0])
        if q in ("std::tuple", "std::pair"):
            return Tup([Cell(self.ev(a)) for a in args])
        if "mersenne_twister" in q or "linear_congruential" in q or "subtract_with_carry" in q or "discard_block" in q or "random_device" in q:
            seed = self.ev(args[0]) if args else C(5489)
            return Engine(seed, next(self.fresh))
        if "uniform_real_distribution" in q or "distribution" in q:
            m = re.search(r"distribution<([\w ]+)>", rec)
            vals = [self.ev(a) for a in args]
            if len(vals) == 1 and isinstance(vals[0], Dist):
                vals = vals[0].args
            return Dist(re.search(r"\w*distribution", q).group(0) + "<" + (m.group(1) if m else "") + ">", vals)
        if "allocator" in q:
            return None
        if "bitset" in q:
            return ("call", "bitset", self.ev(args[0])) if args else ("call", "bitset", C(0))
        if q in ("std::unique_ptr", "std::shared_ptr"):
            return self.ev(args[0]) if args else ("null",)
        if q.startswith(("std::", "__gnu_cxx::")) or not args:
            vals = [self.ev(a) for a in args]
            if len(vals) == 1:
                return vals[0]
            if not vals:
                return self.default(Obj(rec), rec)
        if rec in self.p.rec or not q.startswith("std::"):
            return self.default(Obj(rec), rec)
        self.bad(e, "construction of %s" % rec)

    def default(self, o, rec):
        """implicit default constructor"""
        r = self.p.rec.get(rec)
        if not r:
            return o
        for b in r["bases"]:
            self.default(o, b)
        for f in r["fields"]:
            c = o.cell(f["name"])
            c.t = f["t"]
            if f.get("init"):
                save, self.this = self.this, o
                c.v = self.own(self.ev(f["init"]), f["t"], f["name"])
                self.this = save
            elif f["t"] in self.p.rec:
                c.v = self.default(Obj(f["t"]), f["t"])
            elif f["t"].startswith("std::vector"):
                c.v = Vec((), f["t"], f["name"])
            elif f["t"].startswith("std::basic_string<"):
                c.v = S()
            elif re.search(r"\[\d+\]$", f["t"]):
                et, n = re.match(r"(.*)\[(\d+)\]$", f["t"]).groups()
                c.v = Vec((("raw", C(int(n))),), et.strip(), f["name"])
        return o

    def out(self, st, x, t, node):
        """st << x"""
        if not isinstance(st, Stream):
            self.bad(node, "output to %r" % (st,))
        def emit(ev):
            if isinstance(st.flags.v, frozenset) and "closed" in st.flags.v:
                raise Undefined("%s:%s: output after the file was closed" % (node.get("f", "?"), node.get("l", "?")))
            self.set(st.ev, st.ev.v + (ev,))
            if st.width.v != C(0):
                self.set(st.width, C(0))
        if isinstance(x, Manip):
            x.apply(self, st)
            return
        if isinstance(x, Fn):
            n = x.ref["name"]
            if n == "endl":
                emit(("lit", "\n"))
            elif n in ("flush", "ends"):
                pass
            elif n == "hex":
                self.set(st.base, C(16))
            elif n == "dec":
                self.set(st.base, C(10))
            elif n == "oct":
                self.set(st.base, C(8))
            elif n in IOS_FLAGS:
                self.ios_flag(st, n)
            else:
                self.bad(node, "manipulator %s" % n)
            return
        if isinstance(x, tuple) and x and x[0] == "str":
            for p in x[1]:
                # text of a string stream keeps its numbers
                emit(event(p) if st.width.v == C(0) else ("lit", p) if isinstance(p, str) else ("sym", p))
            return
        if isinstance(x, tuple) and x and x[0] == "rdbuf":
            emit(x)
            return
        if isinstance(x, Choice):
            emit(("if", x.c, (("lit", text(x.a)),), (("lit", text(x.b)),)))
            return
        if isinstance(x, Ptr) or x is None:
            self.bad(node, "output of a pointer")
        if term(x):
            t = re.sub(r"^const ", "", t).strip("& ")
            if t in ("char", "signed char", "unsigned char"):
                if isc(x):
                    emit(("lit", chr(x[1] & 255)))
                else:
                    emit(("char", x))
                return
            if x[0] == "ite" and text(x[2]) is not None:
                emit(("if", x[1], (("lit", text(x[2])),), (("lit", text(x[3])),)))
                return
            kind = "float" if t in FLOATS else "int" if t in WIDTH else "sym"
            if kind == "sym":
                emit(("sym", x))
            else:
                emit(("num", kind, t, st.base.v, st.prec.v, tuple(sorted(st.flags.v)), x, st.width.v, st.fill.v))
            return
        if isinstance(x, Stream):
            emit(("sym", ("stream", x.sid)))
            return
        self.bad(node, "output of %r" % (x,))

    def ios_flag(self, st, n):
        f = set(st.flags.v)
        if n in ("fixed", "scientific", "hexfloat", "defaultfloat"):
            f -= {"fixed", "scientific", "hexfloat"}
            if n != "defaultfloat":
                f.add(n)
        elif n in ("left", "right", "internal"):
            f -= {"left", "right", "internal"}
            f.add(n)
        elif n.startswith("no") and n[2:] in IOS_FLAGS:
            f.discard(n[2:])
        else:
            f.add(n)
        self.set(st.flags, frozenset(f))

    def read(self, st, loc, t, node):
        if not isinstance(st, Stream):
            self.bad(node, "input from %r" % (st,))
        where = tuple(l[1] if l[0] == "until" else l for l in self.loop)
        n = len([1 for x in st.ev.v])
        if self.okmode is False:
            st.failed = True
            return
        st.failed = False
        tok = ("tok", st.sid, where, n)
        t = re.sub(r"^const ", "", t).strip("& ")
        kind = "float" if t in FLOATS else "int" if t in WIDTH and WIDTH[t] > 8 else "char" if t in WIDTH else "string" if "basic_string" in t else "?"
        if kind == "?":
            self.bad(node, "input of type %s" % t)
        self.set(st.ev, st.ev.v + (("read", kind, t, st.base.v, tok),))
        st.n += 1
        self.assign(loc, tok if kind != "string" else S(tok), node)

    def std_call(self, e, fn, q, k):
        name = fn["name"]
        if k == "mcall":
            obj, args = self.ev(e["obj"]), e["args"]
            if re.match(r"std::(__)?(unique|shared)_ptr\b", q) and name in ("get", "reset", "release", "operator bool"):
                return self.smart(e, obj, name, args)
            if isinstance(obj, Ptr) and obj.cell is not None:
                obj = obj.cell.v
            if isinstance(obj, Choice):
                a, b = self.branch(obj.c, lambda: self.method_call(e, fn, q, k, obj.a), lambda: self.method_call(e, fn, q, k, obj.b))
                a, b = [self.load(x) if isinstance(x, (Cell, Lv, UCell, PCell)) else x for x in (a, b)]
                return a if a is None and b is None else self.merge(obj.c, None, a, b)
            return self.method_call(e, fn, q, k, obj)
        elif k == "opcall":
            return self.std_operator(e, fn, q)
        return self.method_call(e, fn, q, k, None)

    def smart(self, e, p, name, args):
        """owning pointers are their pointers"""
        if name == "get":
            return p
        if name == "operator bool":
            return C(int(p != ("null",)))
        new = self.ev(args[0]) if args and name == "reset" else ("null",)
        self.assign(self.lv(e["obj"]), new, e)
        return p if name == "release" else None

    def method_call(self, e, fn, q, k, obj):
        name, args = fn["name"], e["args"]
        if isinstance(obj, Vec):
            return self.vec_call(e, obj, name, args)
        if isinstance(obj, Stream):
            return self.stream_call(e, obj, name, args)
        if isinstance(obj, tuple) and obj and obj[0] == "str":
            return self.str_call(e, obj, name, args)
        if isinstance(obj, Dist) and name in ("param", "reset", "a", "b", "min", "max"):
            if name == "reset":
                return None
            if name == "param":
                if not args:
                    return Dist(obj.kind, obj.args)
                self.assign(self.lv(e["obj"]), Dist(obj.kind, self.ev(args[0]).args), e)
                return None
            return obj.args[0 if name in ("a", "min") else 1]
        if isinstance(obj, Engine) and name == "seed":
            s = self.ev(args[0]) if args else C(5489)
            self.set(obj.st, ("state", next(self.fresh), s, 0))
            obj.seed = s
            return None
        if isinstance(obj, (Fn, Lambda, Bind)) or term(obj) and obj and obj[0] in ("s", "field", "elem") and name == "operator()":
            if name == "operator bool":
                return TRUE
            return self.call_value(obj, [self.ev(a) for a in args], e)
        if obj == ("null",) and name == "operator bool":
            return FALSE
        if name in ("getline",) and k == "call":
            st = self.ev(args[0])
            loc = self.lv(args[1])
            delim = self.ev(args[2]) if len(args) > 2 else C(10)
            if delim != C(10):
                self.bad(e, "getline with a delimiter")
            return self.getline(st, loc, e)
        if name in ("setbase",):
            return Manip("base", self.ev(args[0]))
        if name in ("setprecision",):
            return Manip("prec", self.ev(args[0]))
        if name in ("setw", "setfill", "resetiosflags", "setiosflags"):
            v = self.ev(args[0])
            return Manip({"setiosflags": "flags", "setw": "width", "setfill": "fill"}.get(name, "none"), v)
        if name in ("endl", "hex", "dec") and k == "call":
            st = self.ev(args[0])
            self.out(st, Fn(fn), "", e)
            return st
        if name in ("move", "forward", "ref", "cref", "as_const", "addressof"):
            return self.lv(args[0])
        if name in ("swap", "iter_swap") and len(args) == 2:
            a, b = [self.deref(self.ev(x), e) if name == "iter_swap" else self.lv(x) for x in args]
            p, q = self.copy(self.load(a)), self.copy(self.load(b))
            self.assign(a, q, e)
            self.assign(b, p, e)
            return None
        if name in ("make_tuple", "make_pair", "tie"):
            return Tup([self.lv(a) if name == "tie" else Cell(self.ev(a)) for a in args])
        if name == "get" and fn.get("targs"):
            o = self.ev(args[0])
            if isinstance(o, Tup):
                j = int(re.sub(r"\D", "", fn["targs"][0]) or 0)
                c = o.items[j]
                return c
            if term(o):
                return ("get", o, fn["targs"][0])
        if name == "bind":
            return Bind(self.ev(args[0]), [self.copy(self.ev(a)) for a in args[1:]])
        if name in ("min", "max", "fmin", "fmax", "fminf", "fmaxf") and len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            if isc(a) and isc(b):
                return C((min if "min" in name else max)(a[1], b[1]))
            if term(a) and term(b):
                c = self.known(op("<=", a, b))
                if isc(c):
                    return a if bool(c[1]) == ("min" in name) else b
            return ("call", "min" if "min" in name else "max", a, b)
        if name in ("for_each", "transform", "copy", "accumulate", "fill", "generate", "back_inserter", "min_element", "max_element", "minmax_element", "generate_n", "copy_n", "fill_n", "inner_product", "count_if", "find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "prev", "begin", "end", "cbegin", "cend", "size", "distance", "next", "advance"):
            return self.algorithm(e, name, args)
        if name in ("to_string",):
            if args:
                return S(self.ev(args[0]))
            m = re.search(r"bitset<(\d+)", e["obj"]["t"])
            if not m:
                self.bad(e, "digits of %r" % (obj,))
            whole = S(("call", "to_string", obj))
            return S(*(("char", whole, C(i)) for i in range(int(m.group(1)))))
        if re.sub(r"^__builtin_", "", name) in ("memcpy", "memmove"):
            d = self.ev(args[0])
            self.transfer(d, self.ev(args[1]), self.ev(args[2]), e)
            return d
        if name in ("memset",):
            self.bad(e, name)
        if name in ("max_digits10", "digits10"):
            self.bad(e, name)
        if name.startswith("__builtin_") or k == "call":
            if name in ("__builtin_expect",):
                return self.ev(args[0])
            if q.startswith("std::") and re.search(r"(?<!const )\b(?!const)[\w:<>, ]+ &(?!&)", re.sub(r"const [\w:<>, ]+ &(?!&)", "", fn.get("t", "").split("(", 1)[-1])):
                self.bad(e, "call of %s, which may change its arguments" % q)
            vals = [self.ev(a) for a in args]
            nm = re.sub(r"^__builtin_", "", name)
            if q.startswith("std::") and nm in OVERLOADED:
                nm += {"float": "f", "long double": "l"}.get(signature(fn.get("t", ""))[1], "")
            if all(term(v) for v in vals):
                if nm in ("abs", "labs", "llabs", "fabs"):
                    return ("call", "abs", vals[0])
                self.note(("apply", nm) + tuple(vals))
                return ("call", nm) + tuple(vals)
            if any(isinstance(v, Ptr) and v.cell is not None for v in vals):
                out = []
                for v in vals:
                    if isinstance(v, Ptr) and v.cell is not None:
                        self.set(v.cell, ("extern", nm, next(self.fresh)))
                return ("call", nm) + tuple(v for v in vals if term(v))
            for v in vals:
                if isinstance(v, Obj):
                    for n in list(v.f) or ["*"]:
                        self.set(v.cell(n), ("extern", nm, next(self.fresh)))
            return ("call", nm) + tuple(v for v in vals if term(v))
        self.bad(e, "call of %s" % q)

    def getline(self, st, loc, e):
        if not isinstance(st, Stream):
            self.bad(e, "getline")
        if self.okmode is False:
            st.failed = True
            return st
        self.set(st.ev, st.ev.v + (("getline",),))
        st.n += 1
        if isinstance(loc, Cell):
            self.set(loc, S(("line", st.sid, len(st.ev.v))))
        elif isinstance(loc, Lv):
            self.assign(loc, S(("line", st.sid, len(st.ev.v))), e)
        return st

    def iter(self, x, e):
        if isinstance(x, Vec):
            return Ptr(x, C(0))
        if isinstance(x, Ptr) and x.vec is not None:
            return x
        self.bad(e, "iterator")

    def vec_call(self, e, v, name, args):
        if name in ("push_back", "emplace_back"):
            if len(args) == 1:
                x = self.ev(args[0])
                if isinstance(x, list):
                    x = Tup([Cell(y) for y in x])
            else:
                x = Tup([Cell(self.ev(a)) for a in args])
            self.push(v, x)
            return None
        if name == "size":
            return self.size(v)
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name == "capacity":
            return ("s", "capacity", "count")
        if name == "empty":
            return op("==", self.size(v), C(0))
        if name in ("operator[]", "at"):
            return Lv(v, self.ev(args[0]))
        if name in ("begin", "cbegin", "data"):
            return Ptr(v, C(0))
        if name in ("end", "cend"):
            return Ptr(v, self.size(v))
        if name == "front":
            return Lv(v, C(0))
        if name == "back":
            return Lv(v, norm(op("-", self.size(v), C(1))))
        if name == "clear":
            self.set(v.c, ())
            return None
        if name in ("resize", "assign"):
            a = self.ev(args[0])
            if isinstance(a, Ptr):
                b = self.ev(args[1])
                if a.idx == C(0) and norm(b.idx) == self.size(a.vec):
                    self.set(v.c, a.vec.c.v)
                    return None
                self.bad(e, "assign of a part")
            if v.c.v == () or name == "assign":
                x = C(0) if name == "resize" and len(args) < 2 else self.ev(args[1])
                self.set(v.c, (("one", x),) * a[1] if isc(a) and a[1] <= 64 else (("map", norm(a), ("k", next(self.fresh)), x),))
                return None
            if norm(a) == self.size(v):
                return None
            self.bad(e, "resize")
        if name == "insert" and len(args) == 2:
            pos = self.ev(args[0])
            if isinstance(pos, Ptr) and pos.vec is v and norm(pos.idx) == self.size(v):
                self.push(v, self.ev(args[1]))
                return None
            self.bad(e, "vector::insert before the end")
        if name == "insert" and len(args) == 3:
            pos, a, b = [self.ev(x) for x in args]
            if isinstance(pos, Ptr) and norm(pos.idx) == self.size(v) and isinstance(a, Ptr) and a.idx == C(0) and norm(b.idx) == self.size(a.vec):
                self.set(v.c, v.c.v + a.vec.c.v)
                return None
        if name == "swap":
            o = self.ev(args[0])
            a, b = v.c.v, o.c.v
            self.set(v.c, b)
            self.set(o.c, a)
            return None
        if name == "operator=":
            o = self.ev(args[0])
            self.set(v.c, o.c.v)
            return v
        self.bad(e, "vector::%s" % name)

    def replaces(self, e, target, modes):
        """a file opened for writing starts empty, or goes on with what was written here"""
        if target is None:
            return
        for a in modes:
            x = self.ev(a)
            names = {f[1].lstrip("_").replace("S_", "") for f in atoms(x, lambda y: y[0] == "flag")} if term(x) else set()
            todo = [x]
            while todo:
                y = todo.pop()
                if term(y) and isc(y):
                    # libstdc++ values of std::ios_base::openmode
                    names |= {n for b, n in ((1, "app"), (8, "in"), (32, "trunc")) if y[1] & b}
                elif term(y) and y[:2] == ("op", "|"):
                    todo += y[2:]
            if ("app" in names or "in" in names and "trunc" not in names) and target not in self.emptied:
                raise Undefined("%s:%s: what the file held before stays in it" % (e.get("f", "?"), e.get("l", "?")))
        self.emptied.append(target)

    def stream_call(self, e, st, name, args):
        if name in ("operator bool", "good", "is_open"):
            return self.okay(st) if name != "is_open" else TRUE
        if name in ("operator!", "fail", "bad"):
            return op("!", self.okay(st))
        if name == "eof":
            # the last number is followed by white space: end of file is only met by a failing read
            if self.okmode is not None:
                return C(int(not self.okmode and st.failed))
            return ("eof", st.sid, st.n) if self.reading else FALSE
        if name == "precision":
            if args:
                self.set(st.prec, self.ev(args[0]))
            return st.prec.v
        if name in ("width", "fill"):
            cell = st.width if name == "width" else st.fill
            old = cell.v
            if args:
                self.set(cell, self.ev(args[0]))
            return old
        if name == "flags" and not args:
            return Format(st.base.v, st.flags.v)
        if name in ("setf", "unsetf", "flags"):
            vals = [self.ev(a) for a in args]
            if name == "flags" and isinstance(vals[0], Format):
                old = Format(st.base.v, st.flags.v)
                self.set(st.base, vals[0].base)
                self.set(st.flags, frozenset(set(vals[0].flags) - {"closed"} | set(st.flags.v) & {"closed"}))
                return old
            if name == "flags":
                # replaces all
                name = "setf"
                self.set(st.base, C(10))
                self.set(st.flags, frozenset(set(st.flags.v) & {"closed"}))
            for x in vals[:1]:
                for fl in atoms(x, lambda a: a[0] == "flag"):
                    n = fl[1].lstrip("_").replace("S_", "")
                    if n in ("hex", "dec", "oct"):
                        if name == "setf":
                            self.set(st.base, C({"hex": 16, "dec": 10, "oct": 8}[n]))
                    elif name == "setf":
                        self.ios_flag(st, n)
                    else:
                        self.set(st.flags, frozenset(set(st.flags.v) - {n}))
                if isc(x):
                    self.numeric_flags(st, x[1], name)
            return ("s", "flags")
        if name == "rdbuf":
            return ("rdbuf", st.sid, len(st.ev.v))
        if name == "str":
            if args:
                self.bad(e, "stream contents replaced")
            out = []
            for ev in st.ev.v:
                out.append(ev[1] if ev[0] in ("lit", "sym") else ev)
            return S(*out)
        if name == "open":
            st.target = self.ev(args[0])
            if st.kind == "out":
                self.replaces(e, st.target, args[1:])
                self.set(st.flags, frozenset(set(st.flags.v) - {"closed"}))
            return None
        if name == "close" and st.kind == "out":
            self.set(st.flags, frozenset(set(st.flags.v) | {"closed"}))
            return None
        if name in ("close", "flush", "clear", "exceptions", "imbue"):
            return None
        if name == "getline":
            self.bad(e, "istream::getline")
        if name == "put":
            x = self.ev(args[0])
            self.out(st, x, "char", e)
            return st
        if name == "write":
            x = self.ev(args[0])
            self.bad(e, "ostream::write")
        if name == "ignore":
            if len(args) == 2 and self.ev(args[1]) == C(10):
                n = self.ev(args[0])
                if isc(n) and n[1] >= 1 << 31:
                    self.set(st.ev, st.ev.v + (("getline",),))
                    st.n += 1
                    return st
            self.bad(e, "istream::ignore")
        if name == "peek":
            return ("peek", st.sid, len(st.ev.v))
        if name == "operator<<":
            x = self.ev(args[0])
            self.out(st, x, args[0]["t"], e)
            return st
        if name == "operator>>":
            return self.extract(st, args[0], e)
        self.bad(e, "stream::%s" % name)

    def numeric_flags(self, st, bits, name):
        # libstdc++ values of std::ios_base::fmtflags
        table = {1 << 0: "boolalpha", 1 << 1: "dec", 1 << 2: "fixed", 1 << 3: "hex", 1 << 4: "internal", 1 << 5: "left", 1 << 6: "oct", 1 << 7: "right",
                 1 << 8: "scientific", 1 << 9: "showbase", 1 << 10: "showpoint", 1 << 11: "showpos", 1 << 12: "skipws", 1 << 13: "unitbuf", 1 << 14: "uppercase"}
        for b, n in table.items():
            if bits & b:
                if n in ("hex", "dec", "oct"):
                    if name == "setf":
                        self.set(st.base, C({"hex": 16, "dec": 10, "oct": 8}[n]))
                elif name == "setf":
                    self.ios_flag(st, n)
                else:
                    self.set(st.flags, frozenset(set(st.flags.v) - {n}))

    def extract(self, st, a, e):
        if a["k"] == "fn" or a["k"] == "call" and a.get("fn", {}).get("q", "").startswith("std::set"):
            x = self.ev(a)
            if isinstance(x, Manip):
                x.apply(self, st)
            elif x.ref["name"] in ("hex", "dec", "oct"):
                self.set(st.base, C({"hex": 16, "dec": 10, "oct": 8}[x.ref["name"]]))
            elif x.ref["name"] not in ("ws", "skipws"):
                self.bad(e, "manipulator %s" % x.ref["name"])
            return st
        loc = self.lv(a)
        v = self.load(loc) if isinstance(loc, Cell) else None
        if isinstance(v, Manip):
            v.apply(self, st)
            return st
        self.read(st, loc, a["t"], e)
        return st

    def character(self, s, i):
        cs = characters(s)
        if cs is not None and isc(i) and 0 <= i[1] < len(cs):
            return C(ord(cs[i[1]])) if isinstance(cs[i[1]], str) else cs[i[1]]
        if cs and all(not isinstance(c, str) and c[1] == cs[0][1] and c[2] == C(j) for j, c in enumerate(cs)):
            return ("char", cs[0][1], norm(i))
        return ("char", s, norm(i))

    def str_call(self, e, s, name, args):
        t = text(s)
        vals = [self.ev(a) for a in args if not (a["k"] == "construct" and "allocator" in a["rec"])]
        cs = characters(s)
        if cs is not None and t is None and all(isc(v) or text(v) is not None for v in vals):
            # digits known one by one
            n = [v[1] for v in vals if isc(v)]
            if name in ("size", "length"):
                return C(len(cs))
            if name == "substr" and len(n) == len(vals):
                a = n[0] if n else 0
                return S(*cs[a:][:n[1] if len(n) > 1 else None])
            if name == "erase" and n and len(n) == len(vals):
                self.assign(self.lv(e["obj"]), S(*(cs[:n[0]] + (cs[n[0] + n[1]:] if len(n) > 1 else []))), e)
                return self.lv(e["obj"])
            if name == "insert" and len(vals) == 2 and isc(vals[0]) and text(vals[1]) is not None or name == "insert" and len(n) == 3:
                new = text(vals[1]) if len(vals) == 2 else chr(n[2]) * n[1]
                self.assign(self.lv(e["obj"]), S(*(cs[:n[0]] + [new] + cs[n[0]:])), e)
                return self.lv(e["obj"])
            if name in ("operator[]", "at"):
                return self.character(s, vals[0])
        if name in ("c_str", "data"):
            return s
        if name in ("size", "length"):
            return C(len(t)) if t is not None else ("call", "strlen", s)
        if name == "empty":
            return C(int(t == "")) if t is not None else FALSE if filled(s) else ("call", "strempty", s)
        if vals and name in ("find", "rfind") and t is not None and text(vals[0]) is not None and len(vals) < 3 and all(isc(v) for v in vals[1:]):
            r = (t.find if name == "find" else t.rfind)(text(vals[0]), *(int(v[1]) for v in vals[1:] if isc(v)))
            return C(r if r >= 0 else (1 << 64) - 1)
        if name == "substr" and t is not None and all(isc(v) for v in vals):
            a = vals[0][1] if vals else 0
            n = vals[1][1] if len(vals) > 1 else len(t)
            return S(t[a:a + min(n, len(t))])
        if name == "compare" and t is not None and len(vals) == 1 and text(vals[0]) is not None:
            u = text(vals[0])
            return C((t > u) - (t < u))
        if name == "operator=":
            loc = self.lv(e["obj"])
            self.assign(loc, vals[0], e)
            return loc
        if name in ("append", "operator+=", "push_back"):
            loc = self.lv(e["obj"])
            new = vals[0]
            if len(vals) == 2 and isc(vals[0]) and isc(vals[1]):
                new = S(chr(vals[1][1]) * vals[0][1])
            elif len(vals) > 1:
                at = [C(0)] if len(vals) == 2 and "char *" in args[0]["t"] else []
                if not all(term(v) for v in vals) or vals[0][0] != S()[0]:
                    self.bad(e, "string::" + name)
                u, at = text(vals[0]), at + vals[1:]
                new = S(u[at[0][1]:][:at[1][1] if len(at) > 1 else None]) if u is not None and all(isc(v) for v in at) else S(("call", "string::substr", vals[0]) + tuple(at))
            self.assign(loc, self.concat(s, new, e), e)
            return loc
        if name in ("reserve", "clear"):
            if name == "clear":
                self.assign(self.lv(e["obj"]), S(), e)
            return None
        if name in ("operator[]", "at"):
            return self.character(s, vals[0])
        if name == "assign" and len(vals) == 1 and term(vals[0]) and vals[0][0] == S()[0]:
            self.assign(self.lv(e["obj"]), vals[0], e)
            return self.lv(e["obj"])
        if name in ("erase", "insert", "replace", "resize", "pop_back") and all(term(v) for v in vals):
            # the value after the change is a function of the one before
            self.assign(self.lv(e["obj"]), S(("call", "string::" + name, s) + tuple(vals)), e)
            return self.lv(e["obj"])
        if name in ("assign", "erase", "insert", "replace", "resize", "pop_back", "swap", "copy"):
            self.bad(e, "string::" + name)
        r = ("call", "string::" + name, s) + tuple(v for v in vals if term(v))
        return S(r) if name == "substr" else r

    def std_operator(self, e, fn, q):
        o, args = e["op"], e["args"]
        if o == "<<":
            st = self.ev(args[0])
            if isinstance(st, Stream):
                x = self.ev(args[1])
                self.out(st, x, args[1]["t"], e)
                return st
        if o == ">>":
            st = self.ev(args[0])
            if isinstance(st, Stream):
                return self.extract(st, args[1], e)
        if o == "[]":
            a, i = self.ev(args[0]), self.ev(args[1])
            if isinstance(a, Vec):
                return Lv(a, i)
            if isinstance(a, Ptr):
                return Lv(a.vec, norm(op("+", a.idx, i)))
            if isinstance(a, tuple) and a and a[0] == "str":
                return self.character(a, i)
        if o == "=":
            loc = self.lv(args[0])
            x = self.ev(args[1])
            cur = self.load(loc)
            if isinstance(cur, Vec) and isinstance(x, list):
                x = Vec(tuple(("one", y) for y in x))
            if isinstance(cur, Engine) and isinstance(x, Engine):
                self.set(cur.st, x.st.v)
                return loc
            if isinstance(cur, Tup) and isinstance(x, Tup):
                for c, d in zip(cur.items, x.items):
                    self.assign(c, d.v, e)
                return loc
            self.assign(loc, self.copy(x), e)
            return loc
        if o == "()":
            f = self.ev(args[0])
            return self.call_value(f, [self.lv(a) for a in args[1:]], e)
        if o == "!" and len(args) == 1:
            x = self.ev(args[0])
            return op("!", self.okay(x) if isinstance(x, Stream) else self.cond(args[0]))
        if o in ("++", "--"):
            loc = self.lv(args[0])
            x = self.load(loc)
            if isinstance(x, Ptr):
                y = Ptr(x.vec, norm(op("+", x.idx, C(1 if o == "++" else -1))))
                self.assign(loc, y, e)
                return x if len(args) > 1 else loc
        if o == "*" and len(args) == 1 or o == "->":
            p = self.ev(args[0])
            if o == "->":
                if isinstance(p, Ptr) and p.vec is not None:
                    return self.index(p.vec, p.idx)
                return p
            return self.deref(p, e)
        if len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            sa = isinstance(a, tuple) and a and a[0] == "str"
            sb = isinstance(b, tuple) and b and b[0] == "str"
            if o == "+" and (sa or sb):
                if not sa:
                    a = S(chr(a[1])) if isc(a) else S(a)
                return self.concat(a, b, e)
            if o in ("==", "!=", "<", ">") and sa and sb:
                ta, tb = text(a), text(b)
                if ta is not None and tb is not None:
                    return C(int({"==": ta == tb, "!=": ta != tb, "<": ta < tb, ">": ta > tb}[o]))
                if a == b:
                    return C(int(o == "=="))
                for u, v in ((a, tb), (b, ta)):
                    if v == "" and filled(u) and o in ("==", "!="):
                        return C(int(o == "!="))
                return ("op", o, ("strval", a), ("strval", b))
            if o == "+=":
                loc = self.lv(args[0])
                if sa:
                    self.assign(loc, self.concat(a, b, e), e)
                    return loc
                self.assign(loc, self.arith("+", a, b, e["t"], e), e)
                return loc
            if o == "|" or o == "&":
                return ("op", o, a, b) if term(a) and term(b) else self.bad(e, "operator")
            if isinstance(a, Vec) and isinstance(b, Vec) and o in ("==", "!="):
                return ("op", o, ("vec", a.c.v), ("vec", b.c.v))
            if (isinstance(a, (Ptr, Vec)) or term(a)) and (isinstance(b, (Ptr, Vec)) or term(b)):
                return self.arith(o, a, b, e["t"], e)
        self.bad(e, "operator%s (%s)" % (o, q))

    def algorithm(self, e, name, args):
        if name in ("begin", "cbegin"):
            return self.iter(self.ev(args[0]), e)
        if name in ("end", "cend"):
            v = self.ev(args[0])
            return Ptr(v, self.size(v))
        if name == "size":
            return self.size(self.ev(args[0]))
        if name == "back_inserter":
            return Ptr(self.ev(args[0]), ("inserter",))
        if name == "distance":
            a, b = self.ev(args[0]), self.ev(args[1])
            return self.arith("-", b, a, "long", e)
        if name in ("next", "prev"):
            a = self.ev(args[0])
            n = self.ev(args[1]) if len(args) > 1 else C(1)
            return Ptr(a.vec, norm(op("+" if name == "next" else "-", a.idx, n)))
        if name == "advance":
            loc, n = self.lv(args[0]), self.ev(args[1])
            a = self.load(loc)
            self.assign(loc, Ptr(a.vec, norm(op("+", a.idx, n))), e)
            return None
        if name in ("for_each", "transform", "copy", "accumulate", "inner_product", "count_if", "min_element", "max_element", "minmax_element", "find", "find_if", "find_if_not", "any_of", "all_of", "none_of"):
            a, b = self.ev(args[0]), self.ev(args[1])
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.vec is b.vec):
                self.bad(e, name)
            n = norm(op("-", b.idx, a.idx))
            rest = [self.ev(x) for x in args[2:]]

            def at(i):
                return Lv(a.vec, norm(op("+", a.idx, i)))
            if name in ("min_element", "max_element"):
                k = ("k", next(self.fresh))
                v = self.index(a.vec, op("+", a.idx, k))
                if rest:
                    self.bad(e, name + " with comparison")
                return Ptr(None, None, Cell((name[:3], ("none",), ("all", n, k, v))))
            if name in ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of"):
                if not isc(n) or n[1] > 64:
                    self.bad(e, name)
                stop = name not in ("find_if_not", "all_of")
                for i in range(n[1]):
                    if name == "find":
                        c = self.std_operator(dict(e, op="==", args=[dict(k="value", v=self.load(at(C(i)))), args[2]]), {}, "")
                    else:
                        c = self.call_value(rest[0], [at(C(i))], e)
                    c = self.known(truth(c))
                    if not isc(c):
                        self.bad(e, "%s: %s" % (name, show(c)))
                    if bool(c[1]) == stop:
                        return Ptr(a.vec, norm(op("+", a.idx, C(i)))) if name.startswith("find") else C(int(name == "any_of"))
                return b if name.startswith("find") else C(int(name != "any_of"))
            if name == "minmax_element":
                k = ("k", next(self.fresh))
                v = self.index(a.vec, op("+", a.idx, k))
                return Tup([Cell(Ptr(None, None, Cell((m, ("none",), ("all", n, k, v))))) for m in ("min", "max")])
            if name == "accumulate":
                acc = Cell(rest[0], args[2]["t"], "accumulator")

                def one(i):
                    x = self.load(at(i))
                    if len(rest) > 1:
                        self.set(acc, self.call_value(rest[1], [acc.v, x], e))
                    else:
                        self.set(acc, self.arith("+", acc.v, x, args[2]["t"], e))
            elif name == "inner_product":
                acc, other = Cell(rest[1], args[3]["t"], "accumulator"), self.iter(rest[0], e)
                if len(rest) > 2:
                    self.bad(e, name + " with other operations")

                def one(i):
                    x, y = self.load(at(i)), self.index(other.vec, op("+", other.idx, i))
                    self.set(acc, self.arith("+", acc.v, self.arith("*", x, y, e["t"], e), args[3]["t"], e))
            elif name == "count_if":
                acc = Cell(C(0), "long", "accumulator")

                def one(i):
                    c = truth(self.call_value(rest[0], [at(i)], e))
                    self.set(acc, op("+", acc.v, ite(c, C(1), C(0))))
            elif name == "for_each":
                def one(i):
                    self.call_value(rest[0], [at(i)], e)
            else:
                def one(i):
                    x = [self.load(at(i))]
                    dst = rest[0]
                    fnv = rest[-1]
                    if name == "transform" and len(rest) == 3:
                        s2 = rest[0]
                        x.append(self.index(s2.vec, op("+", s2.idx, i)))
                        dst = rest[1]
                    v = self.call_value(fnv, x, e) if name == "transform" else x[0]
                    if dst.idx == ("inserter",):
                        self.push(dst.vec, v)
                    else:
                        self.store(dst.vec, op("+", dst.idx, i), v, e)
            if isc(n) and n[1] <= 32:
                for i in range(n[1]):
                    one(C(i))
            else:
                k = ("k", next(self.fresh))
                self.summarise(e, k, n, lambda: one(k))
            return acc.v if name in ("accumulate", "inner_product", "count_if") else (rest[-1] if name == "for_each" else None)
        if name in ("generate", "generate_n", "fill", "fill_n"):
            a = self.ev(args[0])
            if not isinstance(a, Ptr) or a.vec is None:
                self.bad(e, name)
            n = self.ev(args[1])
            n = norm(n) if term(n) else norm(op("-", n.idx, a.idx))
            src = self.ev(args[2])

            def one(i):
                v = self.call_value(src, [], e) if name.startswith("generate") else src
                if a.idx == ("inserter",):
                    self.push(a.vec, v)
                else:
                    self.store(a.vec, op("+", a.idx, i), v, e)
            if isc(n) and n[1] <= 32:
                for i in range(n[1]):
                    one(C(i))
            else:
                k = ("k", next(self.fresh))
                self.summarise(e, k, n, lambda: one(k))
            return None
        self.bad(e, "std::%s" % name)


class Manip:
    def __init__(self, what, v):
        self.what, self.v = what, v

    def apply(self, ev, st):
        if self.what == "base":
            ev.set(st.base, self.v)
        elif self.what == "prec":
            ev.set(st.prec, self.v)
        elif self.what == "flags":
            if isc(self.v):
                ev.numeric_flags(st, self.v[1], "setf")
        elif self.what == "width":
            ev.set(st.width, self.v)
        elif self.what == "fill":
            ev.set(st.fill, self.v)


class Choice:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def map(self, f):
        a, b = f(self.a), f(self.b)
        if term(a) and term(b):
            return ite(self.c, a, b)
        return Choice(self.c, a, b)


def characters(s):
    """the characters of a string whose length is known, or None"""
    out = []
    for p in s[1]:
        if isinstance(p, str):
            out += list(p)
        elif p[0] == "char":
            out.append(p)
        else:
            return None
    return out


def element_type(t):
    """first template argument"""
    i = t.find("<")
    d = 0
    for j in range(i + 1, len(t)):
        d += (t[j] == "<") - (t[j] == ">")
        if d < 0 or d == 0 and t[j] == ",":
            return t[i + 1:j].strip()
    return ""


def reads(c):
    return bool(atoms(c, lambda a: a[0] in ("ok", "eof")))


def mentions_any(e, l):
    if isinstance(e, (tuple, list)):
        return e in l or any(mentions_any(x, l) for x in e)
    return False


def strip(e):
    while term(e) and e[0] == "cast" and WIDTH.get(e[1], 0) >= 16:
        e = e[2]
    return e


def fconst(s):
    try:
        return C(Fraction(s))
    except (ValueError, ZeroDivisionError):
        return ("s", s)


def show(e):
    if isinstance(e, (tuple, list)):
        if len(e) == 2 and e[0] == "c":
            return str(e[1])
        if e and e[0] == "op" and len(e) == 4:
            return "(%s %s %s)" % (show(e[2]), e[1], show(e[3]))
        if e and e[0] == "elem":
            return "%s[%s]" % (e[1] if isinstance(e[1], str) else show(e[1]), show(e[2]))
        if e and e[0] == "k":
            return "k%s" % e[1]
        if e and e[0] == "s":
            return str(e[1])
        if e and e[0] == "size":
            return "|%s|" % (e[1],)
        return "(" + ", ".join(show(x) for x in e) + ")"
    return repr(e) if not isinstance(e, str) else e


def dump(ctx, src, flags=()):
    """syntax tree of a translation unit"""
    r = sh([engine("astq"), src, REPO, "--", "-std=c++11", "-w", "-I" + INC, "-I" + DIAG, *flags])
    return json.loads(r.stdout)
