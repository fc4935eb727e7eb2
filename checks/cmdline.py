"""P29: the command line of the programs. Words are texts with free parts: nonempty, without '=' and ','
and not the name of an option, otherwise arbitrary; positions in them are linear in the lengths of the free parts."""
from flow import *
from persist import Sub, load

SPECIAL = "".join(chr(c) for c in range(1, 128) if not chr(c).isalnum() and chr(c) not in "_./")
END = C((1 << 64) - 1)


def free(n):
    return ("free", n, "nonempty")


def tokens(s):
    """characters and free parts with their positions; None if something else is in it"""
    out, at = [], C(0)
    for p in s[1]:
        for x in p if isinstance(p, str) else (p,):
            out.append((at, x))
            if isinstance(x, str) or x[0] in ("char", "letter"):
                at = norm(op("+", at, C(1)))
            elif x[0] in ("free", "head"):
                at = norm(op("+", at, ("size", x) if x[0] == "free" else C(x[2])))
            else:
                return None, None
    return out, at


class Map(Vec):
    """associative container: a vector of pairs with different keys"""


def narrowed(v):
    """positions are below 2^31; -1 stands for none"""
    while term(v) and v[0] == "cast":
        v = v[2]
    return v


class Stop(Exception):
    pass


def settled(c):
    """comparison of positions: every free part has 1 to 2^20 characters"""
    if c[0] == "op" and c[1] in ("==", "!=") and len(c) == 4 and any(x[0] in ("free", "letter") for x in c[2:]) and any(isc(x) and chr(x[1] & 127) in SPECIAL for x in c[2:]):
        return C(int(c[1] == "!="))
    if c[0] == "op" and c[1] in ("<", ">", "<=", ">=", "==", "!=") and len(c) == 4:
        d = lin(("op", "-", c[2], c[3]))
        if all(k == 1 or term(k) and k[0] == "size" and term(k[1]) and k[1][0] == "free" for k in d):
            lo = sum(v * (1 if k == 1 or v > 0 else 1 << 20) for k, v in d.items())
            hi = sum(v * (1 if k == 1 or v < 0 else 1 << 20) for k, v in d.items())
            for s in (-1, 0, 1):
                if (lo > 0, lo == hi == 0, hi < 0)[1 - s]:
                    return op(c[1], C(s), C(0))
            if c[1] in ("<", ">=") and lo >= 0:
                return C(int(c[1] == ">="))
            if c[1] in (">", "<=") and hi <= 0:
                return C(int(c[1] == "<="))
    return c


class Words(Ev):
    def __init__(self, prog):
        Ev.__init__(self, prog)
        self.decide = settled

    def equal(self, a, b, e):
        """free parts begin with a character that no option name has in that place"""
        if a == b:
            return True
        (ta, _), (tb, _) = tokens(a), tokens(b)
        if ta is None or tb is None:
            self.bad(e, "comparison of %s with %s" % (show(a), show(b)))
        ta, tb = [x for _, x in ta], [x for _, x in tb]
        for x, y in zip(ta, tb):
            if x != y:
                if isinstance(x, str) or isinstance(y, str):
                    return False
                self.bad(e, "comparison of %s with %s" % (show(a), show(b)))
        return len(ta) == len(tb)

    def place(self, tok, total, pos):
        pos = norm(narrowed(pos))
        for j, (at, _) in enumerate(tok):
            if at == pos:
                return j
        return len(tok) if pos == total else None

    def part(self, tok, total, vals, e):
        pos = narrowed(vals[0]) if vals else C(0)
        if self.known(op(">", pos, total)) == TRUE or isc(norm(pos)) and norm(pos)[1] < 0:
            return ("dead",)
        a = self.place(tok, total, pos)
        b = len(tok)
        if len(vals) > 1 and vals[1] not in (END, C(-1)):
            end = norm(op("+", pos, narrowed(vals[1])))
            b = self.place(tok, total, end)
            if b is None and self.known(op(">=", end, total)) == TRUE:
                b = len(tok)
            if b is None:
                # ends inside a free part, at a known distance from its beginning
                for j, (at, x) in enumerate(tok):
                    d = norm(op("-", end, at))
                    if not isinstance(x, str) and x[0] == "free" and isc(d) and d[1] > 0 and a is not None and a <= j:
                        return S(*([y for _, y in tok[a:j]] + [("head", x, d[1])]))
        if a is None or b is None:
            self.bad(e, "part of a word")
        return S(*(x for _, x in tok[a:b]))

    def search(self, tok, total, name, vals, e):
        pat = chr(vals[0][1]) if isc(vals[0]) else text(vals[0])
        if len(vals) > 2 and isc(vals[2]) and pat is not None:
            pat = pat[:vals[2][1]]
        several = name.startswith("find_")
        if not pat or "not" in name or any(not isinstance(x, str) for _, x in tok) and not (set(pat) <= set(SPECIAL) if several else pat[0] in SPECIAL):
            self.bad(e, "search of %r" % pat)
        pos = vals[1] if len(vals) > 1 else None
        back = name in ("rfind", "find_last_of")
        if pos in (END, C(-1)):
            pos = None if back else total
        if pos is not None:
            if self.known(op(">", narrowed(pos), total)) == TRUE or isc(norm(narrowed(pos))) and norm(narrowed(pos))[1] < 0:
                pos = total
            where = self.place(tok, total, pos)
            if where is None:
                # after the first character of a free part
                where = self.place(tok, total, op("-", narrowed(pos), C(1)))
                if back or where is None or where == len(tok) or isinstance(tok[where][1], str):
                    self.bad(e, "search from inside a word")
                where += 1
            pos = where
        rng = range(pos or 0, len(tok)) if not back else range(len(tok) - 1 if pos is None else min(pos, len(tok) - 1), -1, -1)
        for j in rng:
            if isinstance(tok[j][1], str) and (tok[j][1] in pat if several else [x for _, x in tok[j:j + len(pat)]] == list(pat)):
                return tok[j][0]
        return END

    def str_call(self, e, s, name, args):
        if name in ("size", "length", "empty", "substr", "find", "rfind", "find_first_of", "find_last_of", "compare", "operator[]", "at", "front", "back"):
            tok, total = tokens(s)
            if tok is not None:
                vals = [self.ev(a) for a in args if not (a["k"] == "construct" and "allocator" in a["rec"])]
                if name in ("size", "length"):
                    return total
                if name == "empty":
                    return op("==", total, C(0))
                if name == "substr":
                    return self.part(tok, total, vals, e)
                if name == "compare":
                    if len(vals) > 1:
                        return C(int(not self.equal(self.part(tok, total, vals[:2], e), vals[2], e)))
                    return C(int(not self.equal(s, vals[0], e)))
                if name in ("operator[]", "at", "front", "back"):
                    pos = C(0) if name == "front" else op("-", total, C(1)) if name == "back" else vals[0]
                    j = self.place(tok, total, pos)
                    if j == len(tok) and name == "operator[]":
                        return C(0)
                    if j is not None and j < len(tok) and tok[j][1][0] == "letter":
                        return tok[j][1]
                    if j is None or j == len(tok) or not isinstance(tok[j][1], str):
                        self.bad(e, "character of a word")
                    return C(ord(tok[j][1]))
                return self.search(tok, total, name, vals, e)
        if name in ("erase", "assign", "resize", "pop_back", "insert", "replace"):
            tok, total = tokens(s)
            if tok is not None:
                vals = [self.ev(a) for a in args]
                new = None
                if name == "pop_back":
                    new = self.part(tok, total, [C(0), op("-", total, C(1))], e)
                elif name == "resize" and len(vals) == 1:
                    new = self.part(tok, total, [C(0), vals[0]], e) if self.known(op("<=", vals[0], total)) == TRUE else None
                elif name == "assign" and isinstance(vals[0], tuple) and vals[0][0] == "str":
                    new = self.part(*tokens(vals[0]), ([C(0)] if len(vals) == 2 and "char *" in args[0]["t"] else []) + vals[1:], e) if tokens(vals[0])[0] is not None else None
                elif name == "erase" and all(term(v) for v in vals):
                    at = vals[0] if vals else C(0)
                    rest = self.part(tok, total, [op("+", at, vals[1])], e) if len(vals) > 1 and vals[1] not in (END, C(-1)) and self.known(op("<=", op("+", at, vals[1]), total)) == TRUE else S()
                    new = S(*(self.part(tok, total, [C(0), at], e)[1] + rest[1]))
                if new is None or new == ("dead",):
                    self.bad(e, "string::%s" % name)
                loc = self.lv(e["obj"])
                self.assign(loc, new, e)
                return loc
        return Ev.str_call(self, e, s, name, args)

    def std_operator(self, e, fn, q):
        o, args = e["op"], e["args"]
        if o == "[]":
            a = self.ev(args[0])
            if isinstance(a, Map):
                return self.entry(a, self.ev(args[1]), S(), e)
            if isinstance(a, tuple) and a and a[0] == "str":
                return self.str_call(dict(e, obj=args[0]), a, "operator[]", args[1:])
        if o in ("==", "!=") and len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            if all(isinstance(x, tuple) and x and x[0] == "str" for x in (a, b)):
                return C(int(self.equal(a, b, e) == (o == "==")))
        return Ev.std_operator(self, e, fn, q)

    def std_construct(self, e, rec, q):
        if q in ("std::map", "std::unordered_map"):
            if e["args"] and not isinstance(self.ev(e["args"][0]), Map):
                self.bad(e, "map from something")
            return Map(self.ev(e["args"][0]).c.v if e["args"] else (), rec)
        if q == "std::basic_string" and e["args"] and "char *" in e["args"][0]["t"] and self.ev(e["args"][0]) == ("null",):
            raise Undefined("%s:%s: a string is made of a null pointer" % (e.get("f", "?"), e.get("l", "?")))
        if q == "std::basic_string" and len(e["args"]) >= 2:
            a = self.ev(e["args"][0])
            if isinstance(a, tuple) and a and a[0] == "str" and "allocator" not in e["args"][1]["t"]:
                tok, total = tokens(a)
                if tok is not None:
                    vals = [self.ev(x) for x in e["args"][1:] if "allocator" not in x["t"]]
                    return self.part(tok, total, ([C(0)] if len(vals) == 1 and "char *" in e["args"][0]["t"] else []) + vals, e)
        return Ev.std_construct(self, e, rec, q)

    def default(self, o, rec):
        Ev.default(self, o, rec)
        for f in self.p.rec.get(rec, {}).get("fields", []):
            if re.match(r"std::(unordered_)?map<", f["t"]) and not isinstance(o.cell(f["name"]).v, Map):
                o.cell(f["name"]).v = Map((), f["t"], f["name"])
        return o

    def copy(self, x):
        return Map(x.c.v, x.et, x.name) if isinstance(x, Map) else Ev.copy(self, x)

    def key(self, m, k, e):
        for j, g in enumerate(m.c.v):
            if self.equal(g[1].items[0].v, k, e):
                return j
        return None

    def entry(self, m, k, v, e):
        j = self.key(m, k, e)
        if j is None:
            j = len(m.c.v)
            self.push(m, Tup([Cell(k), Cell(v)]))
        return m.c.v[j][1].items[1]

    def vec_call(self, e, v, name, args):
        if not isinstance(v, Map):
            return Ev.vec_call(self, e, v, name, args)
        if name in ("find", "count", "contains", "erase", "at"):
            k = self.ev(args[0])
            if isinstance(k, Ptr) and name == "erase":
                j = k.idx[1]
            else:
                j = self.key(v, k, e)
            if name == "find":
                return Ptr(v, C(len(v.c.v) if j is None else j))
            if name == "at":
                return v.c.v[j][1].items[1] if j is not None else ("dead",)
            if name == "erase" and j is not None:
                self.set(v.c, v.c.v[:j] + v.c.v[j + 1:])
            return C(int(j is not None))
        if name in ("insert", "emplace", "insert_or_assign"):
            x = self.ev(args[0]) if len(args) == 1 else Tup([Cell(self.ev(a)) for a in args])
            if isinstance(x, list):
                x = Tup([Cell(y) for y in x])
            if not isinstance(x, Tup):
                self.bad(e, "insertion of %r" % (x,))
            k = x.items[0].v
            j = self.key(v, k, e)
            c = self.entry(v, k, x.items[1].v, e)
            if name == "insert_or_assign":
                self.set(c, x.items[1].v)
            return Tup([Cell(Ptr(v, C(len(v.c.v) - 1 if j is None else j))), Cell(C(int(j is None)))])
        if name in ("size", "empty", "begin", "end", "cbegin", "cend", "clear", "operator="):
            return Ev.vec_call(self, e, v, name, args)
        self.bad(e, "map::%s" % name)

    def range_stmt(self, s):
        r = self.ev(s["range"])
        if isinstance(r, tuple) and r and r[0] == "str" and tokens(r)[0] is not None:
            # a free part stands for all its characters
            v = Vec(tuple(("one", C(ord(x)) if isinstance(x, str) else x) for _, x in tokens(r)[0]), "char", "characters")
            s = dict(s, range=dict(k="value", v=v), var=dict(s["var"], ref=False))
        return Ev.range_stmt(self, s)

    # a list read with getline
    def okay(self, st):
        return C(int(not st.over.v)) if hasattr(st, "over") else Ev.okay(self, st)

    def method_call(self, e, fn, q, k, obj):
        name, args = fn["name"], e["args"]
        if name == "getline" and k == "call":
            st = self.ev(args[0])
            if isinstance(st, Stream) and isinstance(st.target, tuple) and st.target and st.target[0] == "str" and tokens(st.target)[0] is not None:
                if not hasattr(st, "over"):
                    st.over, st.at = Cell(False, "", "read"), Cell(0, "", "read")
                tok = tokens(st.target)[0]
                sep = self.ev(args[2]) if len(args) > 2 else C(10)
                if st.at.v >= len(tok):
                    self.set(st.over, True)
                    return st
                j = st.at.v
                while j < len(tok) and tok[j][1] != chr(sep[1]):
                    if not isinstance(tok[j][1], str) and chr(sep[1]) not in SPECIAL:
                        self.bad(e, "getline up to %r" % chr(sep[1]))
                    j += 1
                self.assign(self.lv(args[1]), S(*(x for _, x in tok[st.at.v:j])), e)
                self.set(st.at, j + 1)
                return st
        if name in ("strcmp", "strncmp") and k == "call":
            a, b = self.ev(args[0]), self.ev(args[1])
            if name == "strncmp":
                n = self.ev(args[2])
                a, b = [self.part(*tokens(x), [C(0), n], e) for x in (a, b)]
            return C(int(not self.equal(a, b, e)))
        if name == "strlen" and k == "call":
            tok, total = tokens(self.ev(args[0]))
            if tok is not None:
                return total
        return Ev.method_call(self, e, fn, q, k, obj)


# ---------------------------------------------------------------- options

TABLES = {"progs/vdtArithmBenchmark.cpp": {"-h": "--help", "-n": "--nick", "-s": "--size"},
          "progs/vdtArithmComparison.cpp": {"-h": "--help", "-n": "--nick", "-R": "--reference", "-T": "--test"},
          "progs/vdtPerfBenchmark.cpp": {"-h": "--help", "-n": "--nick", "-s": "--size", "-r": "--repetitions", "-M": "--pool_max", "-m": "--pool_min", "-p": "--pattern"}}


def arguments(i):
    """kinds of arguments an option may be given"""
    a, b = free("a%d" % i), free("b%d" % i)
    return [None, S(""), S(a), S(a, "=", b), S("=", a), S(a, ",", b), S("-n"), S("--help"), S(a, "="), S(",")]


def given(name, arg):
    return S(name) if arg is None else S(name, "=", *arg[1])


class Line:
    """one program: its option object at the moment the command line is read"""

    def __init__(self, prog, entry):
        self.p = prog
        self.ev = Words(prog)
        main = [f for f in prog.fn.values() if f["name"] == entry]
        if len(main) != 1:
            raise Broken("no function %s" % entry)
        self.found = None

        def hook(fn, e):
            if fn["q"] == "CmdOptions::parseCmd" and e is not None:
                def stop(ev):
                    self.found = ev.ev(e["obj"]), fn["id"]
                    raise Stop()
                return stop
        self.ev.hook = hook
        try:
            self.ev.invoke(main[0], [], None, values=[("s", x["name"]) for x in main[0]["params"]])
        except Stop:
            pass
        if not self.found or not isinstance(self.found[0], Obj):
            raise Broken("%s does not read its command line through CmdOptions" % entry)
        self.ev.hook = None
        self.ev.deep = 0
        self.obj, self.parse = self.found[0], prog.fn[self.found[1]]

    def method(self, name):
        r = [f for f in self.p.fn.values() if f["q"] == "CmdOptions::" + name] if self.p.fn else []
        if len(r) != 1:
            raise Broken("CmdOptions::%s" % name)
        return r[0]

    def call(self, name, *values):
        f = self.method(name)
        env = [Cell(v, p["t"], p["name"]) for v, p in zip(values, f["params"])]
        for p in f["params"][len(values):]:
            env.append(Cell(self.ev.ev(p["default"]), p["t"], p["name"]))
        return self.ev.invoke(f, [], self.obj, values=env)

    def read(self, words, options):
        """-> accepted, {option: argument or None}, text printed"""
        m = len(self.ev.journal)
        deep, env, this, ret, loop = self.ev.deep, self.ev.env, self.ev.this, self.ev.rettype, self.ev.loop
        try:
            argv = Vec(tuple(("one", w) for w in [S("program")] + words) + (("one", ("null",)),), "char *", "argv")
            ok = self.ev.invoke(self.parse, [], self.obj, values=[C(len(words) + 1), argv])
            if not term(ok) or not isc(ok):
                raise Unsupported("result of parseCmd: %s" % show(ok))
            out = {}
            if ok[1]:
                for o in options:
                    s, a = self.call("isSet", S(o)), self.call("getArgument", S(o))
                    if not isc(s):
                        raise Unsupported("isSet: %s" % show(s))
                    out[o] = (bool(s[1]), a)
            printed = "".join(str(x[1]) for c in self.ev.globals.values() if isinstance(c.v, Stream) for x in flatten(c.v.ev.v))
            return bool(ok[1]), out, printed
        finally:
            self.ev.undo(m)
            self.ev.deep, self.ev.env, self.ev.this, self.ev.rettype, self.ev.loop = deep, env, this, ret, loop


def flatten(evs):
    for e in evs:
        if e[0] == "lit":
            yield e
        elif len(e) > 1 and term(e[1]) and e[1][0] == "str":
            yield ("lit", "".join(p for p in e[1][1] if isinstance(p, str)))


def lines(table):
    """(words, meaning): meaning {option: argument} for a line to be accepted, None for one to be rejected"""
    opts = [(s, n) for s, l in table.items() for n in (s, l)]
    yield [], {}
    for s, n in opts:
        for a in arguments(1):
            yield [given(n, a)], {s: a}
    pair = [None, S(free("a1")), S(free("a1"), "=", free("b1"))]
    for s, n in opts:
        for t, m in opts:
            for a in pair:
                w = [given(n, a), given(m, S(free("second")))]
                yield w, None if s == t else {s: a, t: S(free("second"))}
    shorts = list(table)
    for i, a in enumerate(shorts):
        for b in shorts:
            for c in shorts:
                if len({a, b, c}) == 3:
                    yield [given(a, S(free("a1"))), given(table[b], S(free("a2"))), given(c, S(free("a3")))], {a: S(free("a1")), b: S(free("a2")), c: S(free("a3"))}
                if b != a and c == a:
                    yield [given(a, S(free("a1"))), given(b, S(free("a2"))), given(table[c], S(free("a3")))], None
    every = [given(s if i % 2 else table[s], S(free("a%d" % i))) for i, s in enumerate(shorts)]
    yield every, {s: S(free("a%d" % i)) for i, s in enumerate(shorts)}
    x = free("word")
    names = set(table) | set(table.values())
    begins = sorted({n[:i] for n in names for i in range(len(n) + 1)})
    # every word that is no name: one that leaves the names after p, or ends there
    wrong = [S(p, x) for p in begins] + [S(p) for p in begins if p not in names]
    for w in wrong:
        for v in (w, S(*w[1], "="), S(*w[1], "=", free("value")), S(*w[1], ",", free("value"))):
            yield [v], None
        yield [given(shorts[1], S(free("a1"))), w], None
        yield [w, given(shorts[1], S(free("a1")))], None
    # every set of options, then a word too many
    for bits in range(1 << len(shorts)):
        chosen = [s for i, s in enumerate(shorts) if bits >> i & 1]
        for order in (chosen, chosen[::-1]):
            line = [given(s if (i + bits) % 2 else table[s], S(free("a" + s))) for i, s in enumerate(order)]
            yield line, {s: S(free("a" + s)) for s in chosen}
            yield line + [wrong[bits % len(wrong)]], None
            for s in chosen:
                yield line + [given(table[s] if bits % 3 else s, S(free("again")))], None


def spelt(v, n):
    """the free parts of a word as n letters each"""
    if v is None:
        return None
    return S(*(y for x in v[1] for y in ([("letter", x[1], i) for i in range(n)] if not isinstance(x, str) and x[0] == "free" else [x])))


def cases(l, words, meaning, table, ctx):
    """the line as it is, or with parts of a few letters where the analysis depends on their lengths"""
    try:
        return [(words, meaning, l.read(words, table))]
    except Undefined:
        raise
    except Unsupported:
        ctx.count("lines_of_short_words")
        out = []
        for n in (1, 2, 3):
            w, m = [spelt(x, n) for x in words], meaning and {o: spelt(a, n) for o, a in meaning.items()}
            out.append((w, m, l.read(w, table)))
        return out


def say(w):
    return " ".join("".join(p if isinstance(p, str) else "<%s>" % (p[1] if p[0] == "free" else "%s%d" % (p[1], p[2]) if p[0] == "letter" else "%s cut" % p[1][1],) for p in x[1]) or "''" for x in w) or "no options"


def judge(ctx, where, words, meaning, result, table):
    """-> number of deviations"""
    ok, got, printed = result
    n = 0
    if ok != (meaning is not None):
        ctx.violation(where, "%s: the line is %s" % (say(words), "accepted" if ok else "rejected"))
        return 1
    if not ok:
        return 0
    for o in table:
        there, arg = got[o]
        want = meaning.get(o, None)
        if there != (o in meaning):
            ctx.violation(where, "%s: option %s counts as %s" % (say(words), o, "given" if there else "not given"))
            n += 1
        elif not (isinstance(arg, tuple) and arg and arg[0] == "str") or arg != (want if want is not None else S("")):
            ctx.violation(where, "%s: the argument of %s is %s" % (say(words), o, say([arg]) if term(arg) and arg[0] == "str" else show(arg)))
            n += 1
    if "-h" in meaning:
        ctx.count("help_texts")
        for s in table:
            if not re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(s), printed) or not re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(table[s]), printed):
                ctx.violation(where, "%s: the help does not name %s and %s" % (say(words), s, table[s]))
                return n + 1
    return n


def options(ctx, prog, where, entry, table):
    l = Line(prog, entry)
    n = 0
    for words, meaning in lines(table):
        ctx.count("command_lines")
        for w, m, r in cases(l, words, meaning, table, ctx):
            n += judge(ctx, where, w, m, r, table)
        if n > 3:
            break
    ctx.coverage["source_lines_interpreted"] = max(ctx.coverage.get("source_lines_interpreted", 0), len(l.ev.lines))


# ---------------------------------------------------------------- lists

def lists():
    f = [free("f%d" % i) for i in range(6)]
    yield S(""), []
    for n in range(1, 7):
        w = []
        for i in range(n):
            w += [f[i], ","]
        yield S(*w[:-1]), [S(x) for x in f[:n]]
        yield S(*w), [S(x) for x in f[:n]]
    yield S(f[0], ",,", f[1]), [S(f[0]), S(""), S(f[1])]
    yield S(",", f[0]), [S(""), S(f[0])]
    yield S(f[0], "=", f[1], ",", f[2]), [S(f[0], "=", f[1]), S(f[2])]
    yield S("a,bc,", f[0], ",d"), [S("a"), S("bc"), S(f[0]), S("d")]


def splitting(ctx, prog, where, fn=None):
    cand = [f for f in prog.fn.values() if f.get("body") and f["params"] and "basic_string" in f["params"][0]["t"] and not f["params"][0]["t"].startswith("std::vector")
            and not f["q"].startswith("std::") and "::" not in f["q"]
            and any("std::vector<std::basic_string" in t for t in [f.get("ret", "")] + [p["t"] for p in f["params"][1:2]]) and (fn is None or f["name"] == fn)]
    if len(cand) != 1:
        raise Broken("%s: %d functions split a list" % (where, len(cand)))
    f = cand[0]
    for s, want in lists():
        ctx.count("lists")
        try:
            made = [(s, want, made_list(prog, f, s))]
        except Undefined:
            raise
        except Unsupported:
            ctx.count("lists_of_short_names")
            made = [(spelt(s, n), [spelt(x, n) for x in want], made_list(prog, f, spelt(s, n))) for n in (1, 2, 3)]
        for s, want, gots in made:
            for got in gots:
                if got != want:
                    if ("dead",) in got:
                        raise Undefined("%s: the list %s makes the program stop with an exception" % (where, say([s])))
                    ctx.violation("%s, %s" % (where, f["name"]), "the list %s gives %s" % (say([s]), ", ".join(say([g]) for g in got) or "nothing"))
                    return


def made_list(prog, f, s):
    """what the list s is split into, in every case"""
    ev = Words(prog)
    old = Vec((("one", S("old")),), "", "list")
    vals = [Cell(s, f["params"][0]["t"], "list")]
    out = None
    for p in f["params"][1:]:
        if "std::vector" in p["t"]:
            out = Cell(old, p["t"], p["name"])
            vals.append(Cell(Ptr(None, None, out), p["t"], p["name"]) if p["t"].rstrip().endswith("*") else out)
        elif "default" in p:
            vals.append(Cell(ev.ev(p["default"]), p["t"], p["name"]))
        elif p["t"] in ("char", "const char"):
            vals.append(Cell(C(44), p["t"], p["name"]))
        else:
            raise Unsupported("parameter %s of %s" % (p["name"], f["name"]))
    r = ev.invoke(f, [], None, values=vals)
    v = out.v if out else r
    if not isinstance(v, Vec):
        raise Unsupported("list made by %s" % f["name"])
    gots = outcomes(v.c.v)
    if None in gots:
        raise Unsupported("list made by %s" % f["name"])
    return gots


def outcomes(segs):
    """contents that depend on the length of a part: the shorter and the longer case"""
    for j, g in enumerate(segs):
        if g[0] == "if":
            return [o for x in g[2:4] for o in outcomes(segs[:j] + x + segs[j + 1:])]
    return [[g[1] for g in segs] if all(g[0] == "one" for g in segs) else None]


def controls(ctx):
    src = os.path.join(VERIF, "selftest", "cmdline.cc")
    t = open(src).read()
    for c in re.findall(r"^namespace ((?:good|bad)\w*)", t, re.M):
        prog = load(ctx, control(ctx, t, c))
        sub = Sub()
        try:
            if "class CmdOptions" not in body(t, c):
                splitting(sub, prog, c)
            else:
                options(sub, prog, c, "main", {"-h": "--help", "-n": "--nick", "-x": "--extra"})
        except Unsupported as e:
            raise Broken("control %s: %s" % (c, e))
        if bool(sub.violations) != c.startswith("bad"):
            raise Broken("control %s: %s" % (c, sub.violations[:2] or "not noticed"))
        ctx.count("controls_confirmed")
    ctx.need("controls_confirmed", 14)


def body(t, c):
    return re.search(r"^namespace %s \{\n(.*?)^\}  // end$" % c, t, re.M | re.S).group(1)


def control(ctx, t, c):
    """translation unit of one control: the common head, the body of its namespace"""
    b = body(t, c)
    main = 'int main(int argc, char** argv) {\n  CmdOptions o;\n  o.addOption("-n", "--nick");\n  o.addOption("-x", "--extra");\n  return o.parseCmd(argc, argv) ? 0 : 1;\n}\n'
    p = os.path.join(ctx.tmp, c + ".cc")
    with open(p, "w") as f:
        f.write(t[:t.index("\nnamespace ") + 1] + b + (main if "class CmdOptions" in b else ""))
    return p


def check(ctx):
    controls(ctx)
    for where, table in TABLES.items():
        prog = load(ctx, os.path.join(REPO, where))
        options(ctx, prog, where, "main", table)
        if "Comparison" in where:
            splitting(ctx, prog, where)
    ctx.coverage["explanation"] = ("Value-flow analysis of the option class with the option tables the programs build, over words whose free parts stand for any text; positions in a word are linear terms "
                                   "in the lengths of its free parts. Every word form alone, every pair, triples and all options together; lists of up to six names.")
    ctx.assumptions += ["free parts of words are letters, digits and . / _ (words with '=', ',' and '-' are built from several parts; other characters are taken to be treated like letters)", "free parts of words have at most 2^20 characters",
                        "lines of up to three options, and all options at once"]
    if any(k in ctx.coverage for k in ("lines_of_short_words", "lists_of_short_names")):
        ctx.assumptions.append("where the code goes by the length of a free part: parts of one to three characters")
    if not ctx.violations:
        ctx.need("command_lines", 1500)
        ctx.need("lists", 15)
