"""P21: what the diagnostic classes write to a file is what they read back."""
from flow import *
from math import gcd

CLASSES = ["randomPool1D", "randomPool2D", "randomPool_old", "fcnResponse1D", "fcnResponse2D", "fcnResponse_old",
           "fcnComparison1D", "fcnComparison2D", "fcnComparison_old"]
TYPES = ["double", "float"]
N = ("size", "N")


class Mismatch(Exception):
    pass


class Sub:
    """verdicts on a control"""

    def __init__(self):
        self.violations, self.coverage = [], {}

    def violation(self, where, what):
        self.violations.append(what)

    def count(self, *a):
        pass


def brief(e):
    t = show(e)
    return t if len(t) < 160 else t[:150] + "..."


# the diagnostic headers are used after those of the standard library
STANDARD = "".join("#include <%s>\n" % h for h in ("algorithm", "cassert", "cmath", "cstdint", "cstring", "fstream", "functional", "iomanip", "iostream", "iterator", "limits", "memory", "random", "sstream", "string", "tuple", "utility", "vector"))


def driver(ctx):
    src = os.path.join(ctx.tmp, "diag.cc")
    with open(src, "w") as f:
        f.write(STANDARD + '#include "vdtdiag_random.h"\n#include "vdtdiag_fcnResponse.h"\n#include "vdtdiag_fcnComparison.h"\n')
        for c in CLASSES:
            for t in TYPES:
                f.write("template class %s<%s>;\n" % (c, t))
    return src


def load(ctx, src, extra=()):
    r = sh([engine("astq"), src, REPO + ":" + ctx.tmp + ":" + os.path.join(VERIF, "selftest"), "--", "-std=c++11", "-w", "-I" + INC, "-I" + DIAG, *extra])
    return Program(json.loads(r.stdout))


def argument(p):
    """symbolic argument for a constructor parameter"""
    t = re.sub(r"^const ", "", p["t"]).rstrip("& ")
    n = p["name"] or "arg"
    if "basic_string" in t:
        return S(("s", n))
    if "std::vector" in t:
        return Vec((("sym", n, N),), t, n)
    if "std::function" in t:
        return ("s", n)
    if t in ("unsigned long", "unsigned int", "unsigned long long"):
        return N
    return ("s", n)


def opaque_differences(fn, e):
    """the difference of two numbers (see P23) is only stored and printed here"""
    if fn["q"] == "vdth::diffbit" and e is not None:
        return lambda ev: ev.outside(("fn", fn["q"], fn["t"]), [ev.ev(a) for a in e["args"]], e)
    return None


def build(prog, f):
    ev = Ev(prog)
    ev.hook = opaque_differences
    o = Obj(f["rec"])
    ev.ctor(o, f, [], [argument(p) for p in f["params"]])
    return ev, o


def method(prog, rec, name):
    """method of a class or its bases"""
    for f in prog.fn.values():
        if f.get("rec") == rec and f["name"] == name and f.get("body"):
            return f
    r = prog.rec.get(rec, {})
    for b in r.get("bases", []):
        f = method(prog, b, name)
        if f:
            return f
    return None


# ---------------------------------------------------------------- text of a file

def periods(e, k):
    m = 1
    for a in atoms(e, lambda a: a[0] == "op" and len(a) == 4 and a[1] in ("mod", "idiv") and isc(a[3]) and mentions(a[2], k)):
        m = m * a[3][1] // gcd(m, a[3][1])
    return m


def unroll(segs, k, m, q):
    """m consecutive iterations k = m*q .. m*q+m-1 of a loop body"""
    out = []
    for r in range(m):
        out += fold(subst(list(segs), {k: norm(op("+", op("*", C(m), q), C(r)))}))
    return out


def fold(evs):
    out = []
    for e in evs:
        if e[0] == "if":
            c = e[1]
            if not isc(c):
                raise Unsupported("output under a condition: %s" % brief(c))
            out += fold(e[2] if c[1] else e[3])
        else:
            out.append(e)
    return out


def pieces(events):
    """literals split into lines; loops kept"""
    for e in events:
        if e[0] == "lit":
            for part in re.split(r"(\n)", e[1]):
                if part:
                    yield ("lit", part)
        else:
            yield e


def skip_lines(events, n):
    """rest of the file after n lines"""
    ps = list(pieces(events))
    i = 0
    while n:
        if i >= len(ps):
            raise Mismatch("the file has fewer lines than the reader skips")
        e = ps[i]
        if e == ("lit", "\n"):
            n -= 1
        elif e[0] in ("rep", "rdbuf"):
            raise Mismatch("the reader skips lines that hold data")
        i += 1
    return ps[i:]


def tokens(events):
    """white-space separated tokens: ('num', kind, type, base, prec, flags, value) with hex prefix, loops as ('rep', n, k, tokens)"""
    out = []
    glued = False          # the previous character is not white space
    prefix = ""
    for e in events:
        if e[0] == "lit":
            for part in re.split(r"(\s+)", e[1]):
                if not part:
                    continue
                if part.isspace():
                    if prefix:
                        out.append(("text", prefix))
                        prefix = ""
                    glued = False
                elif glued:
                    raise Mismatch("the text %r is joined to the number before it" % part)
                else:
                    prefix += part
        elif e[0] in ("num", "char", "sym"):
            before = after = False
            if e[0] == "num":
                before, after = padding(e, prefix)
                e = e[:7]
            if glued and not before:
                raise Mismatch("two numbers are written without a separator")
            if prefix and not (prefix in ("0x", "0X") and e[0] == "num"):
                raise Mismatch("the text %r is joined to the number after it" % prefix)
            out.append(e + (prefix,))
            prefix = ""
            glued = not after
        elif e[0] == "rep":
            if len(e) > 4:
                e = e[:3] + (merged(e[3], e[4]),)
            m = periods(e[3], e[2])
            q = ("k", "q%s" % (e[2][1],))
            cnt = op("idiv", e[1], C(m)) if m > 1 else e[1]
            if cnt[0] == "op" and cnt[1] == "idiv":
                raise Mismatch("the number of tokens written is not a multiple of %d" % m)
            body = unroll(e[3], e[2], m, q)
            toks, left = tokens_open(body)
            if glued and not left[0]:
                raise Mismatch("two numbers are written without a separator")
            if not left[0] and not left[1]:
                raise Mismatch("the numbers of consecutive records are written without a separator")
            out.append(("rep", norm(cnt), q, toks))
            glued = not left[1]
        elif e[0] == "if":
            raise Unsupported("output under a condition: %s" % brief(e[1]))
        else:
            raise Unsupported("file contents %s" % (e[0],))
    if prefix:
        out.append(("text", prefix))
    return out


def padding(e, prefix):
    """whether white space surely precedes / follows a number because of its field width"""
    w, fill = e[7:]
    if w == C(0):
        return False, False
    if not isc(w) or not isc(fill):
        raise Unsupported("field width %s filled with %s" % (brief(w), brief(fill)))
    left = "left" in e[5]
    if fill == C(32):
        if prefix and not left and w[1] > 1:
            raise Mismatch("the text %r is separated from its number by a field width" % prefix)
        size = (WIDTH[e[2]] // 4 if e[3] == C(16) else 20) + 2 if e[1] == "int" else 30 + (e[4][1] if isc(e[4]) else 400)
        return (False, w[1] > size) if left else (w[1] > size, False)
    if fill == C(48) and e[1] == "int" and not left and e[3] == C(16):
        return False, False                    # leading zeros
    raise Mismatch("the number is filled up with %r" % chr(fill[1] & 255))


def merged(first, later):
    """events of a record for which the first and the later records differ in their formats: the less precise of both"""
    if len(first) != len(later):
        raise Mismatch("the records after the first one are written differently")
    out = []
    for a, b in zip(first, later):
        if a[0] == b[0] == "num" and a[:3] == b[:3] and a[6] == b[6]:
            for i, what in ((3, "base"), (7, "width"), (8, "fill")):
                if a[i] != b[i] and (i != 3 or a[1] == "int"):
                    raise Mismatch("%s is written in %s %s in the first record and %s %s in the others" % (brief(a[6]), what, brief(a[i]), what, brief(b[i])))
            prec = a[4] if a[4] == b[4] else min(a[4], b[4]) if isc(a[4]) and isc(b[4]) else ("s", "precision")
            out.append(a[:4] + (prec, tuple(sorted(set(a[5]) | set(b[5])))) + a[6:])
        elif a == b:
            out.append(a)
        elif a[0] == b[0] == "rep" and a[1:3] == b[1:3]:
            out.append(a[:3] + (merged(a[-1], b[-1]),))
        else:
            raise Mismatch("the records after the first one are written differently")
    return tuple(out)


def tokens_open(body):
    """tokens of a loop body and whether it starts / ends with white space"""
    first = next((e for e in body if not (e[0] == "lit" and not e[1])), None)
    last = body[-1] if body else None
    if first is None:
        return [], (True, True)
    return tokens(body), (first[0] == "lit" and first[1][0].isspace(), last[0] == "lit" and last[1][-1].isspace())


def decode(tok, rd):
    """value of one read applied to one written token"""
    _, kind, t, base, _ = rd
    if tok[0] == "char":
        raise Mismatch("a number is written as a single character: %s" % brief(tok[1]))
    if tok[0] != "num":
        raise Mismatch("text where a number is read")
    _, wk, wt, wb, prec, flags, v, prefix = tok
    if kind == "int":
        if wk != "int":
            raise Mismatch("a decimal fraction is read as an integer")
        b = 16 if prefix else 10
        if wb == C(16) and "showbase" in flags:
            prefix = "0x"
        if (wb == C(16)) != (base == C(16)):
            raise Mismatch("%s is written in base %s and read in base %s" % (brief(v), brief(wb), brief(base)))
        if prefix and base != C(16):
            raise Mismatch("a 0x prefix is read in base %s" % brief(base))
        if wb not in (C(10), C(16)):
            raise Mismatch("base %s" % brief(wb))
        if WIDTH[t] < WIDTH[wt]:
            return cast(t, v)
        if WIDTH[t] == WIDTH[wt] and not t.startswith("unsigned") and (wb == C(16) or wt.startswith("unsigned")) and atoms(v, lambda a: a[0] == "bits"):
            raise Mismatch("%s is written as a number of %d bits without sign and read as %s, so that large values are refused" % (brief(v), WIDTH[wt], t))
        return v
    if kind == "float":
        if wk == "int":
            if wb != C(10):
                raise Mismatch("an integer written in base %s is read as a decimal number" % brief(wb))
            return v
        if "hexfloat" in flags:
            raise Mismatch("hexadecimal floating point text cannot be read back by >>")
        need = {24: 9, 53: 17, 64: 21}[FLOATS[wt]]
        if isc(prec) and "fixed" not in flags and prec[1] >= need - ("scientific" in flags) and FLOATS[t] >= FLOATS[wt]:
            return v
        return ("rounded", v)
    raise Mismatch("a number is read as %s" % kind)


# ---------------------------------------------------------------- the reader

def reader_plan(st):
    """(lines skipped, reads before the loop, loop id, k, reads of one iteration)"""
    lines, before, loop = 0, [], None
    for e in st.ev.v:
        if loop is not None:
            raise Unsupported("reads after the reading loop")
        if e[0] == "getline":
            if before:
                raise Unsupported("line read after numbers")
            lines += 1
        elif e[0] == "read":
            before.append(e)
        elif e[0] == "until":
            if e[3][0] == ("getline",) and not before and lines:
                # one line per record
                e = e[:3] + (e[3][1:], "lines")
            if any(x[0] != "read" for x in e[3]):
                raise Unsupported("reading loop with %s" % e[3][0][0])
            loop = e
        elif e[0] == "rep":
            raise Unsupported("numbers read in a counted loop")
        else:
            raise Unsupported("input event %s" % e[0])
    return lines, before, loop


def whole_lines(events, loop):
    """records read line by line are written one to a line"""
    if loop is None or len(loop) < 5:
        return
    for e in events:
        if e[0] == "rep":
            for body in e[3:]:
                t = "".join(x[1] if x[0] == "lit" else "?" if x[0] in ("num", "sym", "char") else "\n\n" for x in body)
                if t.count("\n") != 1 or t[-1] != "\n":
                    raise Mismatch("a line is read per record, but a record is not written as one line")


def value_map(before, loop, toks):
    """written value of every token read; -> (fixed map, per-loop (count, q, iterations, map))"""
    pos = 0
    m = {}
    for rd in before:
        if pos >= len(toks) or toks[pos][0] == "rep":
            raise Mismatch("%d numbers precede the records in the file, %d are read before the loop" % (pos, len(before)))
        m[rd[4]] = decode(toks[pos], rd)
        pos += 1
    rest = toks[pos:]
    if loop is None:
        return m, None
    if not rest or rest[0][0] != "rep":
        raise Mismatch("%d numbers precede the records in the file, %d are read before the loop" % (len([t for t in toks if t[0] != "rep"]), len(before)))
    if len(rest) > 1:
        raise Mismatch("the file goes on after the records")
    _, count, q, body = rest[0]
    R, W = len(loop[3]), len(body)
    if any(t[0] == "rep" for t in body):
        raise Unsupported("nested records")
    if R == 0 or W % R:
        raise Mismatch("records of %d numbers are written but %d are read at a time" % (W, R))
    its = []
    for j in range(W // R):
        mm = {}
        for i, rd in enumerate(loop[3]):
            mm[rd[4]] = decode(body[j * R + i], rd)
        its.append(mm)
    return m, (count, q, its)


def appended(segs, loop, its, q):
    """values a reading loop appends to a vector per record"""
    out = []
    n = len(its)
    for g in segs:
        if g[0] == "stale":
            raise Mismatch("after the last record one more value is appended (%s)" % brief(g[2]))
        if g[0] != "until" or g[1] != loop[1]:
            raise Mismatch("contents that do not come from the file")
        for j in range(n):
            k = norm(op("+", op("*", C(n), q), C(j)))
            body = subst(list(g[3]), {g[2]: k})
            for x in fold_records(body):
                if x[0] != "one":
                    raise Unsupported("append in a reading loop")
                out.append(subst(x[1], its[j]))
    return out


def fold_records(evs):
    try:
        return fold(evs)
    except Unsupported as e:
        raise Mismatch("records are taken apart irregularly: %s" % e)


def where(prog, f, line=None):
    return "%s:%s" % (os.path.relpath(f["file"], REPO), line or f["line"])


def one_class(ctx, prog, rec, notes):
    ctors = [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and f.get("params")]
    isfile = lambda f: len(f["params"]) == 1 and "basic_string" in f["params"][0]["t"]
    readers = [f for f in ctors if isfile(f)]
    fresh = [f for f in ctors if len([p for p in f["params"] if "default" not in p]) > 1]
    wf = method(prog, rec, "writeFile")
    if len(readers) != 1 or not fresh or not wf:
        raise Broken("%s: %d reading and %d other constructors" % (rec, len(readers), len(fresh)))
    rf = readers[0]
    before_ = len(ctx.violations)
    rev, robj = build(prog, rf)
    ins = [s for s in getattr(rev, "streams", []) if s.kind == "in"]
    if len(ins) != 1:
        raise Unsupported("%s: %d input streams" % (rec, len(ins)))
    if ins[0].target != S(("s", rf["params"][0]["name"])):
        ctx.violation(where(prog, rf), "%s reads from a file other than the one named" % rec)
        return
    lines, before, loop = reader_plan(ins[0])
    for f in fresh:
        label = "%s(%s)" % (rec, ", ".join(p["name"] for p in f["params"]))
        ev, o = build(prog, f)
        ev.streams = []
        try:
            ev.invoke(wf, [], o, values=[S(("s", "output file"))])
            outs = [s for s in ev.streams if s.kind == "out"]
            if len(outs) != 1:
                raise Unsupported("%s: %d output streams" % (rec, len(outs)))
            narrow(ctx, ev, rec)
            if outs[0].target != S(("s", "output file")):
                raise Mismatch("the file written is not the one named")
            match(ctx, label, outs[0].ev.v, (lines, before, loop), ev, o, robj)
            stats(ctx, prog, rec, label, ev, o, rev, robj, outs[0].ev.v, (lines, before, loop))
        except Mismatch as e:
            ctx.violation(where(prog, wf), "%s: written and read back: %s" % (label, e))
        ctx.count("write_read_pairs")
        notes["lines"] |= ev.lines
    narrow(ctx, rev, rec)
    notes["lines"] |= rev.lines
    if len(ctx.violations) > before_:
        return
    # an object made from a file, written out again
    try:
        copy_mode(ctx, prog, rec, rf, wf, (lines, before, loop), notes)
    except Mismatch as e:
        ctx.violation(where(prog, wf), "%s made from a file and written again: %s" % (rec, e))
    ctx.count("rewritten_from_file")


def narrow(ctx, ev, rec):
    for f, l, n, t in ev.narrow:
        ctx.violation("%s:%s" % (f, l), "%s: loop counter %s of type %s wraps before the end of the data" % (rec, n, t))


def match(ctx, label, events, plan, ev, o, robj):
    lines, before, loop = plan
    whole_lines(events, loop)
    toks = tokens(skip_lines(events, lines))
    fixed, rep = value_map(before, loop, toks)
    if rep is None:
        raise Mismatch("no record is read")
    count, q, its = rep
    n = 0
    for name, c in sorted(robj.f.items()):
        if isinstance(c.v, Vec):
            orig = o.f[name].v if name in o.f else None
            if not isinstance(orig, Vec):
                raise Mismatch("%s is not part of the original" % name)
            vals = appended(c.v.c.v, loop, its, q)
            size = ev.size(orig)
            if norm(op("*", C(len(vals)), count)) != norm(size):
                raise Mismatch("%s has %s elements, %s after reading back" % (name, brief(size), brief(op("*", C(len(vals)), count))))
            for r, v in enumerate(vals):
                i = norm(op("+", op("*", C(len(vals)), q), C(r)))
                w = ev.index(orig, i)
                if v != w:
                    raise Mismatch("%s[%s] is %s and comes back as %s" % (name, brief(i), brief(w), brief(v)))
                ctx.count("elements_matched")
            n += 1
        elif term(c.v) and atoms(c.v, lambda a: a[0] in ("tok", "after")):
            v = subst(c.v, fixed)
            if name not in o.f or v != o.f[name].v:
                raise Mismatch("%s is %s and comes back as %s" % (name, brief(o.f[name].v) if name in o.f else "absent", brief(v)))
            ctx.count("fields_matched")
    for name, c in o.f.items():
        if isinstance(c.v, Vec) and c.v.c.v and not (name in robj.f and isinstance(robj.f[name].v, Vec)):
            raise Mismatch("%s is not read back" % name)
    if not n:
        raise Broken("%s: no vector is read back" % label)


def stats(ctx, prog, rec, label, ev, o, rev, robj, events, plan):
    """the printed statistics of a comparison survive"""
    f = method(prog, rec, "printStats")
    if not f:
        return
    lines, before, loop = plan
    fixed, rep = value_map(before, loop, tokens(skip_lines(events, lines)))
    for tabular in (TRUE, FALSE):
        seen = []
        for e, obj in ((ev, o), (rev, robj)):
            m = len(e.journal)
            e.globals = {}
            e.invoke(f, [], obj, values=[tabular])
            out = next(c.v for c in e.globals.values() if isinstance(c.v, Stream))
            seen.append(tuple(x for x in out.ev.v if x[0] in ("num", "char")))
            e.undo(m)
        a, b = seen[0], tuple(subst(list(seen[1]), fixed))
        if not a or a != b:
            raise Mismatch("the statistics printed by the original and by the object read back differ")
        ctx.count("statistics_matched")


def copy_mode(ctx, prog, rec, rf, wf, plan, notes):
    lines, before, loop = plan
    ev, o = build(prog, rf)
    ev.streams = []
    ev.invoke(wf, [], o, values=[S(("s", "output file"))])
    outs = [s for s in ev.streams if s.kind == "out"]
    ins = [s for s in ev.streams if s.kind == "in"]
    if len(outs) != 1:
        raise Unsupported("%s: %d output streams" % (rec, len(outs)))
    notes["lines"] |= ev.lines
    evs = outs[0].ev.v
    copies = [e for e in evs if e[0] == "rdbuf"]
    if outs[0].target != S(("s", "output file")):
        raise Mismatch("the file written is not the one named")
    if not copies:
        # rewritten from the data: same rules as for a fresh object
        ev, o = build(prog, rf)
        for n, c in o.f.items():
            if isinstance(c.v, Vec):
                c.v = Vec((("sym", n, N),), c.v.et, n)
            elif term(c.v) and atoms(c.v, lambda a: a[0] in ("tok", "after")):
                c.v = ("s", n)
        rev, robj = build(prog, rf)
        ev.streams = []
        ev.invoke(wf, [], o, values=[S(("s", "output file"))])
        outs = [s for s in ev.streams if s.kind == "out"]
        match(ctx, rec, outs[0].ev.v, plan, ev, o, robj)
        return
    if len(copies) > 1 or evs[-1] != copies[0] and any(e[0] in ("num", "rep") for e in evs[evs.index(copies[0]):]):
        raise Mismatch("the source file is not copied once")
    sid, consumed = copies[0][1], copies[0][2]
    src = next((s for s in ins if s.sid == sid), None)
    if src is None or src.target != S(("s", rf["params"][0]["name"])):
        raise Mismatch("the text copied is not that of the file the object was made from")
    if any(e[0] != "getline" for e in src.ev.v):
        raise Unsupported("%s: the source is partly read before it is copied" % rec)
    head = list(pieces(evs[:evs.index(copies[0])]))
    nl = sum(e == ("lit", "\n") for e in head)
    if any(e[0] in ("num", "rep") for e in head):
        raise Unsupported("numbers before the copied text")
    if head and head[-1] != ("lit", "\n") and not (nl == 0 and consumed == 0 and not head):
        raise Mismatch("the header written before the copied text does not end its line")
    if nl != consumed:
        raise Mismatch("%d header lines of the source are dropped and %d are written instead: the reader, which skips %d lines, no longer meets the data" % (consumed, nl, lines))


def check(ctx):
    controls(ctx)
    prog = load(ctx, driver(ctx))
    notes = dict(lines=set())
    recs = ["%s<%s>" % (c, t) for c in CLASSES for t in TYPES]
    broken = None
    for rec in recs:
        try:
            one_class(ctx, prog, rec, notes)
            ctx.count("classes")
        except Undefined as e:
            ctx.violation("include/diagnostic", "%s: %s" % (rec, e))
        except Unsupported as e:
            broken = broken or Unsupported("%s: %s" % (rec, e))
    ctx.coverage["source_lines_interpreted"] = len(notes["lines"])
    ctx.coverage["explanation"] = ("The constructors and writeFile of the nine persistent classes, instantiated for double and float, are interpreted over their syntax tree: the writer yields the grammar of the file, the reader a plan of what it consumes, and every element and field of the object read back is compared with the original as a term.")
    if ctx.violations:
        return
    if broken:
        raise broken
    ctx.need("classes", 18)
    ctx.need("write_read_pairs", 24)
    ctx.need("elements_matched", 60)
    ctx.need("fields_matched", 20)


def controls(ctx):
    src = os.path.join(VERIF, "selftest", "persist.cc")
    prog = load(ctx, src)
    names = re.findall(r"^(?:struct|BAD\()\s*((?:good|bad)[A-Z]\w+)", open(src).read(), re.M)
    for n in names:
        sub = Sub()
        try:
            one_class(sub, prog, n, dict(lines=set()))
        except Undefined as e:
            sub.violations.append(str(e))
        except Unsupported as e:
            raise Broken("control %s: %s" % (n, e))
        if bool(sub.violations) != n.startswith("bad"):
            raise Broken("control %s: %s" % (n, sub.violations or "not noticed"))
    ctx.coverage["controls_confirmed"] = len(names)
    ctx.need("controls_confirmed", 20)
