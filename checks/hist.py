"""P35: the histograms made of comparison files.

The script is evaluated over its syntax tree with a model of the ROOT classes that records what is filled, drawn and written. The lines
of the files come from the syntax trees of the comparison classes, the functions and their intervals from vdtArithmBenchmark."""
import fnmatch
import os
import re
import bench
import persist
from common import *
from flow import S, atoms, isc, Vec
from pyflow import Abstract, Builtin, Ext, NATIVE, Py, Raised
from rational import Rational
from tables import Ctx0, Cut, File, Num, ONE, Path, Script, atom

FIRST_RUN = 0xF0000


class Sink(Abstract):
    """style settings and axes: calls have no effect on what is shown"""


class Hist(Abstract):
    def __init__(self, kind, name, axes):
        self.kind, self.name, self.axes, self.fills = kind, name, axes, []


class RootFile(Abstract):
    def __init__(self, name):
        self.name, self.held, self.closed = name, [], False


class Canvas(Abstract):
    def __init__(self):
        self.drawn = []


class Root(Script):
    EXTERNAL = Py.EXTERNAL | {"ROOT", "fnmatch"}

    def __init__(self, argv, dirs):
        Script.__init__(self, argv, {})
        self.dirs_ = dirs
        for d, fs in dirs.items():
            for f, lines in fs.items():
                self.files[os.path.normpath(os.path.join(d, f))] = lines
        self.rootfiles, self.where_to, self.pad, self.images = [], None, None, []

    # ------------------------------------------------------------ files
    def entries(self, d):
        for k, fs in self.dirs_.items():
            if isinstance(d, str) and os.path.normpath(k) == os.path.normpath(d or "."):
                return list(fs)
        self.throw("FileNotFoundError", "another directory is looked at")

    def builtin(self, n, args, kw):
        if n == "open" and args and isinstance(args[0], str):
            args = [os.path.normpath(args[0])] + list(args[1:])
        if n == "int" and len(args) == 1 and isinstance(args[0], str):
            try:
                ps = self.read(args[0].strip())
            except Cut as x:
                self.throw("ValueError", str(x))
            if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][:2] == ("read", "int"):
                return atom(*ps[0][1:])
            if any(isinstance(x, tuple) for x in ps):
                self.throw("ValueError", "invalid literal for int()")
        if n == "int" and len(args) == 2 and isinstance(args[0], str) and any(ord(c) >= FIRST_RUN for c in args[0]):
            self.unsupported("number to another base")
        if n == "int" and len(args) == 1 and isinstance(args[0], Num):
            v = args[0]
            if v.d == ONE and len(v.n) == 1 and all(len(m) == 1 and m[0][0][0] == "int" and m[0][1] == 1 and c == 1 for m, c in v.n.items()):
                return v
            return atom("cut off", Rational.key(v.n), Rational.key(v.d))
        return Script.builtin(self, n, args, kw)

    def ext_call(self, name, args, kw):
        if name.startswith("ROOT."):
            return self.root_call(name[5:], args, kw)
        if name in ("os.listdir", "os.scandir") and not kw and not (args and isinstance(args[0], Path)):
            if name == "os.scandir":
                self.unsupported("scandir")
            return self.entries(args[0] if args else ".")
        if name == "glob.glob" and len(args) == 1 and isinstance(args[0], str):
            d, f = os.path.split(args[0])
            if set(self.spelt(d)) & set("*?["):
                self.unsupported("pattern of directories")
            return [os.path.join(d, x) for x in self.entries(d) if fnmatch.fnmatchcase(self.spelt(x), self.spelt(f))]
        if name in ("fnmatch.fnmatch", "fnmatch.fnmatchcase"):
            return fnmatch.fnmatchcase(self.spelt(args[0]), self.spelt(args[1]))
        if name == "fnmatch.filter":
            return [x for x in self.iterate(args[0]) if fnmatch.fnmatchcase(self.spelt(x), self.spelt(args[1]))]
        if name == "re.escape" and isinstance(args[0], str):
            return "".join(c if ord(c) >= FIRST_RUN else re.escape(c) for c in args[0])
        if name == "glob.escape" and isinstance(args[0], str):
            return re.sub(r"([*?[])", r"[\1]", args[0])
        if name in ("os.path.normpath",):
            return os.path.normpath(args[0])
        if name in ("os.path.exists", "os.path.isfile"):
            return os.path.normpath(args[0]) in self.files
        if name == "os.path.isdir":
            return any(os.path.normpath(k) == os.path.normpath(args[0]) for k in self.dirs_)
        if name.startswith("os.") and name.split(".")[-1] in ("chdir", "remove", "rename", "system", "mkdir", "makedirs"):
            self.unsupported(name)
        return Script.ext_call(self, name, args, kw)

    # ------------------------------------------------------------ ROOT
    def root_call(self, name, args, kw):
        m = re.fullmatch(r"TH([12])([CSILFD])", name)
        if m:
            n = int(m.group(1))
            if kw or len(args) != 2 + 3 * n or not all(isinstance(a, (int, float)) for a in args[2:]) or not isinstance(args[0], str):
                self.unsupported("histogram with other arguments")
            if any(not isinstance(a, int) for a in args[2::3]):
                self.throw("TypeError", "the number of bins is not an integer")
            return Hist(m.group(1) + m.group(2), args[0], [tuple(args[2 + 3 * i:5 + 3 * i]) for i in range(n)])
        if name == "TFile" or name == "TFile.Open":
            mode = (args[1] if len(args) > 1 else kw.get("option", "READ")).upper()
            if mode not in ("RECREATE", "NEW", "CREATE"):
                self.throw("OSError", "the file of the histograms is opened with %s" % (mode or "no mode"))
            f = RootFile(args[0])
            self.rootfiles.append(f)
            self.where_to = f
            return f
        if name == "TCanvas":
            self.pad = Canvas()
            return self.pad
        if name.split(".")[0] in ("gROOT", "gStyle", "gErrorIgnoreLevel", "PyConfig") and name.count(".") == 1:
            return Sink()
        self.unsupported("call of ROOT." + name)

    def abstract_setattr(self, v, a, x):
        if not isinstance(v, Sink):
            self.unsupported("assignment to attribute %s" % a)

    def abstract_attr(self, v, a):
        if isinstance(v, Sink):
            return Builtin(a, lambda *x: Sink())
        if isinstance(v, RootFile):
            fs = {"cd": lambda *x: self.go(v), "Close": lambda *x: setattr(v, "closed", True), "Write": None, "WriteTObject": None, "GetName": lambda: v.name}
            if fs.get(a):
                return Builtin(a, fs[a])
            if a in ("WriteTObject", "WriteObject"):
                return Builtin(a, lambda h, *x: self.put(h, v))
        if isinstance(v, Canvas):
            fs = {"cd": lambda *x: self.show(v), "Print": lambda n, *x: self.images.append((n, self.shown(v))), "SaveAs": lambda n, *x: self.images.append((n, self.shown(v)))}
            if a in fs:
                return Builtin(a, fs[a])
            if re.match(r"Set(Log|Grid|Tick|Title|Left|Right|Top|Bottom|Margin|Fill|Border|Frame)|Update$|Modified$|Close$|Draw$", a):
                return Builtin(a, lambda *x: Sink())
        if isinstance(v, Hist):
            fs = {"Fill": lambda *x: v.fills.append(tuple(self.number(y) for y in x)), "Write": lambda *x: self.put(v, self.where_to, *x), "Draw": lambda *x: self.draw(v, *x),
                  "GetName": lambda: v.name, "SetName": lambda n: setattr(v, "name", n), "GetEntries": None}
            if fs.get(a):
                return Builtin(a, fs[a])
            if re.match(r"Get[XYZ]axis$|Set(Line|Fill|Marker|Title|Stats|Directory|Minimum|Option|[XYZ]Title)|Sumw2$", a):
                return Builtin(a, lambda *x: Sink())
        if isinstance(v, (Hist, Canvas, RootFile)) and a[0].islower():
            self.throw("AttributeError", "no attribute %s" % a)
        return Script.abstract_attr(self, v, a)

    def go(self, f):
        self.where_to = f

    def show(self, c):
        self.pad = c

    def shown(self, c):
        return [(h, len(h.fills)) for h in c.drawn]

    def put(self, h, f, *x):
        if not isinstance(h, Hist) or f is None:
            self.unsupported("what is written")
        if f.closed:
            self.throw("OSError", "a histogram is written after the file is closed")
        f.held.append((x[0] if x and isinstance(x[0], str) else h.name, h, len(h.fills)))

    def draw(self, h, *x):
        if self.pad is None:
            self.pad = Canvas()
        if x and isinstance(x[0], str) and "same" in x[0].lower():
            self.pad.drawn.append(h)
        else:
            self.pad.drawn = [h]

    def ext_attr(self, name, a):
        if name.startswith("ROOT") and re.match(r"k[A-Z]", a):
            return 1
        return Script.ext_attr(self, name, a)


# ---------------------------------------------------------------- inputs

def layouts(ctx):
    """(two arguments, single) -> pieces of the header and of a record of a comparison file"""
    prog = persist.load(ctx, persist.driver(ctx))
    out = {}
    for two in (False, True):
        for single in (False, True):
            rec = "fcnComparison%s<%s>" % ("2D" if two else "1D", "float" if single else "double")
            fs = [f for f in prog.fn.values() if f.get("ctor") and f.get("rec") == rec and len(f.get("params", ())) > 1]
            wf = persist.method(prog, rec, "writeFile")
            if len(fs) != 1 or not wf:
                raise Broken("constructor of %s" % rec)
            ev, o = persist.build(prog, fs[0])
            inputs = [p["name"] for p in fs[0]["params"]][1:-2]
            ev.streams = []
            ev.invoke(wf, [], o, values=[S(("s", "output file"))])
            st = [s for s in ev.streams if s.kind == "out"]
            if len(st) != 1:
                raise Broken("%s writes %d files" % (rec, len(st)))
            head, record = [], None
            for e in st[0].ev.v:
                if e[0] == "rep":
                    if record is not None:
                        raise Broken("%s: two lists of records" % rec)
                    record = [piece(x, inputs) for x in (e[4] if len(e) > 4 else e[3])]
                elif record is not None:
                    raise Broken("%s: the file goes on after the records" % rec)
                else:
                    head.append(piece(e, inputs))
            if record is None:
                raise Broken("%s: no records" % rec)
            out[two, single] = head, record
    return out


def piece(e, inputs):
    if e[0] == "lit":
        return e[1]
    if e[0] == "sym":
        return ("nick", "specs")
    if e[0] != "num" or not isc(e[3]):
        raise Broken("piece of a comparison file: %s" % persist.brief(e))
    v = e[6]
    while isinstance(v, tuple) and v[0] == "cast":
        v = v[2]
    if e[3][1] == 16:
        return ("hex",)
    if e[1] == "int":
        return ("int", "difference" if v[0] == "call" else "statistic")
    return ("decimal", inputs.index(v[1]) if v[0] == "elem" and v[1] in inputs else None)


def functions(ctx):
    """name in the comparison file -> (two arguments, single, low, high) of the numbers vdtArithmBenchmark draws"""
    prog = bench.load(ctx, os.path.join(REPO, "progs/vdtArithmBenchmark.cpp"))
    ev, _ = bench.run(prog, {"-n", "-s"})
    out = {}
    for s in ev.streams:
        if s.kind != "out":
            continue
        parts = s.target[1] if s.target[0] == "str" else ()
        m = re.fullmatch("\0__(\\w+?)__response\\.txt", "".join(x if isinstance(x, str) else "\0" for x in parts))
        if not m or "Identity" in m.group(1):
            continue
        name = m.group(1)
        h = bench.header(s.ev.v)
        draws = atoms([e for e in s.ev.v if e[0] == "rep"], lambda a: a[0] == "draw")
        lim = [(a[2][0], a[2][1]) for a in draws]
        if not lim or not all(isc(x) for l in lim for x in l):
            raise Broken("%s: interval of the numbers" % name)
        name = name.split("_", 1)[-1]
        new = ("Atan2" in name, h[1] != "Double Precision", min(l[0][1] for l in lim), max(l[1][1] for l in lim))
        old = out.setdefault(name, new)
        out[name] = new[:2] + (min(old[2], new[2]), max(old[3], new[3]))
    return out


def content(p, pieces, f, j, extra):
    t = ""
    for i, x in enumerate(pieces):
        if isinstance(x, str):
            t += x
        elif x[0] == "nick":
            t += p.run_of(x)
        elif x == ("int", "difference"):
            t += p.run_of(("read", "int", extra, f, j))
        elif x[0] == "decimal" and j is not None and x[1] is not None:
            t += p.run_of(("read", "decimal", extra, f, j, x[1]))
        else:
            t += p.run_of(("read", x[0] if x[0] != "decimal" else "other", extra, f, j, i))
    return t


def lines_of(p, layout, f, n, extra=""):
    head, record = layout
    t = content(p, head, f, None, extra) + "".join(content(p, record, f, j, extra) for j in range(n))
    return [l + "\n" for l in t.split("\n")[:-1]]


# ---------------------------------------------------------------- judgement

def own_bins(axis, top):
    """every difference up to top has a bin of its own"""
    n, lo, hi = axis
    from fractions import Fraction
    lo, hi = Fraction(repr(lo)) if isinstance(lo, float) else lo, Fraction(repr(hi)) if isinstance(hi, float) else hi
    if hi <= lo or n < 1:
        return False
    at = [(i - lo) * n / Fraction(hi - lo) for i in range(top + 1)]
    return all(0 <= a < n for a in at) and len({a.__floor__() for a in at}) == top + 1


def is_atom(v, *a):
    return isinstance(v, Num) and v.d == ONE and v.n == atom(*a).n


def scenario(ctx, path, layout, funs, order, records, nick, argv, d):
    """what goes wrong, or None; the evaluator"""
    p = Root([], {})
    nick = p.run_of(("nick", 0)) if nick is None else nick
    p.argv = [os.path.basename(path)] + [nick if a is None else a for a in argv]
    here, other = {}, {}
    for i, f in enumerate(order):
        k = layout[funs[f][:2]]
        here["comparison__%s__%s.txt" % (nick, f)] = lines_of(p, k, f, records[i % len(records)])
        if i < 3:
            other["comparison__%s__%s.txt" % (nick, f)] = lines_of(p, k, f, 2, "another directory")
    for i, n in enumerate(("comparison__%sx__%s.txt", "comparison__x%s__%s.txt", "x_comparison__%s__%s.txt", "%s__%s__response.txt", "comparison__%s__%s_dbhisto.png")):
        f = (order or sorted(funs))[i % len(order or funs)]
        here[n % (nick, f)] = lines_of(p, layout[funs[f][:2]], f, 1, "another file")
    p.dirs_ = {d: here} if os.path.normpath(d) == "." else {d: here, ".": other}
    for k, fs in p.dirs_.items():
        for f, l in fs.items():
            p.files[os.path.normpath(os.path.join(k, f))] = l
    ctx.count("files_offered", sum(len(fs) for fs in p.dirs_.values()))
    label = "nickname %s, directory %s: " % ("%r" % nick if ord(nick[0]) < FIRST_RUN else "any", d)
    try:
        p.program(path)
    except Raised as e:
        return p, (e.where, label + "%s: %s" % (e.name, e.text))
    except Cut as e:
        return p, (p.where(), label + str(e))
    w = judge(ctx, p, funs, order, records, nick)
    return p, (os.path.basename(path), label + w) if w else None


def judge(ctx, p, funs, order, records, nick):
    if [f.name for f in p.rootfiles] != [nick + "_histos.root"]:
        return "%d files of histograms instead of <nick>_histos.root" % len(p.rootfiles) if len(p.rootfiles) != 1 else "the file of the histograms has another name"
    held = p.rootfiles[0].held
    if not p.rootfiles[0].closed:
        return "the file of the histograms is not closed"
    want = {}
    for i, f in enumerate(order):
        want["Diffbit_" + f] = (f, 1, records[i % len(records)])
        want["DiffVsInput_" + f] = (f, 2, records[i % len(records)])
    names = [n for n, _, _ in held]
    for n in names:
        if n not in want:
            return "histogram %s is not expected" % "".join(x if isinstance(x, str) else "<%s>" % x[0] for x in p.read(n))
        if names.count(n) > 1:
            return "%s is written twice" % n
    by = {}
    for n in want:
        if n not in names:
            return "%s is missing" % n
    for n, h, filled in held:
        f, dim, count = want[n]
        two, single, lo, hi = funs[f]
        by[f, dim] = h
        if int(h.kind[0]) != dim:
            return "%s has %s dimensions" % (n, h.kind[0])
        if h.kind[1] in "CS":
            return "%s counts in %d bits" % (n, 8 if h.kind[1] == "C" else 16)
        ctx.count("histograms")
        top = 32 if single else 64
        if not own_bins(h.axes[-1], top):
            return "%s: not a bin for each difference from 0 to %d: %s bins from %s to %s" % ((n, top) + h.axes[-1])
        if dim == 2:
            b, l, r = h.axes[0]
            if l > lo or r < hi or b < 2 or r - l > 2 * (hi - lo):
                return "%s: arguments from %s to %s, axis from %s to %s" % (n, float(lo), float(hi), l, r)
            ctx.count("axes_compared_with_pools")
        left = list(h.fills)
        if filled != len(left):
            return "%s is filled after it is written" % n
        for j in range(count):
            d = ("int", "", f, j)
            m = [x for x in left if len(x) == dim and is_atom(x[-1], *d) and (dim == 1 or is_atom(x[0], "decimal", "", f, j, 0))]
            if not m:
                return "%s: number %d of %d is not in it with its difference%s" % (n, j + 1, count, " and argument" if dim == 2 else "")
            left.remove(m[0])
            ctx.count("numbers_followed")
        if left:
            return "%s: more entries than the file has numbers" % n
    for f in order:
        t = "float" if funs[f][1] else "double"
        for dim, what in ((1, "dbhisto"), (2, "dbVSinhisto")):
            n = "%s_%s_%s_%s.png" % (nick, t, f, what)
            m = [s for x, s in p.images if x == n]
            if len(m) != 1:
                return "the image %s of %s is made %d times" % (what, f, len(m))
            if len(m[0]) != 1 or m[0][0][0] is not by[f, dim] or m[0][0][1] != len(by[f, dim].fills):
                return "the image %s of %s does not show its histogram" % (what, f)
            ctx.count("images")
    if len(p.images) != 2 * len(order):
        return "%d images instead of %d" % (len(p.images), 2 * len(order))
    return None


def refused(ctx, path):
    """called without a nickname"""
    p = Root([os.path.basename(path)], {".": {}})
    try:
        p.program(path)
        return p, (os.path.basename(path), "called without nickname it does not report misuse")
    except Raised as e:
        if e.name != "SystemExit":
            return p, (e.where, "called without nickname: %s %s" % (e.name, e.text))
    if p.rootfiles or p.images:
        return p, (os.path.basename(path), "called without nickname it writes files")
    return p, None


def script(ctx, path, layout, funs, say):
    names = sorted(funs)
    few = [n for n in names if re.fullmatch(r"(Atan2|Exp|Log|Acos)f?v?", n)]
    lines = set()
    for order, records, nick, argv, d in (
            (names, (3, 1, 2), None, ["-n", None], "./"), (names[::-1], (2, 3), None, ["-n", None, "-d", "results/one"], "results/one"),
            (few, (1,), None, ["--dir", "/data/x/", "--nick", None], "/data/x/"), (few[:3], (1, 0, 2), "gcc-4.7_c++11", ["-n", None], "."),
            (few[:3], (2,), "a.b(x)", ["-n", None, "-d", "../d"], "../d"), ([], (1,), None, ["-n", None], "./")):
        p, wrong = scenario(ctx, path, layout, funs, order, records, nick, argv, d)
        lines |= p.lines
        ctx.count("runs_followed")
        if wrong:
            say(*wrong)
            return lines
    p, wrong = refused(ctx, path)
    lines |= p.lines
    ctx.count("runs_followed")
    if wrong:
        say(*wrong)
    return lines


def controls(ctx, layout):
    src = os.path.join(VERIF, "selftest", "hist.py")
    text = open(src).read()
    n = 0
    funs = {"Exp": (False, False, -700, 700), "Expf": (False, True, -80, 80), "Atan2": (True, False, -5000, 5000), "Atan2f": (True, True, -5000, 5000), "Log": (False, False, 0, 5000)}
    for x in re.findall(r"^class ((?:good|bad)_\w+)", text, re.M):
        bad = []
        path = os.path.join(ctx.tmp, "control.py")
        with open(path, "w") as f:
            f.write(text + "\nif __name__ == '__main__':\n   main(%s)\n" % x)
        script(Ctx0(), path, layout, funs, lambda w, t: bad.append(t))
        if bool(bad) != x.startswith("bad"):
            raise Broken("controls: %s: %s" % (x, bad))
        n += 1
    ctx.coverage["controls_confirmed"] = n
    ctx.need("controls_confirmed", 15)


def check(ctx):
    layout = layouts(ctx)
    controls(ctx, layout)
    for (two, single), (head, record) in layout.items():
        if record.count(("int", "difference")) != 1 or [x[1] for x in record if x[0] == "decimal"] != list(range(1 + two)):
            raise Broken("records of a comparison: %r" % (record,))
    funs = functions(ctx)
    ctx.coverage["functions"] = len(funs)
    ctx.need("functions", 44)
    lines = script(ctx, os.path.join(REPO, "scripts", "diffhisto.py"), layout, funs, lambda where, what: ctx.violation("scripts/" + where, what))
    ctx.coverage["source_lines_evaluated"] = len(lines)
    if not ctx.violations:
        for k, m in (("runs_followed", 7), ("histograms", 200), ("numbers_followed", 300), ("images", 200), ("axes_compared_with_pools", 100)):
            ctx.need(k, m)
    ctx.coverage["explanation"] = ("Abstract evaluation of the syntax tree of the script on comparison files with symbolic numbers, with a model of the ROOT classes that records what is filled, drawn and written. The lines of the files are derived from "
                                   "the syntax trees of the comparison classes, the functions and the intervals of their arguments from vdtArithmBenchmark.")
    ctx.assumptions += ["ROOT's histograms, files and canvases behave as documented", "no nickname contains two underscores in a row", "files of complete comparisons"]
