"""P34: the tables made of timing reports, and the command that compares responses.

The scripts are evaluated over their syntax trees. A number of a report is an atom; what is computed of it is a rational function of
atoms and of square roots. Text that stands for a number or for a nickname is a run of one private character, so that the operations
on strings keep their meaning; a comparison of numbers is taken to come out as "greater", and in one further trace each as "equal" or
"less"."""
import os
import re
import shlex
from fractions import Fraction
import bench
from common import *
from pyflow import *
from rational import Rational

WIDE, FIRST = 12, 0xF0000     # characters of a run; longer than the fields of the tables, so that padding separates nothing
ONE = Rational.const(1)


class Num(Abstract):
    def __init__(self, n, d=ONE):
        self.n, self.d = n, d


class File(Abstract):
    def __init__(self, lines):
        self.lines, self.next = lines, 0


class Path(Abstract):
    """pathlib.Path"""

    def __init__(self, text):
        self.text = text


class Parser(Abstract):
    def __init__(self, kind):
        self.kind, self.options, self.positional = kind, [], []


class Pattern(Abstract):
    def __init__(self, p):
        self.p = p


class Match(Abstract):
    """a match in the text; found in the same text with digits for its runs"""

    def __init__(self, m, text):
        self.m, self.text = m, text

    def group(self, i=0):
        a, b = self.m.span(i)
        return self.text[a:b] if a >= 0 else None


class Out(Abstract):
    def __init__(self, name):
        self.name = name


class Unread:
    """a value given to str.format, perhaps without being used"""

    def __init__(self, p):
        self.p = p

    def __format__(self, spec):
        self.p.unsupported("text of a value")

    def __getattr__(self, a):
        self.p.unsupported("text of a value")


class Wrapped:
    """a number given to str.format"""

    def __init__(self, p, v):
        self.p, self.v = p, v

    def __format__(self, spec):
        m = re.fullmatch(r"(?:(.)?([<>=^]))?([-+ ])?#?0?(\d+)?[,_]?(?:\.(\d+))?([fFeEgGdns%])?", spec)
        if not m or m.group(6) == "s":
            self.p.throw("ValueError", "Invalid format specifier")
        t = self.p.slot(self.v, m.group(6), m.group(5))
        return format(t, "%s%s%s" % (m.group(1) or "", (m.group(2) or ">").replace("=", ">"), m.group(4) or "") if m.group(2) or m.group(4) else "")

    def __str__(self):
        return self.p.slot(self.v, None, None)

    __repr__ = __str__


def atom(*a):
    return Num({((a, 1),): Fraction(1)})


class Script(Py):
    def __init__(self, argv, files, special=None):
        Py.__init__(self, [])
        self.argv, self.files, self.special = argv, files, special or {}
        self.slots, self.out, self.orders, self.texts = [], [], {}, {}

    # ------------------------------------------------------------ text
    def run_of(self, what):
        if what not in self.texts:
            self.texts[what] = len(self.slots)
            self.slots.append(what)
        return chr(FIRST + self.texts[what]) * WIDE

    def slot(self, v, kind, digits):
        if kind in ("f", "F") or kind is None and digits is None:
            exact = (int(digits) if digits is not None else 6) if kind else 17
        elif kind in ("e", "E", "g", "G", None):
            exact = ("significant", int(digits) if digits is not None else 6)
        else:
            exact = 0
        return self.run_of(("num", Rational.key(v.n), Rational.key(v.d), exact))

    def read(self, text):
        """pieces of a text: strings, and what runs stand for"""
        out = []
        for m in re.finditer("([%s-%s])\\1*|[^%s-%s]+" % ((chr(FIRST), chr(FIRST + 0xFFFD)) * 2), text):
            if ord(m.group()[0]) < FIRST:
                out.append(m.group())
            elif len(m.group()) % WIDE:
                raise Cut("a number or name is cut off")
            else:
                out += [self.slots[ord(m.group()[0]) - FIRST]] * (len(m.group()) // WIDE)
        return out

    def number(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return v
        if v != v or v in (float("inf"), float("-inf")):
            self.unsupported("number %s" % v)
        return Num(Rational.const(Fraction(repr(v)) if isinstance(v, float) else v))

    def spelt(self, text):
        """the text with letters or digits for its runs"""
        nicks = [x for x in self.slots if x[0] == "nick"]

        def word(m):
            x = self.slots[ord(m.group()[0]) - FIRST]
            w = "nicknicknam" + chr(ord("a") + nicks.index(x) % 26) if x[0] == "nick" else {"int": "123456789012", "hex": "123456789abc"}.get(x[1], "123456789.12")
            return w * (len(m.group()) // WIDE)
        plain = re.sub("([%s-%s])\\1*" % (chr(FIRST), chr(FIRST + 0xFFFD)), word, text)
        if len(plain) != len(text):
            raise Cut("a number or name is cut off")
        return plain

    def regex(self, what, pattern, text, rest):
        if rest or not isinstance(pattern, str) or not isinstance(text, str):
            self.unsupported("regular expression")
        pattern, plain = self.spelt(pattern), self.spelt(text)
        try:
            re.compile(pattern)
        except re.error as x:
            self.throw("re.error", str(x))
        ms = [Match(m, text) for m in re.finditer(pattern, plain)] if what in ("findall", "finditer", "split") else [getattr(re, what)(pattern, plain)]
        if what in ("match", "search", "fullmatch"):
            return Match(ms[0], text) if ms[0] else None
        if what == "finditer":
            return ms
        if what == "findall":
            return [m.group(0) if not m.m.groups() else m.group(1) if len(m.m.groups()) == 1 else tuple(m.group(i + 1) for i in range(len(m.m.groups()))) for m in ms]
        if what == "split" and not any(m.m.groups() for m in ms):
            at = [0] + [x for m in ms for x in m.m.span()] + [len(text)]
            return [text[a:b] for a, b in zip(at[::2], at[1::2])]
        self.unsupported("regular expression")

    # ------------------------------------------------------------ numbers
    def order(self, a, b):
        """-1, 0 or 1; decided once for each pair"""
        n = Rational.add(Rational.mul(a.n, b.d), Rational.mul(b.n, a.d), -1)
        d = Rational.mul(a.d, b.d)
        if not n:
            return 0
        flip = min(n.items(), key=repr)[1] < 0
        if flip:
            n = {m: -c for m, c in n.items()}
        if set(n) == {()} and set(d) == {()}:
            return 1 if (n[()] / d[()] > 0) != flip else -1
        k = (Rational.key(n), Rational.key(d))
        r = self.orders.setdefault(k, self.special.get(k, 1))
        return -r if flip else r

    def root(self, v):
        for p in (v.n, v.d):
            if len(p) != 1:
                break
        else:
            (m, c), (m2, c2) = next(iter(v.n.items())), next(iter(v.d.items()))
            if m2 == () and all(k % 2 == 0 for _, k in m) and c == c2:
                return Num({tuple((x, k // 2) for x, k in m): Fraction(1)})    # errors are not negative
        if v.d != ONE and len(v.d) == 1 and () in v.d:
            c = v.d[()]
            return self.root(Num({m: x / c for m, x in v.n.items()}))
        return atom("root", Rational.key(v.n), Rational.key(v.d))

    def abstract_binop(self, o, a, b):
        if o == "Div" and isinstance(a, Path) and isinstance(b, (str, Path)):
            return Path(os.path.join(a.text, b if isinstance(b, str) else b.text))
        if o == "Mod" and isinstance(a, str):
            return self.percent(a, b)
        if b is None and isinstance(a, Num):
            return Num({m: -c for m, c in a.n.items()}, a.d) if o == "USub" else a
        a, b = self.number(a), self.number(b)
        if isinstance(a, Num) and isinstance(b, Num):
            A, M = Rational.add, Rational.mul
            if o in ("Add", "Sub"):
                s = 1 if o == "Add" else -1
                return Num(A(a.n, b.n, s), a.d) if a.d == b.d else Num(A(M(a.n, b.d), M(b.n, a.d), s), M(a.d, b.d))
            if o == "Mult":
                return Num(M(a.n, b.n), M(a.d, b.d))
            if o == "Div":
                if self.order(b, Num({})) == 0:
                    self.throw("ZeroDivisionError", "division by zero")
                return Num(M(a.n, b.d), M(a.d, b.n))
            if o == "Pow" and b.d == ONE and set(b.n) <= {()}:
                k = b.n.get((), 0)
                if k == Fraction(1, 2):
                    return self.root(a)
                if k in (1, 2, 3):
                    r = a
                    for _ in range(int(k) - 1):
                        r = Num(M(r.n, a.n), M(r.d, a.d))
                    return r
        if isinstance(a, str) or isinstance(b, str):
            self.throw("TypeError", "text and number in one operation")
        self.unsupported("operation %s" % o)

    def abstract_compare(self, o, a, b):
        if o in ("In", "NotIn") and isinstance(b, (list, tuple)):
            return any(self.truth(self.compare("Eq", a, x)) for x in b) == (o == "In")
        if o in ("Is", "IsNot"):
            return (a is b) == (o == "Is")
        a, b = self.number(a), self.number(b)
        if isinstance(a, Num) and isinstance(b, Num):
            r = self.order(a, b)
            return {"Eq": r == 0, "NotEq": r != 0, "Lt": r < 0, "LtE": r <= 0, "Gt": r > 0, "GtE": r >= 0}[o]
        if o in ("Eq", "NotEq"):
            return o == "NotEq"
        self.unsupported("comparison %s" % o)

    def abstract_truth(self, v):
        if isinstance(v, Num):
            return self.order(v, Num({})) != 0
        return True

    # ------------------------------------------------------------ formatting
    def percent(self, f, args):
        given = list(args) if isinstance(args, tuple) else [args]
        out = []

        def take():
            if not given:
                self.throw("TypeError", "not enough arguments for format string")
            return given.pop(0)
        for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?([a-zA-Z%])|[^%]+", f):
            if m.group(5) is None:
                out.append(m.group())
                continue
            if m.group(5) == "%":
                out.append("%")
                continue
            w, d = [take() if x == "*" else x for x in (m.group(3), m.group(4))]
            v = args[m.group(1)] if m.group(1) else take()
            if isinstance(v, Num) and m.group(5) in "sr":
                v = str(Wrapped(self, v))
            elif isinstance(v, Num):
                v = self.slot(v, m.group(5), d)
                d = None
            elif not isinstance(v, NATIVE):
                self.unsupported("text of a value")
            elif not isinstance(v, str):
                out.append(m.group() % v if not m.group(1) else ("%" + m.group()[m.group().index(")") + 1:]) % v)
                continue
            elif m.group(5) not in "sr":
                self.throw("TypeError", "a number is required, not str")
            out.append(("%%%s%s%s%s" % (m.group(2).replace("0", ""), w or "", "." + str(d) if d is not None else "", "s")) % v)
        if given and not isinstance(args, dict):
            self.throw("TypeError", "not all arguments converted during string formatting")
        return "".join(out)

    def wrap(self, v):
        if isinstance(v, Num):
            return Wrapped(self, v)
        if isinstance(v, Path):
            return v.text
        if isinstance(v, (list, tuple)):
            return type(v)(self.wrap(x) for x in v)
        if isinstance(v, NATIVE):
            return v
        self.unsupported("text of a value")

    def e_JoinedStr(self, e, sc):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
                continue
            v = self.wrap(self.ev(p.value, sc))
            if p.conversion == 114:
                v = repr(v)
            elif p.conversion == 115:
                v = str(v)
            f = self.ev(p.format_spec, sc) if p.format_spec is not None else ""
            try:
                out.append(format(v, f))
            except (ValueError, TypeError) as x:
                self.throw(type(x).__name__, str(x))
        return "".join(out)

    def abstract_method(self, o, name, args, kw):
        if isinstance(o, str) and name == "format":
            try:
                return o.format(*[self.wrap(a) for a in args], **{k: self.wrap(v) if isinstance(v, (Num, Path) + NATIVE) else Unread(self) for k, v in kw.items()})
            except (IndexError, KeyError, ValueError, TypeError) as x:
                self.throw(type(x).__name__, str(x))
        if isinstance(o, str) and name == "join":
            self.throw("TypeError", "sequence item: expected str instance")
        self.unsupported("method %s" % name)

    # ------------------------------------------------------------ library
    def abstract_builtin(self, n, args, kw):
        v = args[0] if args else None
        if n in ("str", "repr") and isinstance(v, Num):
            return str(Wrapped(self, v))
        if n == "format" and isinstance(v, Num):
            return format(Wrapped(self, v), args[1] if len(args) > 1 else "")
        if n == "float" and isinstance(v, Num):
            return v
        if n == "abs" and isinstance(v, Num):
            return v if self.order(v, Num({})) >= 0 else self.abstract_binop("USub", v, None)
        if n == "round" and isinstance(v, Num):
            k = args[1] if len(args) > 1 else 0
            return v if isinstance(k, int) and k >= 2 else atom("rounded", Rational.key(v.n), Rational.key(v.d), k)
        if n in ("max", "min"):
            vs = [self.number(x) for x in (self.iterate(v) if len(args) == 1 else args)]
            if not all(isinstance(x, Num) for x in vs):
                self.unsupported(n)
            best = vs[0]
            for x in vs[1:]:
                if (self.order(x, best) > 0) == (n == "max") and self.order(x, best):
                    best = x
            return best
        if n == "sum":
            r = args[1] if len(args) > 1 else 0
            for x in self.iterate(v):
                r = self.binop("Add", r, x)
            return r
        if n == "isinstance":
            t = args[1] if isinstance(args[1], tuple) else (args[1],)
            return isinstance(v, Num) and any(isinstance(x, Builtin) and x.name == "float" for x in t)
        if n == "len" and isinstance(v, Obj):
            return len(self.iterate(v))
        if n == "iter" and isinstance(v, File):
            return v
        if n == "next" and isinstance(v, File):
            v.next += 1
            if v.next > len(v.lines):
                if len(args) > 1:
                    return args[1]
                self.throw("StopIteration", "")
            return v.lines[v.next - 1]
        self.unsupported("%s of a value" % n)

    def program(self, path):
        """the script as a program; ending with status 0 is an end like any other"""
        try:
            self.load("__main__", path, main=True)
        except Raised as e:
            if e.name != "SystemExit" or e.text not in ("", "0", "None", "False"):
                raise

    def builtin(self, n, args, kw):
        if n in ("exit", "quit"):
            return self.ext_call("sys.exit", args, kw)
        if n in ("open", "str") and args and isinstance(args[0], Path):
            args = [args[0].text] + list(args[1:])
        if n == "float" and len(args) == 1 and isinstance(args[0], str):
            try:
                ps = self.read(args[0].strip())
            except Cut as x:
                self.throw("ValueError", str(x))
            if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == "read":
                return atom(*ps[0][1:])
            if any(isinstance(x, tuple) for x in ps):
                self.throw("ValueError", "could not convert string to float")
        if n == "print":
            f = kw.get("file")
            if isinstance(f, Out) and f.name != "stdout":
                return None
            self.out.append((kw.get("sep", " ") or "").join(str(self.wrap(a)) for a in args) + (kw["end"] if kw.get("end") is not None else "\n"))
            return None
        if n == "open":
            if args[0] not in self.files:
                self.throw("FileNotFoundError", "another file is opened")
            mode = args[1] if len(args) > 1 else kw.get("mode", "r")
            if set(mode) - set("rtU"):
                self.throw("OSError", "the report is opened for writing")
            return File(self.files[args[0]])
        return Py.builtin(self, n, args, kw)

    def abstract_item(self, v, k):
        if isinstance(v, Match):
            return v.group(k)
        self.unsupported("subscript")

    def abstract_iter(self, v):
        if isinstance(v, File):
            r, v.next = v.lines[v.next:], len(v.lines)
            return r
        self.unsupported("iteration over a value")

    def abstract_attr(self, v, a):
        if isinstance(v, Path):
            base = os.path.basename(v.text)
            fs = {"name": base, "stem": os.path.splitext(base)[0], "suffix": os.path.splitext(base)[1], "parent": Path(os.path.dirname(v.text) or ".")}
            if a in fs:
                return fs[a]
            fs = {"open": lambda *x, **k: self.builtin("open", [v.text] + list(x), k),
                  "read_text": lambda *x, **k: "".join(self.builtin("open", [v.text], {}).lines),
                  "exists": lambda: self.ext_call("os.path.exists", [v.text], {}), "is_file": lambda: self.ext_call("os.path.isfile", [v.text], {}),
                  "joinpath": lambda *x: Path(os.path.join(v.text, *x)),
                  "iterdir": lambda: [Path(os.path.join(v.text, x)) for x in self.ext_call("os.listdir", [v.text], {})],
                  "glob": lambda x: [Path(y) for y in self.ext_call("glob.glob", [os.path.join(v.text, x)], {})]}
            if a in fs:
                return Builtin(a, fs[a])
        if isinstance(v, File):
            def method(*args):
                if a in ("close", "seek", "__exit__"):
                    v.next = 0 if a == "seek" else len(v.lines)
                    return None
                rest = v.lines[v.next:]
                if a == "readline":
                    v.next += 1
                    if v.next > len(v.lines) + 50:
                        self.throw("EOFError", "reading goes on after the end of the file")
                    return rest[0] if rest else ""
                v.next = len(v.lines)
                return {"read": "".join(rest), "readlines": rest, "__iter__": rest}[a]
            if a in ("read", "readlines", "readline", "close", "seek"):
                return Builtin(a, method)
        if isinstance(v, Pattern):
            return Builtin(a, lambda t, *r: self.regex(a, v.p, t, r))
        if isinstance(v, Match):
            n = len(v.m.groups())
            def group(*i):
                try:
                    return v.group(*i) if len(i) < 2 else tuple(map(v.group, i))
                except IndexError:
                    self.throw("IndexError", "no such group")
            fs = {"group": group, "groups": lambda: tuple(v.group(i + 1) for i in range(n)),
                  "groupdict": lambda: {k: v.group(k) for k in v.m.groupdict()}}
            if a in fs:
                return Builtin(a, fs[a])
        if isinstance(v, Out) and a in ("write", "flush"):
            return Builtin(a, lambda *t: self.out.append(t[0]) if t and v.name == "stdout" else None)
        if isinstance(v, Parser):
            fs = {"add_option": self.add_option, "add_argument": self.add_option, "parse_args": lambda *x: self.parse(v), "error": lambda *x: self.throw("SystemExit", "error"),
                  "print_help": lambda *x: None, "print_usage": lambda *x: None, "set_defaults": None, "add_argument_group": lambda *x, **k: v, "add_mutually_exclusive_group": lambda *x, **k: v}
            if fs.get(a):
                f = fs[a]
                return Builtin(a, (lambda *x, **k: f(v, *x, **k)) if a.startswith("add_option") or a == "add_argument" else f)
        self.unsupported("attribute %s" % a)

    def add_option(self, p, *names, **kw):
        if not self.plain({k: v for k, v in kw.items() if k not in ("type",)}):
            self.unsupported("option")
        if kw.get("action", "store") not in ("store", "store_true", "store_false"):
            self.unsupported("option")
        if not names[0].startswith("-"):
            p.positional.append((kw.get("dest", names[0]), kw.get("nargs")))
            return
        long = [n for n in names if n.startswith("--")]
        dest = kw.get("dest") or (long or list(names))[0].lstrip("-").replace("-", "_")
        p.options.append((set(names), dest, kw.get("action", "store"), kw.get("default", {"store_true": False, "store_false": True}.get(kw.get("action")) if p.kind == "argparse" else None)))

    def parse(self, p):
        o, rest, todo = Obj(Class("options", [])), [], list(self.argv[1:])
        for _, dest, _, d in p.options:
            o.attrs.setdefault(dest, d)
        while todo:
            a = todo.pop(0)
            if not a.startswith("-"):
                rest.append(a)
                continue
            for names, dest, action, _ in p.options:
                if a in names:
                    o.attrs[dest] = todo.pop(0) if action == "store" else action == "store_true"
                    break
            else:
                self.throw("SystemExit", "no such option: %s" % a)
        if p.kind == "optparse":
            return (o, rest)
        for i, (dest, nargs) in enumerate(p.positional):
            if nargs in ("+", "*"):
                if nargs == "+" and not rest:
                    self.throw("SystemExit", "arguments are required")
                o.attrs[dest], rest = rest, []
            elif nargs is None:
                if not rest:
                    self.throw("SystemExit", "arguments are required")
                o.attrs[dest] = rest.pop(0)
            else:
                self.unsupported("nargs")
        if rest:
            self.throw("SystemExit", "unrecognized arguments")
        return o

    def ext_attr(self, name, a):
        if (name, a) == ("sys", "argv"):
            return list(self.argv)
        if name == "sys" and a in ("stdout", "stderr"):
            return Out(a)
        if (name, a) == ("os", "sep"):
            return "/"
        if (name, a) == ("math", "inf"):
            return float("inf")
        return Ext(name + "." + a)

    def ext_call(self, name, args, kw):
        vs = [self.number(a) for a in args]
        if name == "math.sqrt" and isinstance(vs[0], Num):
            return self.root(vs[0])
        if name == "math.hypot" and all(isinstance(v, Num) for v in vs):
            r = Num({})
            for v in vs:
                r = self.binop("Add", r, self.binop("Mult", v, v))
            return self.root(r)
        if name == "math.pow":
            return self.binop("Pow", *args)
        if name == "math.fabs":
            return self.abstract_builtin("abs", [vs[0]], {})
        if name in ("math.isclose",):
            return self.order(vs[0], vs[1]) == 0
        if name in ("math.isnan", "math.isinf"):
            return False
        if name == "itertools.islice" and args and isinstance(args[0], File) and all(x is None or isinstance(x, int) for x in args[1:]):
            f, cut = args[0], slice(*args[1:])
            rest, at = f.lines[f.next:], f.next
            f.next = len(f.lines) if cut.stop is None else min(at + cut.stop, len(f.lines))
            return rest[cut]
        if name == "pathlib.Path" and all(isinstance(x, (str, Path)) for x in args):
            return Path(os.path.join(*[x if isinstance(x, str) else x.text for x in args]) if args else ".")
        if name.startswith("os.") and any(isinstance(x, Path) for x in args):
            return self.ext_call(name, [x.text if isinstance(x, Path) else x for x in args], kw)
        if name == "os.fspath" and isinstance(args[0], str):
            return args[0]
        if name == "io.StringIO" and len(args) == 1 and isinstance(args[0], str):
            return File(args[0].splitlines(True))
        if name == "re.compile" and len(args) == 1:
            return Pattern(args[0])
        if name in ("re.match", "re.search", "re.fullmatch", "re.findall", "re.finditer", "re.split"):
            return self.regex(name[3:], args[0], args[1], args[2:])
        if name in ("optparse.OptionParser", "argparse.ArgumentParser"):
            return Parser(name.split(".")[0])
        if name in ("sys.exit", "os._exit"):
            self.throw("SystemExit", str(args[0]) if args and isinstance(args[0], NATIVE) else "")
        if name == "sys.stdout.write":
            self.out.append(args[0])
            return None
        if name == "os.path.exists" or name == "os.path.isfile":
            return args[0] in self.files
        self.unsupported("call of " + name)


class Cut(Exception):
    pass


# ---------------------------------------------------------------- what is expected

def forms(names):
    """{name: (two arguments, single precision, array)}, {name: name of the libm function beside it or None}"""
    out = {}
    have = set(names)
    for n in names:
        v = n.endswith("v") and n[:-1] in have
        s = n[:-1] if v else n
        f = s.endswith("f") and s[:-1] in have
        out[n] = ("2D" in n or "Atan2" in n, f, v)
    return out


def partner(name):
    """the fast function a libm function is shown beside"""
    return "Fast_" + name.replace("Inverse", "Inv")


class Reports:
    """k reports with the lines of the benchmark; all = the numbers as they are"""

    def __init__(self, names, k, normalise):
        self.names, self.k, self.form = names, k, forms(names)
        self.identity = {self.form[n]: n for n in names if n.startswith("Identity")}
        self.normalise = normalise
        self.shown = [n for n in names if not (normalise and n.startswith("Identity"))]

    def time(self, p, j, n):
        t = atom("time", j, n)
        return p.binop("Sub", t, atom("time", j, self.identity[self.form[n]])) if self.normalise else t

    def error(self, p, j, n):
        e = atom("error", j, n)
        if not self.normalise:
            return e
        i = atom("error", j, self.identity[self.form[n]])
        return p.root(p.binop("Add", p.binop("Mult", e, e), p.binop("Mult", i, i)))

    def cell(self, p, j, n, against=None):
        out = [("time of %s in report %d" % (n, j + 1), self.time(p, j, n), 2), ("error of %s in report %d" % (n, j + 1), self.error(p, j, n), 2)]
        if against is not None:
            d = self.time(p, j, n)
            out.append(("speedup of %s in report %d" % (n, j + 1), (against, d), 1))
        return out

    def tables(self, p, kind):
        """(titles, rows) of each table; a row is (name, cells)"""
        s = self.shown
        if kind == "-s":
            return [([j for j in range(self.k)], [(n, [c for j in range(self.k) for c in self.cell(p, j, n, self.time(p, 0, n) if j else None)]) for n in s])]
        if kind == "-v":
            return [([0] + list(range(self.k)), [(n, self.cell(p, 0, n) + [c for j in range(self.k) for c in self.cell(p, j, n + "v", self.time(p, 0, n))]) for n in s if n + "v" in s])]
        return [([j], [(n, self.cell(p, j, n) + self.cell(p, j, partner(n), self.time(p, j, n))) for n in s if not self.form[n][2] and not n.startswith("Fast_") and partner(n) in s]) for j in range(self.k)]


def lines_for(p, shapes, j):
    out = []
    for l in shapes:
        name, nums, t = l[1], iter(("time", "error")), ""
        t = " ".join(x if isinstance(x, str) else p.run_of(("read", next(nums), j, name)) for x in l)
        out.append(t + "\n")
    return out


def same(a, key_n, key_d):
    return Rational.mul(a.n, dict(key_d[1:])) == Rational.mul(dict(key_n[1:]), a.d)


def judge(ctx, p, reports, kinds):
    """compare what was printed with the tables; (what, row) or None"""
    try:
        lines = [[p.read(w) for w in l.split()] for l in "".join(p.out).split("\n")]
    except Cut as x:
        return str(x)
    want = [t for k in kinds for t in reports.tables(p, k)]
    got, names = [], set(reports.names)
    for l in lines:
        if not l:
            continue
        if l[0] and isinstance(l[0][0], str) and len(l[0]) == 1 and l[0][0] in names:
            if not got:
                return "a row of %s before any heading" % l[0][0]
            got[-1][1].append(l)
        elif not got or got[-1][1]:
            got.append(([l], []))
        else:
            got[-1][0].append(l)
    if len(got) != len(want):
        return "%d tables are printed instead of %d" % (len(got), len(want))
    for (head, rows), (titles, expected) in zip(got, want):
        shown = [x for l in head for w in l for x in w if isinstance(x, tuple)]
        if shown != [("nick", j) for j in titles]:
            return "the columns are headed %s" % ", ".join("%s %d" % (x[0], x[1] + 1) if x[0] == "nick" else "a number" for x in shown)
        if [r[0][0] for r in rows] != [n for n, _ in expected]:
            a, b = [r[0][0] for r in rows], [n for n, _ in expected]
            odd = [x for x in b if x not in a] or [x for x in a if x not in b]
            return "rows: %s" % ("%s is %s" % (odd[0], "missing" if odd[0] in b else "not expected") if odd else "another order, or twice the same")
        for r, (n, cells) in zip(rows, expected):
            ctx.count("rows_compared")
            nums = []
            for w in r[1:]:
                k = [x for x in w if isinstance(x, tuple)]
                if len(k) > 1 or k and isinstance(w[0], str) and w[0][-1:] in "0123456789.-+":
                    return "row of %s: numbers run together" % n
                nums += k
            if len(nums) != len(cells):
                return "row of %s: %d numbers instead of %d" % (n, len(nums), len(cells))
            for g, (what, v, digits) in zip(nums, cells):
                ctx.count("numbers_compared")
                if g[0] == "nick":
                    return "row of %s: a nickname among the numbers" % n
                if g[0] == "read":
                    a = atom(*g[1:])
                    g = ("num", Rational.key(a.n), Rational.key(a.d), 2)
                if isinstance(v, tuple):
                    a, d = v
                    if p.order(d, Num({})) == 0:
                        continue        # no speedup
                    v = Num(Rational.mul(a.n, d.d), Rational.mul(a.d, d.n))
                if not same(v, g[1], g[2]):
                    return "row of %s: not the %s" % (n, what)
                exact = g[3]
                if isinstance(exact, tuple) and exact[1] < 15 or not isinstance(exact, tuple) and exact < digits:
                    return "row of %s: the %s with too few digits" % (n, what)
    return None


def scenario(ctx, path, shapes, k, kinds, normalise, special=None):
    p = Script([], {}, special)
    p.argv = [os.path.basename(path)]
    reports = Reports([l[1] for l in shapes], k, normalise)
    for j in range(k):
        f = p.run_of(("nick", j)) + "__performance_benchmark.txt"
        p.files[f] = lines_for(p, shapes, j)
        p.argv.append(f)
    p.argv += list(kinds) + ([] if normalise else ["--no-normalise"])
    label = "%d report%s, %s" % (k, "" if k == 1 else "s", " ".join(p.argv[1 + k:]))
    try:
        p.program(path)
        what = judge(ctx, p, reports, kinds)
        where = os.path.basename(path)
    except Raised as e:
        what, where = "%s: %s" % (e.name, e.text), e.where
    except Cut as e:
        what, where = str(e), p.where()
    ctx.count("tables_followed", len(reports.tables(p, kinds[0])) if len(kinds) == 1 else len(kinds))
    return p, (where, "%s: %s" % (label, what)) if what else None


def tabulate(ctx, path, shapes, say):
    """all tables of a script; returns the lines evaluated"""
    lines = set()
    names = [l[1] for l in shapes]
    few = [l for l in shapes if re.sub(r"(f?v?)$", "", l[1]) in ("Identity", "Sin", "Fast_Sin", "Inverse", "Fast_In", "Fast_Inv")]
    for normalise in (True, False):
        for kinds in (["-s"], ["-v"], ["-l"], ["-s", "-v", "-l"]):
            for k in (1, 2, 3):
                p, wrong = scenario(ctx, path, shapes, k, kinds, normalise)
                lines |= p.lines
                if wrong:
                    say(*wrong)
                    return lines
    for normalise in (True, False):
        for kinds in (["-s"], ["-v"], ["-l"]):
            p, wrong = scenario(ctx, path, few, 2, kinds, normalise)
            for key in list(p.orders):
                for r in (0, -1):
                    ctx.count("exceptional_traces")
                    q, bad = scenario(ctx, path, few, 2, kinds, normalise, {key: r})
                    lines |= q.lines
                    if bad:
                        say(bad[0], bad[1] + (" (a time of zero)" if r == 0 else " (a negative time)"))
                        return lines
    return lines


def commands(ctx, path, written, say):
    """the command checkAccuracy prints for a nickname"""
    p = Script([], {})
    nick = p.run_of(("nick", 0))
    p.argv = [os.path.basename(path), nick]
    try:
        p.program(path)
    except Raised as e:
        say(e.where, "%s: %s" % (e.name, e.text))
        return p.lines
    where = os.path.basename(path)
    out = "".join(p.out).strip()
    try:
        words = shlex.split(out)
    except ValueError:
        say(where, "the command is not quoted properly")
        return p.lines
    if len(out.split("\n")) != 1 or not words or os.path.basename(words[0]) != "vdtArithmComparison":
        say(where, "what is printed is not a vdtArithmComparison command")
        return p.lines
    options = {}
    for w in words[1:]:
        m = re.fullmatch(r"(-\w|--\w+)=(.*)", w)
        if not m or m.group(1) in options:
            say(where, "argument %d of the command is not an option with its value" % (words.index(w)))
            return p.lines
        options[{"--nick": "-n", "--reference": "-R", "--test": "-T"}.get(m.group(1), m.group(1))] = m.group(2)
    if options.get("-n") != nick or set(options) != {"-n", "-R", "-T"}:
        say(where, "the options of the command are %s%s" % (" ".join(sorted(options)), "" if options.get("-n") == nick else ", the nickname is not the one given"))
        return p.lines
    R, T = [options[o].split(",") for o in ("-R", "-T")]

    def function(f):
        return f[len(nick) + 2:-len("__response.txt")] if f.startswith(nick + "__") and f.endswith("__response.txt") else None
    R, T = [function(f) for f in R], [function(f) for f in T]
    for o, l in (("-R", R), ("-T", T)):
        for f in l:
            if f not in written:
                say(where, "option %s names a file the benchmark does not write (function %s)" % (o, f))
                return p.lines
    if T != [partner(f) for f in R]:
        i = next((i for i in range(max(len(R), len(T))) if i >= len(R) or i >= len(T) or T[i] != partner(R[i])))
        say(where, "entry %d compares %s with %s" % (i + 1, R[i] if i < len(R) else "nothing", T[i] if i < len(T) else "nothing"))
        return p.lines
    ctx.count("responses_paired", len(R))
    everything = [b + s for b in ("Acos", "Asin", "Atan", "Atan2", "Cos", "Exp", "Isqrt", "Log", "Sin", "Tan", "Tanh") for s in ("", "v", "f", "fv")]
    for f in everything:
        if R.count(f) != 1:
            say(where, "%s is compared %d times" % (f, R.count(f)))
            return p.lines
    if len(set(R)) != len(R):
        say(where, "a function is compared twice")
    return p.lines


# ---------------------------------------------------------------- check

def report_lines(ctx):
    """lines of the report vdtPerfBenchmark writes, numbers left open"""
    prog = bench.load(ctx, os.path.join(REPO, "progs/vdtPerfBenchmark.cpp"))
    ev, _ = bench.run(prog, {"-n", "-s", "-r"})
    files = [s for s in ev.streams if s.kind == "out"]
    if len(files) != 1:
        raise Broken("%d report files" % len(files))
    out = [[x if isinstance(x, str) else 0 for x in l] for l in bench.lines_of(files[0].ev.v)]
    if any(l.count(0) != 2 or len(l) < 4 for l in out):
        raise Broken("report lines without two numbers")
    return out


def responses(ctx):
    """functions whose responses vdtArithmBenchmark writes"""
    prog = bench.load(ctx, os.path.join(REPO, "progs/vdtArithmBenchmark.cpp"))
    ev, _ = bench.run(prog, {"-n", "-s"})
    out = set()
    for s in ev.streams:
        if s.kind == "out":
            parts = s.target[1] if s.target[0] == "str" else ()
            text = "".join(x if isinstance(x, str) else "\0" for x in parts)
            m = re.fullmatch("\0__(\\w+?)__response\\.txt", text)
            if m:
                out.add(m.group(1))
    return out


def controls(ctx):
    src = os.path.join(VERIF, "selftest")
    n = 0
    shapes = [["Function", f + s, ":", 0, "+-", 0, "ns"] for s in ("", "v", "f", "fv") for f in ("Identity", "Sin", "Inverse", "Fast_Sin", "Fast_Inv")]
    text = open(os.path.join(src, "tables.py")).read()
    for x in re.findall(r"^(?:class|def) ((?:good|bad)_\w+)", text, re.M):
        bad = []
        path = os.path.join(ctx.tmp, "control.py")
        with open(path, "w") as f:
            f.write(text + "\nif __name__ == '__main__':\n   main(%s)\n" % x)
        c = Ctx0()
        tabulate(c, path, shapes, lambda w, t: bad.append(t))
        if bool(bad) != x.startswith("bad"):
            raise Broken("controls: %s: %s" % (x, bad))
        n += 1
    if n < 10:
        raise Broken("controls: too few")
    ctx.coverage["controls_confirmed"] = n


class Ctx0:
    def count(self, *a):
        pass


def check(ctx):
    controls(ctx)
    seen = set()

    def say(where, what):
        if (where, what) not in seen:
            seen.add((where, what))
            ctx.violation("scripts/" + where, what)
    shapes = report_lines(ctx)
    ctx.coverage["report_lines"] = len(shapes)
    ctx.need("report_lines", 100)
    written = responses(ctx)
    ctx.coverage["responses_written"] = len(written)
    ctx.need("responses_written", 100)
    lines = tabulate(ctx, os.path.join(REPO, "scripts", "tabulateVDTResults.py"), shapes, say)
    lines |= commands(ctx, os.path.join(REPO, "scripts", "checkAccuracy.py"), written, say)
    ctx.coverage["source_lines_evaluated"] = len(lines)
    if not ctx.violations:
        ctx.need("rows_compared", 1000)
        ctx.need("numbers_compared", 5000)
        ctx.need("exceptional_traces", 20)
        ctx.need("responses_paired", 44)
    ctx.coverage["explanation"] = ("The lines of the report and the names of the response files are derived from the syntax trees of the two benchmark programs. Abstract evaluation of the syntax trees of the two scripts on such reports with symbolic "
                                   "numbers and nicknames: every number of every row is a rational function (with square roots) of the numbers of the reports and is compared with the expected one; comparisons of numbers partition the traces.")
    ctx.assumptions += ["reports of complete runs, made by one version of the benchmark", "no nickname contains two underscores in a row", "at most one number at a time is exceptional (zero or negative)"]
