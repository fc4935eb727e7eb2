"""Abstract evaluation of Python sources over their syntax tree. Constants fold; everything else is an abstract value supplied by
the subclass. A condition on an abstract value is a Cond: the traces are partitioned by its two outcomes, consistently within a trace."""
import ast
import os
import string
from common import Broken


class Unsupported(Broken):
    pass


class Cond:
    def __init__(self, key, neg=False):
        self.key, self.neg = key, neg


class Abstract:
    """base of the values of a subclass"""


class Ext:
    """something of a library, known by its dotted name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Mod:
    def __init__(self, name, file):
        self.name, self.file, self.env = name, file, {}


class Func:
    def __init__(self, node, scope, name, defaults=(), kwdefaults=(), bound=None):
        self.node, self.scope, self.name, self.defaults, self.kwdefaults, self.bound = node, scope, name, defaults, kwdefaults, bound


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Class:
    def __init__(self, name, bases):
        self.name, self.bases, self.env = name, bases, {}

    def find(self, n):
        if n in self.env:
            return self.env[n]
        for b in self.bases:
            if isinstance(b, Class):
                r = b.find(n)
                if r is not None:
                    return r
        return None


class Obj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class Scope:
    def __init__(self, mod, vars, outer=None):
        self.mod, self.vars, self.outer, self.globals, self.nonlocals = mod, vars, outer, set(), set()


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Raised(Exception):
    """an exception of the analysed program"""

    def __init__(self, name, text, where):
        self.name, self.text, self.where = name, text, where


PARENTS = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception", "TypeError": "Exception", "ValueError": "Exception",
           "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "NameError": "Exception", "AssertionError": "Exception", "RuntimeError": "Exception", "OSError": "Exception",
           "NotImplementedError": "RuntimeError", "StopIteration": "Exception", "SystemExit": "BaseException", "Exception": "BaseException", "ZeroDivisionError": "Exception",
           "UnboundLocalError": "NameError", "FileNotFoundError": "OSError", "IOError": "OSError"}
NATIVE = (type(None), bool, int, float, complex, str, bytes, tuple, list, dict, set, frozenset, range, slice)
STR = {"format", "endswith", "startswith", "strip", "rstrip", "lstrip", "split", "join", "upper", "lower", "replace", "find", "rfind", "index", "count", "splitlines", "partition",
       "rpartition", "isdigit", "isalpha", "encode", "title", "capitalize", "zfill", "ljust", "rjust", "center", "removesuffix", "removeprefix", "decode"}
LIST = {"append", "extend", "insert", "pop", "remove", "index", "count", "reverse", "copy", "clear"}
DICT = {"get", "setdefault", "items", "keys", "values", "pop", "update", "copy", "clear"}
SET = {"add", "update", "discard", "copy", "union"}


class Py:
    def __init__(self, dirs, decisions=(), facts=()):
        self.dirs, self.decisions, self.taken, self.facts = dirs, list(decisions), [], dict(facts)
        self.modules, self.lines, self.steps, self.node, self.file, self.depth = {}, set(), 0, None, "", 0
        self.sources = {}

    # ------------------------------------------------------------ hooks
    EXTERNAL = {"numpy", "os", "ctypes", "sys", "re", "math", "functools", "itertools", "operator", "collections", "optparse", "argparse", "__future__", "glob", "pathlib", "typing", "dataclasses", "textwrap", "shlex", "io"}

    def ext_call(self, name, args, kw):
        self.unsupported("call of " + name)

    def ext_attr(self, name, a):
        return Ext(name + "." + a)

    def abstract_attr(self, v, a):
        self.unsupported("attribute %s" % a)

    def abstract_setattr(self, v, a, x):
        self.unsupported("assignment to attribute %s" % a)

    def abstract_item(self, v, k):
        self.unsupported("subscript")

    def abstract_setitem(self, v, k, x):
        self.unsupported("assignment to an element")

    def abstract_call(self, v, args, kw):
        self.unsupported("call of a value")

    def abstract_method(self, v, name, args, kw):
        self.unsupported("method %s" % name)

    def abstract_iter(self, v):
        self.unsupported("iteration over a value")

    def abstract_binop(self, o, a, b):
        self.unsupported("operation %s" % o)

    def abstract_compare(self, o, a, b):
        self.unsupported("comparison %s" % o)

    def abstract_truth(self, v):
        self.unsupported("truth of a value")

    def abstract_builtin(self, name, args, kw):
        self.unsupported("%s of a value" % name)

    # ------------------------------------------------------------ plumbing
    def where(self):
        return "%s:%d" % (self.file, getattr(self.node, "lineno", 0))

    def unsupported(self, what):
        raise Unsupported("%s: %s: no model" % (self.where(), what))

    def throw(self, name, text):
        raise Raised(name, text, self.where())

    def decide(self, key):
        if key in self.facts:
            return self.facts[key]
        i = len(self.taken)
        v = self.decisions[i] if i < len(self.decisions) else True
        self.taken.append(v)
        self.facts[key] = v
        if len(self.taken) > 12:
            self.unsupported("more than 12 undecided conditions")
        return v

    def truth(self, v):
        if isinstance(v, Cond):
            return self.decide(v.key) != v.neg
        if isinstance(v, NATIVE):
            return bool(v)
        if isinstance(v, Abstract):
            r = self.abstract_truth(v)
            return self.truth(r) if isinstance(r, Cond) else bool(r)
        if isinstance(v, Obj) and (v.cls.find("__bool__") or v.cls.find("__len__")):
            return self.truth(self.method(v, "__bool__" if v.cls.find("__bool__") else "__len__", [], {}))
        return True

    def iterate(self, v):
        if isinstance(v, (tuple, list, str, range, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Abstract):
            return self.abstract_iter(v)
        if isinstance(v, Obj) and getattr(v.cls, "tuple", False):
            return [v.attrs[n] for n, _, _ in v.cls.fields]
        if isinstance(v, Obj) and v.cls.find("__iter__"):
            return self.iterate(self.method(v, "__iter__", [], {}))
        self.unsupported("iteration over %s" % type(v).__name__)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        for d in self.dirs:
            p = os.path.join(d, *name.split(".")) + ".py"
            if os.path.exists(p):
                return self.load(name, p)
        if name.split(".")[0] in self.EXTERNAL:
            return Ext(name)
        self.throw("ModuleNotFoundError", "No module named '%s'" % name)

    def load(self, name, path, main=False):
        src = open(path).read()
        m = self.modules[name] = Mod(name, os.path.basename(path))
        self.sources[m.file] = path
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Raised("SyntaxError", "%s (not Python 3)" % e.msg, "%s:%d" % (m.file, e.lineno or 0))
        m.env.update(__name__="__main__" if main else name, __file__=path)
        self.block(tree.body, Scope(m, m.env))
        return m

    def imported(self, m, a):
        if isinstance(m, Ext):
            return self.ext_attr(m.name, a)
        if a in m.env:
            return m.env[a]
        self.throw("ImportError", "cannot import name '%s'" % a)

    # ------------------------------------------------------------ statements
    def block(self, body, sc):
        for s in body:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        saved = self.node, self.file
        self.node, self.file = s, sc.mod.file
        self.lines.add((self.file, s.lineno))
        self.steps += 1
        if self.steps > 400000:
            self.unsupported("too many steps")
        getattr(self, "s_" + type(s).__name__, self.s_other)(s, sc)
        self.node, self.file = saved

    def s_other(self, s, sc):
        self.unsupported("statement " + type(s).__name__)

    def s_Pass(self, s, sc):
        pass

    def s_Expr(self, s, sc):
        if not (isinstance(s.value, ast.Constant)):
            self.ev(s.value, sc)

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.module(a.name)
            if a.asname:
                self.bind(a.asname, m, sc)
            else:
                top = a.name.split(".")[0]
                self.bind(top, m if top == a.name else self.module(top), sc)

    def s_ImportFrom(self, s, sc):
        m = self.module(s.module or "")
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Ext):
                    self.unsupported("import * of " + m.name)
                names = m.env.get("__all__") or [n for n in m.env if not n.startswith("_")]
                for n in names:
                    self.bind(n, self.imported(m, n), sc)
            elif s.module == "__future__":
                pass
            else:
                self.bind(a.asname or a.name, self.imported(m, a.name), sc)

    def s_FunctionDef(self, s, sc):
        v = Func(s, sc, s.name, [self.ev(d, sc) for d in s.args.defaults], [d and self.ev(d, sc) for d in s.args.kw_defaults])
        for d in reversed(s.decorator_list):
            dv = self.ev(d, sc)
            if isinstance(dv, Ext) and dv.name.split(".")[-1] in ("lru_cache", "cache", "wraps", "staticmethod", "property") or isinstance(dv, Builtin) and dv.name == "staticmethod":
                if not dv.name.endswith("property"):
                    continue
            v = self.call(dv, [v], {})
        self.bind(s.name, v, sc)

    def s_ClassDef(self, s, sc):
        c = Class(s.name, [self.ev(b, sc) for b in s.bases])
        self.block(s.body, Scope(sc.mod, c.env, sc))
        named = any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in c.bases)
        for d in s.decorator_list:
            d = self.ev(d, sc)
            if not (isinstance(d, Ext) and d.name.startswith("dataclasses.dataclass")):
                self.unsupported("decorator of a class")
            named = True
        if named:
            c.fields = [(x.target.id, c.env.get(x.target.id, None), x.value is not None) for x in s.body if isinstance(x, ast.AnnAssign)]
            c.tuple = not s.decorator_list
        self.bind(s.name, c, sc)

    def s_Return(self, s, sc):
        raise Ret(None if s.value is None else self.ev(s.value, sc))

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        t = s.target
        old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else
                      ast.copy_location(type(t)(**dict({f: getattr(t, f) for f in t._fields}, ctx=ast.Load())), t), sc)
        v = self.ev(s.value, sc)
        if isinstance(old, list) and isinstance(s.op, ast.Add):
            old.extend(self.iterate(v))
            return
        self.assign(t, self.binop(type(s.op).__name__, old, v), sc)

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            else:
                self.unsupported("del")

    def s_Global(self, s, sc):
        sc.globals |= set(s.names)

    def s_Nonlocal(self, s, sc):
        sc.nonlocals |= set(s.names)

    def s_If(self, s, sc):
        self.block(s.body if self.truth(self.ev(s.test, sc)) else s.orelse, sc)

    def s_For(self, s, sc):
        for v in self.iterate(self.ev(s.iter, sc)):
            self.assign(s.target, v, sc)
            try:
                self.block(s.body, sc)
            except Brk:
                return
            except Cont:
                continue
        self.block(s.orelse, sc)

    def s_While(self, s, sc):
        n = 0
        while self.truth(self.ev(s.test, sc)):
            n += 1
            if n > 5000:
                self.unsupported("a loop without known end")
            try:
                self.block(s.body, sc)
            except Brk:
                return
            except Cont:
                continue
        self.block(s.orelse, sc)

    def s_Break(self, s, sc):
        raise Brk()

    def s_Continue(self, s, sc):
        raise Cont()

    def s_Raise(self, s, sc):
        if s.exc is None:
            raise sc.current if getattr(sc, "current", None) else Raised("RuntimeError", "no active exception", self.where())
        v = self.ev(s.exc, sc)
        if isinstance(v, Raised):
            raise v
        name = v.name.split(".")[-1] if isinstance(v, (Ext, Class, Builtin)) else "Exception"
        self.throw(name, "")

    def s_Assert(self, s, sc):
        if not self.truth(self.ev(s.test, sc)):
            self.throw("AssertionError", "assertion fails")

    def matches(self, e, t):
        if t is None:
            return True
        if isinstance(t, tuple):
            return any(self.matches(e, x) for x in t)
        want = t.name.split(".")[-1] if isinstance(t, (Ext, Builtin, Class)) else ""
        n = e.name
        while n:
            if n == want:
                return True
            n = PARENTS.get(n)
        return False

    def s_Try(self, s, sc):
        saved = self.node, self.file
        try:
            try:
                self.block(s.body, sc)
            except Raised as e:
                for h in s.handlers:
                    if self.matches(e, h.type and self.ev(h.type, sc)):
                        self.node, self.file = h, sc.mod.file
                        if h.name:
                            sc.vars[h.name] = e
                        old, sc.current = getattr(sc, "current", None), e
                        self.block(h.body, sc)
                        sc.current = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, sc)
        finally:
            self.node, self.file = saved
            self.block(s.finalbody, sc)

    def s_With(self, s, sc):
        for i in s.items:
            v = self.ev(i.context_expr, sc)
            v = self.enter(v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, sc)
        self.block(s.body, sc)

    def enter(self, v):
        if isinstance(v, Abstract):
            return v
        if isinstance(v, Obj):
            return self.method(v, "__enter__", [], {})
        self.unsupported("with")

    # ------------------------------------------------------------ names
    def bind(self, n, v, sc):
        if n in sc.globals:
            sc.mod.env[n] = v
        elif n in sc.nonlocals:
            o = sc.outer
            while o is not None and n not in o.vars:
                o = o.outer
            (o or sc).vars[n] = v
        else:
            sc.vars[n] = v

    def name(self, n, sc):
        o = sc
        if n not in sc.globals:
            while o is not None:
                if n in o.vars:
                    return o.vars[n]
                o = o.outer
        if n in sc.mod.env:
            return sc.mod.env[n]
        if n in self.BUILTINS:
            return Builtin(n, None)
        if n in PARENTS or n == "BaseException":
            return Ext("builtins." + n)
        self.throw("NameError", "name '%s' is not defined" % n)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i, k = star[0], len(t.elts) - 1 - star[0]
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts):
                self.throw("ValueError", "%d values for %d names" % (len(vs), len(t.elts)))
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
            elif isinstance(o, Mod):
                o.env[t.attr] = v
            elif isinstance(o, Class):
                o.env[t.attr] = v
            elif isinstance(o, Abstract):
                self.abstract_setattr(o, t.attr, v)
            elif isinstance(o, Func):
                o.__dict__.setdefault("attrs", {})[t.attr] = v
            else:
                self.unsupported("assignment to attribute " + t.attr)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, sc), self.ev(t.slice, sc)
            if isinstance(o, (dict, list)) and not isinstance(k, (Abstract, Cond)):
                o[k] = v
            elif isinstance(o, Obj):
                self.method(o, "__setitem__", [k, v], {})
            elif isinstance(o, Abstract):
                self.abstract_setitem(o, k, v)
            else:
                self.unsupported("assignment to an element")
        else:
            self.unsupported("assignment")

    # ------------------------------------------------------------ expressions
    def ev(self, e, sc):
        return getattr(self, "e_" + type(e).__name__, self.e_other)(e, sc)

    def e_other(self, e, sc):
        self.unsupported("expression " + type(e).__name__)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.name(e.id, sc)

    def seq(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, sc))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Tuple(self, e, sc):
        return tuple(self.seq(e.elts, sc))

    def e_List(self, e, sc):
        return self.seq(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self.seq(e.elts, sc))

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc))
            else:
                d[self.ev(k, sc)] = self.ev(v, sc)
        return d

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def e_IfExp(self, e, sc):
        return self.ev(e.body if self.truth(self.ev(e.test, sc)) else e.orelse, sc)

    def e_Lambda(self, e, sc):
        return Func(e, sc, "<lambda>", [self.ev(d, sc) for d in e.args.defaults], [d and self.ev(d, sc) for d in e.args.kw_defaults])

    def e_Yield(self, e, sc):
        sc.yields.append(None if e.value is None else self.ev(e.value, sc))

    def e_YieldFrom(self, e, sc):
        sc.yields += self.iterate(self.ev(e.value, sc))

    def e_BoolOp(self, e, sc):
        stop = isinstance(e.op, ast.Or)
        v = None
        for x in e.values[:-1]:
            v = self.ev(x, sc)
            if self.truth(v) == stop:
                return v if not isinstance(v, Cond) else stop
        return self.ev(e.values[-1], sc)

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return Cond(v.key, not v.neg) if isinstance(v, Cond) else not self.truth(v)
        if isinstance(v, (int, float)):
            return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[type(e.op).__name__]()
        return self.abstract_binop(type(e.op).__name__, v, None)

    OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
           "Pow": lambda a, b: a ** b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}

    def plain(self, *vs):
        """constants throughout"""
        for v in vs:
            if isinstance(v, (tuple, list, set)):
                if not self.plain(*v):
                    return False
            elif isinstance(v, dict):
                if not self.plain(*v.values()):
                    return False
            elif not isinstance(v, NATIVE):
                return False
        return True

    def binop(self, o, a, b):
        if o in ("Add", "Mult") and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple, int)) or o == "Mult" and isinstance(b, (list, tuple)) and isinstance(a, int):
            try:
                return self.OPS[o](a, b)
            except TypeError as x:
                self.throw("TypeError", str(x))
        if isinstance(a, (list, tuple, dict)) and isinstance(b, NATIVE) and o in ("Sub", "Div", "Pow"):
            self.throw("TypeError", "unsupported operand types")
        if o == "BitOr" and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if self.plain(a, b):
            try:
                return self.OPS[o](a, b)
            except Exception as x:
                self.throw(type(x).__name__, str(x))
        return self.abstract_binop(o, a, b)

    def e_BinOp(self, e, sc):
        return self.binop(type(e.op).__name__, self.ev(e.left, sc), self.ev(e.right, sc))

    def e_Compare(self, e, sc):
        a, r = self.ev(e.left, sc), True
        for o, x in zip(e.ops, e.comparators):
            b = self.ev(x, sc)
            r = self.compare(type(o).__name__, a, b)
            if len(e.ops) > 1 and not self.truth(r):
                return False
            a = b
        return r

    def compare(self, o, a, b):
        if o in ("In", "NotIn"):
            if isinstance(b, (dict, set, list, tuple, str, range)) and not isinstance(a, (Abstract, Cond)):
                return (a in b) == (o == "In")
            if isinstance(b, Obj):
                return self.truth(self.method(b, "__contains__", [a], {})) == (o == "In")
            return self.abstract_compare(o, a, b)
        if o in ("Is", "IsNot") and (a is None or b is None or isinstance(a, bool) or isinstance(b, bool)):
            return (a is b) == (o == "Is")
        if o in ("Is", "IsNot") and isinstance(a, (Abstract, Ext)) and isinstance(b, (Abstract, Ext)):
            return (a is b or isinstance(a, Ext) and a == b) == (o == "Is")
        if isinstance(a, Obj) and o in ("Eq", "NotEq") and a.cls.find("__eq__"):
            return self.truth(self.method(a, "__eq__", [b], {})) == (o == "Eq")
        if self.plain(a, b) or o in ("Eq", "NotEq") and isinstance(a, (Ext,) + NATIVE) and isinstance(b, (Ext,) + NATIVE):
            try:
                return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b, "Is": lambda: a == b, "IsNot": lambda: a != b}[o]()
            except TypeError as x:
                self.throw("TypeError", str(x))
        return self.abstract_compare(o, a, b)

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), e.attr)

    def getattr(self, o, a):
        if isinstance(o, Ext):
            return self.ext_attr(o.name, a)
        if isinstance(o, Mod):
            if a in o.env:
                return o.env[a]
            self.throw("AttributeError", "module %s has no attribute %s" % (o.name, a))
        if isinstance(o, Obj):
            if a in o.attrs:
                return o.attrs[a]
            f = o.cls.find(a)
            if isinstance(f, Func):
                return Func(f.node, f.scope, f.name, f.defaults, f.kwdefaults, o) if f.bound is None else f
            if f is not None or a in o.cls.env:
                return f
            self.throw("AttributeError", "no attribute " + a)
        if isinstance(o, Class):
            f = o.find(a)
            if f is not None:
                return f
            self.throw("AttributeError", "no attribute " + a)
        if isinstance(o, Abstract):
            return self.abstract_attr(o, a)
        if isinstance(o, Func) and a in getattr(o, "attrs", {}):
            return o.attrs[a]
        if isinstance(o, Func) and a == "__name__":
            return o.name
        if isinstance(o, NATIVE):
            if not hasattr(o, a):
                self.throw("AttributeError", "'%s' object has no attribute '%s'" % (type(o).__name__, a))
            return Method(o, a)
        self.unsupported("attribute " + a)

    def e_Subscript(self, e, sc):
        return self.item(self.ev(e.value, sc), self.ev(e.slice, sc))

    def e_Slice(self, e, sc):
        return slice(*[x and self.ev(x, sc) for x in (e.lower, e.upper, e.step)])

    def item(self, o, k):
        if isinstance(o, (str, tuple, list, dict, range)) and not isinstance(k, (Abstract, Cond)):
            try:
                return o[k]
            except Exception as x:
                self.throw(type(x).__name__, str(x))
        if isinstance(o, Obj) and getattr(o.cls, "tuple", False):
            return self.item(tuple(self.iterate(o)), k)
        if isinstance(o, Obj):
            return self.method(o, "__getitem__", [k], {})
        return self.abstract_item(o, k)

    def e_JoinedStr(self, e, sc):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value, sc)
                f = self.ev(p.format_spec, sc) if p.format_spec is not None else ""
                if not self.plain(v):
                    return self.abstract_builtin("format", [v, f], {})
                if p.conversion == 114:
                    v = repr(v)
                out.append(format(v, f))
        return "".join(out)

    def comp(self, e, gens, sc, put):
        if not gens:
            put(sc)
            return
        g = gens[0]
        for v in self.iterate(self.ev(g.iter, sc)):
            self.assign(g.target, v, sc)
            if all(self.truth(self.ev(c, sc)) for c in g.ifs):
                self.comp(e, gens[1:], sc, put)

    def e_ListComp(self, e, sc):
        out, inner = [], Scope(sc.mod, {}, sc)
        self.comp(e, e.generators, inner, lambda s: out.append(self.ev(e.elt, s)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, sc):
        return set(self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        out, inner = {}, Scope(sc.mod, {}, sc)
        self.comp(e, e.generators, inner, lambda s: out.__setitem__(self.ev(e.key, s), self.ev(e.value, s)))
        return out

    # ------------------------------------------------------------ calls
    def e_Call(self, e, sc):
        f = self.ev(e.func, sc)
        args = self.seq(e.args, sc)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, sc))
            else:
                kw[k.arg] = self.ev(k.value, sc)
        if isinstance(f, Builtin) and f.name in ("globals", "locals"):
            return sc.mod.env if f.name == "globals" else sc.vars
        if isinstance(f, Builtin) and f.name == "super":
            self.unsupported("super")
        saved = self.node, self.file
        self.node, self.file = e, sc.mod.file
        r = self.call(f, args, kw)
        self.node, self.file = saved
        return r

    def method(self, o, name, args, kw):
        return self.call(self.getattr(o, name), args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Partial):
            return self.call(f.fn, f.args + args, dict(f.kw, **kw))
        if isinstance(f, Builtin):
            return f.fn(*args, **kw) if f.fn else self.builtin(f.name, args, kw)
        if isinstance(f, Method):
            return self.native_method(f.obj, f.name, args, kw)
        if isinstance(f, Class):
            o = Obj(f)
            init = f.find("__init__")
            if init is None and getattr(f, "fields", None) is not None:
                if len(args) > len(f.fields):
                    self.throw("TypeError", "%s takes %d arguments" % (f.name, len(f.fields)))
                given = dict(zip([n for n, _, _ in f.fields], args), **kw)
                for n, d, has in f.fields:
                    if n not in given and not has:
                        self.throw("TypeError", "%s lacks the argument %s" % (f.name, n))
                    o.attrs[n] = given.get(n, d)
            if init is not None:
                self.call_func(Func(init.node, init.scope, init.name, init.defaults, init.kwdefaults, o), args, kw)
            return o
        if isinstance(f, Obj):
            return self.method(f, "__call__", args, kw)
        if isinstance(f, Abstract):
            return self.abstract_call(f, args, kw)
        if isinstance(f, Ext):
            if f.name.startswith("builtins."):
                return Raised(f.name[9:], str(args[0]) if args and isinstance(args[0], (str, int, type(None))) else "", self.where())
            if f.name in ("functools.partial",):
                return Partial(args[0], args[1:], kw)
            if f.name == "collections.namedtuple":
                c = Class(args[0], [])
                names = args[1].replace(",", " ").split() if isinstance(args[1], str) else self.iterate(args[1])
                c.fields, c.tuple = [(n, None, False) for n in names], True
                return c
            if f.name == "collections.OrderedDict":
                return self.builtin("dict", args, kw)
            if f.name in ("dataclasses.dataclass",) and not args:
                return Ext(f.name)
            if f.name in ("functools.lru_cache", "functools.cache", "functools.wraps"):
                return Ext(f.name) if not (args and isinstance(args[0], Func)) or f.name.endswith("wraps") else args[0]
            if f.name in ("itertools.chain",):
                return [x for a in args for x in self.iterate(a)]
            if f.name in ("itertools.product",):
                import itertools
                return list(itertools.product(*[self.iterate(a) for a in args], **kw))
            if f.name == "os.path.dirname" and self.plain(args):
                return os.path.dirname(args[0])
            if f.name in ("os.path.join", "os.path.basename", "os.path.abspath", "os.path.realpath", "os.path.splitext") and self.plain(args):
                return getattr(os.path, f.name[8:])(*args)
            if f.name == "functools.reduce":
                vs = self.iterate(args[1])
                acc = args[2] if len(args) > 2 else vs.pop(0)
                for v in vs:
                    acc = self.call(args[0], [acc, v], {})
                return acc
            return self.ext_call(f.name, args, kw)
        if f is None:
            self.throw("TypeError", "'NoneType' object is not callable")
        self.unsupported("call of %s" % type(f).__name__)

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            self.unsupported("recursion")
        a, vars = f.node.args, {}
        args = ([f.bound] if f.bound is not None else []) + list(args)
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            self.throw("TypeError", "%s takes %d arguments but %d were given" % (f.name, len(names), len(args)))
        vars.update(zip(names, args))
        if a.vararg:
            vars[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kw.items():
            if k in vars and k in names:
                self.throw("TypeError", "%s got several values for %s" % (f.name, k))
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw("TypeError", "%s got an unexpected argument %s" % (f.name, k))
        if a.kwarg:
            vars[a.kwarg.arg] = extra
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vars.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if d is not None:
                vars.setdefault(x.arg, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vars:
                self.throw("TypeError", "%s lacks the argument %s" % (f.name, n))
        sc = Scope(f.scope.mod, vars, f.scope if f.scope.vars is not f.scope.mod.env else None)
        saved = self.node, self.file
        try:
            if isinstance(f.node, ast.Lambda):
                self.node, self.file = f.node, f.scope.mod.file
                r = self.ev(f.node.body, sc)
            else:
                sc.yields = []
                try:
                    self.block(f.node.body, sc)
                    r = None
                except Ret as x:
                    r = x.v
                if generates(f.node):
                    r = sc.yields
        finally:
            self.depth -= 1
        self.node, self.file = saved
        return r

    def native_method(self, o, name, args, kw):
        ok = (isinstance(o, (str, bytes)) and name in STR or isinstance(o, list) and name in LIST | {"sort"} or isinstance(o, dict) and name in DICT or isinstance(o, set) and name in SET
              or isinstance(o, tuple) and name in ("index", "count"))
        if not ok:
            self.unsupported("method %s of %s" % (name, type(o).__name__))
        if isinstance(o, (str, bytes)) and not self.plain(args, kw) and not (name == "join"):
            return self.abstract_method(o, name, args, kw)
        if name == "join":
            vs = self.iterate(args[0])
            return o.join(vs) if self.plain(vs) else self.abstract_method(o, name, [vs], kw)
        if isinstance(o, list) and name == "extend":
            args = [self.iterate(args[0])]
        try:
            r = getattr(o, name)(*args, **kw)
        except Exception as x:
            self.throw(type(x).__name__, str(x))
        return list(r) if isinstance(o, dict) and name in ("items", "keys", "values") else r

    BUILTINS = {"len", "range", "tuple", "list", "dict", "set", "zip", "enumerate", "map", "filter", "str", "int", "float", "bool", "sorted", "reversed", "isinstance", "getattr", "setattr", "hasattr", "print",
                "max", "min", "sum", "all", "any", "repr", "type", "callable", "globals", "locals", "abs", "staticmethod", "property", "super", "open", "object", "id", "round", "format", "bytes", "ord", "chr", "iter", "next", "vars", "exit", "quit"}

    def builtin(self, n, args, kw):
        if n in ("tuple", "list", "set"):
            vs = self.iterate(args[0]) if args else []
            return {"tuple": tuple, "list": list, "set": set}[n](vs)
        if n == "dict":
            d = dict(args[0]) if args and isinstance(args[0], dict) else dict(self.iterate(args[0])) if args else {}
            d.update(kw)
            return d
        if n == "iter" and isinstance(args[0], (list, tuple)):
            return list(args[0])
        if n == "zip":
            return [tuple(x) for x in zip(*[self.iterate(a) for a in args])]
        if n == "enumerate":
            return list(enumerate(self.iterate(args[0]), *args[1:], **kw))
        if n == "map":
            return [self.call(args[0], list(x), {}) for x in zip(*[self.iterate(a) for a in args[1:]])]
        if n == "filter":
            return [x for x in self.iterate(args[1]) if self.truth(x if args[0] is None else self.call(args[0], [x], {}))]
        if n == "reversed":
            return list(reversed(self.iterate(args[0])))
        if n == "len" and isinstance(args[0], (str, tuple, list, dict, set, range)):
            return len(args[0])
        if n == "len" and isinstance(args[0], Obj):
            return self.method(args[0], "__len__", [], {})
        if n == "all":
            return all(self.truth(x) for x in self.iterate(args[0]))
        if n == "any":
            return any(self.truth(x) for x in self.iterate(args[0]))
        if n == "print":
            return None
        if n == "callable":
            return isinstance(args[0], (Func, Builtin, Method, Class, Partial))
        if n == "getattr":
            if isinstance(args[0], Abstract) or len(args) < 3:
                return self.getattr(args[0], args[1])
            try:
                return self.getattr(args[0], args[1])
            except Raised as x:
                if x.name == "AttributeError":
                    return args[2]
                raise
        if n == "hasattr":
            try:
                self.getattr(args[0], args[1])
                return True
            except Raised:
                return False
        if n == "setattr" and isinstance(args[0], Abstract):
            return self.abstract_setattr(*args)
        if n == "sorted" and self.plain(args[0]):
            key = kw.get("key")
            vs = self.iterate(args[0])
            ks = [self.call(key, [v], {}) for v in vs] if key else vs
            if self.plain(ks):
                return [v for _, v in sorted(zip(ks, vs), key=lambda p: p[0], reverse=bool(kw.get("reverse")))]
        if n == "object":
            return Obj(Class("object", []))
        if n in ("range", "str", "int", "float", "bool", "max", "min", "sum", "repr", "abs", "round", "format", "ord", "chr", "bytes") and self.plain(args, kw):
            try:
                return {"range": range, "str": str, "int": int, "float": float, "bool": bool, "max": max, "min": min, "sum": sum, "repr": repr, "abs": abs, "round": round, "format": format, "ord": ord, "chr": chr, "bytes": bytes}[n](*args, **kw)
            except Exception as x:
                self.throw(type(x).__name__, str(x))
        if n == "bool":
            return self.truth(args[0])
        if n == "isinstance" and self.plain(args[0]):
            names = [t.name for t in (args[1] if isinstance(args[1], tuple) else (args[1],)) if isinstance(t, (Builtin, Ext))]
            return type(args[0]).__name__ in names
        if n == "isinstance" and isinstance(args[0], Obj) and isinstance(args[1], Class):
            return args[0].cls is args[1]
        return self.abstract_builtin(n, args, kw)


def generates(f):
    """the function itself yields (not one defined in it)"""
    todo = list(f.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(x)
    return False


def traces(make, run, limit=64):
    """run(evaluator) for every partition of the undecided conditions; make(decisions) gives a fresh evaluator"""
    todo, n = [[]], 0
    while todo:
        d = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported("more than %d partitions" % limit)
        p = make(d)
        run(p)
        for i in range(len(d), len(p.taken)):
            todo.append(p.taken[:i] + [not p.taken[i]])
    return n
