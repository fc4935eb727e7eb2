"""P31: the Python functions that call the fat library through ctypes."""
import re
from pyflow import *
from common import *
from wrappers import ARGS, generate, outs

SINGLE = {"numpy.single", "numpy.float32", "ctypes.c_float", "f", "f4", "<f4", "float32", "single"}
DOUBLE = {"numpy.double", "numpy.float64", "ctypes.c_double", "d", "f8", "<f8", "float64", "double", "float"}
GONE = {"numpy." + n: "removed in NumPy 1.24" for n in ("float", "int", "bool", "object", "str", "complex", "long")}
GONE.update({"numpy." + n: "removed in NumPy 2" for n in ("float_", "complex_", "unicode_", "string_")})
LONG = {"ctypes.c_long", "ctypes.c_longlong", "ctypes.c_int64", "ctypes.c_ssize_t", "ctypes.c_size_t", "ctypes.c_uint64", "ctypes.c_ulong", "ctypes.c_ulonglong", "numpy.ctypeslib.c_intp", "numpy.intp", "ctypes.c_void_p"}
LONG -= {"numpy.intp"}
CFLAG, WFLAG = {"C", "CONTIGUOUS", "C_CONTIGUOUS"}, {"W", "WRITEABLE"}
FLAGS = CFLAG | WFLAG | {"A", "ALIGNED", "O", "OWNDATA", "F", "F_CONTIGUOUS", "FORTRAN", "E", "ENSUREARRAY"}


class Raw(Abstract):
    """argument number i: a number, a sequence or any array"""

    def __init__(self, i):
        self.i = i


class Shape(Abstract):
    """what the shapes of the arguments in s broadcast to"""

    def __init__(self, s, flat=False):
        self.s, self.flat = frozenset(s), flat


class Size(Abstract):
    def __init__(self, s):
        self.s = frozenset(s)


class Arr(Abstract):
    def __init__(self, value, dtype, shape, c, own, writeable):
        self.value, self.dtype, self.shape, self.c, self.own, self.writeable = value, dtype, shape, c, own, writeable


class DtypeOf(Abstract):
    def __init__(self, arr):
        self.arr = arr


class FlagsOf(Abstract):
    def __init__(self, arr):
        self.arr = arr


class CtypesOf(Abstract):
    def __init__(self, arr):
        self.arr = arr


class Ptr(Abstract):
    """pointer to the elements; a type (arr None) or a value"""

    def __init__(self, dtype, arr=None):
        self.dtype, self.arr = dtype, arr


class NdPtr(Abstract):
    def __init__(self, dtype, flags, limited):
        self.dtype, self.flags, self.limited = dtype, flags, limited


class Num(Abstract):
    """integer of a C type"""

    def __init__(self, wide, value):
        self.wide, self.value = wide, value


class Lib(Abstract):
    def __init__(self, name):
        self.name, self.fns = name, {}


class Dim(Abstract):
    """one extent, or the number of dimensions, of a shape"""

    def __init__(self, s, what):
        self.s, self.what = s, what


class CFn(Abstract):
    def __init__(self, lib, name):
        self.lib, self.name, self.attrs = lib, name, {}


class Text(Abstract):
    def __init__(self, fn):
        self.fn = fn


class Wrong(Exception):
    def __init__(self, where, what):
        self.where, self.what = where, what


class Layer(Py):
    """names: {C function: (element type, inputs, outputs)}"""

    def __init__(self, dirs, names, decisions=(), facts=()):
        Py.__init__(self, dirs, decisions, facts)
        self.names, self.calls, self.serial = names, 0, 0

    def wrong(self, what):
        raise Wrong(self.where(), what)

    # ------------------------------------------------------------ shapes
    def canon(self, s):
        s = set(s)
        for k, v in self.facts.items():
            if v and k[0] == "same":
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if len(b) <= len(a) and (len(a) > 1 or min(a) > min(b)) and a <= s:
                        s = s - a | b
        return frozenset(s)

    def same(self, a, b, what):
        a, b = self.canon(a), self.canon(b)
        if a == b:
            return True
        return Cond((what,) + tuple(sorted((a, b), key=sorted)))

    def settled(self, a, b):
        return self.canon(a) == self.canon(b)

    def dt(self, x):
        """element type a dtype argument stands for"""
        if x is None:
            return None
        if isinstance(x, DtypeOf):
            return self.dtype(x.arr) or ("of", x.arr.value)
        n = x.name if isinstance(x, (Ext, Builtin)) else x
        if isinstance(n, str):
            if n in SINGLE:
                return "float"
            if n in DOUBLE:
                return "double"
            return n
        if isinstance(x, tuple):
            return x
        if isinstance(x, (Arr, CFn, Lib, Num, Shape)):
            self.throw("TypeError", "cannot interpret %s as a data type" % type(x).__name__)
        self.unsupported("element type")

    def dtype(self, a):
        if a.dtype is None and a.value[0] == "in":
            for k, v in self.facts.items():
                if v and k[0] == "dtype" and k[1] == a.value[1]:
                    return k[2]
        return a.dtype

    def contiguous(self, a):
        return a.c or a.own is None and bool(self.facts.get(("contiguous", a.value))) and a.value[0] == "in" and self.settled(a.shape.s, {a.value[1]})

    # ------------------------------------------------------------ arrays
    def new(self, value, dtype, shape, c=True):
        self.serial += 1
        return Arr(value, dtype, shape, c, self.serial, True)

    def arr(self, x):
        """numpy.asanyarray"""
        if isinstance(x, Raw):
            return Arr(("in", x.i), None, Shape({x.i}), False, None, False)
        if isinstance(x, Arr):
            return x
        if isinstance(x, (CFn, Ext, Func, Lib)):
            self.wrong("an array is made of something that is no argument (%s)" % type(x).__name__)
        self.unsupported("array from %s" % type(x).__name__)

    def convert(self, x, dtype=None, c=False, copy=False):
        a = self.arr(x)
        t = self.dt(dtype)
        if a.value[0] == "undef" and t and t != a.dtype:
            self.unsupported("conversion of an array without values")
        value = a.value
        if t and a.dtype and t != a.dtype:
            value = ("rounded", a.dtype) + a.value      # went through another type
        own, w = a.own, a.writeable
        if copy:
            self.serial += 1
            own, w = self.serial, True
        return Arr(value, t or a.dtype, a.shape, a.c or c, own, w)

    def ext_attr(self, name, a):
        full = name + "." + a
        if full in GONE:
            self.throw("AttributeError", "%s: %s" % (full, GONE[full]))
        return Ext(full)

    def flags(self, f):
        if f is None:
            return set()
        if isinstance(f, str):
            f = f.split(",")
        out = set()
        for x in self.iterate(f):
            x = x.strip().upper()
            if x not in FLAGS:
                self.throw("KeyError", x)
            out.add(x)
        return out

    def ext_call(self, name, args, kw):
        def arg(i, key, default=None):
            return args[i] if i < len(args) else kw.get(key, default)
        n = name[6:] if name.startswith("numpy.") else name
        if name == "numpy.require":
            r = arg(2, "requirements")
            r = set() if r is None else self.flags(list(r) if isinstance(r, str) else r)
            if r & {"F", "F_CONTIGUOUS", "FORTRAN"}:
                self.wrong("the elements are put in Fortran order")
            return self.convert(args[0], arg(1, "dtype"), bool(r & CFLAG), bool(r & {"O", "OWNDATA"}) and False)
        if n in ("asanyarray", "asarray", "array", "asarray_chkfinite") and name.startswith("numpy."):
            order = arg(2, "order") if n != "array" else kw.get("order")
            if order == "F":
                self.wrong("the elements are put in Fortran order")
            return self.convert(args[0], arg(1, "dtype"), order == "C", n == "array" and kw.get("copy", True) is True)
        if name == "numpy.ascontiguousarray":
            return self.convert(args[0], arg(1, "dtype"), True)
        if n in ("empty_like", "zeros_like", "ones_like", "full_like") and name.startswith("numpy."):
            a = self.arr(args[0])
            k = 1 if n != "full_like" else 2
            t = self.dt(arg(k, "dtype"))
            shape = kw.get("shape")
            return self.new(("undef",), t or self.dtype(a), self.shape(shape) if shape is not None else a.shape, self.contiguous(a) or arg(k + 1, "order") == "C" or shape is not None)
        if n in ("empty", "zeros", "ones", "full", "ndarray") and name.startswith("numpy."):
            k = 1 if n != "full" else 2
            return self.new(("undef",), self.dt(arg(k, "dtype", Ext("numpy.double"))), self.shape(args[0]))
        if name in ("numpy.shape", "numpy.size"):
            s = self.arr(args[0]).shape
            return s if name.endswith("shape") else Size(s.s)
        if name in ("numpy.broadcast_arrays", "numpy.broadcast"):
            vs = [self.arr(x) for x in args]
            s = Shape(frozenset().union(*[v.shape.s for v in vs]))
            if any(v.shape.flat for v in vs):
                self.unsupported("broadcast of flattened arrays")
            if n == "broadcast":
                return Arr(("undef",), None, s, False, None, False)
            return tuple(Arr(v.value, v.dtype, s, False, v.own, False) for v in vs)
        if name in ("numpy.broadcast_shapes",):
            return Shape(frozenset().union(*[self.shape(x).s for x in args]))
        if name == "numpy.broadcast_to":
            v, s = self.arr(args[0]), self.shape(arg(1, "shape"))
            if not self.canon(v.shape.s) <= self.canon(s.s):
                self.throw("ValueError", "cannot be broadcast")
            return Arr(v.value, v.dtype, s, False, v.own, False)
        if n in ("ravel", "atleast_1d", "copy", "copyto", "reshape") and name.startswith("numpy."):
            return self.abstract_method(self.arr(args[0]), n, args[1:], kw)
        if name in ("numpy.squeeze", "numpy.transpose", "numpy.sort", "numpy.flip", "numpy.moveaxis", "numpy.swapaxes", "numpy.atleast_2d"):
            self.wrong("the shape or order of the elements is changed (%s)" % name)
        if name == "numpy.dtype":
            return args[0]
        if name in ("numpy.iscomplexobj", "numpy.isscalar"):
            return Cond((name, args[0].i if isinstance(args[0], Raw) else 0))
        if name == "numpy.array_equal" and all(isinstance(x, Shape) for x in args):
            return self.abstract_compare("Eq", *args)
        if name == "numpy.ctypeslib.load_library":
            return self.library(args[0])
        if name in ("ctypes.CDLL", "ctypes.cdll.LoadLibrary", "ctypes.PyDLL"):
            return self.library(args[0])
        if name == "numpy.ctypeslib.ndpointer":
            if arg(2, "shape") is not None or arg(1, "ndim") is not None:
                limited = True
            else:
                limited = False
            return NdPtr(self.dt(arg(0, "dtype")), self.flags(arg(3, "flags")), limited)
        if name == "ctypes.POINTER":
            return Ptr(self.dt(args[0]))
        if name in LONG or name in ("ctypes.c_int", "ctypes.c_uint", "ctypes.c_int32", "ctypes.c_uint32"):
            return Num(name in LONG, args[0])
        if name in ("numpy.intp", "numpy.int64"):
            return args[0]
        if name == "numpy.prod" and isinstance(args[0], Shape):
            return Size(args[0].s)
        self.unsupported("call of " + name)

    def library(self, n):
        if isinstance(n, (bool, int, float, list, dict, Arr, CFn)):
            self.throw("TypeError", "the name of the library is no text")
        if not isinstance(n, str):
            self.unsupported("name of the library")
        return Lib(n)

    def shape(self, x):
        if isinstance(x, Shape):
            return x
        if isinstance(x, Size):
            return Shape(x.s, True)
        if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], Size):
            return Shape(x[0].s, True)
        self.unsupported("shape")

    def abstract_attr(self, v, a):
        if isinstance(v, Raw):
            self.throw("AttributeError", "a list or number has no attribute %s" % a)
        if isinstance(v, Arr):
            if a in ("size", "shape", "dtype", "flags", "ctypes"):
                return {"size": Size(v.shape.s), "shape": v.shape, "dtype": DtypeOf(v), "flags": FlagsOf(v), "ctypes": CtypesOf(v)}[a]
            if a == "nbytes" or a == "itemsize":
                self.unsupported("attribute " + a)
            if a == "ndim":
                return Dim(v.shape.s, "ndim")
            if a == "flat":
                return v
            if a == "T":
                self.wrong("the array is transposed")
            return Method(v, a)
        if isinstance(v, FlagsOf):
            return self.flag(v.arr, a)
        if isinstance(v, CtypesOf):
            if a == "data":
                return Ptr(None, v.arr)
            return Method(v, a)
        if isinstance(v, Lib):
            if a not in v.fns:
                v.fns[a] = self.function(v, a)
            return v.fns[a]
        if isinstance(v, CFn) and a in v.attrs:
            return v.attrs[a]
        if isinstance(v, DtypeOf) and a in ("type", "newbyteorder"):
            return v
        if isinstance(v, Text):
            return Method(v, a)
        self.unsupported("attribute %s" % a)

    def flag(self, a, n):
        n = n.upper()
        if n in CFLAG:
            return True if self.contiguous(a) else Cond(("contiguous", a.value)) if a.value[0] == "in" and a.own is None else self.unsupported("flag")
        if n in ("A", "ALIGNED"):
            return Cond(("aligned", a.value))
        if n in WFLAG:
            return True if a.writeable else Cond(("writeable", a.value))
        self.unsupported("flag " + n)

    def function(self, lib, n):
        if n not in self.names and n != "vdt_arch":
            self.throw("AttributeError", "the library has no function %s" % n)
        return CFn(lib, n)

    def abstract_setattr(self, v, a, x):
        if isinstance(v, CFn) and a in ("restype", "argtypes", "errcheck"):
            v.attrs[a] = x
        elif isinstance(v, Arr) and a == "shape" and v.own:
            v.shape = self.shape(x)
        else:
            self.unsupported("assignment to attribute " + a)

    def abstract_item(self, v, k):
        if isinstance(v, Lib) and isinstance(k, str):
            return self.function(v, k)
        if isinstance(v, Lib) and isinstance(k, (bool, list, dict, Arr, CFn)):
            self.throw("TypeError", "the name of a function is no text")
        if isinstance(v, FlagsOf):
            return self.flag(v.arr, k)
        if isinstance(v, Arr) and (k == () or k is Ellipsis):
            return v
        if isinstance(v, Arr):
            self.wrong("a part of the array is taken")
        if isinstance(v, Shape) and isinstance(k, int):
            return Dim(v.s, k)
        self.unsupported("subscript")

    def abstract_setitem(self, v, k, x):
        if isinstance(v, Arr):
            if v.own is None:
                self.wrong("the argument is written to")
            if isinstance(x, (Arr, Raw)) and (k is Ellipsis or isinstance(k, slice) and k == slice(None)):
                x = self.arr(x)
                v.value = x.value if v.dtype == self.dtype(x) or x.dtype is None else ("rounded", x.dtype) + x.value
                return
        self.unsupported("assignment to an element")

    def abstract_iter(self, v):
        if isinstance(v, Raw) or isinstance(v, Arr) or isinstance(v, Shape):
            self.unsupported("iteration over elements")
        Py.abstract_iter(self, v)

    def abstract_compare(self, o, a, b):
        if o in ("Eq", "NotEq", "Is", "IsNot"):
            r = None
            if isinstance(a, Shape) and isinstance(b, Shape):
                r = self.same(a.s, b.s, "same")
            elif isinstance(a, Size) and isinstance(b, Size):
                r = self.same(a.s, b.s, "size")
            elif isinstance(a, Size) and b == 0:
                r = Cond(("empty", self.canon(a.s)))
            elif isinstance(a, Size) and b == 1:
                r = Cond(("one", self.canon(a.s)))
            elif isinstance(a, Dim) and isinstance(b, (int, Dim)):
                r = Cond(("extent", self.canon(a.s), a.what, (self.canon(b.s), b.what) if isinstance(b, Dim) else b))
            elif isinstance(a, Shape) and b == ():
                r = Cond(("scalar", self.canon(a.s)))
            elif isinstance(a, DtypeOf) or isinstance(b, DtypeOf):
                x, t = (a, b) if isinstance(a, DtypeOf) else (b, a)
                d, t = self.dtype(x.arr), self.dt(t)
                if d is not None or x.arr.value[0] != "in":
                    r = d == t
                else:
                    r = Cond(("dtype", x.arr.value[1], t))
            elif isinstance(a, (Abstract, Ext)) and isinstance(b, (Abstract, Ext)):
                r = a is b
            elif self.plain(a) or self.plain(b):
                r = False
            if r is not None:
                if o in ("Eq", "Is"):
                    return r
                return Cond(r.key, not r.neg) if isinstance(r, Cond) else not r
        if isinstance(a, Size) and b == 0 and o in ("Gt", "LtE"):
            return Cond(("empty", self.canon(a.s)), o == "Gt")
        if isinstance(a, Size) and b == 1 and o in ("Lt", "GtE"):
            return Cond(("empty", self.canon(a.s)), o == "GtE")
        if isinstance(a, Size) and isinstance(b, Size) and o in ("Lt", "Gt", "LtE", "GtE"):
            if self.settled(a.s, b.s):
                return o in ("LtE", "GtE")
            return Cond(("less", self.canon(a.s), self.canon(b.s)) if o in ("Lt", "GtE") else ("less", self.canon(b.s), self.canon(a.s)), o in ("LtE", "GtE"))
        if o in ("In", "NotIn") and isinstance(a, Arr) and isinstance(b, (dict, set)):
            self.throw("TypeError", "unhashable array")
        self.unsupported("comparison %s" % o)

    def abstract_truth(self, v):
        if isinstance(v, Size):
            return Cond(("empty", self.canon(v.s)), True)
        if isinstance(v, (Lib, CFn, NdPtr)):
            return True
        self.unsupported("truth of a value")

    def abstract_binop(self, o, a, b):
        if isinstance(a, (Arr, Raw)) or isinstance(b, (Arr, Raw)):
            self.wrong("arithmetic (%s) on the arrays" % o)
        if isinstance(a, Size) or isinstance(b, Size):
            self.wrong("the number of elements is changed (%s)" % o)
        self.unsupported("operation %s" % o)

    def abstract_builtin(self, n, args, kw):
        v = args[0]
        if n == "isinstance":
            t = args[1] if isinstance(args[1], tuple) else (args[1],)
            names = {x.name for x in t if isinstance(x, (Ext, Builtin))}
            if isinstance(v, Arr):
                return "numpy.ndarray" in names
            if isinstance(v, Raw):
                return Cond(("isinstance", v.i, tuple(sorted(names))))
        if n == "int" and isinstance(v, Size):
            return v
        if n == "len" and isinstance(v, Arr) and v.shape.flat:
            return Size(v.shape.s)
        if n == "len" and isinstance(v, (Arr, Raw)):
            self.wrong("the length of the first dimension is taken")
        if n == "type":
            self.unsupported("type of a value")
        if n in ("max", "min") and all(isinstance(x, Size) for x in args):
            if all(self.settled(x.s, v.s) for x in args):
                return v
        self.unsupported("%s of a value" % n)

    def native_method(self, o, name, args, kw):
        return self.abstract_method(o, name, args, kw) if isinstance(o, Abstract) else Py.native_method(self, o, name, args, kw)

    def abstract_method(self, v, name, args, kw):
        if isinstance(v, Text) and name == "decode":
            return v
        if isinstance(v, CtypesOf) and name == "data_as":
            t = args[0]
            return Ptr(t.dtype if isinstance(t, Ptr) else None, v.arr)
        if isinstance(v, DtypeOf):
            return v
        if isinstance(v, Arr):
            if name in ("astype", "copy", "view"):
                if name == "view":
                    self.unsupported("view")
                order = (args[1] if len(args) > 1 else kw.get("order", "K")) if name == "astype" else (args[0] if args else kw.get("order", "C"))
                if order == "F":
                    self.wrong("the elements are put in Fortran order")
                return self.convert(v, (args[0] if args else kw.get("dtype")) if name == "astype" else None, order == "C", True)
            if name in ("ravel", "flatten"):
                if (args or kw) and (args[0] if args else kw.get("order")) not in ("C",):
                    self.wrong("the elements are taken in another order")
                own = v.own
                if name == "flatten":
                    self.serial += 1
                    own = self.serial
                return Arr(v.value, v.dtype, Shape(v.shape.s, True), True, own, v.writeable)
            if name == "reshape":
                s = args[0] if len(args) == 1 else tuple(args)
                s = Shape(v.shape.s, True) if s == -1 or s == (-1,) else self.shape(s)
                if not self.settled(s.s, v.shape.s):
                    self.unsupported("reshape to another shape")
                return Arr(v.value, v.dtype, s, v.c, v.own, v.writeable)
            if name in ("sort", "fill", "resize", "put", "partition", "itemset", "byteswap"):
                self.wrong("the elements are changed (%s)" % name)
            if name in ("squeeze", "transpose", "swapaxes"):
                self.wrong("the shape is changed (%s)" % name)
            if name == "atleast_1d":
                return v
        self.unsupported("method %s" % name)

    # ------------------------------------------------------------ the call
    def abstract_call(self, f, args, kw):
        if isinstance(f, Ptr) or isinstance(f, NdPtr):
            self.unsupported("construction of a pointer")
        if not isinstance(f, CFn):
            self.unsupported("call of a value")
        if not re.search(r"(^|/)libvdtFatLibWrapper(\.|$)", f.lib.name):
            self.wrong("the library %s is loaded, not libvdtFatLibWrapper" % f.lib.name)
        if f.name == "vdt_arch":
            t = f.attrs.get("restype")
            if not (isinstance(t, Ext) and t.name == "ctypes.c_char_p"):
                self.wrong("the text of vdt_arch is returned as a number")
            return Text(f.name)
        elem, nin, nout = self.names[f.name]
        self.calls += 1
        if kw or len(args) != nin + nout + 1:
            self.wrong("%s gets %d arguments, it has %d" % (f.name, len(args), nin + nout + 1))
        types = f.attrs.get("argtypes")
        types = list(types) if types is not None else None
        if types is not None and len(types) != len(args):
            self.wrong("%s is declared with %d arguments, it has %d" % (f.name, len(types), len(args)))
        ins, out = [], []
        for i, a in enumerate(args[:-1]):
            t = types[i] if types is not None else None
            what = "argument %d of %s" % (i + 1, f.name)
            if isinstance(a, Ptr):
                if a.dtype not in (None, elem) or isinstance(t, Ptr) and t.dtype != elem or isinstance(t, NdPtr):
                    self.wrong("%s is declared with other elements" % what)
                a = a.arr
            elif isinstance(a, Arr):
                if not isinstance(t, NdPtr):
                    self.throw("ctypes.ArgumentError", "%s: an array is passed without declared type" % what)
                if t.limited:
                    self.wrong("%s is declared for certain shapes only" % what)
                if t.dtype not in (None, self.dtype(a)):
                    self.wrong("%s is declared %s and gets %s" % (what, t.dtype, self.dtype(a)))
                if t.flags & CFLAG and not self.contiguous(a) or t.flags & WFLAG and not a.writeable:
                    self.wrong("%s is declared %s, which the array may not be" % (what, ", ".join(sorted(t.flags)).lower()))
            else:
                self.throw("ctypes.ArgumentError", "%s is no array" % what)
            if self.dtype(a) != elem:
                self.wrong("%s takes %s, the array holds %s" % (what, elem, self.dtype(a) or "the type the caller gave"))
            if not self.contiguous(a):
                self.wrong("%s may have gaps between its elements or be in another order" % what)
            (ins if i < nin else out).append(a)
        n = args[-1]
        t = types[-1] if types is not None else None
        wide = t is not None and isinstance(t, Ext) and t.name in LONG
        if isinstance(n, Num):
            wide, n = wide or n.wide, n.value
        if not isinstance(n, Size):
            self.wrong("the size handed to %s is not the number of elements" % f.name)
        if not wide:
            self.wrong("the size handed to %s is passed as a 32-bit number" % f.name)
        for i, a in enumerate(ins + out):
            if not self.settled(a.shape.s, n.s):
                self.wrong("argument %d of %s need not have as many elements as the size says" % (i + 1, f.name))
        for i, a in enumerate(out):
            if a.own is None or not a.writeable:
                self.wrong("output %d of %s may be the caller's array" % (i + 1, f.name))
            if any(a.own == b.own for b in ins + out if b is not a) or any(a is b for b in ins + out[:i]):
                self.wrong("output %d of %s overlaps another argument" % (i + 1, f.name))
        used = tuple(a.value for a in ins)
        for i, a in enumerate(out):
            a.value = ("out", f.name, i, used)
            a.common = n.s
        return None


def judge(p, where, f, nin, nout, elem, cname):
    """call f with nin arguments and look at the result; raises Wrong"""
    try:
        r = p.call(f, [Raw(i) for i in range(nin)], {})
    except Raised as e:
        raise Wrong(where if e.where.startswith(":") else e.where, "%s: %s" % (e.name, e.text))
    everything = frozenset(range(nin))
    if any(v and k[0] == "empty" for k, v in p.facts.items()):
        return
    rs = list(r) if isinstance(r, (tuple, list)) else [r]
    if len(rs) != nout or nout > 1 and not isinstance(r, (tuple, list)) or nout == 1 and isinstance(r, (tuple, list)):
        raise Wrong(where, "returns %d results" % len(rs))
    for i, a in enumerate(rs):
        if not isinstance(a, Arr):
            raise Wrong(where, "returns no array" if a is not None else "returns nothing")
        want = ("out", cname, i, tuple(("in", k) for k in range(nin)))
        if a.value != want:
            if a.value[0] == "out" and a.value[1] != cname:
                raise Wrong(where, "calls %s" % a.value[1])
            if a.value[0] == "out" and a.value[2] != i:
                raise Wrong(where, "the outputs are returned in another order")
            if a.value[0] == "out":
                raise Wrong(where, "the arguments reach %s as %s" % (cname, ", ".join("argument %d" % (x[1] + 1) if x[0] == "in" else "argument %s by way of %s" % (x[-1], x[1]) if x[0] == "rounded" else str(x[0]) for x in a.value[3])))
            raise Wrong(where, "the result was not computed by %s" % cname)
        if a.dtype != elem:
            raise Wrong(where, "the result holds %s" % a.dtype)
        if not p.settled(a.shape.s, everything):
            raise Wrong(where, "the shape of the result is not what the arguments broadcast to")
        if a.shape.flat:
            raise Wrong(where, "the shape of the arguments is lost")


def symbols():
    return {"vdt_%s%sv" % (f, s): (t, n, outs(f)) for f, n in ARGS.items() for t, s in (("double", ""), ("float", "f"))}


def controls(ctx):
    n = 0
    src = os.path.join(VERIF, "selftest")
    names = re.findall(r"^def ((?:good|bad)_\w*)\(", open(os.path.join(src, "pylayer.py")).read(), re.M)
    for x in names:
        bad = []

        def run(p):
            m = p.module("pylayer")
            for _ in (1, 2):
                try:
                    judge(p, x, m.env[x], 2, 1, "double", "vdt_atan2v")
                except Wrong as w:
                    bad.append(w.what)
                    return
        traces(lambda d: Layer([src], symbols(), d), run)
        if bool(bad) != x.startswith("bad"):
            raise Broken("controls: %s: %s" % (x, bad))
        n += 1
    if n < 20:
        raise Broken("controls: too few")
    ctx.coverage["controls_confirmed"] = n


def check(ctx):
    controls(ctx)
    ctx.coverage.update(rules=["as many arguments as the function has, in their order", "elements of the precision of the name, contiguous", "outputs new, of the common shape, in order", "the size is the number of elements, as a long", "independent of earlier calls"],
                        explanation="Abstract evaluation of the syntax tree of vdtBase.py, invokeVDT.py and the generated vdt_ctypes.py: an array is (which argument its values are, element type, set of arguments whose shapes it has, order, owner), "
                        "NumPy and ctypes are modelled by their documentation; conditions on shapes, types or flags partition the traces.")
    d = generate(ctx)
    if d is None:
        return
    dirs = [d, os.path.join(REPO, "scripts"), os.path.join(REPO, "src")]
    lines, seen = set(), set()

    def say(w, name, what):
        k = (w.split(":")[0], what)
        if k not in seen:
            seen.add(k)
            ctx.violation(w, "%s: %s" % (name, what))

    def session(names, facts=()):
        def run(p):
            try:
                m = p.module("vdt_ctypes")
            except Raised as e:
                say(e.where, "import vdt_ctypes", "%s: %s" % (e.name, e.text))
                return
            for n in names:
                ctx.count("calls_followed")
                py, cname = n, n + "v"
                elem, nin, nout = symbols()[cname]
                if py not in m.env:
                    say("vdt_ctypes.py", py, "is missing")
                    continue
                try:
                    judge(p, "vdt_ctypes.py:%d" % getattr(getattr(m.env[py], "node", None), "lineno", 0), m.env[py], nin, nout, elem, cname)
                except Wrong as w:
                    say(w.where, py, w.what)
            lines.update(p.lines)
        ctx.count("partitions", traces(lambda dec: Layer(dirs, symbols(), dec, facts), run))
    names = [n[:-1] for n in sorted(symbols())]
    equal = {("same", frozenset({a}), frozenset({b})): True for a in range(3) for b in range(a + 1, 3)}
    for n in names:
        ctx.count("functions")
        session([n, n])
    session(names + names[::-1], equal)
    session(names[::-1] + names, equal)

    def helpers(p):
        try:
            m = p.module("invokeVDT")
            if "loadInvoke" in m.env:
                for n, s in (("vdt_sinv", False), ("vdt_sinfv", True)):
                    ctx.count("helper_calls")
                    f = Builtin("loadInvoke", lambda v: p.call(m.env["loadInvoke"], [v, n, s], {}))
                    try:
                        judge(p, "invokeVDT.py", f, 1, 1, "float" if s else "double", n)
                    except Wrong as w:
                        say(w.where, "loadInvoke of %s" % n, w.what)
            b = p.module("vdtBase")
            try:
                r = p.call(b.env["vdt_arch"], [], {}) if "vdt_arch" in b.env else None
                if not isinstance(r, Text):
                    say("vdtBase.py", "vdt_arch", "does not return the text of the library")
                ctx.count("helper_calls")
            except Wrong as w:
                say(w.where, "vdt_arch", w.what)
        except Raised as e:
            say(e.where, "helpers", "%s: %s" % (e.name, e.text))
    traces(lambda dec: Layer(dirs, symbols(), dec), helpers)
    ctx.coverage["source_lines_evaluated"] = len(lines)
    ctx.assumptions += ["NumPy 1.24 or later and ctypes behave as documented", "memory alignment of the arguments is NumPy's (not followed)", "a 64-bit Linux, where long has 64 bits"]
    if not ctx.violations:
        ctx.need("functions", 30)
        ctx.need("calls_followed", 180)
        ctx.need("helper_calls", 3)
