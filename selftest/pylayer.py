"""Controls of the ctypes analysis: functions of two array-likes that should return atan2 in double precision."""
import ctypes
import functools
import numpy
import numpy as np
from numpy.ctypeslib import ndpointer, load_library

_lib = load_library('libvdtFatLibWrapper', '')
_in = ndpointer(np.double, flags='aligned, contiguous')
_out = ndpointer(np.double, flags=('ALIGNED', 'C_CONTIGUOUS', 'WRITEABLE'))
_cache = {}


def _f(name='vdt_atan2v', types=(_in, _in, _out, ctypes.c_long)):
    f = load_library('libvdtFatLibWrapper', '')[name]
    f.restype = None
    f.argtypes = list(types)
    return f


def _prepare(*arrays, **how):
    t = how.get('dtype', np.double)
    return [np.require(a, t, ['C']) for a in np.broadcast_arrays(*arrays)]


def good_plain(a, b):
    a, b = np.broadcast_arrays(a, b)
    a = np.require(a, np.double, ['CONTIGUOUS', 'ALIGNED'])
    b = np.require(b, np.double, ['CONTIGUOUS', 'ALIGNED'])
    out = np.empty_like(a)
    _f()(a, b, out, a.size)
    return out


def good_helper(a, b):
    ins = _prepare(a, b)
    outs = [np.empty(ins[0].shape, np.float64) for _ in range(1)]
    args = ins + outs + [ins[0].size]
    _f()(*args)
    return outs[0] if len(outs) == 1 else tuple(outs)


def good_pointers(a, b):
    p = ctypes.POINTER(ctypes.c_double)
    shape = np.broadcast(np.asarray(a), np.asarray(b)).shape
    x = np.ascontiguousarray(np.broadcast_to(a, shape), dtype='d')
    y = np.ascontiguousarray(np.broadcast_to(b, shape), dtype='d')
    out = np.zeros(shape)
    f = _lib.vdt_atan2v
    f.restype = None
    f(x.ctypes.data_as(p), y.ctypes.data_as(p), out.ctypes.data_as(p), ctypes.c_long(out.size))
    return out


def good_checked(a, b):
    a, b = np.asanyarray(a), np.asanyarray(b)
    if a.shape != b.shape:
        a, b = np.broadcast_arrays(a, b)
    a, b = (np.asarray(v, dtype=float, order='C') for v in (a, b))
    out = np.empty_like(a)
    if out.size > 0:
        _f()(a, b, out, a.size)
    return out


def good_flat(a, b):
    a, b = _prepare(a, b)
    out = np.empty(a.size)
    _f()(a.ravel(), b.ravel(), out, out.size)
    return out.reshape(a.shape)


def good_cached(a, b):
    try:
        f = _cache['vdt_atan2']
    except KeyError:
        f = _cache['vdt_atan2'] = _f('vdt_%sv' % 'atan2')
    a, b = _prepare(a, b)
    out = np.empty_like(a)
    f(a, b, out, int(a.size))
    return out


def good_partial(a, b):
    call = functools.partial(_f(), *_prepare(a, b))
    out = np.empty(np.broadcast_shapes(np.shape(a), np.shape(b)), dtype=np.double)
    call(out, out.size)
    return out


def bad_exchanged(a, b):
    b, a = _prepare(a, b)
    out = np.empty_like(a)
    _f()(a, b, out, a.size)
    return out


def bad_sizes(a, b):
    a, b = np.require(a, np.double, ['C']), np.require(b, np.double, ['C'])
    out = np.empty_like(a)
    _f()(a, b, out, a.size)
    return out


def bad_only_sizes_checked(a, b):
    a, b = np.require(a, np.double, ['C']), np.require(b, np.double, ['C'])
    if a.size != b.size:
        a, b = _prepare(a, b)
    out = np.empty_like(a)
    _f()(a, b, out, a.size)
    return out


def bad_precision(a, b):
    a, b = _prepare(a, b, dtype=np.single)
    out = np.empty_like(a)
    _f('vdt_atan2fv', [ndpointer(np.single)] * 3 + [ctypes.c_long])(a, b, out, a.size)
    return out


def bad_rounded_on_the_way(a, b):
    a, b = _prepare(a, b, dtype=np.float32)
    a, b = a.astype(np.double), b.astype(np.double)
    out = np.empty_like(a)
    _f()(a, b, out, a.size)
    return out


def bad_function(a, b):
    a, b = _prepare(a, b)
    out = np.empty_like(a)
    _f('vdt_divv')(a, b, out, a.size)
    return out


def bad_in_place(a, b):
    a, b = _prepare(a, b)
    _f('vdt_atan2v', [_in, _in, _in, ctypes.c_long])(a, b, a, a.size)
    return a


def bad_gaps(a, b):
    a, b = [np.asarray(v, dtype=np.double) for v in np.broadcast_arrays(a, b)]
    out = np.empty(a.shape)
    _f('vdt_atan2v', [ndpointer(np.double)] * 3 + [ctypes.c_long])(a, b, out, a.size)
    return out


def bad_refused(a, b):
    a, b = [np.asarray(v, dtype=np.double) for v in np.broadcast_arrays(a, b)]
    out = np.empty(a.shape)
    _f()(a, b, out, a.size)
    return out


def bad_length(a, b):
    a, b = _prepare(a, b)
    out = np.empty_like(a)
    _f()(a, b, out, len(a))
    return out


def bad_narrow_size(a, b):
    a, b = _prepare(a, b)
    out = np.empty_like(a)
    _f('vdt_atan2v', [_in, _in, _out, ctypes.c_int])(a, b, out, a.size)
    return out


def bad_undeclared_size(a, b):
    p = ctypes.POINTER(ctypes.c_double)
    a, b = _prepare(a, b)
    out = np.empty_like(a)
    _lib['vdt_atan2v'](a.ctypes.data_as(p), b.ctypes.data_as(p), out.ctypes.data_as(p), a.size)
    return out


def bad_declaration_lost(a, b):
    a, b = _prepare(a, b)
    _lib['vdt_atan2v'].argtypes = [_in, _in, _out, ctypes.c_long]
    out = np.empty_like(a)
    _lib['vdt_atan2v'](a, b, out, a.size)
    return out


def bad_flat_result(a, b):
    a, b = _prepare(a, b)
    out = np.empty(a.size)
    _f()(a, b, out, out.size)
    return out


def bad_old_numpy(a, b):
    a, b = _prepare(a, b, dtype=np.float)
    out = np.empty_like(a)
    _f()(a, b, out, a.size)
    return out


def bad_second_call(a, b):
    a, b = _prepare(a, b)
    f = _cache.get('x')
    if f is None:
        f = _f()
        _cache['x'] = _f('vdt_divv')
    out = np.empty_like(a)
    f(a, b, out, a.size)
    return out


def bad_one_dimension(a, b):
    a, b = _prepare(a, b)
    t = ndpointer(np.double, ndim=1, flags='C')
    out = np.empty_like(a)
    _f('vdt_atan2v', [t, t, t, ctypes.c_long])(a, b, out, a.size)
    return out


def bad_not_converted(a, b):
    out = np.empty_like(a)
    _f()(a, b, out, a.size)
    return out


def bad_first_shape(a, b):
    shape = np.shape(a)
    a, b = _prepare(a, b)
    out = np.empty(shape)
    _f()(a, b, out, out.size)
    return out
