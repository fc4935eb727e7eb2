"""Numeric obligations: for every property the list of abstract-interpretation
jobs that together decide it.  Bounds are those of properties.jsonl."""

# C wrapper symbols of the driver translation unit -> C++ expression analysed
UNARY = ["fast_exp", "fast_log", "fast_sin", "fast_cos", "fast_tan", "fast_asin",
         "fast_acos", "fast_atan", "fast_tanh", "fast_isqrt", "fast_approx_isqrt",
         "fast_inv", "fast_approx_inv", "isqrt", "inv", "identity", "fast_identity"]

DRIVER = '#include "vdtMath.h"\nextern "C" {\n' + "".join(
    "double d_%s(double x){return vdt::%s(x);} float f_%s(float x){return vdt::%sf(x);}\n" % (n, n, n, n)
    for n in UNARY) + """
double d_fast_atan2(double y,double x){return vdt::fast_atan2(y,x);}
float f_fast_atan2(float y,float x){return vdt::fast_atan2f(y,x);}
double d_sincos_s(double x){double s,c;vdt::fast_sincos(x,s,c);return s;}
double d_sincos_c(double x){double s,c;vdt::fast_sincos(x,s,c);return c;}
float f_sincos_s(float x){float s,c;vdt::fast_sincosf(x,s,c);return s;}
float f_sincos_c(float x){float s,c;vdt::fast_sincosf(x,s,c);return c;}
}
"""

# smallest subnormal / smallest normal / largest finite
D0, DN, DX = "4.9406564584124654e-324", "2.2250738585072014e-308", "1.7976931348623157e308"
F0, FN, FX = "1.4012984643248171e-45", "1.1754943508222875e-38", "3.4028234663852886e38"


def sym(lo, hi, zero=True):
    """-hi..-lo, 0, -0, lo..hi"""
    z = ["0", "-0"] if zero else []
    return ",".join(["-%s:-%s" % (hi, lo)] + z + ["%s:%s" % (lo, hi)])


def J(id, kind, fn, **kw):
    d = dict(id=id, kind=kind, fn=fn, fmt=fn[0])
    d.update({k: str(v) for k, v in kw.items()})
    return d


def acc(fn, ref, dom, rel=0, abs=0, sq=0, tag="", **kw):
    return J("%s accuracy%s" % (fn, tag), "acc", fn, ref=ref, dom=dom, rel=rel, abs=abs, sq=sq, **kw)


def acc_atan2(fn, dom, rel, abs, **kw):
    return J("%s accuracy %s" % (fn, dom), "acc", fn, ref="atan2", args=2, dom=dom, rel=rel, abs=abs, **kw)


def val(fn, dom, expect, tag="", **kw):
    return J("%s on %s equals %s%s" % (fn, dom, expect, tag), "val", fn, dom=dom, expect=expect, **kw)


def rng(fn, dom, lo, hi, **kw):
    return J("%s on %s within [%s,%s]" % (fn, dom, lo, hi), "range", fn, dom=dom, rlo=lo, rhi=hi, **kw)


def evj(fn, dom, mask=31, **kw):
    return J("%s defined on %s" % (fn, dom[:60]), "ev", fn, dom=dom, ev=mask, **kw)


def par(fn, parity, dom, **kw):
    return J("%s %s" % (fn, parity), "par", fn, parity=parity, dom=dom, **kw)


SPEC = {}

SPEC["P01"] = [
    acc("d_fast_exp", "exp", sym(D0, "708"), rel=1e-15),
    acc("f_fast_exp", "exp", "-87.3:-%s,0,-0,%s:88.72" % (F0, F0), rel=3e-7),
]
SPEC["P02"] = [
    acc("d_fast_log", "log", "%s:1e307" % DN, rel=5e-16),
    acc("f_fast_log", "log", "%s:%s" % (FN, FX), rel=2e-7),
]
_sc = []
for f, o in (("sin", "s"), ("cos", "c")):
    for n in ("fast_" + f, "sincos_" + o):
        _sc.append(acc("d_" + n, f, sym(D0, "5000"), abs=7e-16))
        _sc.append(acc("f_" + n, f, sym(F0, "5000"), abs=4e-7))
    if f == "sin":
        for n in ("fast_sin", "sincos_s"):
            _sc.append(acc("d_" + n, "sin", sym(DN, "0.78"), rel=9e-16, tag=" near 0"))
            _sc.append(acc("f_" + n, "sin", sym(FN, "0.78"), rel=4e-7, tag=" near 0"))
SPEC["P03"] = _sc
SPEC["P04"] = [
    acc("d_fast_tan", "tan", sym(DN, "5000"), rel=8e-15, abs=5e-16, sq=5e-16),
    acc("f_fast_tan", "tan", sym(FN, "5000"), rel=6e-7, abs=3e-7, sq=3e-7),
    acc("d_fast_tan", "tan", sym(DN, "0.78"), rel=8e-15, tag=" near 0"),
    acc("f_fast_tan", "tan", sym(FN, "0.78"), rel=6e-7, tag=" near 0"),
]
SPEC["P05"] = [
    acc("d_fast_asin", "asin", sym(DN, "1"), rel=6e-16),
    acc("f_fast_asin", "asin", sym(FN, "1"), rel=6e-7),
    acc("d_fast_acos", "acos", sym(D0, "1"), abs=1.2e-15),
    acc("f_fast_acos", "acos", sym(F0, "1"), abs=7e-7),
]
SPEC["P06"] = [
    acc("d_fast_atan", "atan", sym(DN, DX), rel=7e-16),
    acc("f_fast_atan", "atan", sym(FN, FX), rel=6e-7),
]
SPEC["P07"] = [
    acc_atan2("d_fast_atan2", "finite", 1.2e-15, 1e-300),
    acc_atan2("f_fast_atan2", "finite", 8e-7, 4e-38),
    acc_atan2("d_fast_atan2", "inf", 1.2e-15, 0),
    acc_atan2("f_fast_atan2", "inf", 8e-7, 0),
]
SPEC["P08"] = [
    acc("d_fast_tanh", "tanh", sym("1e-307", DX), rel=1.5e-14),
    acc("f_fast_tanh", "tanh", sym("1e-36", FX), rel=6e-6),
    acc("d_fast_tanh", "tanh", sym("1e-307", "0.6"), rel=6e-15, tag=" near 0"),
    acc("f_fast_tanh", "tanh", sym("1e-36", "0.6"), rel=2e-6, tag=" near 0"),
]
SPEC["P09"] = [
    acc("d_fast_isqrt", "isqrt", "%s:%s" % (DN, DX), rel=1.5e-14),
    acc("f_fast_isqrt", "isqrt", "%s:%s" % (FN, FX), rel=1.5e-5),
    acc("d_fast_inv", "inv", sym(DN, "1e307", False), rel=3e-14),
    acc("f_fast_inv", "inv", sym(FN, "8e37", False), rel=3e-5),
]
SPEC["P10"] = [
    acc("d_fast_approx_isqrt", "isqrt", "%s:%s" % (DN, DX), rel=2e-9),
    acc("f_fast_approx_isqrt", "isqrt", "%s:%s" % (FN, FX), rel=4e-3),
    acc("d_fast_approx_inv", "inv", sym(DN, "1e307", False), rel=2e-9),
    acc("f_fast_approx_inv", "inv", sym(FN, "8e37", False), rel=8e-3),
    acc("d_isqrt", "isqrt", "%s:%s" % (DN, DX), rel=4.5e-16),
    acc("f_isqrt", "isqrt", "%s:%s" % (FN, FX), rel=2.5e-7),
    acc("d_inv", "inv", sym(DN, "1e307", False), rel=4.5e-16),
    acc("f_inv", "inv", sym(FN, "8e37", False), rel=2.5e-7),
    acc("d_identity", "id", sym(D0, DX)), acc("f_identity", "id", sym(F0, FX)),
    acc("d_fast_identity", "id", sym(D0, DX)), acc("f_fast_identity", "id", sym(F0, FX)),
]


def accuracy(p, **kw):
    return [dict(j, **{k: str(v) for k, v in kw.items()}) for j in SPEC[p]]


def contracted():
    """every accuracy obligation again, with each a*b+c allowed to be fused or not"""
    return [j for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10") for j in accuracy(p, contract=1)]

# --- saturation and out-of-domain results -----------------------------------
SPEC["P11"] = [
    val("d_fast_exp", "708.0000000000001:inf", "inf"), val("d_fast_exp", "-inf:-708.0000000000001", "0"),
    val("f_fast_exp", "88.72285:inf", "inf"), val("f_fast_exp", "-inf:-88.00001", "0"),
    rng("d_fast_exp", sym(D0, "708"), "3e-308", "3.1e307"),
    rng("f_fast_exp", "-87.3:-%s,0,-0,%s:88.72" % (F0, F0), "1.17e-38", "3.4028e38"),
    val("d_fast_log", "-inf:-%s" % D0, "nan"), val("f_fast_log", "-inf:-%s" % F0, "nan"),
    val("d_fast_log", "1.0000000000000001e307:inf", "inf"), val("f_fast_log", "inf:inf", "inf"),
    val("d_fast_asin", "1.0000000000000002:inf", "nan"), val("d_fast_asin", "-inf:-1.0000000000000002", "nan"),
    val("f_fast_asin", "1.0000001:inf", "nan"), val("f_fast_asin", "-inf:-1.0000001", "nan"),
    val("d_fast_acos", "1.0000000000000002:inf", "nan"), val("d_fast_acos", "-inf:-1.0000000000000002", "nan"),
    val("f_fast_acos", "1.0000001:inf", "nan"), val("f_fast_acos", "-inf:-1.0000001", "nan"),
    val("d_fast_tanh", "20.000000000000004:inf", "1"), val("d_fast_tanh", "-inf:-20.000000000000004", "-1"),
    val("f_fast_tanh", "9.2:inf", "1"), val("f_fast_tanh", "-inf:-9.2", "-1"),
    val("d_fast_atan", "inf:inf", "1.5707963267948966"), val("d_fast_atan", "-inf:-inf", "-1.5707963267948966"),
    val("f_fast_atan", "inf:inf", "1.5707963705062866"), val("f_fast_atan", "-inf:-inf", "-1.5707963705062866"),
]
# --- NaN in, NaN out ---------------------------------------------------------
SPEC["P12"] = [val(p + n, "nan", "nan") for n in UNARY for p in ("d_", "f_")]
SPEC["P12"] += [val(p + n, "nan", "nan") for n in ("sincos_s", "sincos_c") for p in ("d_", "f_")]
SPEC["P12"] += [val(p + "fast_atan2", "nan", "nan", args=2) for p in ("d_", "f_")]
# --- symmetry ----------------------------------------------------------------
SPEC["P13"] = []
for p, Z, NN, X in (("d_", D0, DN, DX), ("f_", F0, FN, FX)):
    for n, par_, lo, hi in (("fast_sin", "odd", Z, "5000"), ("sincos_s", "odd", Z, "5000"),
                            ("fast_cos", "even", Z, "5000"), ("sincos_c", "even", Z, "5000"),
                            ("fast_tan", "odd", Z, "5000"), ("fast_asin", "odd", Z, "1"),
                            ("fast_atan", "odd", Z, X), ("fast_tanh", "odd", Z, X),
                            ("fast_inv", "odd", NN, X), ("fast_approx_inv", "odd", NN, X),
                            ("inv", "odd", NN, X), ("identity", "odd", Z, X), ("fast_identity", "odd", Z, X)):
        SPEC["P13"].append(par(p + n, par_, "%s:%s" % (lo, hi)))
    SPEC["P13"].append(par(p + "fast_atan2", "odd", "finite", args=2))
# --- no invalid operation / division by zero / undefined conversion ----------
SPEC["P14"] = []
for p, Z, NN, X in (("d_", D0, DN, DX), ("f_", F0, FN, FX)):
    e = sym(Z, "708") if p == "d_" else "-88:-%s,0,-0,%s:88.72" % (Z, Z)
    SPEC["P14"] += [evj(p + "fast_exp", e), evj(p + "fast_log", "%s:%s" % (NN, X)),
                    evj(p + "fast_sin", sym(Z, "5000")), evj(p + "fast_cos", sym(Z, "5000")),
                    evj(p + "sincos_s", sym(Z, "5000")), evj(p + "sincos_c", sym(Z, "5000")),
                    evj(p + "fast_tan", sym(Z, "5000")),
                    evj(p + "fast_asin", sym(Z, "1")), evj(p + "fast_acos", sym(Z, "1")),
                    evj(p + "fast_atan", sym(Z, X)), evj(p + "fast_tanh", sym(Z, X)),
                    evj(p + "fast_isqrt", "%s:%s" % (NN, X)), evj(p + "fast_approx_isqrt", "%s:%s" % (NN, X)),
                    evj(p + "fast_inv", sym(NN, X, False)), evj(p + "fast_approx_inv", sym(NN, X, False)),
                    evj(p + "isqrt", "%s:%s" % (NN, X)), evj(p + "inv", sym(NN, X, False)),
                    J(p + "fast_atan2 defined", "ev", p + "fast_atan2", args=2, ev=31)]
# --- ranges, zeros -----------------------------------------------------------
PIu, PI2u = "3.1415926535897936", "1.5707963267948968"
PIfu, PI2fu = "3.1415929794311523", "1.5707964897155762"
SPEC["P15"] = []
for p, Z, NN, X, one, pi, pi2 in (("d_", D0, DN, DX, "1.0000000000000002", PIu, PI2u), ("f_", F0, FN, FX, "1.0000002384185791", PIfu, PI2fu)):
    for n in ("fast_sin", "fast_cos", "sincos_s", "sincos_c"):
        SPEC["P15"].append(rng(p + n, sym(Z, "5000"), "-" + one, one))
    SPEC["P15"] += [rng(p + "fast_asin", sym(Z, "1"), "-" + pi2, pi2), rng(p + "fast_acos", sym(Z, "1"), "0", pi),
                    rng(p + "fast_atan", sym(Z, X), "-" + pi2, pi2), rng(p + "fast_atan", "inf:inf,-inf:-inf", "-" + pi2, pi2),
                    rng(p + "fast_tanh", sym(Z, X), "-1.00000000000001" if p == "d_" else "-1.000006", "1.00000000000001" if p == "d_" else "1.000006"),
                    rng(p + "fast_atan2", "finite", "-" + pi, pi, args=2), rng(p + "fast_atan2", "inf", "-" + pi, pi, args=2)]
    for n in ("fast_sin", "fast_tan", "fast_asin", "fast_atan", "fast_tanh"):
        SPEC["P15"] += [val(p + n, "0", "0"), val(p + n, "-0", "0")]
    for n in ("fast_cos", "fast_exp"):
        SPEC["P15"] += [val(p + n, "0", "1"), val(p + n, "-0", "1")]
    SPEC["P15"] += [val(p + "fast_log", "1:1", "0"), val(p + "fast_acos", "1:1", "0")]
