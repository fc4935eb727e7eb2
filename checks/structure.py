"""Structural checks of the library: array functions, state, interface, preload
symbols, vectorisation, wrappers (see DESIGN.md, "Structural checks")."""
import json, os, re, sys
from common import *
from libgen import *


def write(ctx, name, text):
    p = os.path.join(ctx.tmp, name)
    with open(p, "w") as f:
        f.write(text)
    return p


# ---------------------------------------------------------------- P16 arrays

def control_arrays(ctx):
    src = os.path.join(VERIF, "selftest", "arrays.cc")
    bc = bitcode(ctx, src, "self-arrays")
    names = sorted(set(re.findall(r"void ((?:good|bad)_\w+)\(", open(src).read())))
    spec, D = "", "double const*, "
    for n in names:
        k = 2 if n.endswith("_two") else 1
        spec += "%s(unsigned int, %sdouble*)|%s|0|%s|%d|8\n" % (n, D * k, "elem2(double, double)" if k == 2 else "elem(double)", "1,2" if k == 2 else "1", k + 1)
    for r in irck("arrays", bc, write(ctx, "self.spec", spec)):
        want = "ok" if r["fn"].startswith("good") else "bad"
        if r["status"] != want:
            raise Broken("control %s: expected %s, got %s (%s)" % (r["fn"], want, r["status"], r["why"]))
    ctx.coverage["controls_confirmed"] = len(names)


def reference_loops():
    """Plain element loops, used to recognise an array function that is written in another way."""
    code = "\nnamespace vdtref {\n"
    for t, s, _ in PREC:
        for f in ARRAY:
            k = 2 if two(f) else 1
            a = ", ".join("%s const * __restrict__ i%d" % (t, j) for j in range(k))
            call = ("::%s%s" if f in LIBM else "vdt::%s%s") % (f, s)
            code += "void %s%sv(const uint32_t size, %s, %s* __restrict__ o){ for (uint32_t i=0;i<size;++i) o[i]=%s(%s); }\n" % (
                f, s, a, t, call, ", ".join("i%d[i]" % j for j in range(k)))
    return code + "}\n"


def arrays(ctx):
    control_arrays(ctx)
    for preload in (False, True):
        src = signatures(ctx, preload)
        tag = "preload" if preload else "plain"
        bc = bitcode(ctx, src, "lib-" + tag)
        names, spec = {}, ""
        for t, s, e in PREC:
            for f in ARRAY:
                n, target, line = array_spec(f, t, s, e)
                names[n] = "vdtref::%s%sv%s" % (f, s, n[n.index("("):])
                spec += line + "\n"
        res = irck("arrays", bc, write(ctx, tag + ".spec", spec))
        odd = [r for r in res if r["status"] in ("bad", "unknown")]
        same = {}
        if odd:
            both = write(ctx, tag + "-ref.cc", open(src).read() + reference_loops())
            bc2 = bitcode(ctx, both, "ref-" + tag)
            sp = write(ctx, tag + ".same", "".join("%s|%s\n" % (r["fn"], names[r["fn"]]) for r in odd))
            same = {r["fn"]: r["same"] for r in irck("same", bc2, sp)}
        for r in res:
            ctx.count("functions")
            ctx.count("sizes_evaluated", r["sizes"])
            ctx.count("memory_accesses", r["accesses"])
            if r["status"] == "ok" or same.get(r["fn"]):
                continue
            if r["status"] == "missing":
                ctx.violation("src/signatures_generator.py", "%s is declared but the generated library does not define it" % r["fn"])
            elif r["status"] == "unknown":
                raise Broken("%s: %s" % (r["fn"], r["why"]))
            else:
                ctx.violation(r["where"], "%s: %s" % (r["fn"], r["why"]), target=r["target"])
    ctx.coverage["explanation"] = "Closed forms (scalar evolution) of the index sets of every array function of the generated library, in both generator modes, compared with [0,size); value provenance of every store."
    ctx.coverage["rules"] = ["stores of each output array tile [0,size) exactly once", "value stored at i = scalar function of input(s) at i", "no other memory effect"]
    ctx.assumptions += ["input and output arrays do not overlap (declared __restrict__)", "index sets are closed forms in size; compared for every size up to 1030 and around the powers of two up to 2^32-1"]
    if not ctx.violations:
        ctx.need("functions", 112)
        ctx.need("memory_accesses", 230)


# ---------------------------------------------------------------- P17 state

SCALAR2 = [f for f in OWN + FAST] + ["fast_identity"]
PURE = {"sqrt", "sqrtf", "fabs", "fabsf", "floor", "floorf", "ceil", "ceilf", "trunc", "truncf", "round", "roundf", "rint",
        "rintf", "nearbyint", "nearbyintf", "fma", "fmaf", "copysign", "copysignf", "fmin", "fmax", "fminf", "fmaxf",
        "lrint", "lrintf", "memcpy", "__isnan", "__isnanf", "__isinf", "__isinff", "__finite", "isnan", "ldexp", "ldexpf",
        "__clang_call_terminate", "std::terminate()"}


def state_driver():
    code = '#include "vdtMath.h"\n#include "sincos.h"\n'
    for t, s, _ in PREC:
        for f in SCALAR2:
            k = 2 if two(f) else 1
            code += "%s use_%s%s(%s){ return vdt::%s%s(%s); }\n" % (
                t, f, s, ", ".join("%s x%d" % (t, j) for j in range(k)), f, s, ", ".join("x%d" % j for j in range(k)))
        code += "void use_sincos%s(%s x, %s& a, %s& b){ vdt::fast_sincos%s(x,a,b); }\n" % (s, t, t, t, s)
    return code


def closure(funcs, roots):
    seen, todo, order = set(), list(roots), []
    while todo:
        f = todo.pop()
        if f in seen or f not in funcs:
            continue
        seen.add(f)
        order.append(f)
        todo += [w for k, w, _ in funcs[f]["effects"] if k == "call"]
    return order


def judge_state(funcs, globs, roots, allowed_extern):
    """(where, what) for every effect that survives the call or depends on anything but the arguments"""
    stored = {w for f in funcs.values() for k, w, _ in f["effects"] if k in ("store-global", "global-address")}
    out = []
    for root in roots:
        for f in closure(funcs, [root]):
            for k, w, where in funcs[f]["effects"]:
                if k == "store-global":
                    out.append((where, "%s: %s writes %s, which outlives the call" % (root, f, w)))
                elif k == "load-global":
                    if w in stored or globs.get(w, {}).get("declaration"):
                        out.append((where, "%s: %s reads mutable state %s" % (root, f, w)))
                elif k == "extern" and w not in allowed_extern:
                    out.append((where, "%s: %s calls %s" % (root, f, w)))
                elif k in ("indirect", "asm", "atomic", "volatile", "store-indirect"):
                    out.append((where, "%s: %s has an opaque effect (%s)" % (root, f, k)))
    return sorted(set(out))


def sroa(ctx, bc, name):
    out = os.path.join(ctx.tmp, name + ".bc")
    sh([opt(), "-passes=sroa", bc, "-o", out])
    return out


def effects(ctx, bc, name):
    res = irck("effects", sroa(ctx, bc, name))
    return {r["fn"]: r for r in res if "fn" in r}, {r["global"]: r for r in res if "global" in r}


def state(ctx):
    fn, gl = effects(ctx, bitcode(ctx, os.path.join(VERIF, "selftest", "state.cc"), "self-state0"), "self-state")
    n = 0
    for f in sorted(fn):
        m = re.match(r"(good|bad)_\w+\(", f)
        if not m:
            continue
        n += 1
        bad = judge_state(fn, gl, [f], PURE)
        if bool(bad) != (m.group(1) == "bad"):
            raise Broken("control %s: %s" % (f, bad))
    ctx.coverage["controls_confirmed"] = n
    if n < 12:
        raise Broken("controls missing")
    fn, gl = effects(ctx, bitcode(ctx, write(ctx, "state.cc", state_driver()), "state0"), "state")
    roots = sorted(f for f in fn if f.startswith("use_"))
    for where, what in judge_state(fn, gl, roots, PURE):
        ctx.violation(where, what)
    used = closure(fn, roots)
    rec = recursion(fn, roots)
    if rec:
        ctx.violation(fn[rec]["where"], "%s can call itself again: unbounded recursion" % rec)
    src = signatures(ctx)
    fa, ga = effects(ctx, bitcode(ctx, src, "lib0"), "lib")
    libm = {f + s for f in LIBM for _, s, _ in PREC}
    aroots = sorted(f for f in fa if re.match(r"vdt::\w+v\(unsigned int", f))
    for where, what in judge_state(fa, ga, aroots, PURE | libm):
        ctx.violation(where, what)
    ctx.coverage.update(scalar_entry_points=len(roots), array_entry_points=len(aroots), functions_in_closure=len(used),
                        instructions=sum(fn[f]["inst"] for f in used), globals_seen=len(gl),
                        explanation="Transitive memory and call effects of every public function, from the LLVM IR of the headers and of the generated library.",
                        rules=["no store to static storage", "no read of storage that is ever written", "no call outside the pure maths allow list", "no recursion"])
    ctx.assumptions += ["sqrt may set errno; errno is per thread and not read by the library"]
    if not ctx.violations:
        ctx.need("scalar_entry_points", 40)
        ctx.need("array_entry_points", 56)
        ctx.need("functions_in_closure", 80)


def recursion(fn, roots):
    colour = {}

    def visit(f):
        colour[f] = 1
        for k, w, _ in fn[f]["effects"]:
            if k == "call" and w in fn:
                if colour.get(w) == 1:
                    return w
                if w not in colour:
                    r = visit(w)
                    if r:
                        return r
        colour[f] = 2
        return None
    for r in roots:
        if r not in colour:
            x = visit(r)
            if x:
                return x
    return None


# ---------------------------------------------------------------- P19 preload

def preload_expect():
    exp = []
    for t, s, _ in PREC:
        for f in LIBM:
            exp.append((f + s, "vdt::fast_%s%s(%s)" % (f, s, ", ".join([t] * (2 if two(f) else 1)))))
    for f in LIBM:
        a = ", ".join(["float"] * (2 if two(f) else 1))
        exp.append(("%s(%s)" % (f, a), "vdt::fast_%sf(%s)" % (f, a)))
    return exp


def preload(ctx):
    ctl = write(ctx, "ctl.cc", '#include <cmath>\nnamespace vdt { double fast_exp(double); double fast_log(double); double fast_atan2(double,double); float fast_expf(float); }\n'
                'static double id(double x){ return x; }\n'
                'double exp(double x){ const double y = id(x); return vdt::fast_exp(y); }\n'
                'double log(double x){ return vdt::fast_exp(x); }\n'
                'double atan2(double y, double x){ return vdt::fast_atan2(x, y); }\n'
                'float expf(float x){ return vdt::fast_exp(x); }\n'
                'double sin(double x){ return vdt::fast_log(x) + 0; }\n')
    want = [("exp", "vdt::fast_exp(double)", "ok"), ("log", "vdt::fast_log(double)", "bad"), ("atan2", "vdt::fast_atan2(double, double)", "bad"),
            ("expf", "vdt::fast_expf(float)", "bad"), ("sin", "vdt::fast_log(double)", "bad"), ("tan", "vdt::fast_log(double)", "bad")]
    got = irck("forward", bitcode(ctx, ctl, "ctl"), write(ctx, "ctl.spec", "".join("%s|%s\n" % w[:2] for w in want)))
    for w, g in zip(want, got):
        if g["status"] != w[2]:
            raise Broken("control %s: %s" % (w, g))
    ctx.coverage["controls_confirmed"] = len(want)
    src = signatures(ctx, True)
    bc = bitcode(ctx, src, "preload")
    exp = preload_expect()
    for g in irck("forward", bc, write(ctx, "pre.spec", "".join("%s|%s\n" % e for e in exp))):
        ctx.count("symbols")
        if g["status"] != "ok":
            ctx.violation(g["where"] or "src/signatures_generator.py", "%s: %s" % (g["fn"], g["why"]))
    fn, gl = effects(ctx, bc, "preload-s")
    # a replacement symbol that reaches another replaced symbol would call itself
    replaced = {e[0] for e in exp}
    for name, target in exp:
        if target not in fn:
            continue
        for f in closure(fn, [target]):
            ctx.count("functions_in_closure")
            for k, w, where in fn[f]["effects"]:
                if k in ("extern", "call") and w in replaced:
                    ctx.violation(where, "%s calls %s, which preloading replaces" % (f, w))
    plain, _ = effects(ctx, bitcode(ctx, signatures(ctx), "plain"), "plain-s")
    leak = [n for n in replaced if n in plain]
    for n in leak:
        ctx.violation(plain[n]["where"], "the ordinary library also defines the libm symbol %s" % n)
    for f in plain:
        if f not in fn:
            ctx.violation("src/signatures_generator.py", "%s is missing from the preload library" % f)
    ctx.coverage["explanation"] = "Every libm symbol the -p library must export, resolved in the IR of the generated source to the function whose result it returns; call graph behind it."
    ctx.coverage["rules"] = ["symbol name and linkage of libm", "returns fast_ counterpart of its own arguments in order", "no way back into a replaced symbol", "no libm symbol without the option"]
    if not ctx.violations:
        ctx.need("symbols", 30)
        ctx.need("functions_in_closure", 60)


# ---------------------------------------------------------------- P20 vectorisation

VECT = [("g++ -Ofast -mavx2 -mfma", ["-Ofast", "-mavx2", "-mfma"], True),
        ("g++ -Ofast", ["-Ofast"], True),
        ("clang -O3 -mavx2 -mfma", ["-O3", "-mavx2", "-mfma"], False),
        ("clang -Ofast -mavx2 -mfma", ["-Ofast", "-mavx2", "-mfma"], False)]


def vec_driver():
    code, line = ['#include "vdtMath.h"', '#include "sincos.h"'], {}
    for t, s, _ in PREC:
        for f in FAST:
            k = 2 if two(f) else 1
            code.append("void loop_%s%s(uint32_t n, %s, %s* __restrict__ o){ for (uint32_t i=0;i<n;++i) o[i]=vdt::%s%s(%s); }" % (
                f, s, ", ".join("%s const* __restrict__ a%d" % (t, j) for j in range(k)), t, f, s, ", ".join("a%d[i]" % j for j in range(k))))
            line[len(code)] = f + s
        code.append("void loop_fast_sincos%s(uint32_t n, %s const* __restrict__ a, %s* __restrict__ o, %s* __restrict__ p){ for (uint32_t i=0;i<n;++i) vdt::fast_sincos%s(a[i],o[i],p[i]); }" % (s, t, t, t, s))
        line[len(code)] = "fast_sincos" + s
    return "\n".join(code) + "\n", line


def vectorised(ctx, src, line, tag):
    done, log = {}, {}
    for i, (label, flags, gcc) in enumerate(VECT):
        if gcc:
            r = sh([tool("g++"), "-std=c++11", *flags, "-I" + INC, "-fopt-info-vec-all", "-c", src, "-o", os.path.join(ctx.tmp, "v.o")])
            for l in r.stderr.splitlines():
                m = re.match(r".*?%s:(\d+):\d+: optimized: loop vectorized" % re.escape(os.path.basename(src)), l)
                if m and int(m.group(1)) in line:
                    done.setdefault(line[int(m.group(1))], label)
            if i == 0:
                log = r.stderr
        else:
            bc = os.path.join(ctx.tmp, "%s-%d.bc" % (tag, i))
            sh([clangxx(), "-std=c++11", *flags, "-w", "-I" + INC, "-gline-tables-only", "-emit-llvm", "-c", src, "-o", bc])
            for r in irck("vector", bc):
                m = re.match(r"loop_(\w+)\(", r["fn"])
                if m and r["width"] > 1:
                    done.setdefault(m.group(1), label)
        if len(done) == len(line):
            break
    return done, log


VCTL = """#include <stdint.h>
#include <cmath>
void loop_good(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ for (uint32_t i=0;i<n;++i) o[i]=a[i]<0?-a[i]*2:a[i]*3; }
void loop_good2(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ for (uint32_t i=0;i<n;++i) { double x=a[i]; if (x>20) {o[i]=1; continue;} for (int k=0;k<3;k++) x=std::sqrt(x*x+1); switch ((int)x&3) {case 0: x=-x; break; case 1: x=1/x; break; default: x=x*3;} o[i]=x; } }
double odd(double);
void loop_bad(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ for (uint32_t i=0;i<n;++i) o[i]=odd(a[i]); }
void loop_bad2(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ for (uint32_t i=0;i<n;++i) { double x=a[i]; while (x>3) x*=.7; o[i]=x; } }
__attribute__((noinline)) static double h(double x){ return x*2; }
void loop_bad3(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ for (uint32_t i=0;i<n;++i) o[i]=h(a[i]); }
void loop_bad4(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ double s=0; for (uint32_t i=0;i<n;++i) { s=s*a[i]+1; o[i]=s; } }
void loop_bad5(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ for (uint32_t i=0;i<n;++i) o[i]=(double)(1.L/((long double)a[i]+1e-9L)); }
void loop_bad6(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ for (uint32_t i=0;i<n;++i) o[i]=std::sin(a[i]); }
static int cnt;
void loop_bad7(uint32_t n, double const* __restrict__ a, double* __restrict__ o){ for (uint32_t i=0;i<n;++i) { if (a[i]>1) cnt++; o[i]=a[i]; } }
"""


def straight(ctx, src, tag):
    """function -> (obstacle, place) of its element loop, '' when the body is convertible to lane code"""
    bc = os.path.join(ctx.tmp, tag + "-ifc.bc")
    sh([clangxx(), "-std=c++11", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-I" + INC, "-gline-tables-only", "-emit-llvm", "-c", src, "-o", bc])
    out = {}
    for r in irck("ifconv", bc):
        m = re.match(r"loop_(\w+)\(", r["fn"])
        if m:
            out[m.group(1)] = (r["why"], r["where"])
            ctx.count("instructions_examined", r["instructions"])
    return out


def vector(ctx):
    src = write(ctx, "vctl.cc", VCTL)
    got = straight(ctx, src, "ctl")
    done, _ = vectorised(ctx, src, {i + 1: re.search(r"loop_(\w+)", l).group(1) for i, l in enumerate(VCTL.splitlines()) if "loop_" in l}, "ctl")
    if any(f.startswith("bad") != bool(why) for f, (why, _) in got.items()) or len(got) != 9 or "good" not in done:
        raise Broken("controls: %s %s" % (got, done))
    ctx.coverage = {"controls_confirmed": len(got)}
    code, line = vec_driver()
    src = write(ctx, "vloops.cc", code)
    body = straight(ctx, src, "lib")
    done, _ = vectorised(ctx, src, line, "lib")
    for f in line.values():
        ctx.count("functions")
        if f not in body:
            raise Broken("no element loop of %s in the compiled driver" % f)
        if f in done:
            ctx.count("vectorised_by_a_compiler")
        why, where = body[f]
        if not why:
            ctx.count("free_of_obstacles")
        else:
            ctx.violation(where, "an element loop of %s cannot be turned into SIMD code: %s" % (f, why))
    ctx.coverage["explanation"] = ("Element loop over every fast function, inlined: acyclic body computing out[i] from in[i], no call that "
                                   "survives inlining, no loop with a data-dependent count, no value carried between elements, no mutable object. "
                                   "The vectoriser reports of the listed compiler configurations (compiled, not run) are counted beside it.")
    ctx.coverage["configurations"] = [v[0] for v in VECT]
    ctx.assumptions.append("an acyclic body of lane-wise operations is convertible to selects; whether a given compiler finds that profitable is not judged")
    if not ctx.violations:
        ctx.need("functions", 30)
