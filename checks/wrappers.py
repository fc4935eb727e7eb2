"""P26: the fat library that src/numpy_wrapper_generator.py generates."""
import glob
from structure import *

MATHS = ["asin", "atan", "cos", "exp", "inv", "log", "sin", "isqrt", "identity"]
IEEE = {"sqrt": 1, "div": 2, "fma": 3, "fmac": 3}        # templates of stdwrap.h
ARGS = dict({f: 1 for f in MATHS}, atan2=2, sincos=1, **IEEE)
VALUE = {"sqrt": "std::sqrt(x)", "div": "x/y", "fma": "x*y+z", "fmac": "std::fma(x,y,z)"}
TARGET = '-D__target__(a,...)=__target__(a __VA_OPT__("," __VA_ARGS__))'   # gcc spells a list, clang one string
FLAGS = [TARGET, "-fno-math-errno", "-w", "-std=c++11"]


def generate(ctx):
    """directory of the generated sources, None when the generator fails"""
    d = os.path.join(ctx.tmp, "fat")
    os.makedirs(d, exist_ok=True)
    r = sh([sys.executable, os.path.join(REPO, "src", "numpy_wrapper_generator.py")], cwd=d, check=False, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if r.returncode:
        ctx.violation("src/numpy_wrapper_generator.py", "the generator fails: %s" % r.stderr.strip().splitlines()[-1])
        return None
    return d


def xyz(t, n):
    return ", ".join("%s %s" % (t, v) for v in "xyz"[:n])


def outs(f):
    return 2 if f == "sincos" else 1


def target(f, t, s):
    n = ARGS[f]
    if f in IEEE:
        return "%s vdt::fast_%s<%s>(%s)" % (t, f, t, ", ".join([t] * n))
    return "vdt::fast_%s%s(%s%s)" % (f, s, ", ".join([t] * n), (", %s&" % t) * 2 if f == "sincos" else "")


def reference():
    """the same functions written plainly, to recognise other ways of writing them"""
    c = '\n#include <cmath>\n'
    for t, s, _ in PREC:
        for f, n in ARGS.items():
            call = "vdt::fast_%s%s(%s)" % (f, s, ",".join("xyz"[:n]))
            if f == "sincos":
                c += "extern \"C\" void ref_%s%s(%s x, %s* a, %s* b){ vdt::fast_sincos%s(x,*a,*b); }\n" % (f, s, t, t, t, s)
                c += "extern \"C\" void ref_%s%sv(const %s* __restrict__ i, %s* __restrict__ o, %s* __restrict__ p, long n){ for (long k=0;k<n;++k) vdt::fast_sincos%s(i[k],o[k],p[k]); }\n" % (f, s, t, t, t, s)
                continue
            c += "extern \"C\" %s ref_%s%s(%s){ return %s; }\n" % (t, f, s, xyz(t, n), VALUE.get(f, call))
            c += "extern \"C\" void ref_%s%sv(%s, %s* __restrict__ o, long n){ for (long k=0;k<n;++k) { %s o[k]=%s; } }\n" % (
                f, s, ", ".join("const %s* __restrict__ i%s" % (t, v) for v in "xyz"[:n]), t,
                " ".join("%s %s=i%s[k];" % (t, v, v) for v in "xyz"[:n]), VALUE.get(f, call))
        c += "extern \"C\" %s ref_myfma%s(%s x, %s y, %s z){ return x*y+z; }\n" % (t, "F" if s else "D", t, t, t)
    return c


def judge(ctx, bc, full, forward, arrays, equal, tag, say):
    """forward: (name, target); arrays: spec lines; equal: names compared with their reference in any case. full: module with the references."""
    odd = {}
    for r in irck("forward", bc, write(ctx, tag + ".fwd", "".join("%s|%s\n" % e for e in forward))):
        ctx.count("scalar_functions")
        if r["status"] != "ok":
            odd[r["fn"]] = r
    for r in irck("arrays", bc, write(ctx, tag + ".arr", "".join(l + "\n" for l in arrays))):
        ctx.count("array_functions")
        ctx.count("memory_accesses", r["accesses"])
        if r["status"] != "ok":
            odd[r["fn"]] = r
    names = list(odd) + [e for e in equal if e not in odd]
    if not names:
        return
    same = {r["fn"]: r["same"] for r in irck("same", full, write(ctx, tag + ".same", "".join("%s|%s\n" % (n, re.sub("^vdt_|^(?=my)|^(good|bad)_", "ref_", n)) for n in names)))}
    for n in names:
        if n in equal:
            ctx.count("compared_with_the_ieee_operation")
        if same[n]:
            continue
        r = odd.get(n)
        if r and r["status"] == "unknown":
            raise Broken("%s (%s): %s" % (n, tag, r["why"]))
        if r and r["status"] == "missing":
            r = None if n in equal else dict(r, why="not defined as a C function", where="")
        say((r or {}).get("where") or "src/stdwrap.h, src/fatlib.h", "%s, version %s: %s" % (n, tag, r["why"] if r else "does not compute what its name says"))


def split(ctx, bc, tag):
    vs = irck("versions", bc, os.path.join(ctx.tmp, tag))
    for v in vs:
        if v["lacks"]:
            ctx.violation("src/fatlib.h", "%s has no version for %s, other functions have" % (v["lacks"], v["version"]))
    return {v["version"]: v["file"] for v in vs}


def controls(ctx):
    bc = bitcode(ctx, os.path.join(VERIF, "selftest", "fatlib.cc"), "self-fat", FLAGS, std="-std=c++11")
    vs = split(ctx, bc, "self")
    if set(vs) != {"default", "avx2_fma"}:
        raise Broken("controls: versions %s" % sorted(vs))
    bad = set()
    for v, f in vs.items():
        sub = Ctx0(ctx)
        judge(sub, f, f, [(n, "elem(double)") for n in ("good_s", "bad_s", "bad_version")],
              ["%s|elem(double)|2|0|1|8" % n for n in ("good_v", "good_down_v", "bad_counter_v", "bad_version_v")] +
              ["%s|elem2(double, double&, double&)|3|0|1,2|8" % n for n in ("good_two_v", "bad_two_v")], [], v, lambda w, t: bad.add(t.split(",")[0]))
        for n in ("good_eq", "bad_eq"):
            if not irck("same", f, write(ctx, "self.eq", "%s|ref_eq(double, double, double)\n" % n))[0]["same"]:
                bad.add(n)
    want = {"bad_s", "bad_version", "bad_counter_v", "bad_version_v", "bad_two_v", "bad_eq"}
    if bad != want:
        raise Broken("controls: %s" % sorted(bad ^ want))
    ctx.coverage["controls_confirmed"] = 12


class Ctx0:
    """counts of the controls are kept apart"""

    def __init__(self, ctx):
        self.tmp, self.violations = ctx.tmp, []

    def count(self, *a):
        pass


def declarations(ctx, d):
    """the header, seen from C as the NumPy module sees it, declares every function with its type"""
    c = '#include "vdtFatLibWrapper.h"\n'
    lines = {}
    for t, s, _ in PREC:
        for f, n in ARGS.items():
            o = outs(f)
            types = [("%s (*s_%s%s)(%s)" % ("void" if o == 2 else t, f, s, ", ".join([t] * n + ["%s *" % t] * (2 if o == 2 else 0))), "vdt_%s%s" % (f, s)),
                     ("void (*v_%s%s)(%s, long)" % (f, s, ", ".join(["const %s *" % t] * n + ["%s *" % t] * o)), "vdt_%s%sv" % (f, s))]
            for ty, name in types:
                c += "%s = %s;\n" % (ty, name)
                lines[c.count("\n")] = name
                ctx.count("declarations")
    src = write(ctx, "decl.c", c)
    r = sh([tool("clang-18", "clang"), "-std=gnu11", "-fsyntax-only", "-Werror", "-ferror-limit=0", "-I" + d, src], check=False)
    for l in r.stderr.splitlines():
        m = re.match(r".*?([\w.]+):(\d+):\d+: (?:fatal )?error: (.*)", l)
        if m:
            ctx.violation("src/numpy_wrapper_generator.py", "header, from C: %s: %s" % (lines.get(int(m.group(2)), "vdtFatLibWrapper.h") if m.group(1) == "decl.c" else m.group(1), m.group(3)))
    if r.returncode and not ctx.violations:
        raise Broken("C header: " + r.stderr[-400:])


def fatlib(ctx):
    controls(ctx)
    d = generate(ctx)
    rules = ["vdt_<f>[f] returns the function of its arguments in order", "vdt_<f>[f]v writes out[i] = f(in[i]...) for exactly i < size", "every version does so",
             "sqrt, div, fma, fmac are the IEEE operations", "the header declares every function to C and C++"]
    ctx.coverage.update(rules=rules, explanation="LLVM IR of the generated library, one module per instruction-set version with the dispatchers resolved to it: scalar wrappers resolved to the function whose value they return, "
                        "closed forms (scalar evolution) of the index sets of the array functions, function identity with the IEEE operation for the four operations of stdwrap.h.")
    if d is None:
        return
    src, inc = os.path.join(d, "vdtFatLibWrapper.cc"), ["-I" + os.path.join(REPO, "src"), "-I" + d]
    if not os.path.exists(src):
        ctx.violation("src/numpy_wrapper_generator.py", "no vdtFatLibWrapper.cc is generated")
        return
    g = sh([tool("g++"), "-O1", "-fPIC", "-w", "-I" + INC, *inc, "-c", src, "-o", os.path.join(ctx.tmp, "fat.o")], check=False)
    if g.returncode:
        first = [l for l in g.stderr.splitlines() if "rror" in l][:1]
        ctx.violation("src/numpy_wrapper_generator.py", "the generated library does not compile: %s" % "".join(first))
        return
    declarations(ctx, d)
    bc = bitcode(ctx, src, "fat", FLAGS + inc, std="-std=c++11")
    both = write(ctx, "fat-ref.cc", open(src).read() + reference())
    full = bitcode(ctx, both, "fatref", FLAGS + inc, std="-std=c++11")
    versions, references = split(ctx, bc, "fatv"), split(ctx, full, "fatr")
    versions["plain"] = bitcode(ctx, src, "fatplain", FLAGS + inc + ["-U__linux__"], std="-std=c++11")
    references["plain"] = bitcode(ctx, both, "fatplainref", FLAGS + inc + ["-U__linux__"], std="-std=c++11")
    fwd, arr = [], []
    for t, s, e in PREC:
        for f, n in ARGS.items():
            if f not in IEEE:
                fwd.append(("vdt_%s%s" % (f, s), target(f, t, s)))
            arr.append("vdt_%s%sv|%s|%d|%s|%s|%d" % (f, s, target(f, t, s), n + outs(f), ",".join(map(str, range(n))), ",".join(str(n + k) for k in range(outs(f))), e))
    equal = ["vdt_%s%s" % (f, s) for f in IEEE for _, s, _ in PREC] + ["myfmaF", "myfmaD"]
    for v, f in sorted(versions.items()):
        ctx.count("versions")
        judge(ctx, f, references[v], fwd, arr, equal, v, ctx.violation)
        r = irck("text", f, "vdt_arch")[0]
        if not r["known"]:
            raise Broken("vdt_arch of version %s: no constant text" % v)
        want = set(re.findall(r"[a-z0-9]+", v)) if v != "plain" else set()
        got = set(re.findall(r"[a-z0-9]+", "".join(re.findall(r'"(.*)"', r["text"]))))
        if got != want:
            ctx.violation(r["where"], "vdt_arch of the version for %s says %s" % (v, r["text"]))
    ctx.assumptions += ["arrays do not overlap (declared __restrict__)", "which version a machine selects is left to the compiler's dispatcher",
                        "index sets are compared for every size up to 1030 and around the powers of two up to 2^32"]
    if not ctx.violations:
        ctx.need("versions", 2)
        ctx.need("scalar_functions", 22)
        ctx.need("array_functions", 60)
        ctx.need("declarations", 60)


# ---------------------------------------------------------------- P30
STUBS = os.path.join(VERIF, "stubs")
NPY = {11: ("float", "f", 4), 12: ("double", "", 8)}
PYTHONS = (("0x02070000", "init"), ("0x030c0000", "PyInit_"))


def module_bitcode(ctx, src, name, version, inc):
    out = os.path.join(ctx.tmp, name + ".bc")
    r = sh([tool("clang-18", "clang"), "-std=gnu11", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-Wno-everything", "-DPY_VERSION_HEX=" + version,
            "-I" + STUBS, *inc, "-emit-llvm", "-c", src, "-o", out], check=False)
    return out, [l for l in r.stderr.splitlines() if "error:" in l] if r.returncode else []


def registrations(ctx, bc, init, want, say):
    """want: {function: (inputs, outputs)}. Returns the loops used: {(loop, inputs, outputs, element size)}"""
    ev = irck("module", bc, init)
    if ev[0]["what"] == "missing":
        say("", "no function %s" % init)
        return set()
    if ev[0]["blocks"] != 1 or ev[0]["other_stores"]:
        raise Broken("%s: %d blocks and %d stores are left after unrolling" % (init, ev[0]["blocks"], ev[0]["other_stores"]))
    name = [e["name"] for e in ev if e["what"] == "module"]
    if name != ["vdtnpfun"]:
        say(ev[0]["where"], "%s creates the modules %s" % (init, name))
    made, placed, refs, loops = {}, {}, {}, set()
    for e in ev:
        if e["what"] == "ufunc":
            made[e["id"]], refs[e["id"]] = e, 1
            ctx.count("functions_created")
            for r in e["rows"]:
                ctx.count("type_rows")
                if r["past"] or r["empty"]:
                    say(e["where"], "%s: row %d of %s %s" % (init, e["rows"].index(r), e["name"], "is read beyond the end of a table" if r["past"] else "has no loop or no function"))
                elif r["loop"] is None or r["data"] is None or -1 in r["kinds"]:
                    raise Broken("%s: a row of %s is not constant" % (init, e["name"]))
        elif e["what"] == "set":
            if e["id"] < 0 or e["name"] is None or e["place"] not in ("vp_dict", "vp_new_module"):
                raise Broken("%s: registration at %s not followed" % (init, e["where"]))
            if refs[e["id"]] <= 0:
                say(made[e["id"]]["where"], "%s is registered after it was given up" % e["name"])
            refs[e["id"]] += 1
            if e["name"] in placed:
                say(made[e["id"]]["where"], "%s is registered twice" % e["name"])
            placed[e["name"]] = made[e["id"]]
        elif e["what"] in ("release", "retain") and e["id"] >= 0:
            refs[e["id"]] += 1 if e["what"] == "retain" else -1
    for i, n in refs.items():
        if n < 1:
            say(made[i]["where"], "%s is given up more often than owned" % made[i]["name"])
    if [e["value"] for e in ev if e["what"] == "return"] != ["void" if init.startswith("init") else "vp_new_module"]:
        say(ev[0]["where"], "%s does not return the module" % init)
    for f, (nin, nout) in want.items():
        e = placed.get("vdt_" + f)
        ctx.count("registrations")
        if not e:
            say(ev[0]["where"], "%s does not register vdt_%s" % (init, f))
            continue
        if e["name"] != "vdt_" + f:
            say(e["where"], "vdt_%s is called %s" % (f, e["name"]))
        if (e["nin"], e["nout"]) != (nin, nout):
            say(e["where"], "vdt_%s has %d inputs and %d outputs" % (f, e["nin"], e["nout"]))
            continue
        seen = []
        for r in e["rows"]:
            k = set(r["kinds"])
            if r["past"] or r["empty"]:
                continue
            if len(k) != 1 or not k <= set(NPY):
                say(e["where"], "vdt_%s has a row of types %s" % (f, r["kinds"]))
                continue
            t, s, size = NPY[k.pop()]
            if t in seen:
                continue                      # NumPy takes the first that fits
            seen.append(t)
            if r["data"] != "vdt_%s%sv" % (f, s):
                say(e["where"], "vdt_%s of %s numbers calls %s" % (f, t, r["data"]))
            loops.add((r["loop"], nin, nout, size))
        if seen != ["float", "double"]:
            say(e["where"], "vdt_%s takes the types in the order %s" % (f, seen))
    return loops


def loops_ok(ctx, bc, loops, say):
    for r in irck("ufunc", bc, write(ctx, "ufunc.spec", "".join("%s|%d|%d|%d\n" % l for l in sorted(loops)))):
        ctx.count("loops")
        ctx.count("sizes_and_steps", r["cases"])
        if r["status"] == "bad":
            say(r["where"], "%s: %s" % (r["fn"], r["why"]))
        elif r["status"] != "ok":
            raise Broken("%s: %s %s" % (r["fn"], r["status"], r["why"]))


def numpy_controls(ctx):
    sub, n = Ctx0(ctx), 0
    bc, err = module_bitcode(ctx, os.path.join(VERIF, "selftest", "ufunc.c"), "self-ufunc", "0x030c0000", [])
    if err:
        raise Broken("controls: " + err[0])
    names = re.findall(r"^void ((?:good|bad)\w*)\(", open(os.path.join(VERIF, "selftest", "ufunc.c")).read(), re.M)
    got = {r["fn"]: r["status"] for r in irck("ufunc", bc, write(ctx, "self.ufunc", "".join("%s|2|1|8\n" % x for x in names)))}
    for x in names:
        if got[x] != ("ok" if x.startswith("good") else "bad"):
            raise Broken("controls: %s is %s" % (x, got[x]))
        n += 1
    inits = re.findall(r"^PyMODINIT_FUNC ((?:good|bad)\w*)\(", open(os.path.join(VERIF, "selftest", "ufunc.c")).read(), re.M)
    for x in inits:
        bad = []
        registrations(sub, bc, x, {"one": (1, 1), "two": (2, 1)}, lambda w, t: bad.append(t))
        if bool(bad) != x.startswith("bad"):
            raise Broken("controls: %s: %s" % (x, bad))
        n += 1
    if len(names) < 8 or len(inits) < 6:
        raise Broken("controls: too few")
    ctx.coverage["controls_confirmed"] = n


def numpy_module(ctx):
    numpy_controls(ctx)
    ctx.coverage.update(rules=["every function is registered once under its name", "float arrays go to the float function, double arrays to the double function", "element i of every array is at i times its step"],
                        explanation="LLVM IR of the NumPy module compiled against stub headers, for Python 2 and 3: the initialisation is unrolled to straight-line code and its calls and constant tables read off; "
                        "the addresses and counts each loop hands to the vector function are closed forms (scalar evolution) compared with i*step for combinations of sizes and steps.")
    d = generate(ctx)
    if d is None:
        return
    src = os.path.join(REPO, "src", "vdtNumpyWrapper.c")
    if not os.path.exists(src):
        raise Broken("no src/vdtNumpyWrapper.c")
    want = {f: (n, outs(f)) for f, n in ARGS.items()}
    for version, pre in PYTHONS:
        tag = "Python " + version[3]
        bc, err = module_bitcode(ctx, src, "npmod" + version[3], version, ["-I" + d, "-I" + os.path.join(REPO, "src")])
        say = lambda w, t: ctx.violation(w or "src/vdtNumpyWrapper.c", "%s: %s" % (tag, t))
        if err:
            if any("stubs/" in e or "file not found" in e or "undeclared" in e for e in err):
                raise Broken("the stub headers lack something: " + err[0])
            say("src/vdtNumpyWrapper.c", "does not compile: " + err[0])
            continue
        loops = registrations(ctx, bc, pre + "vdtnpfun", want, say)
        if loops:
            loops_ok(ctx, bc, loops, say)
        ctx.count("initialisations")
    ctx.assumptions += ["every call of the Python interface succeeds", "the vector functions do what P26 says", "NumPy's interface is that of the stub headers"]
    if not ctx.violations:
        ctx.need("registrations", 30)
        ctx.need("loops", 16)
