"""P18: the public headers and the library belong together (see DESIGN.md)."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from common import *
from libgen import *
from structure import write

HEADERS = ["asin", "atan", "tanh", "atan2", "cos", "exp", "identity", "inv", "log", "sincos", "sin", "sqrt", "tan", "vdtcore_common", "vdtMath"]
STDS = ["c++11", "c++14", "c++17", "c++20"]


def accepts(cxx, std, src, inc):
    """'' when the translation unit is well formed, else the first error"""
    r = sh([cxx, "-std=" + std, "-fsyntax-only", "-w", "-I" + inc, src], check=False)
    if r.returncode == 0:
        return ""
    m = re.search(r"^(.*?): (?:fatal )?error: (.*)$", r.stderr, re.M)
    return "%s: %s" % (m.group(1), m.group(2)) if m else r.stderr[-300:]


def unit(ctx, tag, names):
    return write(ctx, tag + ".cc", "".join('#include "%s"\n' % n for n in names))


def tree(ctx, src, inc, roots):
    r = sh([engine("astq"), src, ":".join(roots), "--", "-std=c++11", "-w", "-I" + inc])
    return json.loads(r.stdout)


def strong(ctx, src, inc, tag):
    """symbols a translation unit defines for itself alone: a second one would clash with it"""
    o = os.path.join(ctx.tmp, tag + ".o")
    sh([clangxx(), "-std=c++11", "-O0", "-w", "-I" + inc, "-c", src, "-o", o])
    r = sh([tool("llvm-nm-18", "llvm-nm", "nm"), "-C", o])
    return sorted(m.group(2) for m in re.finditer(r"^\S* +([TDBRCGS]) (.*)$", r.stdout, re.M))


def shape(f):
    return f["q"], re.sub(r" noexcept.*", "", f["t"])


def undefined(t, lib):
    """declared by a header of vdt and defined nowhere in the library"""
    have = {shape(f) for f in lib["functions"] if f["def"]}
    return [f for f in t["functions"] if f["q"].startswith("vdt::") and f["linkage"] > 2 and not f.get("template") and not f.get("tinst")
            and not f.get("rec") and shape(f) not in have]


def expected():
    out = []
    for t, s, _ in PREC:
        for f in [x for x in OWN + FAST] + ["fast_identity"]:
            out.append(("vdt::" + f + s, "%s (%s)" % (t, ", ".join([t] * (2 if two(f) else 1)))))
        out.append(("vdt::fast_sincos" + s, "void (const %s, %s &, %s &)" % (t, t, t)))
        for f in ARRAY:
            out.append(("vdt::%s%sv" % (f, s), "void (unsigned int, %s%s *)" % (("const %s *, " % t) * (2 if two(f) else 1), t)))
    return out


def plain(ty):
    """function type without the qualifiers that do not take part in it"""
    ty = re.sub(r"\bconst (double|float)(?=[,)])", r"\1", ty)
    return re.sub(r" ?__restrict(__)?", "", ty).replace("const float *", "float const *").replace("const double *", "double const *")


def judge(ctx, inc, headers, gen=None, tag="lib"):
    """list of (where, what)"""
    out = []
    jobs = []
    for h in headers:
        u = unit(ctx, "%s-%s" % (tag, h), [h + ".h"])
        jobs += [((clangxx(), s, u), "%s.h alone, %s" % (h, s), h) for s in STDS]
        if gen:
            jobs.append(((tool("g++"), "c++11", u), "%s.h alone, gcc" % h, h))
    for a in headers:
        for b in headers:
            if a != b:
                jobs.append(((clangxx(), "c++11", unit(ctx, "%s-%s-%s" % (tag, a, b), [a + ".h", b + ".h", a + ".h"])), "%s.h before %s.h" % (a, b), a))
    with ThreadPoolExecutor(workers()) as ex:
        res = list(ex.map(lambda j: accepts(j[0][0], j[0][1], j[0][2], inc), jobs))
    for (_, what, h), err in zip(jobs, res):
        ctx.count("translation_units")
        if err:
            out.append((err.split(": ")[0], "a program that includes %s does not compile: %s" % (what, err)))
    if out:
        return out
    allu = unit(ctx, tag + "-all", [h + ".h" for h in headers])
    t = tree(ctx, allu, inc, [inc])
    where = {f["q"]: "%s:%d" % (f["file"], f["line"]) for f in t["functions"] if f["def"]}
    for s in strong(ctx, allu, inc, tag + "-all"):
        out.append((where.get(re.sub(r"\(.*", "", s), inc), "two translation units including the headers both define %s" % s))
    ctx.count("declarations", len(t["functions"]))
    for inc1 in t["includes"]:
        if inc1["from"].startswith(inc) and inc1["to"].startswith(inc):
            ctx.count("includes_followed")
    if gen:
        lib = tree(ctx, gen, inc, [inc, ctx.tmp])
        for f in undefined(t, lib):
            out.append(("%s:%d" % (f["file"], f["line"]), "%s %s is declared and neither the header nor the library defines it" % shape(f)))
    return out


def installed():
    """file names the install step copies next to each other; None when they are not listed one by one"""
    try:
        s = open(os.path.join(REPO, "CMakeLists.txt")).read()
    except OSError:
        return None
    s = re.sub(r"#[^\n]*", "", s)
    for m in re.finditer(r"(?is)\binstall\s*\(\s*FILES\s+(.*?)\bDESTINATION\b", s):
        files = re.findall(r"include/(\w+)\.h\b", m.group(1))
        if "vdtMath" in files and "$" not in m.group(1):
            return files
    return None


CTL = {
    "good": {"one": "#pragma once\n#include <stdint.h>\nnamespace vdt { inline double a(double x){return x;} template<class T> T b(T x){return x;} static const double c=1; void av(uint32_t,double const*,double*); }\n",
             "two": '#ifndef TWO_H\n#define TWO_H\n#include "one.h"\nnamespace vdt { inline double d(double x){return a(x)+c+b(x);} }\n#endif\n'},
    "bad_alone": {"one": "#pragma once\nnamespace vdt { void av(uint32_t,double const*,double*); }\n", "two": "#pragma once\n#include <stdint.h>\n"},
    "bad_guard": {"one": "inline double a(double x){return x;}\n", "two": "#pragma once\n"},
    "bad_odr": {"one": "#pragma once\nnamespace vdt { double a(double x){return x;} }\n", "two": "#pragma once\n"},
    "bad_var": {"one": "#pragma once\nnamespace vdt { double table[2]={1,2}; }\n", "two": "#pragma once\n"},
}


def controls(ctx):
    keep = dict(ctx.coverage)
    for name, files in CTL.items():
        d = os.path.join(ctx.tmp, "ctl-" + name)
        os.makedirs(d)
        for f, s in files.items():
            with open(os.path.join(d, f + ".h"), "w") as h:
                h.write(s)
        bad = judge(ctx, d, sorted(files), tag=name)
        if bool(bad) != name.startswith("bad"):
            raise Broken("control %s: %s" % (name, bad))
    d = os.path.join(ctx.tmp, "ctl-good")
    g = write(ctx, "ctl-good/lib.cc", '#include "one.h"\nnamespace vdt { void av(uint32_t n,double const*a,double*b){ for (uint32_t i=0;i<n;i++) b[i]=a[i]; } }\n')
    h = write(ctx, "ctl-good/lib2.cc", '#include "one.h"\nnamespace vdt { void av(uint64_t n,double const*a,double*b){ for (uint32_t i=0;i<n;i++) b[i]=a[i]; } }\n')
    t = tree(ctx, unit(ctx, "ctl-u", ["one.h"]), d, [d])
    if undefined(t, tree(ctx, g, d, [d])) or not undefined(t, tree(ctx, h, d, [d])):
        raise Broken("control of the declared functions")
    ctx.coverage = dict(keep, controls_confirmed=len(CTL) + 2)


def check(ctx):
    controls(ctx)
    gen = signatures(ctx)
    listed = installed()
    headers = [h for h in HEADERS if os.path.exists(os.path.join(INC, h + ".h"))]
    for h in HEADERS:
        if h not in headers:
            ctx.violation("include/%s.h" % h, "the public header %s.h does not exist" % h)
    for where, what in judge(ctx, INC, headers, gen):
        ctx.violation(where, what)
    if ctx.violations:
        return
    t = tree(ctx, unit(ctx, "math", ["vdtMath.h"]), INC, [INC])
    have = {}
    for f in t["functions"]:
        have.setdefault(f["q"], []).append((plain(shape(f)[1]), "%s:%d" % (f["file"], f["line"])))
    for q, ty in expected():
        ctx.count("functions_expected")
        if q not in have:
            ctx.violation("include/vdtMath.h", "%s is not declared after including vdtMath.h" % q)
        elif plain(ty) not in [x[0] for x in have[q]]:
            ctx.violation(have[q][0][1], "%s has type %s instead of %s" % (q, have[q][0][0], plain(ty)))
    if listed is not None:
        ctx.coverage["headers_installed"] = len(listed)
        a = tree(ctx, unit(ctx, "inst", [h + ".h" for h in listed if os.path.exists(os.path.join(INC, h + ".h"))]), INC, [INC])
        for h in listed:
            if not os.path.exists(os.path.join(INC, h + ".h")):
                ctx.violation("CMakeLists.txt", "include/%s.h is to be installed and does not exist" % h)
        for i in a["includes"]:
            base = os.path.basename(i["to"])[:-2]
            if i["from"].startswith(INC) and i["to"].startswith(INC) and base not in listed:
                ctx.violation("%s:%d" % (i["from"], i["line"]), "an installed header includes %s, which is not installed" % i["name"])
        for h in HEADERS:
            if h not in listed:
                ctx.violation("CMakeLists.txt", "the public header %s.h is not installed" % h)
    ctx.coverage["explanation"] = ("Every public header type-checked alone (four language levels, two compilers) and in every order with every other one; "
                                   "symbols a translation unit with all of them defines; declarations against definitions of the generated library; exact types of the documented functions.")
    ctx.coverage["rules"] = ["self-contained and idempotent in any order", "no strong definition in a header", "declared implies defined with the same type",
                             "documented names have the documented types after including vdtMath.h", "installed set closed under inclusion"]
    if not ctx.violations:
        ctx.need("translation_units", 250)
        ctx.need("functions_expected", 90)
        ctx.need("declarations", 100)
