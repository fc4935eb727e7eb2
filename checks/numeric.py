"""Decides the value-quantified properties by abstract interpretation of the
LLVM IR of the library headers (see DESIGN.md, "Numeric engine")."""
import json, os
from common import *
import numeric_spec as S

SELF = [
    # (function, must be accepted, job)
    ("bad_inv", False, dict(kind="acc", ref="inv", dom="1e-300:1e300", rel="1e-15")),
    ("good_inv", True, dict(kind="acc", ref="inv", dom="1e-300:1e300", rel="1e-15")),
    ("bad_sat", False, dict(kind="val", dom="708.0000000000001:inf", expect="inf")),
    ("good_sat", True, dict(kind="val", dom="708.0000000000001:inf", expect="inf")),
    ("bad_nan", False, dict(kind="val", dom="nan", expect="nan")),
    ("good_nan", True, dict(kind="val", dom="nan", expect="nan")),
    ("bad_odd", False, dict(kind="par", parity="odd", dom="1e-3:1000")),
    ("good_odd", True, dict(kind="par", parity="odd", dom="1e-3:1000")),
    ("bad_div", False, dict(kind="ev", ev="15", dom="1:10")),
    ("good_div", True, dict(kind="ev", ev="15", dom="1:10")),
    ("bad_conv", False, dict(kind="ev", ev="15", dom="1:2.2")),
    ("good_conv", True, dict(kind="ev", ev="15", dom="1:1.0000001")),
    ("bad_shift", False, dict(kind="ev", ev="15", dom="-100:-1,1:100")),
    ("good_shift", True, dict(kind="ev", ev="15", dom="-100:-1,1:100")),
    ("bad_return", False, dict(kind="ev", ev="15", dom="1:10")),
    ("bad_range", False, dict(kind="range", dom="0.25:1", rlo="0", rhi="1")),
    ("good_range", True, dict(kind="range", dom="0.25:1", rlo="0", rhi="1")),
    ("bad_state", False, dict(kind="acc", ref="id", dom="1:2", rel="1")),
    ("good_table", True, dict(kind="acc", ref="id", dom="1:100", rel="0")),
    ("good_red", True, dict(kind="range", dom="1:1000", rlo="-0.5", rhi="0.5")),
]


# left shifts of negative or overflowing signed numbers leave no trace in plain IR;
# with this option the front end marks them with a branch to a trap
UB = ["-fsanitize=shift-base", "-fsanitize-trap=all"]


def compile_ir(ctx, src, name, flags=()):
    """source -> SSA bitcode, no optimisation other than promoting locals"""
    raw, out = os.path.join(ctx.tmp, name + "0.bc"), os.path.join(ctx.tmp, name + ".bc")
    sh([clangxx(), "-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off",
        "-gline-tables-only", "-I" + INC, *flags, "-emit-llvm", "-c", src, "-o", raw])
    sh([opt(), "-passes=sroa", raw, "-o", out])
    return out


def run_jobs(ctx, bc, jobs, name):
    path = os.path.join(ctx.tmp, name + ".jobs")
    with open(path, "w") as f:
        for i, j in enumerate(jobs):
            f.write(" ".join("%s=%s" % (k, v) for k, v in dict(j, id=str(i)).items()) + "\n")
    r = sh([engine("tmai"), bc, path, str(workers())], timeout=3400)
    res = [json.loads(l) for l in r.stdout.splitlines() if l.strip()]
    if len(res) != len(jobs):
        raise Broken("the engine answered %d of %d jobs: %s" % (len(res), len(jobs), r.stderr[-500:]))
    return res


def selftest(ctx):
    bc = compile_ir(ctx, os.path.join(VERIF, "selftest", "numeric.cc"), "self", UB)
    jobs = [dict(j, fn=f, fmt="d") for f, _, j in SELF]
    for (f, ok, _), r in zip(SELF, run_jobs(ctx, bc, jobs, "self")):
        if r["unsupported"]:
            raise Broken("control %s: %s" % (f, r["unsupported"]))
        if ok != (not r["violations"]):
            raise Broken("control %s: expected %s, got %s" % (f, "acceptance" if ok else "a report", r["violations"][:1]))
    ctx.coverage["controls_confirmed"] = len(SELF)


def check(ctx, jobs, min_boxes):
    selftest(ctx)
    drv = os.path.join(ctx.tmp, "driver.cc")
    with open(drv, "w") as f:
        f.write(S.DRIVER)
    bc = compile_ir(ctx, drv, "driver", UB if any(j.get("kind") == "ev" for j in jobs) else ())
    res = run_jobs(ctx, bc, jobs, "prop")
    lines, discharged = set(), 0
    samples = []
    broken = None
    for j, r in zip(jobs, res):
        ctx.count("boxes", r["boxes"])
        ctx.count("traces", r["traces"])
        ctx.count("abstract_operations", r["fp_ops"])
        lines.update(l for l in r["lines"] if not l.startswith("driver.cc"))
        if r["unsupported"]:
            broken = "%s: %s" % (j["id"], r["unsupported"])
            continue
        if not r["violations"]:
            discharged += 1
            if len(samples) < 4:
                samples.append("%s: %d boxes, %d traces, worst bound/allowed %.3f" % (j["id"], r["boxes"], r["traces"], r["tightness"]))
        for v in r["violations"][:3]:
            kind, box, why, where, path = (v.split(";;") + [""] * 5)[:5]
            src = [l for l in r["lines"] if not l.startswith("driver.cc")]
            ctx.violation(where if where and not where.startswith("driver.cc") else (src[-1] if src else "?"),
                          "%s: %s for %s (%s)%s" % (j["id"], why, box, kind, "; path " + path if path else ""), job=j)
    ctx.coverage["obligations"] = len(jobs)
    ctx.coverage["discharged"] = discharged
    ctx.coverage["source_lines_analysed"] = len(lines)
    ctx.coverage["functions_analysed"] = sorted({l.split("(")[1].rstrip(")") for l in lines if "(" in l})
    ctx.coverage["samples"] = samples
    ctx.coverage["checker_cmd"] = "python3 checks/run.py %s" % ctx.prop
    ctx.coverage["trusted_base"] = ["clang 18 front end (source to LLVM IR)", "engine/ (Taylor-model abstract interpreter)", "libquadmath reference values at box centres", "IEEE 754 round-to-nearest arithmetic"]
    ctx.assumptions += ["round-to-nearest mode", "correctly rounded +,-,*,/ and sqrt", "compiled without value-changing (fast-math) options"]
    if broken and not ctx.violations:
        raise Broken(broken)
    if not ctx.violations:
        ctx.need("boxes", min_boxes)
        ctx.need("source_lines_analysed", 1)
