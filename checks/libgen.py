"""The library source: generated array functions, driver translation units."""
import json, os, sys
from common import *

LIBM = ["asin", "atan", "atan2", "acos", "cos", "exp", "log", "sin", "tan", "tanh"]
OWN = ["isqrt", "inv", "identity", "identity2D"]
FAST = ["fast_asin", "fast_acos", "fast_atan", "fast_atan2", "fast_cos", "fast_exp", "fast_inv", "fast_approx_inv",
        "fast_log", "fast_sin", "fast_isqrt", "fast_approx_isqrt", "fast_tan", "fast_tanh"]
ARRAY = LIBM + OWN + FAST          # every name that has a v/fv array form
PREC = (("double", "", 8), ("float", "f", 4))
IRFLAGS = ["-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-gline-tables-only",
           "-Wno-everything"]


def two(f):
    return f.endswith("atan2") or f.endswith("2D")


def signatures(ctx, preload=False):
    """Runs the project's own code generator into scratch space: its output is the library source."""
    d = os.path.join(ctx.tmp, "gen-p" if preload else "gen")
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = sh([sys.executable, os.path.join(REPO, "src", "signatures_generator.py")] + (["-p"] if preload else []) + ["-o", d],
           cwd=d, check=False, env=env)
    out = os.path.join(d, "vdtMath_signatures.cc")
    if r.returncode or not os.path.exists(out):
        raise Broken("the signature generator failed: %s" % r.stderr[-800:])
    return out


def bitcode(ctx, src, name, flags=(), std=None):
    out = os.path.join(ctx.tmp, name + ".bc")
    fl = [f for f in IRFLAGS if not (std and f.startswith("-std"))] + ([std] if std else [])
    sh([clangxx(), *fl, "-I" + INC, *flags, "-emit-llvm", "-c", src, "-o", out])
    return out


def irck(mode, *args):
    r = sh([engine("irck"), mode, *args])
    return [json.loads(l) for l in r.stdout.splitlines() if l.strip()]


def array_spec(f, t, s, esz):
    n = 2 if two(f) else 1
    name = "vdt::%s%sv(unsigned int, %s%s*)" % (f, s, ("%s const*, " % t) * n, t)
    target = f + s if f in LIBM else "vdt::%s%s(%s)" % (f, s, ", ".join([t] * n))
    return name, target, "%s|%s|0|%s|%d|%d" % (name, target, ",".join(str(i + 1) for i in range(n)), n + 1, esz)
