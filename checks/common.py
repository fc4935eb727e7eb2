"""Shared plumbing of the checks: paths, scratch space, evidence, verdicts."""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = os.path.join(REPO, "include")
DIAG = os.path.join(INC, "diagnostic")


class Broken(Exception):
    """The analysis itself could not be carried out: neither pass nor violation."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.t0 = time.time()
        self.violations = []          # dicts: where, what, detail
        self.known = []
        self.coverage = {}
        self.assumptions = []

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def violation(self, where, what, **detail):
        d = dict(where=where, what=what)
        d.update(detail)
        self.violations.append(d)

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def need(self, key, minimum):
        """Instance counts below the confirmed minimum mean the analysis went blind."""
        got = self.coverage.get(key, 0)
        if got < minimum:
            raise Broken("only %s %s analysed, at least %s expected" % (got, key, minimum))


def sh(cmd, cwd=None, check=True, env=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", env=env, timeout=timeout)
    if check and r.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-3000:]))
    return r


def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise Broken("tool not found: %s" % "/".join(names))


def clangxx():
    return tool("clang++-18", "clang++")


def opt():
    return tool("opt-18", "opt")


def workers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 2
    return max(2, min(16, n))


def engine(name):
    """Path of an analysis binary, (re)built from /verif/engine when stale."""
    out = os.path.join(BUILD, name)
    r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "engine"), out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken("cannot build %s: %s" % (name, r.stdout[-2000:]))
    return out


def finish(ctx, level, broken=None):
    wall = time.time() - ctx.t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level,
              coverage=ctx.coverage, assumptions=ctx.assumptions, wall_s=round(wall, 2),
              violations=len(ctx.violations))
    if broken:
        ev["coverage"] = dict(ev["coverage"], analysis_error=str(broken)[-1500:])
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    if ctx.violations:
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, ctx.prop + ".json")
        with open(p, "w") as f:
            json.dump(dict(property=ctx.prop, rerun="python3 %s/checks/run.py %s" % (VERIF, ctx.prop),
                           violations=ctx.violations), f, indent=1)
            f.write("\n")
        for v in ctx.violations[:12]:
            print("  at %s: %s" % (v["where"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
        ctx.close()
        return 1
    ctx.close()
    if broken:
        print("ANALYSIS-ERROR property=%s %s" % (ctx.prop, broken))
        return 2
    print("OK property=%s %s (%.1f s)" % (ctx.prop, json.dumps({k: v for k, v in ctx.coverage.items() if isinstance(v, (int, float))}), wall))
    return 0
