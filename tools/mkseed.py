#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: writes seeded/<ID>/ from a spec (list SEEDS of dicts
id, property, file, edits [(old, new)], needs, breaks, demo (C++ body) or demo_sh)."""
import json, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
PRE = """#include "vdtMath.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <limits>
#include <initializer_list>
static int bad = 0;
static void expect(bool ok, const char* what, double x, double got){ if(!ok){ bad++; std::printf("%s: x=%.17g got %.17g\\n", what, x, got);} }
"""
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(V, "seeded", s["id"])
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    files = s.get("files") or [(s["file"], s["edits"])]
    for f, edits in files:
        p = os.path.join(t, "r", f)
        x = open(p, newline="").read()
        crlf = "\r\n" in x
        for o, n in edits:
            if crlf:
                o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            assert x.count(o) >= 1, (s["id"], o)
            assert x.count(o) == 1 or s.get("first"), (s["id"], "ambiguous", o)
            x = x.replace(o, n, 1)
        open(p, "w", newline="").write(x)
    diff = subprocess.check_output(["git", "diff"], cwd=t + "/r", text=False)
    shutil.rmtree(t)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo" in s:
        open(d + "/demo.cc", "w").write(PRE + s.get("pre", "") + "int main(){\n" + s["demo"].strip("\n") + "\n  return bad ? 1 : 0;\n}\n")
        sh = s.get("demo_sh") or 'g++ -std=c++11 -O1 %s -Iinclude "$H/demo.cc" %s -o "$T/demo" && "$T/demo"' % (s.get("flags", ""), s.get("link", ""))
    else:
        sh = s["demo_sh"]
    for n, c in s.get("extra", {}).items():
        open(d + "/" + n, "w").write(c)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nH="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)" || exit 99\ntrap \'rm -rf "$T"\' EXIT\n' + sh + "\n")
    print("wrote", s["id"])
