#!/usr/bin/env python3
"""run.py <property>: decide one property on the current working tree of /repo."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, flow, registry


def main():
    prop = sys.argv[1]
    fn, level = registry.CHECKS[prop]
    ctx = common.Ctx(prop)
    broken = None
    try:
        fn(ctx)
    except flow.Undefined as e:
        ctx.violation(str(e).split(": ")[0] if ".h:" in str(e) or ".cpp:" in str(e) else "diagnostic classes", str(e))
    except common.Broken as e:
        broken = e
    except Exception:
        broken = traceback.format_exc()
    return common.finish(ctx, level, broken)


if __name__ == "__main__":
    sys.exit(main())
