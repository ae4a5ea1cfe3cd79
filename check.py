#!/usr/bin/env python3
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    if len(sys.argv) != 2:
        print('usage: check.py PROPERTY')
        return 2
    pid = sys.argv[1]
    ctx = vlib.Ctx(pid)
    try:
        import rules
        vlib.ensure_tool()
        return rules.RULES[pid](ctx)
    except vlib.Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())
