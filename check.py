#!/usr/bin/env python3
"""check.py <property>: decides one property for the code in /repo. See DESIGN.md."""
import importlib, sys, traceback
sys.dont_write_bytecode = True
import lib

def main():
    prop = sys.argv[1]
    sys.path.insert(0, lib.VERIF + "/checks")
    mod = importlib.import_module(prop.lower())
    c = lib.Check(prop)
    try:
        mod.run(c)
        rc = c.finish()
    except lib.Failure as e:
        # what was found in the real code stands, even if a later part of the check broke down
        if c.violations:
            c.futures = []
            rc = c.finish()
        else:
            print("ERROR (no verdict): %s" % e)
            rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        c.cleanup()
    sys.stdout.flush()
    import os
    os._exit(rc)

main()
