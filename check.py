#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the current tree of /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        # nothing is kept between runs: every check builds the current sources; this only sees that the tools run
        import build
        for t in ("gcc", "g++", "bison", "flex", "java"):
            build.sh([t, "--version"])
        return
    c = core.Check(prop)
    try:
        getattr(props, prop)(c)
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        rc = 1 if c.violations else 2
        if c.violations:
            c.finish()
    finally:
        c.clean()
    sys.stdout.flush()
    os._exit(rc)

main()
