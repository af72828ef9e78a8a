#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property
check.py --replay DIR                          replay a counterexample on the native build"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import runner, props
def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return runner.replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = 0
    for pid in a:
        try:
            r = runner.run_property(pid, props.PROPS[pid], tier, seed)
        except runner.BuildError as e:
            print("ERROR: " + str(e), file=sys.stderr)
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc
sys.exit(main())
