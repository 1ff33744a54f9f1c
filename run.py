#!/usr/bin/env python3-vt
"""run.py <ID> quick|thorough | run.py <ID> --replay FILE"""
import glob, importlib.util, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))


def main():
    import runner
    cid = sys.argv[1]
    ps = glob.glob(os.path.join(HERE, "checks", cid.lower() + "_*.py"))
    if len(ps) != 1:
        sys.exit("no check for " + cid)
    spec = importlib.util.spec_from_file_location(cid, ps[0])
    m = importlib.util.module_from_spec(spec)
    sys.modules[cid] = m
    spec.loader.exec_module(m)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return runner.replay(m.CHECK, sys.argv[3])
    return runner.run_check(m.CHECK, sys.argv[2] if len(sys.argv) > 2 else "quick")


if __name__ == "__main__":
    sys.exit(main())
