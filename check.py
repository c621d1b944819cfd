#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only SCEN] [-v] | --replay FILE

Runs the bounded symbolic check of one property (see DESIGN.md)."""
import os
import sys

VT = "/opt/veriftools/pyvenv/bin/python3"
ROOT = os.path.dirname(os.path.abspath(__file__))


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.join(ROOT, "sx", "native.py"),
                                           "--one", args[1]])
    if args and args[0] == "--self-test":
        # nothing to build: only make sure that the interpreters and the solver are there
        import subprocess
        return subprocess.run([VT, "-c", "import z3; s = z3.Solver(); assert s.check() == z3.sat"]).returncode or \
            subprocess.run(["/opt/venv/bin/python", "-c", "import bs4, lxml, cssutils"]).returncode
    if os.environ.get("SX_CHILD") != "1":
        env = dict(os.environ, SX_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        py = VT if os.path.exists(VT) else "python3-vt"
        os.execvpe(py, [py, os.path.join(ROOT, "check.py")] + args, env)
    os.environ["PYTHONHASHSEED"] = "1"
    sys.path[:0] = [ROOT, os.environ.get("SX_REPO", "/repo")]
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    sys.dont_write_bytecode = True
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, verbose, budget = [], False, None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--only":
            only.append(args[i + 1])
            i += 1
        elif args[i] == "--budget":
            budget = float(args[i + 1])
            i += 1
        elif args[i] == "-v":
            verbose = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if budget is None:
        budget = 420.0 if tier == "quick" else 1500.0
    from sx import explore
    return explore.main(prop, tier, seed, budget, int(os.environ.get("SX_JOBS", os.cpu_count() or 4)),
                        only, verbose)


if __name__ == "__main__":
    sys.exit(main())
