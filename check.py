#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--units N] [--workers N]
                     [--replay FILE]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", LC_ALL="C.UTF-8",
           PYTHONWARNINGS="ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--units", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    a = ap.parse_args()
    hs = os.environ.get("VERIF_HASHSEED", "0")
    want = dict(ENV, PYTHONHASHSEED=hs)
    if any(os.environ.get(k) != v for k, v in want.items()) or \
            not sys.executable.startswith("/opt/venv/"):
        env = dict(os.environ)
        env.update(want)
        flags = ["-O"] if sys.flags.optimize else []
        os.execve(PY, [PY] + flags + [os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path[:0] = [REPO, HERE]
    sys.setrecursionlimit(3000)
    if a.property == "SETUP":
        # nothing to build: show that the library and the simulator import
        from sim import solve
        solve.setup()
        print("%d algorithms behind the simulator" % len(solve.F))
        return 0 if solve.F else 1
    mod = importlib.import_module("checks." + a.property.lower())
    check = mod.Check()
    from sim import runner
    if a.replay:
        return runner.replay(check, a.replay)
    if a.digests:
        return check.emit_digests(a.digests, a.tier, a.seed)
    return runner.run_check(check, a.tier, a.seed, a.workers, a.units)


if __name__ == "__main__":
    sys.exit(main())
