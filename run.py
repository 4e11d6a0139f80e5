#!/usr/bin/env python3
"""python run.py <PROPERTY> [--tier quick|thorough] [--only SCENARIO] [--jobs N]
   python run.py --replay evidence/replays/X.json"""
import os
import sys

VENV = "/opt/venv/bin/python"
Z3SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.abspath(__file__))
ENVV = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "OMPI_MCA_ess_singleton_isolated": "1", "PYTHONHASHSEED": "0",
        "VF_CHILD": "1"}


def bootstrap():
    if os.environ.get("VF_CHILD") != "1":
        env = dict(os.environ, **ENVV)
        env.pop("PYTHONPATH", None)
        env.setdefault("HOME", "/root")
        os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)
    repo = os.environ.get("VF_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.path.insert(1, HERE)
    # appended last: only z3 is taken from there
    sys.path.append(Z3SITE)
    import gw_eccentricity
    got = os.path.realpath(gw_eccentricity.__file__)
    if not got.startswith(os.path.realpath(repo) + "/"):
        print("wrong gw_eccentricity imported:", got)
        sys.exit(4)


def main(argv):
    bootstrap()
    import argparse
    import json
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--strict", action="store_true",
                    help="exit 3 when anything is undecided or vacuous")
    a = ap.parse_args(argv)
    from vf import runner
    if a.selftest:
        import z3
        assert z3.Solver().check() == z3.sat
        print("engine ready: z3", z3.get_version_string())
        return 0
    if a.replay:
        import importlib
        d = json.load(open(a.replay))
        runner.OWNER = f"checks.{d['property'].lower()}"
        importlib.import_module(f"checks.{d['property'].lower()}")
        sc = next(s for s in runner.REGISTRY if s.name == d["scenario"])
        ctx, exc = runner.replay(sc, d["params"], runner.unjs(d["values"]))
        print("failed checks:", ctx.failed, "exception:", repr(exc),
              "assume_failed:", ctx.assume_failed)
        if exc is not None:
            print(ctx.tb)
        return 1 if (ctx.failed or exc is not None) else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.main(a.property, a.tier, seed, a.only, a.jobs,
                       a.strict)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
