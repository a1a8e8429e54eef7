"""usage: python -m mc.run ID [--tier quick|thorough] [--replay FILE] [--jobs N] [--only i,j] [-v]"""

import argparse
import os
import sys

for k in (
    "OMP_NUM_THREADS",
    "MKL_NUM_THREADS",
    "OPENBLAS_NUM_THREADS",
    "NUMBA_NUM_THREADS",
):
    os.environ[k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    import warnings

    warnings.simplefilter("ignore")
    import simpeg

    src = os.path.realpath(simpeg.__file__)
    want = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
    if not src.startswith(want + os.sep):
        print(f"ERROR simpeg imported from {src}, not {want}")
        return 2
    from mc import core

    if a.replay:
        return core.replay(a.replay)
    only = [int(i) for i in a.only.split(",")] if a.only else None
    return core.explore(
        f"mc.props.{a.id.lower()}", a.tier, a.seed, a.jobs, only, a.v
    )


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
