#!/opt/venv/bin/python
"""check.py <property id>: run the check of one property (VERIF_TIER, VERIF_SEED from the environment)."""
import os
import sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
import importlib
import vlib

AREAS = ["models", "fit", "priors", "nested", "dynamic", "order", "errdist", "stats", "misc"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import BayesicFitting
    assert BayesicFitting.__file__.startswith("/repo/"), BayesicFitting.__file__
    for a in AREAS:
        if not os.path.exists(os.path.join(HERE, "areas", a + ".py")):
            continue
        m = importlib.import_module("areas." + a)
        if pid in m.CHECKS:
            ctx = vlib.Ctx(pid, tier, seed)
            try:
                m.CHECKS[pid](ctx)
                return ctx.finish()
            except vlib.MachineryError as e:
                print("MACHINERY ERROR:", e)
                return 2
    print("no check for", pid)
    return 2


if __name__ == "__main__":
    sys.exit(main())
