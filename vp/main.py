import argparse
import importlib
import os
import sys

from . import common


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--quick", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    tier = "thorough" if a.thorough else ("quick" if a.quick else os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    common.load_pycba()
    mod = importlib.import_module("vp.props." + a.prop.lower())
    sys.exit(common.main(mod, tier, seed, a.replay, a.jobs))


if __name__ == "__main__":
    run()
