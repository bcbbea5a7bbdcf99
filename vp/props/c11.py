"""C11 - imposed curvatures: free where determinate, self-equilibrated, exact"""
import numpy as np

from .. import gen as G, oracle, units as U
from . import c01, c02

ID = "C11"
N_QUICK, N_THOROUGH = 2400, 24000
RULE = (
    "random stable beams (prismatic, non-prismatic, shear-flexible; hinges, springs) "
    "under imposed curvature fields of polynomial degree 0-4, alone or with transverse "
    "loads; reactions, displacements and stations compared with the reference; "
    "statically determinate beams must show no section force at all"
)
MUST_SEE = ("solutions_compared", "determinate", "indeterminate", "self_equilibrated", "high_degree")
ASSUMES = c02.ASSUMES


UNITS = {}


def gen(rng, i, tier):
    for _ in range(100):
        m = c01.gen_case(
            rng, nmax=4, loads=3, sections=0.7 if i % 3 == 0 else 0.0, gav=0.7 if i % 3 == 1 else 0.0,
            kinds=("ic",) if i % 2 else ("udl", "pl", "pudl", "ml", "trap", "ic"),
            settle=0.0 if i % 2 else 0.2,
        )
        for r in m["LM"]:
            if r[1] == 6 and rng.random() < 0.4:
                L = m["L"][int(r[0]) - 1]
                deg = int(rng.integers(2, 5))
                r[2:] = [G.rnd(rng.uniform(-2e-3, 2e-3) / L**p) for p in range(deg + 1)]
                while rng.random() < 0.3:
                    r[2 + int(rng.integers(0, deg + 1))] = 0.0
        if i % 2 and rng.random() < 0.25:  # very small or large curvatures
            z = 10.0 ** rng.uniform(-6, 2)
            m["LM"] = [r[:2] + [G.rnd(v * z) for v in r[2:]] for r in m["LM"]]
        if any(r[1] == 6 for r in m["LM"]):
            return m
    raise RuntimeError


def determinate(m):
    """restraint + continuity count leaves exactly the equations of statics"""
    n = len(m["L"])
    R = m["R"]
    held = sum(1 for r in R if r != 0)
    rel = sum({1: 0, 2: 1, 3: 1, 4: 2}[e] for e in m.get("et") or [1] * n)
    return held == 2 + rel  # (a stable structure)


def run(m, mon):
    from .. import ref

    ba = G.build(m, how=m.get("how", 0))
    ba.analyze(m.get("npts"))
    br = ba.beam_results
    sol = ref.Solution(m)
    mon.state(G.describe(m), "det" if determinate(m) else "indet")
    oracle.compare_ref(mon, m, br, sol, tol=1e-6)
    mon.event("high_degree", sum(1 for r in m["LM"] if r[1] == 6 and len(r) > 4))
    if all(r[1] == 6 for r in m["LM"]) and not m.get("D"):
        fs, ms = G.scales(m)
        F = oracle.support_forces(m, br)
        mon.close(F[0::2].sum(), 0.0, 1e-8 * fs, "self-equilibrium", "sum of reactions")
        mon.event("self_equilibrated")
        if determinate(m):
            mon.close(F[0::2], 0.0, 1e-8 * fs, "determinate:R", "reactions")
            mon.close(br.results.M, 0.0, 1e-8 * ms, "determinate:M", "moments")
            mon.close(br.results.V, 0.0, 1e-8 * fs, "determinate:V", "shears")
            mon.event("determinate")
        else:
            mon.event("indeterminate")
