"""C09 - shear-flexible members agree with an independent solution"""
from .. import gen as G, oracle, units as U
from . import c01, c02

ID = "C09"
N_QUICK, N_THOROUGH = 2400, 24000
RULE = (
    "random stable beams in which most members are shear-flexible (shear rigidity "
    "constant or variable, flexural rigidity constant or variable, L/d from stocky to "
    "slender), with hinges, springs, settlements and all load types; every reaction, "
    "nodal displacement and station is compared with the multiple-shooting reference"
)
MUST_SEE = ("solutions_compared", "stations_compared", "hinged_members", "variable_shear", "rigid_limit")
ASSUMES = c02.ASSUMES


def specials(tier):
    out = []
    for c in c01.specials(tier):
        for ga in (300.0, 20000.0):
            out.append(dict(c, GAv=[ga] * len(c["L"])))
    return out


UNITS = {}


def gen(rng, i, tier):
    while True:
        m = c01.gen_case(
            rng, nmax=4, loads=5, gav=1.0, sections=0.6 if i % 3 == 0 else 0.0,
            kinds=("udl", "pl", "pudl", "ml", "trap", "ic"),
        )
        if m.get("GAv"):
            return m


def run(m, mon):
    from .. import ref

    ba = G.build(m, how=m.get("how", 0))
    ba.analyze(m.get("npts"))
    sol = ref.Solution(m)
    mon.state(G.describe(m))
    et = m.get("et") or [1] * len(m["L"])
    mon.event("hinged_members", sum(1 for g, t in zip(m["GAv"], et) if t > 1 and g is not None))
    mon.event("variable_shear", sum(1 for g in m["GAv"] if isinstance(g, list)))
    oracle.compare_ref(mon, m, ba.beam_results, sol, tol=1e-6)
    # an infinitely stiff web is the flexural member
    if all(isinstance(e, float) for e in m["EI"]) and len(m["L"]) < 3:
        a = G.build(dict(m, GAv=[1e9 * max(m["EI"]) / min(m["L"]) ** 2] * len(m["L"])))
        a.analyze(20)
        b = G.build({k: v for k, v in m.items() if k != "GAv"})
        b.analyze(20)
        import numpy as np

        da, db = np.asarray(a.beam_results.D, float), np.asarray(b.beam_results.D, float)
        mon.close(da, db, 1e-6 * (np.abs(db).max() + 1e-3 * G.scales(m)[1] * max(m["L"]) / min(m["EI"]) * max(1.0, max(m["L"]))), "rigid-limit", "nodal displacements")
        mon.event("rigid_limit")
