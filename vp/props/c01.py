"""C01 - global and sectional equilibrium of every analysis"""
import numpy as np

from .. import gen as G, oracle, units as U

ID = "C01"
N_QUICK, N_THOROUGH = 6000, 60000
RULE = (
    "random stable beams (1-6 spans; releases, springs, settlements, free ends, "
    "variable EI, shear-flexible members) under random load matrices of all six load "
    "types, analysed through one of several equivalent input routes; a case counts "
    "when force, moment and section-cut sums of a completed analysis were compared"
)
MUST_SEE = ("analyses", "sections_cut", "reactions_read")


def specials(tier):
    b = dict(L=[6.0, 8.0], EI=[1e4, 2e4], R=[-1, 0, -1, 0, -1, 0])
    out = []
    for r in (
        [1, 1, 10.0], [1, 2, 50.0, 0.0], [1, 2, 50.0, 6.0], [2, 2, 50.0, 0.0], [2, 2, 50.0, 8.0],
        [1, 3, 5.0, 0.0, 6.0], [1, 3, 5.0, 5.0, 1.0], [1, 3, 5.0, 4.0, 9.0], [1, 4, 7.0, 0.0], [1, 4, 7.0, 6.0],
        [1, 4, 7.0, 3.0], [2, 5, 3.0, 9.0], [2, 5, 0.0, 9.0, 2.0, 3.0], [2, 5, 9.0, 0.0], [1, 6, 1e-3],
        [1, 6, 1e-3, -2e-4], [1, 1, 0.0], [1, 2, -20.0, 1.5],
    ):
        for et in ([1, 1], [2, 1], [1, 3], [4, 1] if r[1] != 9 else [1, 1]):
            out.append(dict(b, et=et, LM=[r], how=0, npts=20))
    c = dict(L=[5.0], EI=[1e4])
    for R in ([-1, -1, 0, 0], [0, 0, -1, -1], [-1, -1, -1, -1], [-1, -1, -1, 0], [300.0, 0, -1, 0], [300.0, 0, 200.0, 0], [300.0, 50.0, 0, 0]):
        for r in ([1, 1, 10.0], [1, 2, 5.0, 5.0], [1, 2, 5.0, 0.0], [1, 4, 5.0, 2.0], [1, 5, 1.0, 4.0, 1.0, 2.0]):
            out.append(dict(c, R=R, LM=[r], how=3, npts=8))
    return [x for x in out if not G.mechanism(x) and not G.dangling_joint(x)]


def gen_case(rng, **kw):
    m = G.gen_model(rng, **kw)
    m["how"] = int(rng.integers(0, 5))
    m["npts"] = int(rng.choice([4, 5, 7, 20, 50, 100, 100, 137]))
    return m


UNITS = {}


def gen(rng, i, tier):
    big = tier == "thorough" and i % 7 == 0
    u = i % 4
    return gen_case(
        rng,
        nmax=12 if big else 6,
        sections=0.8 if u == 1 else 0.0,
        gav=0.8 if u == 2 else 0.0,
        kinds=("udl", "pl", "pudl", "ml", "trap", "ic"),
        loads=14 if big else 6,
    )


def run(m, mon):
    ba = G.build(m, how=m.get("how", 0))
    mon.check(ba.analyze(m.get("npts")) == 0, "return", "analyze() did not return 0")
    br = ba.beam_results
    mon.event("analyses")
    mon.event("reactions_read", len(br.R) + len(br.Rs))
    mon.state(G.describe(m))
    oracle.check_equilibrium(mon, m, br)
