"""C02 - prismatic elastic results agree with an independent solution"""
from .. import gen as G, oracle, units as U
from . import c01

ID = "C02"
N_QUICK, N_THOROUGH = 6000, 60000
RULE = (
    "random stable prismatic Euler-Bernoulli beams (1-6 spans; releases, springs, "
    "settlements, free ends) under random loads of all transverse types; every "
    "reaction, nodal displacement and member station is compared with a "
    "multiple-shooting integration of the beam equations that shares no code or "
    "method with the code under test"
)
MUST_SEE = ("solutions_compared", "stations_compared")
ASSUMES = [
    "the reference integrator (vp/ref.py) is trusted; it was cross-checked against closed forms",
    "rotation/deflection diagrams are compared within the rigorous error bound of trapezoidal integration at the requested number of stations",
]


def specials(tier):
    return [c for c in c01.specials(tier) if all(r[1] != 6 for r in c["LM"])]


UNITS = {}


def gen(rng, i, tier):
    m = c01.gen_case(rng, nmax=9 if tier == "thorough" and i % 5 == 0 else 5, loads=6)
    return G.add_held(rng, m) if i % 6 == 0 else m


def run(m, mon):
    from .. import ref

    ba = G.build(m, how=m.get("how", 0))
    ba.analyze(m.get("npts"))
    sol = ref.Solution(m)
    mon.state(G.describe(m))
    oracle.compare_ref(mon, m, ba.beam_results, sol)
