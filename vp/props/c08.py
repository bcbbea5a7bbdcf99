"""C08 - non-prismatic members agree with an independent solution"""
from .. import gen as G, oracle, units as U
from . import c01, c02

ID = "C08"
N_QUICK, N_THOROUGH = 2400, 24000
RULE = (
    "random stable beams in which most members have a stepped, tapered, piecewise "
    "linear or polynomial rigidity (1-3 segments), with hinges, springs, settlements "
    "and all load types; every reaction, nodal displacement and station is compared "
    "with the multiple-shooting reference"
)
MUST_SEE = ("solutions_compared", "stations_compared", "hinged_variable_members", "scalar_equals_section")
ASSUMES = c02.ASSUMES


def specials(tier):
    out = []
    for c in c01.specials(tier):
        base = c["EI"][0]
        for s in (
            [["const", [0.0, 1.0], 1.0]],
            [["linear", [0.0, 1.0], [1.0, 3.0]]],
            [["const", [0.0, 0.25], 2.0], ["const", [0.25, 1.0], 1.0]],
            [["pwl", [0.0, 0.5, 1.0], [2.0, 1.0, 2.0]]],
            [["poly", [0.0, 0.5, 1.0], [2.0, 1.2, 2.0], 2]],
        )[: 5 if len(out) < 200 else 2]:
            m = dict(c)
            m["EI"] = [
                [[g[0], [t * L for t in g[1]], [e * base for e in g[2]] if isinstance(g[2], list) else g[2] * base] + g[3:] for g in s]
                for L in c["L"]
            ]
            out.append(m)
    return out


UNITS = {}


def gen(rng, i, tier):
    m = c01.gen_case(rng, nmax=4, loads=5, sections=1.0, kinds=("udl", "pl", "pudl", "ml", "trap", "ic"))
    if all(isinstance(e, float) for e in m["EI"]):
        m["EI"][0] = G.gen_section(rng, m["L"][0], m["EI"][0])
    return m


def run(m, mon):
    from .. import ref

    ba = G.build(m, how=m.get("how", 0))
    ba.analyze(m.get("npts"))
    sol = ref.Solution(m)
    mon.state(G.describe(m))
    et = m.get("et") or [1] * len(m["L"])
    mon.event("hinged_variable_members", sum(1 for e, t in zip(m["EI"], et) if t > 1 and not isinstance(e, float)))
    oracle.compare_ref(mon, m, ba.beam_results, sol, tol=1e-6)
    # a section description that happens to be constant is the prismatic member
    if all(not isinstance(e, float) and len(e) == 1 and e[0][0] == "const" for e in m["EI"]):
        pm = dict(m, EI=[float(e[0][2]) for e in m["EI"]])
        mon.event("scalar_equals_section")
        b2 = G.build(pm)
        b2.analyze(m.get("npts"))
        oracle.compare_ref(mon, m, b2.beam_results, sol, tol=1e-6, key="scalar")
