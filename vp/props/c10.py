"""C10 - members on an elastic foundation"""
import numpy as np

from .. import gen as G, oracle, units as U
from . import c01

ID = "C10"
N_QUICK, N_THOROUGH = 2000, 20000
RULE = (
    "random beams with one or more spans on a Winkler foundation (stiffness lengths "
    "0.3 to 8 per span, free, pinned, clamped and spring ends, mixed with ordinary "
    "spans) under uniform, point and partial loads; reactions, nodal displacements and "
    "all diagrams are compared with the reference, the foundation pressure with the "
    "load it must carry, and unsupported combinations must be refused"
)
MUST_SEE = ("solutions_compared", "foundation_members", "pressure_balance", "refused", "floating", "very_long")
ASSUMES = [
    "section forces inside a foundation member carry the documented discretisation (at least 8 elements per characteristic length); they are compared within its bound",
]


UNITS = {}


def gen(rng, i, tier):
    while True:
        m = c01.gen_case(rng, nmax=4, loads=4, kf=1.0, kinds=("udl", "pl", "pudl"), releases=0.25 if i % 3 == 0 else 0.0,
                         free_ends=0.8 if i % 2 else 0.3, skip_support=0.4)
        if not m.get("kf"):
            continue
        if i % 4 == 0:
            # floating on the foundation alone
            n = len(m["L"])
            m["kf"] = [k if k is not None else m["EI"][j] * 10 / m["L"][j] ** 4 for j, k in enumerate(m["kf"])]
            m["R"] = [0] * len(m["R"])
            m.pop("D", None)
            m.pop("et", None)
        for j, k in enumerate(m["kf"]):
            if k is not None and rng.random() < 0.3:
                lam = rng.uniform(2.0, 8.0) / m["L"][j]
                m["kf"][j] = G.rnd(4 * m["EI"][j] * lam**4)
        if G.mechanism(m) or G.dangling_joint(m):
            continue
        if i % 15 == 0:
            m["long"] = [float(np.round(rng.uniform(28, 49), 2)), float(np.round(rng.uniform(0.4, 0.6), 3)), G.rnd(rng.uniform(-100, 100))]
        return m


def refused(mon, m):
    import pycba as cba

    L, EI, R, kf = m["L"], m["EI"], m["R"], m["kf"]
    j = next(k for k, v in enumerate(kf) if v is not None)
    n = len(L)
    LM = [[j + 1, 1, 5.0]]

    def ana(**kw):
        a = dict(L=L, EI=EI, R=R, LM=LM, kf=kf)
        a.update(kw)
        return cba.BeamAnalysis(**a).analyze()

    E = NotImplementedError
    for row in ([j + 1, 4, 5.0, L[j] / 2], [j + 1, 5, 1.0, 2.0], [j + 1, 6, 1e-3]):
        mon.raises(E, lambda: ana(LM=[row]), "refuse:load", f"load type {row[1]} on a foundation member")
    for t in (2, 3, 4):
        et = [1] * n
        et[j] = t
        mon.raises(E, lambda: ana(eletype=et), "refuse:hinge", f"member type {t} on a foundation")
    g = [None] * n
    g[j] = 1e4
    mon.raises(E, lambda: ana(GAv=g), "refuse:shear", "shear-flexible member on a foundation")
    ee = list(EI)
    ee[j] = cba.SectionEI([("linear", [0, L[j]], [EI[j], 2 * EI[j]])])
    mon.raises(E, lambda: ana(EI=ee), "refuse:section", "non-prismatic member on a foundation")
    mon.event("refused")


def very_long(m, mon):
    """a member of dozens of characteristic lengths: the infinite beam's closed forms"""
    import pycba as cba

    b, f, P = m["long"]
    EI = 1e4
    L = 30.0
    b /= L
    k = 4 * EI * b**4
    ba = cba.BeamAnalysis([L], EI, [0, 0, 0, 0], kf=[k])
    ba.add_pl(1, P, f * L)
    ba.analyze()
    r = ba.beam_results.results
    x = np.asarray(r.x, float)[1:-1] - f * L
    e = np.exp(-b * abs(x))
    c, s = np.cos(b * x), np.sin(b * abs(x))
    # (8 elements per characteristic length: errors of the element's own loads)
    mon.close(np.asarray(r.M)[1:-1] * 4 * b / P, e * (c - s), 5e-3, "long:M", f"moments of a member of {b * L:.3g} lengths")
    mon.close(np.asarray(r.D)[1:-1] * 2 * k / (P * b), -e * (c + s), 2e-3, "long:D", f"deflections of a member of {b * L:.3g} lengths")
    mon.event("very_long")


def run(m, mon):
    from .. import ref

    if m.get("long"):
        very_long(m, mon)

    n = len(m["L"])
    et = m.get("et")
    if et and any(e != 1 and k is not None for e, k in zip(et, m["kf"])):
        m = dict(m, et=[e if k is None else 1 for e, k in zip(et, m["kf"])])
        if G.mechanism(m) or G.dangling_joint(m):
            mon.state("skipped")
            return
    ba = G.build(m, how=m.get("how", 0))
    ba.analyze(m.get("npts"))
    br = ba.beam_results
    sol = ref.Solution(m)
    mon.state(G.describe(m))
    R = np.array(m["R"], float)
    F = oracle.support_forces(m, br)
    D = np.asarray(br.D, float).ravel()
    kfs = [k or 0.0 for k in m["kf"]]
    fs, ms = G.scales(m)
    rs = np.abs(sol.react)
    fs = max(fs, rs[0::2].max())
    ms = max(ms, rs[1::2].max())
    # displacement scales: the load rows one by one, so that cancelling rows are
    # judged against what was cancelled
    vs = ts = 0.0
    parts = [ref.Solution(dict(m, LM=[r], D=None)) for r in m["LM"]] + ([sol] if m.get("D") else [])
    for q in parts:
        st = [q.states(i, np.linspace(0, m["L"][i], 9)) for i in range(n)]
        vs += max(np.abs(s[:, 0]).max() for s in st) + np.abs(q.nodes[0::2]).max()
        ts += max(np.abs(s[:, 1]).max() for s in st) + np.abs(q.nodes[1::2]).max()
    z = 1e-9 * fs * max(m["L"]) ** 2 / min(m["EI"])
    vs, ts = vs + z * max(m["L"]), ts + vs / max(m["L"]) + z
    tol = 2e-5
    mon.close(F[0::2], np.where(R[0::2] != 0, sol.react[0::2], 0.0), tol * fs, "reaction", "vertical reactions")
    mon.close(F[1::2], np.where(R[1::2] != 0, sol.react[1::2], 0.0), tol * ms, "moment-reaction", "moment reactions")
    mon.close(D[0::2], sol.nodes[0::2], tol * vs, "node-v", "nodal deflections")
    mon.close(D[1::2], sol.nodes[1::2], 2 * tol * ts, "node-theta", "nodal rotations")
    press = 0.0
    slack = 0.0
    for i in range(n):
        x, M, V, Rr, Dd = oracle.member(br, m, i)
        a, b = sol.states(i, x, "L"), sol.states(i, x, "R")
        if kfs[i]:
            tV, tM, tR, tD = oracle.kf_tolerances(m, i, x, M, V, Dd)
            mon.event("foundation_members")
            h = np.diff(x)
            press += kfs[i] * float(np.sum(h * (Dd[1:] + Dd[:-1]) / 2))
            slack += kfs[i] * m["L"][i] * (tD + np.max(h) ** 2 / 8 * np.abs(M).max() / m["EI"][i])
        else:
            tV = tM = 0.0
            tR, tD = oracle.ref_tolerances(m, sol, i, x)
        oracle.between(mon, M, a[:, 2], b[:, 2], tM + tol * ms, "M", f"moment, member {i}")
        oracle.between(mon, V, a[:, 3], b[:, 3], tV + tol * fs, "V", f"shear, member {i}")
        mon.close(Rr, a[:, 1], tR + 4 * tol * ts, "theta", f"rotation, member {i}")
        mon.close(Dd, a[:, 0], tD + 4 * tol * vs, "v", f"deflection, member {i}")
    W = sum(G.load_total(r, m["L"][int(r[0]) - 1])[0] for r in m["LM"])
    mon.close(F[0::2].sum() - press, W, slack + 1e-4 * fs, "balance", "supports + foundation pressure vs applied load")
    mon.event("pressure_balance")
    mon.event("solutions_compared")
    if not np.any(R):
        mon.event("floating")
    if m.get("npts", 0) in (4, 5):
        refused(mon, m)
