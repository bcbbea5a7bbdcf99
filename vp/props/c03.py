"""C03 - supports, springs, settlements, hinges and continuity are honoured"""
import numpy as np

from .. import gen as G, oracle, units as U
from . import c01

ID = "C03"
N_QUICK, N_THOROUGH = 5000, 50000
RULE = (
    "random stable beams with every member kind (prismatic, non-prismatic, "
    "shear-flexible, foundation; hinged ends), rigid/elastic/settling supports; "
    "monitors compare the reported displacements, spring forces and end moments of "
    "each node and member end with what the boundary and joint conditions demand"
)
MUST_SEE = ("rigid", "settled", "springs", "hinges", "continuity", "free_ends", "foundation_members", "held")
ASSUMES = ["span-end deflections are recovered by trapezoidal integration: they are compared within its rigorous error bound"]


def specials(tier):
    return c01.specials(tier)


def gen_any(rng, i, tier, loads=6, ic=True, kf=True, nmax=5, **kw):
    """a random model of any member family"""
    u = i % 5
    kinds = ("udl", "pl", "pudl", "ml", "trap") + (("ic",) if ic else ())
    k = dict(nmax=nmax, loads=loads, kinds=kinds)
    k.update(kw)
    if u == 1:
        k["sections"] = 0.9
    elif u == 2:
        k["gav"] = 0.9
        k["sections"] = 0.4 if i % 2 else 0.0
    elif u == 3 and kf:
        k.update(kf=0.9, kinds=("udl", "pl", "pudl"), releases=0.0)
    return c01.gen_case(rng, **k)


UNITS = {}


def gen(rng, i, tier):
    m = gen_any(rng, i, tier, settle=0.5, springs=0.4, releases=0.5)
    return G.add_held(rng, m) if rng.random() < 0.2 else m


def end_couple(m, i, end):
    """a couple applied exactly at a member end (inside it)?"""
    L = m["L"][i]
    p = 0.0 if end == 0 else L
    return any(int(r[0]) - 1 == i and r[1] == 4 and abs(r[3] - p) < 1e-9 * L for r in m["LM"])


def run(m, mon):
    from .. import ref

    ba = G.build(m, how=m.get("how", 0))
    ba.analyze(m.get("npts"))
    br = ba.beam_results
    mon.state(G.describe(m))
    n = len(m["L"])
    R = m["R"]
    Dp = m.get("D") or [None] * (2 * n + 2)
    et = m.get("et") or [1] * n
    kf = m.get("kf") or [None] * n
    D = np.asarray(br.D, float).ravel()
    sol = ref.Solution(m)
    fs, ms = G.scales(m)
    F = oracle.support_forces(m, br)
    fs = max(fs, np.abs(F[0::2]).max())
    ms = max(ms, np.abs(F[1::2]).max(), fs * max(m["L"]) * 1e-2)
    vs = np.abs(D[0::2]).max() + 1e-6 * ms * max(m["L"]) ** 2 / min(G.ei_min(m))
    ts = np.abs(D[1::2]).max() + 1e-6 * ms * max(m["L"]) / min(G.ei_min(m))
    spr = iter(np.asarray(br.Rs, float).ravel())
    for k, r in enumerate(R):
        sc = (vs, ts)[k % 2]
        if r < 0:
            want = Dp[k] if Dp[k] is not None else 0.0
            mon.close(D[k], want, 1e-12 * sc + 1e-12 * abs(want), "support", f"displacement of restrained DOF {k}")
            mon.event("settled" if Dp[k] is not None else "rigid")
        elif Dp[k] is not None:
            mon.close(D[k], Dp[k], 1e-12 * sc + 1e-12 * abs(Dp[k]), "held", f"displacement of held DOF {k}")
            mon.event("held")
        if r > 0:
            f = next(spr)
            mon.close(f, -r * D[k], 1e-9 * (fs, ms)[k % 2], "spring", f"spring force at DOF {k}")
            mon.event("springs")
    ends = []
    for i in range(n):
        x, M, V, Rr, Dd = oracle.member(br, m, i)
        if kf[i]:
            mon.event("foundation_members")
            tV, tMk, tR, tD = oracle.kf_tolerances(m, i, x, M, V, Dd)
            tR, tD = tR + 1e-7 * ts, tD + 1e-7 * vs
        else:
            tR, tD = oracle.ref_tolerances(m, sol, i, x)
            tR, tD = tR + 1e-8 * ts, tD + 1e-8 * vs
        mon.close(Dd[0], D[2 * i], tD, "member-end:v", f"deflection at the left end of member {i}")
        mon.close(Dd[-1], D[2 * i + 2], tD, "member-end:v", f"deflection at the right end of member {i}")
        if et[i] in (1, 2):
            mon.close(Rr[0], D[2 * i + 1], tR, "member-end:theta", f"rotation at the left end of member {i}")
        if et[i] in (1, 3):
            mon.close(Rr[-1], D[2 * i + 3], tR, "member-end:theta", f"rotation at the right end of member {i}")
        mon.event("continuity", 2)
        tM = 1e-8 * ms + (tMk if kf[i] else 0.0)
        for end, rel in ((0, et[i] in (3, 4)), (-1, et[i] in (2, 4))):
            if rel and not end_couple(m, i, end):
                mon.close(M[end], 0.0, tM, "hinge", f"moment at a hinged end of member {i}")
                mon.event("hinges")
        for j, end in ((0, 0), (n, -1)):
            if (j == 0 and i == 0) or (j == n and i == n - 1):
                if R[2 * j + 1] == 0 and Dp[2 * j + 1] is None and not end_couple(m, i, end):
                    mon.close(M[end], 0.0, tM, "free-rotation", f"moment at outer end {j}")
                    mon.event("free_ends")
        ends.append((M[0], M[-1], tM))
    # moment continuity across interior nodes that nothing holds
    for j in range(1, n):
        if R[2 * j + 1] == 0 and Dp[2 * j + 1] is None:
            if end_couple(m, j - 1, -1) or end_couple(m, j, 0):
                continue
            t = ends[j - 1][2] + ends[j][2]
            mon.close(ends[j - 1][1], ends[j][0], t, "moment-continuity", f"moment either side of node {j}")
