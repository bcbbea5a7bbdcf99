"""C12 - influence lines"""
import numpy as np

from .. import gen as G, oracle, units as U
from . import c01

ID = "C12"
N_QUICK, N_THOROUGH = 900, 9000
RULE = (
    "random stable beams (hinges, springs, cantilevers, stepped rigidity); influence "
    "lines of moment, shear and reaction at stations, supports, span ends and arbitrary "
    "points, with default and awkward steps and load values, are compared ordinate by "
    "ordinate with reference analyses of the load at that position"
)
MUST_SEE = ("ordinates_M", "ordinates_V", "ordinates_R", "ordinates_MR", "refusals", "positions", "reruns", "reciprocal", "default_lines", "end_queries")
ASSUMES = ["ordinates refer to the evaluation station nearest the requested point: bounds from the two neighbouring stations are used"]


UNITS = {"step": (1, 0), "poi": (1, 0)}


def gen(rng, i, tier):
    m = c01.gen_case(rng, nmax=4, settle=0.0, loads=1, sections=0.5 if i % 5 == 0 else 0.0)
    m["LM"] = []
    X = float(sum(m["L"]))
    u = rng.random()
    if u < 0.25:
        m["step"] = None
    elif u < 0.6:
        m["step"] = X / int(rng.integers(7, 60))
    else:
        m["step"] = G.rnd(rng.uniform(0.015, 0.2) * X, 2)
    m["lv"] = float(rng.choice([1.0, 1.0, -1.0, 10.0, 0.37]))
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    poi = []
    for _ in range(4):
        k = int(rng.integers(0, 4))
        j = int(rng.integers(0, len(m["L"])))
        if k == 0:
            poi.append(float(xs[int(rng.integers(0, len(xs)))]))
        elif k == 1:
            poi.append(float(xs[j] + m["L"][j] * int(rng.integers(0, 101)) / 100))
        else:
            poi.append(float(xs[j] + m["L"][j] * rng.uniform(0.001, 0.999)))
    m["poi"] = poi
    m["ks"] = [int(k) for k in rng.integers(0, 10**6, 9)]
    return m


def run(m, mon):
    import pycba as cba

    from .. import ref

    L = [float(x) for x in m["L"]]
    n = len(L)
    xs = np.concatenate([[0.0], np.cumsum(L)])
    X = float(xs[-1])
    il = cba.InfluenceLines(m["L"], [G.sec(cba, s) for s in m["EI"]], m["R"], eletype=m.get("et"))
    kw = {}
    if m["lv"] != 1.0:
        kw["load_val"] = m["lv"]
    if m["step"] is None and not kw:
        pass  # created on first use
    else:
        il.create_ils(step=m["step"], **kw)
    mon.state(G.describe(m), "step" if m["step"] else "default")
    step = m["step"] or X / 100
    R = np.array(m["R"], float)
    vsup = [j for j in range(n + 1) if R[2 * j] == -1]

    px, eM = il.get_il(m["poi"][0], "M")
    px = np.asarray(px, float)
    cnt = int(np.floor(X / step + 0.5 + 1e-9)) + 1
    mon.check(abs(len(px) - cnt) <= (1 if abs(X / step - np.floor(X / step) - 0.5) < 1e-6 else 0), "positions", f"{len(px)} positions, expected {cnt}")
    mon.close(px, np.arange(len(px)) * step, 1e-9 * X, "positions", "load positions")
    mon.event("positions", len(px))
    # which ordinates to audit: the ends, and some others
    ks = sorted({0, len(px) - 1} | {k % len(px) for k in m["ks"]} | {int(np.argmin(np.abs(px - x))) for x in xs})
    sols = {}
    for k in ks:
        x = px[k]
        if x > X * (1 + 1e-9):
            continue
        x = min(x, X)
        near = [j for j in range(n + 1) if abs(x - xs[j]) <= 1e-9 * X]
        alt = []
        if near:
            j = near[0]
            if j > 0:
                alt.append([j, 2, m["lv"], L[j - 1]])
            if j < n:
                alt.append([j + 1, 2, m["lv"], 0.0])
        else:
            i = int(np.searchsorted(xs, x) - 1)
            alt.append([i + 1, 2, m["lv"], float(x - xs[i])])
        sols[k] = [ref.Solution(dict(m, LM=[a])) for a in alt]
    lv = abs(m["lv"])
    for p in m["poi"]:
        near = [j for j in range(n + 1) if abs(p - xs[j]) <= 1e-9 * X]
        spans = [i for i in range(n) if xs[i] - 1e-9 * X <= p <= xs[i + 1] + 1e-9 * X]
        stats = []
        for i in spans:
            t = (p - xs[i]) / L[i] * 100
            a = int(round(t))
            if abs(t - a) < 1e-6:
                stats.append((i, [a]))
            else:
                stats.append((i, [int(np.floor(t)), int(np.ceil(t))]))
        if any(len(s) == 2 for _, s in stats) and near:
            continue
        eta = {}
        for q in ("M", "V"):
            gx, eta[q] = il.get_il(p, q if len(m["poi"]) % 2 else q.lower())
            mon.check(len(eta[q]) == len(px), "length", f"{len(eta[q])} ordinates for {len(px)} positions")
        for k, ss in sols.items():
            mm, vv = [], []
            for s in ss:
                for i, st in stats:
                    for a in st:
                        x = L[i] * a / 100
                        for side in "LR":
                            z = s.state(i, x, side)
                            mm.append(z[2])
                            vv.append(z[3])
                    if len(st) == 2:  # a peak between the two stations
                        pass
            ms = lv * X + max(abs(t) for t in mm)
            fs = lv + max(abs(t) for t in vv)
            oracle.between(mon, [eta["M"][k]], [min(mm)], [max(mm)], 1e-7 * ms, "M", f"moment ordinate at {p} for the load at {px[k]}")
            oracle.between(mon, [eta["V"][k]], [min(vv)], [max(vv)], 1e-7 * fs, "V", f"shear ordinate at {p} for the load at {px[k]}")
            mon.event("ordinates_M")
            mon.event("ordinates_V")
        if vsup:
            d = [abs(xs[j] - p) for j in vsup]
            cand = [j for j, t in zip(vsup, d) if t <= min(d) + 1e-9 * X]
            _, eR = il.get_il(p, "R")
            for k, ss in sols.items():
                v = [s.react[2 * j] for s in ss for j in cand]
                oracle.between(mon, [eR[k]], [min(v)], [max(v)], 1e-7 * (lv + max(map(abs, v))), "R", f"reaction ordinate nearest {p} for the load at {px[k]}")
                mon.event("ordinates_R")
            if len(cand) == 1:
                # reciprocity: the reaction line is the deflected shape under a unit
                # lift of that support
                j = cand[0]
                D = [None] * (2 * n + 2)
                D[2 * j] = 1.0
                z = ref.Solution(dict(m, LM=[], D=D))
                for k in sols:
                    x = min(px[k], X)
                    i = min(int(np.searchsorted(xs, x, side="right") - 1), n - 1)
                    v = z.state(i, float(x - xs[i]))[0]
                    mon.close(eR[k], v * m["lv"], 1e-6 * lv * (1 + abs(v)), "reciprocity", f"reaction at {xs[j]}, load at {x}")
                mon.event("reciprocal")
    msup = [j for j in range(n + 1) if R[2 * j + 1] == -1]
    for p in m["poi"] if msup else []:
        d = [abs(xs[j] - p) for j in msup]
        cand = [j for j, t in zip(msup, d) if t <= min(d) + 1e-9 * X]
        _, eR = il.get_il(p, "MR" if m["ks"][0] % 2 else "mr")
        for k, ss in sols.items():
            v = [s.react[2 * j + 1] for s in ss for j in cand]
            oracle.between(mon, [eR[k]], [min(v)], [max(v)], 1e-7 * (lv * X + max(map(abs, v))), "MR", f"moment reaction ordinate nearest {p} for the load at {px[k]}")
            mon.event("ordinates_MR")
    # questions which make no sense are not answered with another line
    for p, q in ((m["poi"][0], "X"), (m["poi"][0], ""), (-0.2 * X, "M"), (1.3 * X, "V")):
        mon.raises(ValueError, lambda: il.get_il(p, q), "refusal", f"influence line of {q!r} at {p} of {X}")
    mon.event("refusals", 4)
    # asking again, and recomputing, gives the same line
    _, again = il.get_il(m["poi"][0], "M")
    mon.close(again, eM, 0.0, "repeat", "second query")
    il.create_ils(step=step, load_val=m["lv"])
    x2, e2 = il.get_il(m["poi"][0], "M")
    mon.close(x2, px, 1e-12 * X, "repeat", "positions after recomputing")
    mon.close(e2, eM, 1e-9 * (lv * X), "repeat", "ordinates after recomputing")
    mon.event("reruns")
    # the default step and load, whatever was asked for before
    il.create_ils()
    x3, e3 = il.get_il(m["poi"][0], "M")
    mon.check(len(x3) == 101, "default", f"{len(x3)} positions of the default line")
    mon.close(x3, np.linspace(0, X, len(x3)), 1e-9 * X, "default", "positions of the default line")
    for k, j in ((k, j) for k in range(len(px)) for j in [int(round(px[k] / X * 100))] if abs(px[k] - X * j / 100) <= 1e-12 * X):
        if j < len(e3):
            mon.close(e3[j] * m["lv"], e2[k], 1e-7 * lv * X, "default", f"unit load at {px[k]}")
            mon.event("default_lines")
    # just off either end is the end
    for p, a in ((-1e-10 * X, 0.0), (X * (1 + 1e-10), X)):
        for q in ("M", "V"):
            mon.close(il.get_il(p, q)[1], il.get_il(a, q)[1], 1e-7 * (X if q == "M" else 1.0), "ends", f"{q} at {p} and at {a}")
    mon.event("end_queries")
