"""C22 - equivalent loads of draped tendons"""
import copy

import numpy as np

from .. import gen as G, oracle

ID = "C22"
N_QUICK, N_THOROUGH = 2500, 25000
RULE = (
    "random beams (cantilevers, springs, clamped and guided ends, joints without support, "
    "non-prismatic and shear-flexible members, unstressed spans) with tendons of every "
    "profile kind; the analysed balanced moment less the primary moment -F e(x), with "
    "e(x) from independently written profiles, must be a secondary moment: straight "
    "within members, continuous, balanced by the supports only, zero on determinate "
    "beams, and equal to the reference solution under the imposed curvature -F e/EI"
)
MUST_SEE = (
    "secondary", "determinate", "reference", "mirrored", "units", "compound", "harp", "double_harp", "parabola",
    "face_to_face", "cantilever_left", "cantilever_right", "unstressed", "per_span_force", "unsupported_joint",
    "refused", "drawn",
)
ASSUMES = [
    "the tendon is continuous over interior joints and of one force between its anchorages",
    "no hinges in stressed beams (a tendon through a hinge needs zero eccentricity there)",
]


def side(m, i):
    n, R = len(m["L"]), m["R"]
    if i == 0 and R[0] == 0 and R[1] == 0:
        return "left"
    if i == n - 1 and R[2 * n] == 0 and R[2 * n + 1] == 0:
        return "right"
    return None


def gen(rng, i, tier):
    m = G.gen_model(
        rng, nmax=4, releases=0.0, springs=0.3 if i % 3 == 0 else 0.0, settle=0.0,
        sections=0.6 if i % 5 == 1 else 0.0, gav=0.6 if i % 5 == 2 else 0.0, loads=1,
        free_ends=0.6, skip_support=0.12,
    )
    m["LM"] = []
    n = len(m["L"])
    stressed = [bool(rng.random() > 0.12) for _ in range(n)]
    if not any(stressed):
        stressed[int(rng.integers(0, n))] = True
    ecc = lambda: 0.0 if rng.random() < 0.15 else G.rnd(rng.uniform(-0.6, 0.9))
    P, F = [], []
    f = G.rnd(G.log_u(rng, 200, 8000))
    right = None
    for k in range(n):
        if not stressed[k]:
            P.append(None)
            F.append(G.rnd(G.log_u(rng, 200, 8000)))
            right = None
            f = F[-1]
            continue
        L = m["L"][k]
        sd = side(m, k)
        e0 = ecc() if right is None else right
        e1 = ecc()
        if rng.random() < 0.12:
            e1 = e0
        kind = str(rng.choice(["par", "cmp", "harp", "dharp"]))
        if sd and kind == "cmp":
            kind = "par"
        cl = cr = 0.0
        if rng.random() < 0.4:
            cl = G.rnd(L * rng.uniform(0.02, 0.2))
        if rng.random() < 0.4:
            cr = G.rnd(L * rng.uniform(0.02, 0.2))
        if kind == "par":
            p = ["par", e0, ecc(), e1, cl, cr]
        elif kind == "cmp":
            c = rng.uniform(0.3, 0.7)
            p = ["cmp", e0, ecc(), e1, G.rnd(L * rng.uniform(0.05, c - 0.05)), G.rnd(L * rng.uniform(0.05, 0.95 - c)), G.rnd(L * c)]
        elif kind == "harp":
            p = ["harp", e0, ecc(), e1, G.rnd(L * rng.uniform(0.22, 0.78)), cl, cr]
        else:
            a = rng.uniform(0.22, 0.6)
            p = ["dharp", e0, ecc(), ecc(), e1, G.rnd(L * a), G.rnd(L * rng.uniform(a + 0.05, 0.79)), cl, cr]
        P.append(p)
        F.append(f)
        right = e1
    m["P"], m["F"] = P, F
    m["scalar"] = bool(len(set(F)) == 1 and rng.random() < 0.6)
    m["how"] = int(rng.integers(0, 4))
    m["npts"] = int(rng.choice([20, 33, 60]))
    m["g"] = G.rnd(rng.uniform(-2, 2))
    m["draw"] = bool(i % 25 == 0)
    return m


def pieces(p, L, sd):
    """[(x1, x2, coefficients of e in (x - x1))] - written from the profiles' definitions"""
    k = p[0]
    line = lambda x1, x2, a, b: (x1, x2, (a, (b - a) / (x2 - x1), 0.0))
    if k == "par":
        e0, em, e1, cl, cr = p[1:]
        if sd == "right":  # level over the support, to the tip
            out = [(cl, L, (e0, 0.0, (e1 - e0) / (L - cl) ** 2))]
            if cl:
                out.insert(0, line(0.0, cl, e0, e0))
            return out
        if sd == "left":
            X = L - cr
            s = (e0 - e1) / X**2  # e = e1 + s (X - x)^2
            out = [(0.0, X, (e1 + s * X * X, -2 * s * X, s))]
            if cr:
                out.append(line(X, L, e1, e1))
            return out
        h = L - cl - cr
        # through (0, e0), (h/2, em), (h, e1)
        q = 2 * (e0 - 2 * em + e1) / h**2
        b = (e1 - e0) / h - q * h
        out = [(cl, L - cr, (e0, b, q))]
    elif k == "cmp":
        e0, em, e1, a, b, c = p[1:]
        # level at both supports and at the low point, one tangent at each contraflexure
        s = 2 * (em - e0) / c  # slope at the left contraflexure
        t = 2 * (e1 - em) / (L - c)
        ea = e0 + s * a / 2
        ed = e1 - t * b / 2
        d = L - b
        return [
            (0.0, a, (e0, 0.0, s / (2 * a))),
            (a, c, (ea, s, -s / (2 * (c - a)))),
            (c, d, (em, 0.0, t / (2 * (d - c)))),
            (d, L, (ed, t, -t / (2 * b))),
        ]
    elif k == "harp":
        e0, em, e1, a, cl, cr = p[1:]
        out = [line(cl, a, e0, em), line(a, L - cr, em, e1)]
    else:
        e0, e2, e3, e1, a, b, cl, cr = p[1:]
        out = [line(cl, a, e0, e2), line(a, b, e2, e3), line(b, L - cr, e3, e1)]
    if cl:
        out.insert(0, line(0.0, cl, p[1], p[1]))
    if cr:
        e1 = p[3] if k != "dharp" else p[4]
        out.append(line(L - cr, L, e1, e1))
    return out


def ecc_at(pc, x):
    """eccentricity (continuous within a span)"""
    x = np.asarray(x, float)
    e = np.zeros_like(x)
    for x1, x2, c in pc:
        on = (x >= x1 - 1e-12) & (x <= x2 + 1e-12)
        u = x[on] - x1
        e[on] = c[0] + c[1] * u + c[2] * u * u
    return e


def slope_at(pc, x):
    for x1, x2, c in pc if x < pc[-1][1] / 2 else reversed(pc):
        if x1 - 1e-12 <= x <= x2 + 1e-12:
            return c[1] + 2 * c[2] * (x - x1)
    raise ValueError


def profile(cba, p):
    from pycba import prestress as ps

    if p is None:
        return None
    k = p[0]
    if k == "par":
        return ps.Parabola(*p[1:])
    if k == "cmp":
        return ps.CompoundParabola(*p[1:])
    if k == "harp":
        return ps.Harp(*p[1:])
    return ps.DoubleHarp(*p[1:])


def mirrored(m):
    flip = {"right": "left", "left": "right", None: None}
    q = dict(m)
    q["L"] = m["L"][::-1]

    def sec(e, L):
        if e is None or isinstance(e, float):
            return e
        out = []
        for s in e[::-1]:
            t = list(s)
            t[1] = [L - x for x in s[1][::-1]]
            if isinstance(s[2], (list, tuple)):
                t[2] = list(s[2])[::-1]
            out.append(t)
        return out

    q["EI"] = [sec(e, L) for e, L in zip(m["EI"][::-1], q["L"])]
    if m.get("GAv"):
        q["GAv"] = [sec(e, L) for e, L in zip(m["GAv"][::-1], q["L"])]
    n = len(m["L"])
    q["R"] = sum([m["R"][2 * j : 2 * j + 2] for j in range(n, -1, -1)], [])
    q["F"] = m["F"][::-1]
    P = []
    for p, L in zip(m["P"][::-1], q["L"]):
        if p is None:
            P.append(None)
        elif p[0] == "par":
            P.append(["par", p[3], p[2], p[1], p[5], p[4]])
        elif p[0] == "cmp":
            P.append(["cmp", p[3], p[2], p[1], p[5], p[4], L - p[6]])
        elif p[0] == "harp":
            P.append(["harp", p[3], p[2], p[1], L - p[4], p[6], p[5]])
        else:
            P.append(["dharp", p[4], p[3], p[2], p[1], L - p[6], L - p[5], p[8], p[7]])
    q["P"] = P
    return q


def rescaled(m, a, c):
    """lengths times a, forces times c"""

    def sec(e, k):
        if e is None or isinstance(e, float):
            return e if e is None else e * k
        return [[s[0], [a * x for x in s[1]], [v * k for v in s[2]] if isinstance(s[2], (list, tuple)) else s[2] * k] + list(s[3:]) for s in e]

    q = dict(m)
    q["L"] = [a * v for v in m["L"]]
    q["EI"] = [sec(e, c * a * a) for e in m["EI"]]
    if m.get("GAv"):
        q["GAv"] = [sec(e, c) for e in m["GAv"]]
    q["R"] = [v if v <= 0 else v * (c / a if k % 2 == 0 else c * a) for k, v in enumerate(m["R"])]
    q["F"] = [c * v for v in m["F"]]
    q["P"] = [None if p is None else [p[0]] + [a * v for v in p[1:]] for p in m["P"]]
    return q


def loads(m, cba, target=None):
    from pycba.prestress import equivalent_loads

    ba = G.build(m, how=m["how"]) if target is None else target
    F = m["F"][0] if m["scalar"] else m["F"]
    return equivalent_loads(ba, F, [profile(cba, p) for p in m["P"]])


def analysed(m, LM):
    ba = G.build(m, [list(r) for r in LM], how=m["how"])
    ba.analyze(m["npts"])
    return ba.beam_results


def run(m, mon):
    import pycba as cba
    from pycba.prestress import equivalent_loads

    n, L, R = len(m["L"]), m["L"], m["R"]
    PC = [None if p is None else pieces(p, L[i], side(m, i)) for i, p in enumerate(m["P"])]
    mon.state(G.describe(m), "-".join("none" if p is None else p[0] for p in m["P"]))
    for i, p in enumerate(m["P"]):
        if p is None:
            mon.event("unstressed")
            continue
        mon.event({"par": "parabola", "cmp": "compound", "harp": "harp", "dharp": "double_harp"}[p[0]])
        if p[0] != "cmp" and (p[-1] or p[-2]):
            mon.event("face_to_face")
        if side(m, i):
            mon.event("cantilever_" + side(m, i))
    if not m["scalar"]:
        mon.event("per_span_force")
    ba = G.build(m, how=m["how"])
    F = m["F"][0] if m["scalar"] else list(m["F"])
    profs = [profile(cba, p) for p in m["P"]]
    keep, keepF, kl = copy.deepcopy(profs), copy.deepcopy(F), list(map(float, ba.beam.restraints))
    LM = equivalent_loads(ba, F, profs)
    mon.check(
        profs == keep and F == keepF and list(map(float, ba.beam.restraints)) == kl and not ba.beam.loads,
        "inputs", "making the equivalent loads changed the beam, the forces or the profiles",
    )
    mon.check(c18_same(equivalent_loads(ba.beam, F, profs), LM), "inputs", "the loads for the beam and for its analysis differ")
    br = analysed(m, LM)
    # ---- the secondary moment
    es = max([abs(float(v)) for i in range(n) if PC[i] for v in ecc_at(PC[i], np.linspace(0, L[i], 41))] + [1e-3])
    ks = max([sum(abs(v) * L[i] ** q for q, v in enumerate(c)) for i in range(n) if PC[i] for _, _, c in PC[i]] + [es])
    fm = max(m["F"])
    ms = fm * max(es, ks)
    lines = []
    xs = np.concatenate([[0.0], np.cumsum(L)])
    tol = 1e-8 * ms * max(1.0, max(L) / min(L)) * n
    if any(r > 0 for r in R) or m.get("GAv") or any(not isinstance(e, float) for e in m["EI"]):
        tol *= 10
    M2s = []
    for i in range(n):
        x, M, V, _, _ = oracle.member(br, m, i)
        x, M = x[1:-1], M[1:-1]
        if len(x) > 2 and (x[0] < 1e-9 * L[i] or x[-1] > L[i] * (1 - 1e-9)):
            ok = (x > 1e-9 * L[i]) & (x < L[i] * (1 - 1e-9))
            x, M = x[ok], M[ok]
        M2 = M + (m["F"][i] * ecc_at(PC[i], x) if PC[i] else 0.0)
        k = np.polyfit(x / L[i], M2, 1)
        mon.close(M2, np.polyval(k, x / L[i]), tol, "secondary:straight", f"secondary moment of member {i}")
        lines.append((k[1], k[1] + k[0], k[0] / L[i]))
        M2s.append((x, M2))
    mon.event("secondary")
    held = lambda k: R[k] != 0
    for j in range(n + 1):
        a = lines[j - 1][1] if j else 0.0
        b = lines[j][0] if j < n else 0.0
        if not held(2 * j + 1):
            mon.close(a, b, 10 * tol, "secondary:continuous", f"secondary moment either side of joint {j}")
        if not held(2 * j):
            a = lines[j - 1][2] if j else 0.0
            b = lines[j][2] if j < n else 0.0
            mon.close(a, b, 20 * tol / min(L), "secondary:shear", f"secondary shear either side of the unsupported joint {j}")
            if 0 < j < n and PC[j - 1] and PC[j]:
                mon.event("unsupported_joint")
    if sum(1 for r in R if r != 0) == 2:
        for x, M2 in M2s:
            mon.close(M2, 0.0, 10 * tol, "determinate", "secondary moment of a statically determinate beam")
        mon.event("determinate")
    # ---- against the reference under the imposed curvature of the primary moment
    if all(R[2 * j] <= 0 for j in range(n + 1)) and not m.get("GAv") and all(isinstance(e, float) for e in m["EI"]):
        from .. import ref

        sub = {"L": [], "EI": [], "R": [], "LM": []}
        own = []
        for i in range(n):
            for q, (x1, x2, c) in enumerate(PC[i] or [(0.0, L[i], (0.0, 0.0, 0.0))]):
                sub["L"].append(x2 - x1)
                sub["EI"].append(m["EI"][i])
                sub["R"] += R[2 * i : 2 * i + 2] if q == 0 else [0, 0]
                k = -m["F"][i] / m["EI"][i] * np.array(c)
                if PC[i]:
                    sub["LM"].append([len(sub["L"]), 6] + [float(v) for v in k])
                own.append((i, x1, x2))
        sub["R"] += R[2 * n : 2 * n + 2]
        sol = ref.Solution(sub)
        for k, (i, x1, x2) in enumerate(own):
            x, M2 = M2s[i]
            on = (x > x1 + 1e-6 * L[i]) & (x < x2 - 1e-6 * L[i])
            if on.any():
                w = sol.states(k, x[on] - x1)[:, 2]
                mon.close(M2[on], w, 100 * tol, "secondary:reference", f"secondary moment of member {i} against the imposed-curvature solution")
        mon.event("reference")
    # ---- the same tendon seen from the other side
    q = mirrored(m)
    bm = analysed(q, loads(q, cba))
    sc = np.abs(br.results.M).max() + ms
    for i in range(n):
        x, M, *_ = oracle.member(br, m, i)
        y, N, *_ = oracle.member(bm, q, n - 1 - i)
        ok = (x > 1e-9 * L[i]) & (x < L[i] * (1 - 1e-9))
        mon.close(N[::-1][ok], M[ok], 1e-7 * sc, "mirrored", f"moment of member {i} in the mirror image")
    mon.event("mirrored")
    # ---- the same tendon in other units
    a, c = [(1000.0, 1000.0), (3.28084, 0.2248), (0.001, 0.001)][int(m["F"][0] * 1e3) % 3]
    q = rescaled(m, a, c)
    bu = analysed(q, loads(q, cba))
    for i in range(n):
        x, M, *_ = oracle.member(br, m, i)
        y, N, *_ = oracle.member(bu, q, i)
        ok = (x > 1e-9 * L[i]) & (x < L[i] * (1 - 1e-9))
        # (a sag or kink of a few billionths of a unit may count as none)
        none = 1e-8 * fm * max(a * max(L), 1.0) ** 2 / a * n
        mon.close(N[ok] / (a * c), M[ok], 1e-7 * sc + none, "units", f"moment of member {i} with lengths x {a} and forces x {c}")
    mon.event("units")
    # ---- proportional to the force
    g = m["g"]
    LMg = equivalent_loads(ba, list(np.array(m["F"]) * g), profs)
    mon.check(c18_same(LMg, [r[:2] + [r[2] * g] + r[3:] for r in map(list, LM)], 1e-9) or abs(g) < 1e-6, "proportional", f"loads for {g} times the force")
    # ---- refusals
    F0 = F if m["scalar"] else F[0]
    mon.raises(ValueError, lambda: equivalent_loads(ba, F, profs + [None]), "refused", "a profile too many")
    mon.raises(ValueError, lambda: equivalent_loads(ba, F, profs[:-1]), "refused", "a profile too few")
    mon.raises(ValueError, lambda: equivalent_loads(ba, [F0] * (n + 1), profs), "refused", "a force too many")
    mon.raises((TypeError, AttributeError), lambda: equivalent_loads([10.0], F0, profs[:1]), "refused", "no beam")
    k = next((i for i in range(n) if side(m, i) is None), None)
    if k is not None:
        l = L[k]
        from pycba import prestress as ps

        for bad in (
            ps.Parabola(0, 0.3, 0, 0.6 * l, 0.5 * l),
            ps.Harp(0, 0.3, 0, 0.2 * l, 0.3 * l),
            ps.Harp(0, 0.3, 0, 0.8 * l, 0, 0.3 * l),
            ps.Harp(0, 0.3, 0, 1.1 * l),
            ps.DoubleHarp(0, 0.3, 0.3, 0, 0.7 * l, 0.3 * l),
            ps.DoubleHarp(0, 0.3, 0.3, 0, 0.1 * l, 0.3 * l, 0.2 * l),
            ps.CompoundParabola(0, 0.3, 0, 0.5 * l, 0.2 * l, 0.4 * l),
            ps.CompoundParabola(0, 0.3, 0, 0.2 * l, 0.5 * l, 0.6 * l),
            ps.CompoundParabola(0, 0.3, 0, 0.0, 0.2 * l, 0.4 * l),
        ):
            pp = list(profs)
            pp[k] = bad
            mon.raises(ValueError, lambda: equivalent_loads(ba, F, pp), "refused", f"{bad} on a span of {l}")
    for k in range(n):
        if side(m, k):
            pp = list(profs)
            pp[k] = cba.prestress.CompoundParabola(0, 0.3, 0, 0.2 * L[k], 0.2 * L[k], 0.5 * L[k]) if hasattr(cba, "prestress") else profile(cba, ["cmp", 0, 0.3, 0, 0.2 * L[k], 0.2 * L[k], 0.5 * L[k]])
            mon.raises(NotImplementedError, lambda: equivalent_loads(ba, F, pp), "refused", "compound parabola on a cantilever")
    mon.event("refused")
    if m["draw"]:
        drawn(m, mon, PC, ba, F, profs)


def drawn(m, mon, PC, ba, F, profs):
    import matplotlib.colors as mc
    import matplotlib.pyplot as plt
    from pycba.prestress import plot_tendon

    fig, ax = plot_tendon(ba, F, profs)
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    want = [i for i in range(len(PC)) if PC[i]]
    curves = [l for l in ax[1].lines if len(l.get_xdata()) > 10]
    mon.check(len(curves) == len(want), "drawn", f"{len(curves)} tendon curves for {len(want)} stressed spans")
    es = 1e-6 + max(np.abs(ecc_at(PC[i], np.linspace(0, m["L"][i], 80))).max() for i in want)
    for i, l in zip(want, curves):
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        mon.close([x[0], x[-1]], [xs[i], xs[i + 1]], 1e-9 * xs[-1], "drawn", f"extent of the tendon of span {i}")
        mon.close(y, ecc_at(PC[i], np.clip(x - xs[i], 0, m["L"][i])), 1e-9 * es, "drawn", f"tendon of span {i}")
    lo, hi = ax[1].get_ylim()
    mon.check(lo > hi, "drawn", "positive eccentricity is not drawn downwards")
    mon.check(not ba.beam.loads, "drawn", "drawing the tendon loaded the beam")
    plt.close(fig)
    mon.event("drawn")


def c18_same(a, b, tol=1e-12):
    from .c18 import same_rows

    return same_rows(a, b, tol)
