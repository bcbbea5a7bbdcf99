"""Oracles shared by several properties, over publicly observable results."""
import numpy as np

from . import gen


def support_forces(m, br):
    """
    Support force vector (one entry per nodal DOF; up / anticlockwise +) from the
    reported reactions: rigid restraints first in DOF order, springs likewise.
    """
    R = np.asarray(m["R"], dtype=float)
    F = np.zeros(len(R))
    fix = np.flatnonzero(R < 0)
    spr = np.flatnonzero(R > 0)
    r = np.asarray(br.R, dtype=float).ravel()
    s = np.asarray(br.Rs, dtype=float).ravel()
    if len(r) != len(fix) or len(s) != len(spr):
        raise AssertionError(
            f"reported {len(r)} reactions / {len(s)} spring forces for "
            f"{len(fix)} restraints / {len(spr)} springs"
        )
    F[fix] = r
    F[spr] = s
    return F


def member(br, m, i):
    """(local x, M, V, R, D) of member i at its evaluation stations"""
    r = br.vRes[i]
    x0 = float(np.sum(m["L"][:i]))
    sl = slice(1, -1)
    return (
        np.asarray(r.x, float)[sl] - x0,
        np.asarray(r.M, float)[sl],
        np.asarray(r.V, float)[sl],
        np.asarray(r.R, float)[sl],
        np.asarray(r.D, float)[sl],
    )


class Statics:
    """Section forces along the whole beam from a given set of support forces."""

    def __init__(self, m, F, LM=None):
        self.xs = np.concatenate([[0.0], np.cumsum(np.asarray(m["L"], float))])
        self.F = np.asarray(F, float)
        self.m = m
        self.pts = []  # (owner, x, up force, ccw couple)
        self.dist = []  # (x0, x1, w0, w1)
        n = len(m["L"])
        for j in range(n + 1):
            self.pts.append((None, self.xs[j], self.F[2 * j], self.F[2 * j + 1]))
        for r in m["LM"] if LM is None else LM:
            i = int(r[0]) - 1
            L, x0, t = float(m["L"][i]), self.xs[i], r[1]
            if t == 1:
                self.dist.append((x0, x0 + L, r[2], r[2]))
            elif t == 2:
                self.pts.append((i, x0 + r[3], -r[2], 0.0))
            elif t == 3:
                c = min(r[4], L - r[3])
                if c > 0:
                    self.dist.append((x0 + r[3], x0 + r[3] + c, r[2], r[2]))
            elif t == 4:
                self.pts.append((i, x0 + r[3], 0.0, r[2]))
            elif t == 5:
                a, c = (r[4], r[5]) if len(r) > 4 else (0.0, L)
                w1, w2 = r[2], r[3]
                if a + c > L:
                    w2 = w1 + (w2 - w1) * (L - a) / c
                    c = L - a
                if c > 0:
                    self.dist.append((x0 + a, x0 + a + c, w1, w2))
        self.Ltot = self.xs[-1]

    def band(self, i, xl, tol=None):
        """
        Lowest and highest shear and moment that member i may show at its local
        coordinates xl: a station on a concentrated action of the member may fall
        either side of it; the supports and the other members' loads at the
        member's end nodes are outside the member.
        """
        L = float(self.m["L"][i])
        tol = 1e-9 * self.Ltot if tol is None else tol
        x = np.asarray(xl, float) + self.xs[i]
        V = np.zeros_like(x)
        M = np.zeros_like(x)
        dV = [np.zeros_like(x), np.zeros_like(x)]
        dM = [np.zeros_like(x), np.zeros_like(x)]
        for own, xp, f, c in self.pts:
            if not f and not c:
                continue
            if own == i:
                on = x - xp > tol
                at = np.abs(x - xp) <= tol
                dV[f > 0] += np.where(at, f, 0.0)
                dM[c < 0] += np.where(at, -c, 0.0)
            else:
                on = np.full(len(x), xp <= self.xs[i] + tol)
                if isinstance(own, int):  # a load of another member
                    on = np.full(len(x), own < i)
            arm = x - xp
            V += np.where(on, f, 0.0)
            M += np.where(on, f * arm - c, 0.0)
        for a, b, w0, w1 in self.dist:
            s = np.clip(x, a, b) - a
            k = (w1 - w0) / (b - a)
            q = w0 * s + 0.5 * k * s * s
            V -= q
            M -= q * (x - a) - (0.5 * w0 * s * s + k * s**3 / 3.0)
        return V + dV[0], V + dV[1], M + dM[0], M + dM[1]

    def residual(self):
        """sum of all vertical forces and moments about the right end"""
        X = self.Ltot
        v = sum(p[2] for p in self.pts)
        mm = sum(p[2] * (X - p[1]) - p[3] for p in self.pts)
        for a, b, w0, w1 in self.dist:
            c = b - a
            q = (w0 + w1) / 2 * c
            v -= q
            mm -= q * (X - a) - c * c * (w0 / 6 + w1 / 3)
        return float(v), float(mm)


def between(mon, got, a, b, tol, key, msg):
    """got within [min(a,b)-tol, max(a,b)+tol] elementwise"""
    lo, hi = np.minimum(a, b) - tol, np.maximum(a, b) + tol
    g = np.asarray(got, float)
    mon.checks += 1
    ok = (g >= lo) & (g <= hi)
    if np.all(ok):
        return True
    k = int(np.argmax(~ok))
    mon.fail(key, f"{msg}: got {g[k]!r} outside [{lo[k]!r}, {hi[k]!r}] at index {k}")
    return False


def check_equilibrium(mon, m, br, key="equilibrium", tol=1e-7, LM=None, label=""):
    """Global equilibrium + statics of every cut of the reported diagrams."""
    F = support_forces(m, br)
    fs, ms = gen.scales(m if LM is None else dict(m, LM=LM))
    fs = fs + np.abs(F[0::2]).sum()
    ms = ms + np.abs(F[1::2]).sum() + fs * max(m["L"])
    st = Statics(m, F, LM)
    v, mm = st.residual()
    Lt = st.Ltot
    mon.close(v, 0.0, tol * fs, key + ":force", label + "sum of vertical forces")
    mon.close(mm, 0.0, tol * fs * Lt + tol * ms, key + ":moment", label + "sum of moments")
    for i in range(len(m["L"])):
        x, M, V, _, _ = member(br, m, i)
        Va, Vb, Ma, Mb = st.band(i, x)
        between(mon, V, Va, Vb, tol * fs, key + ":V", f"{label}shear, member {i}")
        between(mon, M, Ma, Mb, tol * ms, key + ":M", f"{label}moment, member {i}")
    mon.event("sections_cut", sum(len(r.x) - 2 for r in br.vRes))


def ref_tolerances(m, sol, i, x):
    """
    Rigorous bounds for the documented recovery of rotations and deflections: the
    curvature (and shear strain) is integrated numerically over the member's
    stations.  |trapezoid error| <= h^2/8 TV(f') for f with bounded-variation
    derivative and <= h/2 * (jumps of f).  Bounds are evaluated from the reference
    solution.
    """
    from .ref import Prop

    L = float(m["L"][i])
    h = float(np.max(np.diff(x)))
    dist, pts, mts, kap = __import__("vp.ref", fromlist=["member_loads"]).member_loads(m["LM"], i, L)
    ei = Prop(m["EI"][i], L)
    gav = (m.get("GAv") or [None] * len(m["L"]))[i]
    if ei.const is not None:
        TV1 = (sum(abs(p) for _, p in pts) + sum(max(abs(a), abs(b)) * (x1 - x0) for x0, x1, a, b in dist)) / ei.const
        J = sum(abs(c) for _, c in mts) / ei.const
    else:
        # the member is sampled finely between the rigidity steps
        cuts = sorted(set(ei.breaks()) | {0.0, L})
        TV1 = J = 0.0
        last = None
        for a, b in zip(cuts[:-1], cuts[1:]):
            if b - a < 1e-9 * L:
                continue
            xx = np.linspace(a, b, 41)
            M = sol.states(i, xx)[:, 2]
            M[-1] = sol.state(i, float(xx[-1]), "L")[2]
            k = np.array([M[q] / np.polyval(ei.at_piece((a + b) / 2 if 0 < q < 40 else (a + b) / 2), xx[q]) for q in range(41)])
            d1 = np.diff(k) / np.diff(xx)
            TV1 += np.sum(np.abs(np.diff(d1))) + abs(d1[0]) + abs(d1[-1])
            if last is not None:
                J += abs(k[0] - last)
            last = k[-1]
        emin = min(np.min(np.abs(np.polyval(c, np.linspace(p, q, 9)))) for p, q, c in ei.pieces)
        J += sum(abs(c) for _, c in mts) / emin
        TV1 *= 1.5
        J *= 1.2
    for kp in kap:
        TV1 += sum(abs(c) * p * L ** max(p - 1, 0) for p, c in enumerate(kp)) * 2
    tR = h * h / 8 * TV1 + h / 2 * J
    tG = 0.0
    if gav is not None:
        ga = Prop(gav, L)
        V = sol.states(i, np.linspace(0, L, 41))[:, 3]
        gmin = min(np.min(np.abs(np.polyval(c, np.linspace(p, q, 9)))) for p, q, c in ga.pieces)
        vmax = np.abs(V).max() + sum(abs(p) for _, p in pts)
        tG = h / 2 * sum(abs(p) for _, p in pts) / gmin
        if ga.const is None:
            gj = sum(abs(1 / np.polyval(a[2], a[1]) - 1 / np.polyval(b[2], b[0])) for a, b in zip(ga.pieces[:-1], ga.pieces[1:]))
            # (V g)'' = V g'' + 2 V' g' + V'' g  with g = 1/GAv between its breaks
            tv0 = tv1 = 0.0
            for a, b, c in ga.pieces:
                if b - a < 1e-9 * L:
                    continue
                xx = np.linspace(a, b, 41)
                g = 1 / np.polyval(c, xx)
                d1 = np.diff(g) / np.diff(xx)
                tv0 += np.sum(np.abs(np.diff(g)))
                tv1 += np.sum(np.abs(np.diff(d1))) + abs(d1[0]) + abs(d1[-1])
            wmax = sum(max(abs(p), abs(q)) for _, _, p, q in dist)
            tG += h / 2 * gj * vmax + h * h / 8 * 1.5 * (vmax * tv1 + 2 * wmax * (tv0 + gj))
        tG += h * h / 8 * (sum(max(abs(a), abs(b)) * 2 for _, _, a, b in dist)) / gmin
    # deflection: integrates the computed rotation
    st = sol.states(i, np.linspace(0, L, 41))
    TVR = np.sum(np.abs(np.diff(st[:, 1])))
    TVk = TVR / L * 8 + 2 * TV1 * L + J  # variation of the curvature
    tD = L * tR + h * h / 8 * TVk + tG
    et = (m.get("et") or [1] * len(m["L"]))[i]
    if et != 1:  # start rotation closed on the far-end deflection
        tR, tD = tR + tD / L, 2 * tD
    return 1.1 * tR, 1.1 * tD


def compare_ref(mon, m, br, sol, tol=1e-7, defl=True, key="ref"):
    """All reported quantities against the independent reference solution."""
    fs, ms = gen.scales(m)
    n = len(m["L"])
    R = np.asarray(m["R"], float)
    rs = np.abs(sol.react)
    fs = max(fs, rs[0::2].max())
    ms = max(ms, rs[1::2].max(), 1e-3 * fs * max(m["L"]))
    F = support_forces(m, br)
    D = np.asarray(br.D, float).ravel()
    # displacement scales
    st_all = [sol.states(i, np.linspace(0, m["L"][i], 9)) for i in range(n)]
    vs = max(np.abs(s[:, 0]).max() for s in st_all) + np.abs(sol.nodes[0::2]).max()
    ts = max(np.abs(s[:, 1]).max() for s in st_all) + vs / sum(m["L"])
    # (floor: a zero response under non-zero actions is still a rounded sum)
    tf = 1e-6 * ms * max(m["L"]) / min(gen.ei_min(m))
    ts = ts + tf + 1e-13
    vs = vs + ts * min(m["L"]) * 0.1 + 1e-13
    want = np.where(R != 0, sol.react, 0.0)
    for k, d in enumerate(m.get("D") or []):
        if R[k] > 0 and d is not None:  # a held spring reports its own force
            want[k] = -R[k] * d
            fs = max(fs, abs(want[k]) if k % 2 == 0 else 0.0)
            ms = max(ms, abs(want[k]) if k % 2 else 0.0)
    mon.close(F[0::2], want[0::2], tol * fs, key + ":reaction", "vertical reactions")
    mon.close(F[1::2], want[1::2], tol * ms, key + ":moment-reaction", "moment reactions")
    mon.close(D[0::2], sol.nodes[0::2], tol * vs, key + ":node-v", "nodal deflections")
    mon.close(D[1::2], sol.nodes[1::2], tol * ts, key + ":node-theta", "nodal rotations")
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    for i in range(n):
        x, M, V, Rr, Dd = member(br, m, i)
        mon.close(x[[0, -1]], [0.0, m["L"][i]], 1e-9 * xs[-1], key + ":x", f"member {i} extent")
        a = sol.states(i, x, "L")
        b = sol.states(i, x, "R")
        between(mon, M, a[:, 2], b[:, 2], tol * ms, key + ":M", f"moment, member {i}")
        between(mon, V, a[:, 3], b[:, 3], tol * fs, key + ":V", f"shear, member {i}")
        if defl:
            tR, tD = ref_tolerances(m, sol, i, x)
            mon.close(Rr, a[:, 1], tR + 2 * tol * ts, key + ":theta", f"rotation, member {i}")
            mon.close(Dd, a[:, 0], tD + 2 * tol * vs, key + ":v", f"deflection, member {i}")
        mon.event("stations_compared", len(x))
    mon.event("solutions_compared")


def kf_tolerances(m, i, x, M, V, D):
    """
    Bounds (V, M, R, D) for a foundation member recovered on the documented mesh of
    at least eight elements per span and per characteristic length: the foundation
    pressure acts at the mesh nodes, and rotation / deflection are integrated by the
    trapezoidal rule on at least two intervals per element.
    """
    L, EI, kf = float(m["L"][i]), float(m["EI"][i]), float(m["kf"][i])
    h = min(L / 8, (4 * EI / kf) ** 0.25 / 8) * 1.001
    hs = float(np.max(np.diff(x)))
    dist, pts, _, _ = __import__("vp.ref", fromlist=["member_loads"]).member_loads(m["LM"], i, L)
    w = sum(max(abs(a), abs(b)) for *_, a, b in dist)
    q = kf * np.abs(D).max()
    P = sum(abs(p) for _, p in pts)
    Vm = np.abs(V).max() + q * h
    tV = 0.75 * q * h
    tM = 0.15 * q * h * h
    tR = (w * h * hs * hs / 8 + q * h**3 / 20 + P * hs * hs / 8) / EI
    tD = tR * h + h * hs * hs / 8 * Vm / EI
    return tV, tM, 1.3 * tR, 1.3 * tD
