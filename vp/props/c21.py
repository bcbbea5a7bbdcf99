"""C21 - elasto-plastic collapse: elastic below yield, in equilibrium throughout, collapse at the plastic limit load"""
import numpy as np

from .. import gen as G, units as U

ID = "C21"
N_QUICK, N_THOROUGH = 240, 3000
RULE = (
    "random continuous beams (cantilevers, fixed ends, spring supports, unequal spans, "
    "stiffnesses and plastic moments) under random UDLs and point loads of both signs; "
    "collapse load factors are bracketed by an independent linear-programming limit "
    "analysis of the same nodes, every recorded moment diagram is checked for "
    "equilibrium, the elastic phase against an independent stiffness solution, the event "
    "log against the recorded moments; moving loads below first yield and well above the "
    "limit load"
)
MUST_SEE = (
    "limit_load", "no_collapse_below", "equilibrium_snapshots", "elastic_snapshots", "yield_events", "hinge_events",
    "mirror", "units", "moving_elastic", "moving_collapse", "moving_determinate", "moving_snapshots", "tangents", "between_nodes", "between_positions", "springs", "cantilever", "hardening", "refused",
    "rounded_positions", "rounded_tip",
)
CHUNK = 2
ASSUMES = [
    "beyond yield, loads at mesh nodes (between nodes the engine distributes them to the nodes, as documented)",
    "rotational restraint only at the beam's ends",
]

# one load step, rounded hinges and the clustering of neighbouring hinges
LO, HI = 0.94, 1.05

SUP = {"p": (-1, 0), "f": (-1, -1), "e": (0, 0)}


UNITS = {"h": (1, 0), "Mp": (1, 1), "My": (1, 1), "step": (1, 0)}


def gen(rng, i, tier):
    while True:
        n = int(rng.integers(1, 5 if tier == 'thorough' else 4))
        h = float(rng.choice([0.5, 1.0, 0.25, 0.4]))
        ne = [int(rng.integers(9, 19 if n < 3 else 13)) for _ in range(n)]
        L = [round(k * h, 6) for k in ne]
        R = []
        for j in range(n + 1):
            if j in (0, n):
                k = str(rng.choice(["p", "f", "e"], p=[0.55, 0.25, 0.2]))
                R += SUP[k]
            else:
                R += SUP["p"] if rng.random() < 0.97 or n == 1 else (0, 0)
        # stable? (two restrained DOFs that are not both one rotation)
        if sum(1 for d in R[0::2] if d) >= 2 or R[0:2] == [-1, -1] or R[-2:] == [-1, -1]:
            break
    EI0 = G.log_u(rng, 1e3, 1e6)
    EI = [EI0] * n if rng.random() < 0.4 else [G.rnd(EI0 * np.exp(rng.uniform(-1, 1))) for _ in range(n)]
    if rng.random() < 0.25:
        # spring supports, stiff enough to bite
        j = int(rng.integers(0, n + 1))
        if R[2 * j]:
            R[2 * j] = G.rnd(EI0 / max(L) ** 3 * np.exp(rng.uniform(3.5, 8)))
    Mp0 = G.log_u(rng, 20, 2000)
    Mp = [Mp0] * n if rng.random() < 0.4 else [G.rnd(Mp0 * rng.uniform(0.4, 1)) for _ in range(n)]
    sf = 1.15 if rng.random() < 0.5 else float(rng.uniform(1.02, 1.6))
    LM = []
    one_sign = rng.random() < 0.7
    for _ in range(int(rng.integers(1, 4))):
        s = int(rng.integers(0, n))
        v = G.rnd(Mp0 / 10 * rng.uniform(0.3, 1))
        if not one_sign and rng.random() < 0.4:
            v = -v
        if rng.random() < 0.35:
            LM.append([s + 1, 1, G.rnd(v / L[s] * 2)])
        else:
            # (hinges closer than two elements are one hinge to the engine, as documented)
            a = int(rng.integers(4, ne[s] - 3))
            if s == 0 and R[0] == 0 and rng.random() < 0.5:
                a = 0
            if s == n - 1 and R[-2] == 0 and rng.random() < 0.5:
                a = ne[s]
            LM.append([s + 1, 2, v, round(a * h, 6)])
    return {
        "L": L, "h": h, "ne": ne, "R": list(map(float, R)), "EI": EI, "Mp": Mp, "My": [float(q / sf) for q in Mp], "LM": LM,
        "lt": G.rnd(rng.uniform(6, 12)), "dflt": sf == 1.15, "mv": float(rng.uniform(0, 1)), "step": h * int(rng.integers(1, 4)),
        "nsub": int(rng.integers(1, 7)), "veh": int(rng.integers(0, 3)), "q": float(rng.choice([0.005, 0.01, 0.05])), "i": i,
    }


class Disc:
    """independent model of the discretised beam: forces, elastic moments, limit load"""

    def __init__(self, m):
        self.L, self.ne = m["L"], m["ne"]
        self.h = np.concatenate([np.full(k, L / k) for k, L in zip(self.ne, self.L)])
        self.sp = np.concatenate([np.full(k, i) for i, k in enumerate(self.ne)])
        self.x = np.concatenate([[0.0], np.cumsum(self.h)])
        self.N = len(self.x)
        self.jn = np.concatenate([[0], np.cumsum(self.ne)])
        EI = np.asarray(m["EI"])[self.sp]
        K = np.zeros((2 * self.N, 2 * self.N))
        for e, h in enumerate(self.h):
            B = np.array([[1 / h, 1, -1 / h, 0], [1 / h, 0, -1 / h, 1]])  # end rotations from the chord
            K[2 * e : 2 * e + 4, 2 * e : 2 * e + 4] += B.T @ (EI[e] / h * np.array([[4, 2], [2, 4]])) @ B
        self.EI = EI
        self.K0 = K.copy()
        fixed = []
        for j, nd in enumerate(self.jn):
            for d in range(2):
                r = m["R"][2 * j + d]
                if r == -1:
                    fixed.append(2 * nd + d)
                elif r > 0:
                    K[2 * nd + d, 2 * nd + d] += r
        self.fixed = fixed
        self.free = np.setdiff1d(np.arange(2 * self.N), fixed)
        self.K = K
        self.Kinv = np.linalg.inv(K[np.ix_(self.free, self.free)])
        # the v DOFs carried by a support of any kind, and the ends that resist moment
        self.supv = {int(nd) for j, nd in enumerate(self.jn) if m["R"][2 * j] != 0}
        self.endm = [m["R"][1] != 0, m["R"][-1] != 0]
        # weaker side at shared nodes
        Mp = np.asarray(m["Mp"])
        self.Mp = np.minimum(Mp[np.r_[self.sp[:1], self.sp]], Mp[np.r_[self.sp, self.sp[-1:]]])
        # vertical equilibrium of unsupported nodes: rows on the nodal moments (sagging +)
        A = []
        self.rows = [j for j in range(self.N) if j not in self.supv]
        for j in self.rows:
            r = np.zeros(self.N)
            if j > 0:
                r[j] += 1 / self.h[j - 1]
                r[j - 1] -= 1 / self.h[j - 1]
            if j < self.N - 1:
                r[j] += 1 / self.h[j]
                r[j + 1] -= 1 / self.h[j]
            A.append(r)
        self.A = np.array(A).reshape(len(A), self.N)
        z = []
        if not self.endm[0]:
            z.append(0)
        if not self.endm[1]:
            z.append(self.N - 1)
        self.zero = z

    def forces(self, LM):
        """downward nodal forces"""
        f = np.zeros(self.N)
        x0 = np.concatenate([[0.0], np.cumsum(self.L)])
        for l in LM:
            s = int(l[0]) - 1
            if l[1] == 1:
                a, b = self.jn[s], self.jn[s + 1]
                w = np.full(b - a + 1, l[2] * self.L[s] / self.ne[s])
                w[[0, -1]] /= 2
                f[a : b + 1] += w
            else:
                f[int(np.argmin(np.abs(self.x - x0[s] - l[3])))] += l[2]
        return f

    def elastic(self, f):
        """nodal moments of the elastic beam, sagging +"""
        F = np.zeros(2 * self.N)
        F[0::2] = -f
        u = np.zeros(2 * self.N)
        u[self.free] = self.Kinv @ F[self.free]
        return self.moments(u)

    def moments(self, u):
        M = np.zeros(self.N)
        v, t = u[0::2], u[1::2]
        for e, h in enumerate(self.h):
            ps = (v[e + 1] - v[e]) / h
            M[e] = -self.EI[e] / h * (4 * (t[e] - ps) + 2 * (t[e + 1] - ps))
            M[e + 1] = self.EI[e] / h * (2 * (t[e] - ps) + 4 * (t[e + 1] - ps))
        return M

    def increment(self, df, R):
        """moment increment of the degraded beam, and a conditioning measure"""
        K = np.zeros((2 * self.N, 2 * self.N))
        ks = []
        for e, h in enumerate(self.h):
            c = self.EI[e] / h
            B = np.array([[1 / h, 1, -1 / h, 0], [1 / h, 0, -1 / h, 1]])
            a, b = R[e]
            # interpolated between the fixed, left-pinned and right-pinned members
            k2 = min(a, b) * np.array([[4.0, 2.0], [2.0, 4.0]])
            if a >= b:
                k2 = k2 + (a - b) * np.array([[3.0, 0.0], [0.0, 0.0]])
            else:
                k2 = k2 + (b - a) * np.array([[0.0, 0.0], [0.0, 3.0]])
            k2 = k2 * c
            ks.append((k2, B))
            K[2 * e : 2 * e + 4, 2 * e : 2 * e + 4] += B.T @ k2 @ B
        K += np.diag(np.diag(self.K) - np.diag(self.K0))
        Kf = K[np.ix_(self.free, self.free)]
        s = 1 / np.sqrt(np.maximum(np.diag(Kf), 1e-300))
        cond = np.linalg.cond(Kf * s[:, None] * s[None, :])
        if not cond < 1e12:
            return None, cond
        F = np.zeros(2 * self.N)
        F[0::2] = -df
        u = np.zeros(2 * self.N)
        u[self.free] = np.linalg.solve(Kf, F[self.free])
        M = np.zeros(self.N)
        for e, (k2, B) in enumerate(ks):
            m = k2 @ (B @ u[2 * e : 2 * e + 4])
            if e == 0:
                M[0] = -m[0]
            M[e + 1] = m[1]
        return M, cond

    def limit(self, f):
        """
        largest lam with nodal moments |M| <= Mp in equilibrium with lam*f.  Node
        equilibrium: (dM/dx)_right - (dM/dx)_left = load -> A M = f at free nodes
        """
        from scipy.optimize import linprog

        N = self.N
        c = np.zeros(N + 1)
        c[-1] = -1
        # moments in units of the largest Mp, the multiplier in units of its size
        s, h = self.Mp.max(), self.h.min()
        q = f[self.rows] * h / s
        z = np.abs(q).max(initial=0.0) or 1.0
        A = np.hstack([self.A * h, -q[:, None] / z])
        b = np.zeros(len(self.rows))
        bd = [(-p / s, p / s) for p in self.Mp] + [(0, None)]
        for k in self.zero:
            bd[k] = (0, 0)
        r = linprog(c, A_eq=A, b_eq=b, bounds=bd, method="highs")
        if r.status == 3:
            return np.inf
        return r.x[-1] / z if r.status == 0 else None


def sag(nb_M, D):
    """the engine's nodal moments with sagging positive: end moment of the left element,
    except node 0, which is the start moment of the first element"""
    M = np.array(nb_M, float)
    M[0] = -M[0]
    return M


def degraded(gam, D, gy, q=0.0):
    """stiffness parameters after each row of the history of |M|/Mp"""
    top = np.maximum.accumulate(np.vstack([np.zeros(D.N), gam]))[:-1]
    r = np.where(gam <= gy, 1.0, np.where(gam >= 1.0, q, 1.0 - (gam - gy) / (1.0 - gy) * (1.0 - q)))
    r = np.where(gam >= top, r, 1.0)
    R = np.ones((len(gam), D.N - 1, 2))
    R[:, :, 1] = r[:, 1:]
    R[:, 0, 0] = r[:, 0]
    return R


def premature(D, res, M):
    """
    the hinges found form a mechanism on paper, but none in which every hinge opens the
    way its moment bends it
    """
    from scipy.optimize import linprog

    hs = sorted({int(e.node_index) for e in res.hinge_events if e.event_type == "plastic_hinge"})
    # velocities v at the nodes: rotation of hinge j = slope change; unchanged elsewhere
    n = D.N
    ends = [k for k in (0, n - 1) if D.endm[0 if k == 0 else 1]]
    A_eq, A_ub = [], []
    for j in range(n):
        r = np.zeros(n)
        if 0 < j < n - 1:
            r[j + 1] += 1 / D.h[j]
            r[j] -= 1 / D.h[j] + 1 / D.h[j - 1]
            r[j - 1] += 1 / D.h[j - 1]
        elif j in ends:
            # the end rotates against a fixed or elastic restraint
            if j == 0:
                r[1], r[0] = 1 / D.h[0], -1 / D.h[0]
            else:
                r[-2], r[-1] = 1 / D.h[-1], -1 / D.h[-1]
        else:
            continue
        if j in hs:
            # sagging moment opens with positive slope change
            A_ub.append(-np.sign(M[j]) * r)
        else:
            A_eq.append(r)
    for j in D.supv:
        r = np.zeros(n)
        r[j] = 1
        A_eq.append(r)
    if not A_ub:
        return True
    c = np.sum(A_ub, axis=0)
    out = linprog(c, A_ub=np.array(A_ub), b_ub=np.zeros(len(A_ub)), A_eq=np.array(A_eq), b_eq=np.zeros(len(A_eq)), bounds=[(-1, 1)] * n, method="highs")
    return bool(out.status == 0 and -out.fun < 1e-9)


def equilibrium(D, f, M, lam):
    q = D.A @ M - f[D.rows] * lam
    return float(np.abs(q).max(initial=0)) / (np.abs(D.A).max() * D.Mp.max())


def neighbours(res):
    """load factor from which hinges exist at neighbouring nodes"""
    hs = {}
    for e in res.hinge_events:
        if e.event_type == "plastic_hinge":
            j = int(e.node_index)
            if any(abs(j - k) <= 2 for k in hs):
                return float(e.load_factor)
            hs[j] = 1
    return np.inf


def verdict(mon, D, f, lim, res, key, msg, lo=None, hi=None):
    """compare a collapse load with the limit load"""
    lo, hi = lo or LO, hi or HI
    M = sag(res.final_moments, D)
    hs = sorted({int(e.node_index) for e in res.hinge_events if e.event_type == "plastic_hinge"})
    r = float(res.collapse_lambda) / lim
    if res.collapsed and r < lo and premature(D, res, M):
        mon.fail("premature-inconsistent-hinges", f"{msg} declared at {res.collapse_lambda:.5g} of a limit load {lim:.5g} on hinges that cannot all open")
        return False
    if not (res.collapsed and lo <= r <= hi) and any(b - a <= 2 for a, b in zip(hs, hs[1:])) and equilibrium(D, f, M, float(res.collapse_lambda)) > 1e-6:
        mon.fail("adjacent-hinges-singular", f"{msg} at {res.collapse_lambda:.5g} (collapsed={res.collapsed}), out of equilibrium, limit load {lim:.5g} with hinges at neighbouring nodes {hs}")
        return False
    good = mon.check(bool(res.collapsed), key, f"{msg}: none up to {res.collapse_lambda:.5g}; the limit load factor is {lim:.5g}")
    return good and mon.check(lo <= r <= hi, key, f"{msg} at {res.collapse_lambda:.5g}, plastic limit load {lim:.5g}")


def other(m, mon, make, D, LM, f, lim, lf, ok):
    """mirror image, other units, strain hardening, refusals"""
    import pycba as cba
    from pycba.nonlinear import NonlinearBeamAnalysis

    n = len(m["L"])
    if m["i"] % 3 == 0:
        mm = dict(m, L=m["L"][::-1], EI=m["EI"][::-1], Mp=m["Mp"][::-1], My=m["My"][::-1])
        mm["R"] = [m["R"][2 * (n - j) + d] for j in range(n + 1) for d in range(2)]
        LMm = [[n + 1 - l[0], l[1], l[2], *([m["L"][l[0] - 1] - l[3]] if l[1] == 2 else [])] for l in LM]
        r = make(mm=mm).analyze(LMm, lambda_max=2.5 * lim)
        Dm = Disc(mm)
        verdict(mon, Dm, Dm.forces(LMm), lim, r, "mirror", "collapse of the mirrored beam")
        mon.event("mirror")
    elif m["i"] % 3 == 1:
        a, c, d = [(1000.0, 1000.0, 1e9), (3.28084, 0.2248, 2.42), (0.001, 0.001, 1e-9)][m["i"] // 3 % 3]
        # lengths by a, forces by c, stiffness EI by d
        mm = dict(m, L=[a * v for v in m["L"]], h=a * m["h"], EI=[d * v for v in m["EI"]], Mp=[a * c * v for v in m["Mp"]], My=[a * c * v for v in m["My"]])
        mm["R"] = [v if v <= 0 else v * (d / a**3 if k % 2 == 0 else d / a) for k, v in enumerate(m["R"])]
        LMu = [[l[0], l[1], l[2] * (c if l[1] == 2 else c / a), *([a * l[3]] if l[1] == 2 else [])] for l in LM]
        r = make(mm=mm).analyze(LMu, lambda_max=2.5 * lim)
        Du = Disc(mm)
        if verdict(mon, Du, Du.forces(LMu), lim, r, "units", f"collapse in other units (lengths x {a})") and ok and not np.isfinite(neighbours(r)):
            mon.check(abs(r.collapse_lambda - lf) <= 0.03 * lim, "units", f"in other units (lengths x {a}) collapse at {r.collapse_lambda:.5g}, not {lf:.5g}")
        mon.event("units")
    else:
        # a hardening beam carries at least the plastic limit load
        r = make(q=m["q"]).analyze(LM, lambda_max=0.93 * lim, record_every=3)
        if r.collapsed:
            verdict(mon, D, f, lim, r, "hardening", "collapse of the strain-hardening beam", lo=0.93, hi=1e9)
        lam = np.asarray(r.lambda_history)
        H = np.array([sag(v, D) for v in r.moment_history]).reshape(len(lam), D.N)
        q = D.A @ H.T - np.outer(f[D.rows], lam)
        sc = np.abs(D.A).max() * D.Mp.max() + np.abs(f).max() * lim
        adj = neighbours(r)
        mon.close(q / sc, np.zeros_like(q), np.broadcast_to(np.where(lam < adj, 1e-6, np.inf), q.shape), "hardening", "equilibrium with strain hardening")
        fr = np.asarray(r.final_R)
        mon.check(bool(np.all(fr >= m["q"] - 1e-12) and np.all(fr <= 1)), "hardening", "stiffness parameters outside [q, 1]")
        mon.event("hardening")
    if m["i"] % 10 == 0:
        sp = cba.SectionEI([("linear", [0, m["L"][0]], [1e4, 2e4])])
        mon.raises(TypeError, lambda: NonlinearBeamAnalysis(m["L"], [sp] + list(m["EI"][1:]), m["R"], m["Mp"]), "refused", "non-prismatic span")
        mon.raises(ValueError, lambda: make().analyze_moving(), "refused", "moving load without a load")
        mon.event("refused")


def moving(m, mon, make, D):
    import pycba as cba

    kind = m["veh"]
    if kind == 0:
        w, ac = np.array([1.0]), np.array([0.0])
    elif kind == 1:
        w, ac = np.array([1.0, 2.0]), np.array([0.0, 3 * m["h"]])
    else:
        w, ac = np.array([1.0, 1.5, 1.5]), np.array([0.0, 4 * m["h"], 6 * m["h"]])
    X = D.x[-1]
    # (whether a last position half a step past the end is visited is rounding)
    pos = np.arange(0, X + ac[-1] + m["step"] * 0.49, m["step"])
    Fs = []
    for p in pos:
        f = np.zeros(D.N)
        for wi, a in zip(w, ac):
            x = p - a
            if -1e-9 * X <= x <= X * (1 + 1e-9):
                f[int(np.argmin(np.abs(D.x - x)))] += wi
        Fs.append(f)
    Fs = np.array(Fs)
    E = np.array([D.elastic(f) for f in Fs])
    gy = m["My"][0] / m["Mp"][0]
    u = np.abs(E / (gy * D.Mp)).max()
    if not u > 1e-12:
        return
    def go(P, **kw):
        nb = make()
        if kind == 0:
            return nb.analyze_moving(P=P, step=m["step"], n_sub=m["nsub"], record_every=1, **kw)
        v = cba.Vehicle(axle_spacings=np.diff(ac), axle_weights=P * w)
        return nb.analyze_moving(vehicle=v, step=m["step"], n_sub=m["nsub"], record_every=1, **kw)

    P = 0.97 / u
    r = go(P)
    lam = np.asarray(r.lambda_history, float)
    if not mon.check(not r.collapsed and not r.hinge_events, "moving-elastic", f"{len(r.hinge_events)} events, collapsed={r.collapsed} at 97 % of the yield load"):
        return
    k = len(pos)
    mon.check(len(lam) in (k, k + 1) and bool(np.all(np.abs(lam[:k] - pos) <= 1e-9 * X)), "moving-elastic", "positions of the moving load")
    mon.check(abs(r.collapse_lambda - lam[-1]) <= 1e-9 * X and r.collapse_lambda <= X + ac[-1] + 0.501 * m["step"], "moving-elastic", "final position")
    H = np.array([sag(v, D) for v in r.moment_history])[:k]
    if H.shape == E.shape:
        mon.close((H - P * E) / D.Mp.max(), np.zeros_like(E), 1e-7, "moving-elastic", "moments under the moving load")
        mon.event("moving_elastic", len(E))
    # beyond yield: every position in equilibrium
    P = (1.05 + 0.2 * m["mv"]) / u
    r = go(P)
    lam = np.asarray(r.lambda_history, float)[: len(pos)]
    H = np.array([sag(v, D) for v in r.moment_history[: len(pos)]]).reshape(len(lam), D.N)
    k = len(lam)
    if mon.check(bool(np.all(np.abs(lam - pos[:k]) <= 1e-9 * X)), "moving", "positions of the moving load"):
        q = (D.A @ H.T).T - P * Fs[:k, D.rows]
        sc = np.abs(D.A).max() * D.Mp.max() + P * w.max()
        # (until the first hinge, after which tangents may be close to singular)
        h1 = min([float(e.load_factor) for e in r.hinge_events if e.event_type == "plastic_hinge"], default=np.inf)
        tq = np.where(lam >= h1 - 1e-9, np.inf, 1e-6)[:, None]
        mon.close(q / sc, np.zeros_like(q), np.broadcast_to(tq, q.shape), "moving-equilibrium", "equilibrium under the moving load beyond yield")
        mon.event("moving_snapshots", int((tq < 1).sum()))
    # no yield event before the position at which the elastic moments reach yield
    over = np.flatnonzero(np.abs(P * E / (gy * D.Mp)).max(axis=1) >= 1 - 1e-9)
    ys = [float(e.load_factor) for e in r.hinge_events if e.event_type == "initial_yield"]
    if len(over):
        mon.check(bool(ys) and abs(min(ys) - pos[over[0]]) <= m["step"] * 1.001, "moving-yield", f"first yield recorded at {min(ys, default=None)}, elastic moments first reach it at {pos[over[0]]:.4g}")
    # a determinate beam collapses where the elastic moment reaches the plastic moment
    nr = sum(1 for v in m["R"] if v)
    if nr == 2:
        g = np.abs(E / D.Mp).max(axis=1)
        P = (1.02 + 0.5 * m["mv"]) / g.max()
        first = pos[np.flatnonzero(P * g >= 1 - 1e-6)[0]]
        sure = pos[np.flatnonzero(P * g >= 1 + 1e-6)[0]]
        r = go(P)
        mon.check(r.collapsed and first - 1e-9 <= r.collapse_lambda <= sure + 1e-9, "moving-determinate", f"collapse at {r.collapse_lambda} ({r.collapsed}), the moment reaches Mp at {first}")
        mon.event("moving_determinate")
        return
    # well above the limit load at some position it must collapse
    if m["nsub"] < 3 or any(r > 0 for r in m["R"]):
        return
    at = range(0, len(pos), max(1, len(pos) // 25))
    lims = [D.limit(Fs[k]) for k in at]
    lims = np.array([v if v is not None and v > 0 else np.inf for v in lims])
    P = 2.5 * lims.min()
    if not np.isfinite(P):
        return
    r = go(P)
    if not r.collapsed and np.isfinite(neighbours(r)):
        mon.fail("adjacent-hinges-singular", "no collapse under 2.5 times the limit load, with hinges at neighbouring nodes")
    mon.check(bool(r.collapsed) or np.isfinite(neighbours(r)), "moving-collapse", "no collapse under 2.5 times the limit load")
    if r.collapsed:
        y = np.flatnonzero(np.abs(P * E / (gy * D.Mp)).max(axis=1) >= 1 - 1e-6)[0]
        mon.check(r.collapse_lambda >= pos[max(y - 1, 0)] - 1e-9, "moving-collapse", f"collapse at {r.collapse_lambda}, before the first yield at {pos[y]}")
    mon.event("moving_collapse")


def run(m, mon):
    from pycba.nonlinear import NonlinearBeamAnalysis
    import pycba as cba

    D = Disc(m)
    f = D.forces(m["LM"])
    lim = D.limit(f)
    Mel = D.elastic(f)
    if lim is None or not np.abs(Mel).max() > 1e-9 * max(m["Mp"]) or not np.isfinite(lim):
        mon.event("no_load_effect")
        return
    # scale the loads so that the limit load factor is lt
    k = lim / m["lt"]
    LM = [[*l[:2], l[2] * k, *l[3:]] for l in m["LM"]]
    tips = [l for l in m["LM"] if l[1] == 2 and (l[0] == 1 and l[3] == 0 and m["R"][0] == 0 or l[0] == len(m["L"]) and l[3] == m["L"][-1] and m["R"][-2] == 0)]
    if m["i"] % 3 == 0 or tips:
        # positions which carry a rounding error, also past the very tip of a cantilever
        sg = m["i"] % 2 * 2 - 1 if not tips else (1 if tips[0][3] > 0 else -1)
        LM = [[*l[:3], l[3] * (1 + sg * 1e-10) - (1e-11 if sg < 0 else 0.0)] if l[1] == 2 else l for l in LM]
        mon.event("rounded_positions")
        mon.event("rounded_tip", bool(tips))
    f, Mel, lim = f * k, Mel * k, m["lt"]
    gy = np.asarray(m["My"])[0] / m["Mp"][0]
    lam_y = float((gy * D.Mp / np.maximum(np.abs(Mel), 1e-300)).min())
    n = len(m["L"])
    mon.state(n, [0 if r == 0 else (-1 if r == -1 else 1) for r in m["R"]], len(m["LM"]))
    if any(r > 0 for r in m["R"]):
        mon.event("springs")
    if m["R"][0] == 0 or m["R"][-2] == 0:
        mon.event("cantilever")
    scalar = len(set(m["EI"])) == 1 and len(set(m["Mp"])) == 1

    def make(q=0.0, mm=m, **kw):
        a = dict(L=mm["L"], EI=mm["EI"], R=mm["R"], Mp=mm["Mp"], My=None if mm["dflt"] else mm["My"], q=q, mesh_size=mm["h"])
        if scalar and mm["i"] % 2:
            a.update(EI=mm["EI"][0], Mp=mm["Mp"][0])
            if a["My"] is not None:
                a["My"] = mm["My"][0]
        a.update(kw)
        return NonlinearBeamAnalysis(**a)

    nb = make()
    x = np.asarray(nb.node_coords)
    if not mon.check(x.shape == D.x.shape and bool(np.all(np.abs(x - D.x) < 1e-9 * D.x[-1])), "mesh", f"{len(x)} nodes, expected {D.N}"):
        return
    res = nb.analyze(LM, lambda_max=2.5 * lim, record_every=1)
    lam = np.asarray(res.lambda_history)
    H = np.array([sag(v, D) for v in res.moment_history]).reshape(len(lam), D.N)
    Mf = sag(res.final_moments, D)
    Mmax = D.Mp.max()
    fmax = np.abs(f).max()
    # ---- online checks of the trace: equilibrium, elastic phase, yield surface, event log
    A = D.A
    q = A @ H.T - np.outer(f[D.rows], lam)
    sc = np.abs(A).max() * Mmax + fmax * lim
    # (tangents close to a mechanism amplify rounding, and beyond the limit load no
    # equilibrium exists for the last step before the collapse is noticed)
    hb = min([float(e.load_factor) for e in res.hinge_events if e.event_type == "plastic_hinge"], default=np.inf)
    adj = neighbours(res)
    sat = np.maximum.accumulate((np.abs(H) / D.Mp).max(axis=1)) if len(H) else np.zeros(0)
    tq = np.where((lam < hb) & (sat < 0.97), 1e-8, np.where(lam < min(0.99 * lim, adj), 2e-3, np.inf))
    if np.any(np.abs(q[:, (lam >= adj) & (lam < 0.99 * lim)] / sc) > 2e-3):
        mon.fail("adjacent-hinges-singular", "equilibrium lost below the limit load with hinges at neighbouring nodes")
    mon.close(q / sc, np.zeros_like(q), np.broadcast_to(tq, q.shape), "equilibrium", "vertical equilibrium of the free nodes")
    lf_end = float(res.collapse_lambda)
    q = A @ Mf - f[D.rows] * lf_end
    if lf_end < min(0.99 * lim, adj):
        mon.close(q / sc, np.zeros_like(q), 1e-3, "equilibrium", "vertical equilibrium at the end of the analysis")
    if D.zero:
        mon.close(H[:, D.zero] / Mmax, np.zeros((len(lam), len(D.zero))), np.tile(tq[:, None], len(D.zero)), "equilibrium", "moment at a free or pinned end")
    mon.event("equilibrium_snapshots", len(lam))
    el = lam < lam_y * (1 - 1e-9)
    mon.close(H[el] / Mmax, np.outer(lam[el], Mel) / Mmax, 1e-7, "elastic", "moments below first yield")
    mon.event("elastic_snapshots", int(el.sum()))
    mon.check(bool(np.all(np.diff(np.r_[0.0, lam, lf_end]) >= 0) and np.all(np.diff(lam) <= 0.1001)), "steps", "load factors do not increase in steps of at most 0.1")
    T = np.vstack([H, Mf]) if (not len(lam) or lf_end > lam[-1]) else H
    tl = np.r_[lam, lf_end] if len(T) > len(H) else lam
    gam = np.abs(T) / D.Mp
    gm = float(gam[(tl <= min(adj, 0.99 * lim))].max(initial=0))
    mon.check(gm <= 1 + 0.25 / lam_y + 0.01, "yield-surface", f"moment of {gm:.4f} Mp")
    for typ, lev in (("initial_yield", gy), ("plastic_hinge", 1.0)):
        ev = [e for e in res.hinge_events if e.event_type == typ]
        got = {}
        for e in ev:
            j = int(e.node_index)
            mon.check(j not in got, "events", f"{typ} at node {j} recorded twice")
            got[j] = float(e.load_factor)
            mon.check(abs(float(e.location) - x[j]) <= 1e-9 * x[-1], "events", f"{typ}: location {e.location} is not node {j}")
        lo, hi = gam >= lev * (1 + 1e-7), gam >= lev * (1 - 1e-7)
        for j in range(D.N):
            a, b = np.flatnonzero(hi[:, j]), np.flatnonzero(lo[:, j])
            if not len(b):
                mon.check(j not in got or len(a) > 0, "events", f"{typ} at node {j} where the moment never reached it")
                continue
            mon.check(
                j in got and tl[a[0]] - 1e-9 <= got[j] <= tl[b[0]] + 1e-9, "events",
                f"{typ} at node {j} first reached at {tl[b[0]]:.5g}, recorded at {got.get(j)}",
            )
            mon.event("yield_events" if lev != 1.0 else "hinge_events")
    lfs = [float(e.load_factor) for e in res.hinge_events]
    mon.check(lfs == sorted(lfs), "events", "events out of order")
    fr = np.asarray(res.final_R)
    mon.check(fr.shape == (D.N - 1, 2) and bool(np.all((fr >= 0) & (fr <= 1))), "final-R", "stiffness parameters outside [0, 1]")
    mon.close(res.support_coords, x[D.jn], 1e-9 * x[-1], "supports", "support coordinates")
    # ---- the documented stiffness degradation, replayed from the recorded moments
    R = degraded(gam, D, gy)
    if len(T) > len(H):
        mon.check(bool(np.allclose(fr, R[-1], rtol=0, atol=1e-9)), "final-R", f"final stiffness parameters differ from the law by {np.abs(fr - R[-1]).max():.3g}")
    T0 = np.vstack([np.zeros(D.N), T])
    t0 = np.r_[0.0, tl]
    R0 = np.concatenate([np.ones((1, D.N - 1, 2)), R])
    last = int(np.searchsorted(t0, 0.99 * lim)) - 1
    fy = int(np.searchsorted(t0, lam_y)) + 1
    pick = sorted(set(np.linspace(max(1, fy - 3), max(1, last), 30).astype(int)))
    for k_ in pick:
        if not 1 <= k_ < len(T0):
            continue
        dM, cond = D.increment(f * (t0[k_] - t0[k_ - 1]), R0[k_ - 1])
        if dM is None or cond > 1e9:
            continue
        mon.close((T0[k_] - T0[k_ - 1]) / Mmax, dM / Mmax, 1e-9 + 1e-13 * cond, "tangent", f"moment increment at load factor {t0[k_]:.5g}")
        mon.event("tangents")
    # ---- collapse load
    ok = verdict(mon, D, f, lim, res, "limit-load", "collapse")
    mon.event("limit_load")
    res = nb.analyze(LM, lambda_max=0.93 * lim)
    if res.collapsed:
        verdict(mon, D, f, lim, res, "no-collapse-below", "collapse")
    if not res.collapsed:
        mon.close(res.collapse_lambda, 0.93 * lim, 1e-9 * lim, "no-collapse-below", "final load factor")
        mon.check(list(res.lambda_history) == [] and list(res.moment_history) == [], "history", "history recorded unasked")
        # the engine keeps no state from the run before
        j = int(np.searchsorted(lam, 0.93 * lim * (1 - 1e-9)))
        if 0 < j < len(H) and hb > lam[j - 1]:
            t = (0.93 * lim - lam[j - 1]) / (lam[j] - lam[j - 1])
            mon.close(sag(res.final_moments, D) / Mmax, (H[j - 1] + t * (H[j] - H[j - 1])) / Mmax, 2e-3, "rerun", "moments of a second run")
    mon.event("no_collapse_below")
    other(m, mon, make, D, LM, f, lim, lf_end, ok and not np.isfinite(adj))
    between(m, mon, make, D)
    moving(m, mon, make, D)


def between(m, mon, make, D):
    """
    elastic states under point loads and axles between the nodes: at every node not at
    the end of a loaded element the moment is that of the continuous beam
    """
    import pycba as cba
    from .. import ref

    X, x0 = D.x[-1], np.concatenate([[0.0], np.cumsum(m["L"])])
    mod = {"L": m["L"], "EI": m["EI"], "R": m["R"]}
    rng = np.random.default_rng(m["i"])
    big = [1e6 * v for v in m["Mp"]]

    def exact(pts):
        """moments at the nodes; nodes to leave out"""
        LM, skip = [], set()
        for P, x in pts:
            s = min(int(np.searchsorted(x0, x, side="right")) - 1, len(m["L"]) - 1)
            LM.append([s + 1, 2, P, min(x - x0[s], m["L"][s])])
            e = int(np.searchsorted(D.x, x, side="right")) - 1
            if e < D.N - 1 and min(abs(D.x - x)) > 1e-9 * X:
                skip |= {e + 1} | ({0} if e == 0 else set())
        sol = ref.Solution(dict(mod, LM=LM))
        M = [sol.state(k, D.h[D.jn[k] : j].sum(), "L" if j == D.jn[k + 1] else "R")[2] for k in range(len(m["L"])) for j in range(D.jn[k] + (k > 0), D.jn[k + 1] + 1)]
        M = np.array(M)
        ok = np.array([j not in skip for j in range(D.N)])
        return M, ok

    def place(x):
        """a node, near a node or anywhere"""
        j = int(rng.integers(0, D.N - 1))
        t = float(rng.choice([0.0, 1e-6, 1e-3, 0.03, rng.uniform(0, 1), 0.97, 0.999, 1 - 1e-6]))
        return D.x[j] + t * D.h[j]

    def compare(got, pts, key, msg):
        M, ok = exact(pts)
        sc = sum(abs(P) for P, _ in pts) * X
        mon.close(sag(got, D)[ok] / sc, M[ok] / sc, 1e-7, key, msg)

    # a static load factor of one
    pts = [(G.rnd((rng.uniform(-1, 1) * 50 + 1) * max(m["Mp"]) / X), place(0)) for _ in range(int(rng.integers(1, 4)))]
    LM = []
    for P, x in pts:
        s = min(int(np.searchsorted(x0, x, side="right")) - 1, len(m["L"]) - 1)
        LM.append([s + 1, 2, P, float(min(x - x0[s], m["L"][s]))])
    r = make(Mp=big, My=None).analyze(LM, lambda_max=1.0)
    if mon.check(not r.hinge_events and not r.collapsed, "between", "events far below yield"):
        compare(r.final_moments, pts, "between", f"moments under point loads at {[x for _, x in pts]}")
        mon.event("between_nodes")
    # a vehicle of any spacing in steps of any length
    k = int(rng.integers(1, 5))
    sp = np.round(rng.uniform(0.05, 1.2 if rng.random() < 0.5 else 0.3, k - 1) * X, 4)
    w = np.round(rng.uniform(1, 100, k), 2) * (max(m["Mp"]) / X)
    ac = np.concatenate([[0.0], np.cumsum(sp)])
    step = float(np.round((X + ac[-1]) / rng.integers(8, 30), 5))
    nb = make(Mp=big, My=None)
    v = cba.Vehicle(axle_spacings=sp, axle_weights=w)
    r = nb.analyze_moving(vehicle=v, step=step, n_sub=int(rng.integers(1, 4)), record_every=1)
    lam = np.asarray(r.lambda_history, float)
    n_ = int((X + ac[-1]) / step * (1 + 1e-12)) + 1
    if not mon.check(len(lam) in (n_, n_ + 1) and bool(np.all(np.abs(lam - step * np.arange(len(lam))) <= 1e-9 * X)), "between-moving", f"{len(lam)} positions up to {lam[-1] if len(lam) else None}; the last axle leaves at {X + ac[-1]}"):
        return
    for q in sorted(set(rng.integers(0, len(lam), 6).tolist() + [n_ - 1])):
        xs = lam[q] - ac
        end = np.minimum(np.abs(xs), np.abs(xs - X)) <= 1e-12 * X
        xs[end] = np.where(xs[end] < X / 2, 0.0, X)  # (rounded off an end it stands on)
        mon.event("axles_at_an_end", int(end.sum()))
        if np.any(np.minimum(np.abs(xs[~end]), np.abs(xs[~end] - X)) <= 1e-7 * X):
            continue  # (so near an end that either is right)
        pts = [(wi, x) for wi, x in zip(w, xs) if 0 <= x <= X]
        if pts:
            compare(r.moment_history[q], pts, "between-moving", f"moments with the front axle at {lam[q]:.6g}")
            mon.event("between_positions")
        else:
            mon.close(np.abs(r.moment_history[q]).max() / (w.sum() * X), 0.0, 1e-7, "between-moving", "moments with no axle on the beam")
