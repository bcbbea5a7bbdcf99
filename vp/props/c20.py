"""C20 - natural frequencies and mode shapes of the beam as defined"""
import numpy as np

from .. import gen as G, units as U

ID = "C20"
N_QUICK, N_THOROUGH = 1500, 15000
RULE = (
    "random prismatic continuous beams (rigid and elastic supports, settlements and "
    "loads present, foundations on some spans, unequal spans and masses); each "
    "frequency is bracketed by exact mode counts from the dynamic stiffness of the "
    "continuous beam (Wittrick-Williams), and each mode shape is checked for boundary "
    "values, orthogonality and the discrete equation of motion on an independently "
    "assembled mesh"
)
MUST_SEE = ("all_modes", "far_frequencies", "counted_above", "counted_below", "mode_residuals", "orthogonal", "springs", "foundation", "variant", "refused", "static_intact")
ASSUMES = ["the discretisation error of the finite element frequencies is bounded by twice its leading asymptotic term"]


UNITS = {"mass": (-2, 1)}


def gen(rng, i, tier):
    m = G.gen_model(
        rng, nmax=4 if i % 9 else 8, releases=0.0, springs=0.4, settle=0.2, kf=0.5 if i % 3 == 0 else 0.0,
        kinds=("udl", "pl", "pudl"), loads=2,
    )
    m["EI"] = [float(e) for e in m["EI"]]
    mb = G.log_u(rng, 0.3, 30)
    m["mass"] = [mb] * len(m["L"]) if rng.random() < 0.4 else [G.rnd(mb * np.exp(rng.uniform(-1, 1))) for _ in m["L"]]
    m["nm"] = int(rng.integers(1, 9))
    if i % 6 == 1:
        m["mass"] = [float(round(mb) + 1)] * len(m["L"])
    m["how"] = int(rng.integers(0, 5))
    m["ns"] = None if rng.random() < 0.8 else int(rng.integers(6, 20))
    return m


# ------------------------------------------------ exact mode counting


def dyn_stiff(EI, mb, kf, L, w2):
    """
    Dynamic stiffness (v1, th1, v2, th2) and number of clamped-clamped modes below w.
    EI v'''' = (m w^2 - kf) v
    """
    b4 = (mb * w2 - kf) / EI
    z = abs(b4) ** 0.25 * L
    if z < 1e-2:
        # static cubic + first-order mass/foundation terms
        K = EI * np.array([
            [12 / L**3, 6 / L**2, -12 / L**3, 6 / L**2],
            [6 / L**2, 4 / L, -6 / L**2, 2 / L],
            [-12 / L**3, -6 / L**2, 12 / L**3, -6 / L**2],
            [6 / L**2, 2 / L, -6 / L**2, 4 / L],
        ])
        Mm = L / 420 * np.array([
            [156, 22 * L, 54, -13 * L], [22 * L, 4 * L * L, 13 * L, -3 * L * L],
            [54, 13 * L, 156, -22 * L], [-13 * L, -3 * L * L, -22 * L, 4 * L * L],
        ])
        return K - EI * b4 * Mm, 0
    r = np.roots([1, 0, 0, 0, -b4]).astype(complex) if False else (complex(b4) ** 0.25) * np.exp(1j * np.pi / 2 * np.arange(4))
    B = np.zeros((4, 4), complex)
    F = np.zeros((4, 4), complex)
    for k, rk in enumerate(r):
        s = rk if rk.real > 1e-12 * abs(rk) else 0.0  # scale growing terms to 1 at L
        e0, eL = np.exp(-s * L), np.exp((rk - s) * L)
        B[:, k] = [e0, rk * e0, eL, rk * eL]
        F[:, k] = EI * np.array([rk**3 * e0, -rk**2 * e0, -rk**3 * eL, rk**2 * eL])
    # scale rows to comparable units before inverting
    K = np.real(F @ np.linalg.inv(B))
    J0 = 0
    if b4 > 0:
        # clamped-clamped roots of cos(z)cosh(z) = 1: one in each (k pi, (k+1) pi), k >= 1
        k = int(np.floor(z / np.pi))
        if k >= 1:
            J0 = k - 1
            g = np.cos(z) - 1 / np.cosh(z)
            # sign of g changes at the root in (k pi, (k+1) pi)
            if np.sign(g) != np.sign(np.cos(k * np.pi) - 1 / np.cosh(k * np.pi)):
                J0 += 1
    return (K + K.T) / 2, J0


def count_below(m, w2):
    """number of natural frequencies (squared) of the continuous beam below w2"""
    n = len(m["L"])
    K = np.zeros((2 * n + 2, 2 * n + 2))
    J = 0
    for i in range(n):
        k, j = dyn_stiff(m["EI"][i], m["mass"][i], (m.get("kf") or [None] * n)[i] or 0.0, m["L"][i], w2)
        K[2 * i : 2 * i + 4, 2 * i : 2 * i + 4] += k
        J += j
    free = []
    for d, r in enumerate(m["R"]):
        if r > 0:
            K[d, d] += r
        if r != -1:
            free.append(d)
    K = K[np.ix_(free, free)]
    s = 1 / np.sqrt(np.maximum(np.abs(np.diag(K)), 1e-300))
    ev = np.linalg.eigvalsh(K * s[:, None] * s[None, :]) if free else np.zeros(0)
    return J + int(np.sum(ev < 0))


# ------------------------------------------------ the discrete equations


def assemble(m, x):
    """stiffness and mass of the beam on the mesh x (cubic elements)"""
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    N = len(x)
    K = np.zeros((2 * N, 2 * N))
    M = np.zeros((2 * N, 2 * N))
    g, w = np.polynomial.legendre.leggauss(4)
    n = len(m["L"])
    for e in range(N - 1):
        h = x[e + 1] - x[e]
        i = min(int(np.searchsorted(xs, 0.5 * (x[e] + x[e + 1])) - 1), n - 1)
        kf = (m.get("kf") or [None] * n)[i] or 0.0
        ke = np.zeros((4, 4))
        me = np.zeros((4, 4))
        for t, wt in zip((g + 1) / 2, w / 2):
            H = np.array([1 - 3 * t**2 + 2 * t**3, h * (t - 2 * t**2 + t**3), 3 * t**2 - 2 * t**3, h * (t**3 - t**2)])
            C = np.array([-6 + 12 * t, h * (-4 + 6 * t), 6 - 12 * t, h * (6 * t - 2)]) / h**2
            ke += wt * h * (m["EI"][i] * np.outer(C, C) + kf * np.outer(H, H))
            me += wt * h * m["mass"][i] * np.outer(H, H)
        K[2 * e : 2 * e + 4, 2 * e : 2 * e + 4] += ke
        M[2 * e : 2 * e + 4, 2 * e : 2 * e + 4] += me
    fixed = []
    for j in range(n + 1):
        e = int(np.argmin(np.abs(x - xs[j])))
        for d in range(2):
            r = m["R"][2 * j + d]
            if r == -1:
                fixed.append(2 * e + d)
            elif r > 0:
                K[2 * e + d, 2 * e + d] += r
    return K, M, fixed


def run(m, mon):
    import pycba as cba

    ba = G.build(m, how=m["how"])
    ba.analyze()
    D0 = np.array(ba.beam_results.D)
    one, m0 = len(set(m["mass"])) == 1, m["mass"][0]
    mass = (np.int64(m0) if m0 == int(m0) else np.float64(m0)) if one and m["nm"] % 4 == 1 else m["mass"][0] if len(set(m["mass"])) == 1 and m["nm"] % 2 else (np.array(m["mass"]) if m["nm"] % 3 else list(m["mass"]))
    kw = {"nseg": m["ns"]} if m.get("ns") else {}
    res = ba.modal(mass, n_modes=m["nm"], **kw)
    L, n = m["L"], len(m["L"])
    X = float(sum(L))
    xs = np.concatenate([[0.0], np.cumsum(L)])
    x = np.asarray(res.x, float)
    w = np.asarray(res.omega, float)
    phi = np.asarray(res.phi, float)
    mon.state(G.describe(m), m["nm"])
    mon.check(len(w) == m["nm"] and phi.shape == (2 * len(x), m["nm"]) and int(res.n_modes) == m["nm"], "shape", f"{len(w)} modes, shapes {phi.shape}, mesh {len(x)}")
    mon.check(bool(np.all(np.diff(w) >= 0)) and w[0] > 0, "ascending", f"frequencies {w}")
    mon.close(res.f, w / (2 * np.pi), 1e-12 * w.max(), "units", "frequency in Hz")
    mon.close(np.asarray(res.periods) * w, np.full(len(w), 2 * np.pi), 1e-9, "units", "period")
    if m["nm"] % 3 == 0:
        # a million times slower, or faster: the frequencies go with 1 / sqrt(mass)
        c = 4.0**20 if m["nm"] % 2 else 4.0**-17
        far = G.build(m, how=m["how"]).modal([c * v for v in m["mass"]], n_modes=m["nm"], **kw)
        mon.close(np.asarray(far.omega) * np.sqrt(c), w, 1e-6 * w.max(), "scaled", f"frequencies with {c:g} times the mass")
        mon.close(np.asarray(far.periods) * np.asarray(far.omega), np.full(len(w), 2 * np.pi), 1e-9, "scaled", f"periods with {c:g} times the mass")
        mon.close(np.asarray(far.f) * np.asarray(far.periods), np.ones(len(w)), 1e-9, "scaled", "frequency and period")
        mon.event("far_frequencies")
    if m["nm"] % 3 == 1:
        # more modes than the mesh has: all of them
        every = G.build(m, how=m["how"]).modal(list(m["mass"]), n_modes=10**4, nseg=2)
        free = 2 * (2 * n + 1) - sum(r == -1 for r in m["R"])
        mon.check(int(every.n_modes) == free == len(every.omega) == len(every.f) == len(every.periods) == np.shape(every.phi)[1], "all-modes", f"{every.n_modes} of {free} modes")
        some = G.build(m, how=m["how"]).modal(list(m["mass"]), n_modes=free, nseg=2)
        mon.check(int(some.n_modes) == free, "all-modes", f"{some.n_modes} of {free} modes asked for")
        mon.event("all_modes")
    ok = abs(x[0]) < 1e-9 * X and abs(x[-1] - X) < 1e-9 * X and np.all(np.diff(x) > 0) and all(np.min(np.abs(x - s)) < 1e-9 * X for s in xs)
    mon.check(bool(ok), "mesh", "the mesh does not contain the span ends")
    ns = m.get("ns") or 12
    mon.check(len(x) == ns * n + 1 and all(np.sum((x >= xs[i] - 1e-9 * X) & (x <= xs[i + 1] + 1e-9 * X)) == ns + 1 for i in range(n)), "mesh", f"{len(x)} stations for {n} spans of {ns} elements")
    if not ok or phi.shape != (2 * len(x), len(w)):
        return
    if any(r > 0 for r in m["R"]):
        mon.event("springs")
    if m.get("kf"):
        mon.event("foundation")
    # ---- bracketing by exact counts
    h = [max(np.diff(x)[(x[:-1] >= xs[i] - 1e-9 * X) & (x[1:] <= xs[i + 1] + 1e-9 * X)]) for i in range(n)]
    kf = [k or 0.0 for k in (m.get("kf") or [0.0] * n)]
    top = max(8400 * m["EI"][i] / (m["mass"][i] * h[i] ** 4) + kf[i] / m["mass"][i] for i in range(n))
    top = max([top] + [r / (min(m["mass"]) * min(h)) * 50 for r in m["R"] if r > 0])
    for k in range(len(w)):
        w2 = w[k] ** 2
        noise = 1e-14 * top / w2 + 1e-9
        if noise > 1e-3:
            mon.event("ill_conditioned")
            continue
        c = count_below(m, w2 * (1 + noise))
        # (a cluster may put more modes below; too few means the frequency is too low)
        mon.check(c >= k + 1, "too-low", f"mode {k + 1}: only {c} exact modes lie below {w[k]:.6g} rad/s")
        mon.event("counted_above")
        zz = max((abs(m["mass"][i] * w2 - kf[i]) / m["EI"][i]) ** 0.25 * h[i] for i in range(n))
        if zz < 1.5:
            err = max((m["mass"][i] * w2 - kf[i]) ** 2 * h[i] ** 4 / (m["EI"][i] * m["mass"][i] * w2) for i in range(n)) / 360
            err = err * 1.3 + noise
            if err < 0.2:
                c = count_below(m, w2 * (1 - err))
                mon.check(c <= k, "too-high", f"mode {k + 1}: {c} exact modes lie below {w[k]:.6g} rad/s less {err / 2:.2e}")
                mon.event("counted_below")
    # ---- mode shapes
    K, M, fixed = assemble(m, x)
    free = np.array([d for d in range(2 * len(x)) if d not in set(fixed)])
    P = phi[free]
    pmax = np.abs(phi[0::2]).max(axis=0)
    mon.check(bool(np.all(phi[fixed] == 0)), "supports", "a mode moves a rigid support")
    Kf, Mf = K[np.ix_(free, free)], M[np.ix_(free, free)]
    G2 = P.T @ Mf @ P
    d = np.sqrt(np.diag(G2))
    E = G2 / np.outer(d, d) - np.eye(len(w))
    mon.close(E, np.zeros_like(E), 1e-7, "orthogonal:mass", "mass orthogonality of the modes")
    S = (P.T @ Kf @ P) / np.outer(d, d)
    wm = np.maximum.outer(w, w) ** 2
    mon.close((S - np.diag(w**2)) / wm, np.zeros_like(S), 1e-6 + 1e-13 * top / w[0] ** 2, "orthogonal:stiffness", "stiffness orthogonality / Rayleigh quotients")
    mon.event("orthogonal")
    for k in range(len(w)):
        p = P[:, k]
        r = Kf @ p - w[k] ** 2 * (Mf @ p)
        sc = np.abs(Kf) @ np.abs(p) + w[k] ** 2 * (np.abs(Mf) @ np.abs(p))
        mon.close(r / sc.max(), np.zeros_like(r), 1e-8, "equation", f"equation of motion of mode {k + 1}")
        mon.event("mode_residuals")
        xx, v = res.mode_shape(k)
        v = np.asarray(v, float)
        mon.close(xx, x, 1e-9 * X, "mode-shape", "mode shape stations")
        s = v @ phi[0::2, k] / (phi[0::2, k] @ phi[0::2, k])
        mon.close(v, s * phi[0::2, k], 1e-9, "mode-shape", "mode shape is not the mode")
        mon.close([np.abs(v).max(), v[np.argmax(np.abs(v))]], [1.0, 1.0], 1e-9, "mode-shape", "normalisation")
    # ---- the static analysis is unaffected, and repeating gives the same
    mon.check(np.array_equal(np.array(ba.beam_results.D), D0), "static", "modal analysis changed the static results")
    ba.analyze()
    mon.close(ba.beam_results.D, D0, 1e-12 * (np.abs(D0).max() + 1e-300), "static", "static analysis after a modal one")
    mon.event("static_intact")
    w1 = np.asarray(ba.modal(list(m["mass"]), n_modes=m["nm"], **kw).omega, float)
    mon.close(w1, w, 1e-9 * w[0] + 1e-12 * top / w[0], "repeat", "repeated modal analysis")
    # ---- other ways of asking
    ba2 = G.build(dict(m, LM=[], D=None))
    w2_ = np.asarray(ba2.modal([3.0 * q for q in m["mass"]], n_modes=m["nm"], **kw).omega, float)
    tol = 1e-13 * top / w[0] + 1e-9 * w.max()
    mon.close(w2_ * np.sqrt(3.0), w, tol, "variant:mass", "tripled mass (and no loads) against 1/sqrt(3)")
    rev = dict(m, L=L[::-1], EI=m["EI"][::-1], LM=[], D=None, mass=m["mass"][::-1])
    R = m["R"]
    rev["R"] = [R[2 * (n - j) + d] for j in range(n + 1) for d in range(2)]
    if m.get("kf"):
        rev["kf"] = m["kf"][::-1]
    w3 = np.asarray(G.build(rev).modal(rev["mass"], n_modes=m["nm"], **kw).omega, float)
    mon.close(w3, w, tol, "variant:mirror", "mirrored beam")
    mon.event("variant")
    # ---- refusals
    mon.raises(ValueError, lambda: ba.modal([1.0] * (n + 1)), "refused", "wrong number of masses")
    if m["nm"] == 1:
        sp = cba.SectionEI([("linear", [0, L[0]], [1e4, 2e4])])
        bad = cba.BeamAnalysis(L, [sp] + list(m["EI"][1:]), m["R"])
        mon.raises(NotImplementedError, lambda: bad.modal(1.0), "refused", "non-prismatic span")
        bad = cba.BeamAnalysis(L, list(m["EI"]), m["R"], GAv=[1e5] * n)
        mon.raises(NotImplementedError, lambda: bad.modal(1.0), "refused", "shear-flexible span")
        for t in (2, 3, 4):
            bad = cba.BeamAnalysis(L, list(m["EI"]), m["R"], eletype=[1] * (n - 1) + [t])
            mon.raises(NotImplementedError, lambda: bad.modal(1.0), "refused", f"released span {t}")
        mon.event("refused")
