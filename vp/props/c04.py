"""C04 - rotation and deflection are the integrals of the reported moments and shears"""
import numpy as np

from .. import gen as G, oracle, units as U
from ..ref import Prop, member_loads
from . import c01, c03

ID = "C04"
N_QUICK, N_THOROUGH = 5000, 60000
RULE = (
    "random stable beams of every member kind; between each pair of neighbouring "
    "stations the change of rotation and of deflection is compared with the "
    "integral of the reported moment over EI (plus imposed curvature) and of the "
    "rotation less the shear strain; a case counts when those intervals were compared"
)
MUST_SEE = ("intervals", "foundation_intervals", "shear_intervals", "section_intervals", "curvature_intervals")


def specials(tier):
    return c01.specials(tier)


UNITS = {}


def gen(rng, i, tier):
    return c03.gen_any(rng, i, tier)


def limits(p, x, L):
    """(left, right) limits of a property at x"""
    if p.const is not None:
        v = np.full(len(x), p.const)
        return v, v
    e = 1e-9 * L
    a = np.array([np.polyval(p.at_piece(max(t - e, 0.0)), t) for t in x])
    b = np.array([np.polyval(p.at_piece(min(t + e, L)), t) if t + e < L else np.polyval(p.pieces[-1][2], t) for t in x])
    return a, b


def run(m, mon):
    ba = G.build(m, how=m.get("how", 0))
    ba.analyze(m.get("npts"))
    br = ba.beam_results
    mon.state(G.describe(m))
    n = len(m["L"])
    kf = m.get("kf") or [None] * n
    GA = m.get("GAv") or [None] * n
    for i in range(n):
        L = m["L"][i]
        x, M, V, R, D = oracle.member(br, m, i)
        h = np.diff(x)
        if kf[i]:
            # the foundation member repeats the stations at its sub-element ends
            ok = h > 1e-9 * L
        else:
            ok = np.ones(len(h), bool)
            mon.check(np.all(h > 0), "stations", f"stations of member {i} do not increase")
        dist, pts, mts, kap = member_loads(m["LM"], i, L)
        p = Prop(m["EI"][i], L)
        a, b = limits(p, x, L)
        kp = np.zeros(len(x))
        for k in kap:
            kp = kp + np.polyval(k[::-1], x)
        kl, kr = M / a + kp, M / b + kp  # curvature limits at the stations
        pool = np.array([kl[:-1], kr[:-1], kl[1:], kr[1:]])
        lo, hi = pool.min(0), pool.max(0)
        # moment between stations: chord plus what loads inside can add
        wmax = sum(max(abs(u), abs(v)) for *_, u, v in dist)
        emin = min(np.min(np.abs(np.polyval(c, np.linspace(s, t, 9)))) for s, t, c in p.pieces)
        emax = max(np.max(np.abs(np.polyval(c, np.linspace(s, t, 9)))) for s, t, c in p.pieces)
        extra = (wmax * h * h / 8 + h * np.array([sum(abs(P) for xp, P in pts if u - 1e-9 * L <= xp <= v + 1e-9 * L) for u, v in zip(x[:-1], x[1:])]) / 4) / emin
        cpl = np.array([sum(abs(c) for xp, c in mts if u - 1e-9 * L <= xp <= v + 1e-9 * L) for u, v in zip(x[:-1], x[1:])]) / emin
        if p.const is None:
            # extremes of EI inside the interval: its breaks plus a fine sampling
            q = []
            for u, v in zip(x[:-1], x[1:]):
                t = np.concatenate([np.linspace(u, v, 7), [c for c in p.breaks() if u <= c <= v]])
                la, lb = limits(p, t, L)
                q.append((min(la.min(), lb.min()), max(la.max(), lb.max())))
            q = np.array(q)
            mm = np.array([np.minimum(M[:-1], M[1:]), np.maximum(M[:-1], M[1:])])
            c4 = np.array([mm[0] / q[:, 0], mm[0] / q[:, 1], mm[1] / q[:, 0], mm[1] / q[:, 1]]) + kp[:-1]
            lo, hi = np.minimum(lo, c4.min(0)), np.maximum(hi, c4.max(0))
        kv = np.abs(np.diff(kp))
        extra = extra + kv + cpl
        sc = (np.abs(M).max() / emin + np.abs(kp).max()) + 1e-14 + extra.max()
        if kf[i]:
            extra = extra + 2e-3 * sc + kf[i] * np.abs(D).max() * h * h / emin
        dR = np.diff(R) / np.where(ok, h, 1.0)
        e = extra + 1e-7 * sc + 1e-12 * (np.abs(R).max() / h.max()) * (h.max() / np.where(ok, h, 1.0))
        bad = ok & ~((dR >= lo - e) & (dR <= hi + e))
        mon.check(not bad.any(), "rotation", lambda: (lambda k: f"member {i} stations {k},{k+1}: rotation changes at {dR[k]!r}, curvature within [{lo[k]-e[k]!r}, {hi[k]+e[k]!r}]")(int(np.argmax(bad))))
        # deflection
        gl = gr = np.zeros(len(x))
        gx = 0.0
        if GA[i] is not None:
            g = Prop(GA[i], L)
            ga, gb = limits(g, x, L)
            gl, gr = -V / ga, -V / gb
            gmin = min(np.min(np.abs(np.polyval(c, np.linspace(s, t, 9)))) for s, t, c in g.pieces)
            pj = np.array([sum(abs(P) for xp, P in pts if u - 1e-9 * L <= xp <= v + 1e-9 * L) for u, v in zip(x[:-1], x[1:])])
            gx = pj / gmin + wmax * h / gmin
            if g.const is None:
                q = []
                for u, v in zip(x[:-1], x[1:]):
                    t = np.concatenate([np.linspace(u, v, 7), [c for c in g.breaks() if u <= c <= v]])
                    la, lb = limits(g, t, L)
                    q.append(1 / min(la.min(), lb.min()) - 1 / max(la.max(), lb.max()))
                gx = gx + np.array(q) * np.maximum(np.abs(V[:-1]), np.abs(V[1:]))
            mon.event("shear_intervals", len(h))
        s4 = np.array([R[:-1] + gl[:-1], R[:-1] + gr[:-1], R[1:] + gl[1:], R[1:] + gr[1:]])
        dD = np.diff(D) / np.where(ok, h, 1.0)
        ss = np.abs(R).max() + np.abs(np.array([gl, gr])).max() + sc * h.max()
        kmax = np.maximum(np.abs(kl[:-1]), np.abs(kr[1:])) + extra + (hi - lo)
        e2 = gx + kmax * h / 2 + 1e-7 * ss + 1e-12 * (np.abs(D).max() / h.max()) * (h.max() / np.where(ok, h, 1.0))
        if kf[i]:
            e2 = e2 + 1e-3 * ss
        bad = ok & ~((dD >= s4.min(0) - e2) & (dD <= s4.max(0) + e2))
        mon.check(not bad.any(), "deflection", lambda: (lambda k: f"member {i} stations {k},{k+1}: deflection changes at {dD[k]!r}, slope within [{(s4.min(0)-e2)[k]!r}, {(s4.max(0)+e2)[k]!r}]")(int(np.argmax(bad))))
        mon.event("intervals", int(ok.sum()))
        if kf[i]:
            mon.event("foundation_intervals", int(ok.sum()))
        if p.const is None:
            mon.event("section_intervals", len(h))
        if kap:
            mon.event("curvature_intervals", len(h))
