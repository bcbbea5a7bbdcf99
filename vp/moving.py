"""Moving-load helpers shared by the bridge properties (independent of pycba)."""
import numpy as np

from . import gen as G


def gen_vehicle(rng, span=10.0):
    n = int(rng.integers(1, 7))
    sp = [G.rnd(rng.uniform(min(0.6, 0.2 * span), 0.5 * span), int(rng.integers(2, 4))) for _ in range(n - 1)]
    if n > 1 and rng.random() < 0.1:
        sp[int(rng.integers(0, n - 1))] = 0.0
    if n > 1 and rng.random() < 0.15:
        sp[int(rng.integers(0, n - 1))] = G.rnd(2.5 * span)  # longer than the bridge
    w = [G.rnd(rng.uniform(10, 120), 3) for _ in range(n)]
    return {"sp": sp, "w": w, "rev": bool(rng.random() < 0.25)}


def axles(v):
    """(offset behind the reference point, weight) of each axle"""
    c = [0.0]
    for s in v["sp"]:
        c.append(c[-1] + s)
    if v.get("rev"):
        c = [c[-1] - x for x in c]
    return list(zip(c, v["w"]))


def vlen(v):
    return float(sum(v["sp"]))


def make_vehicle(v):
    import pycba as cba

    veh = cba.Vehicle(np.array(v["sp"]), np.array(v["w"]))
    if v.get("rev"):
        veh.reverse()
    return veh


def axle_rows(v, pos, L):
    """
    Load rows of the axles on the deck with the reference axle at pos, as a list of
    alternatives: rounding (or convention) may give an axle over a joint to either
    adjoining member, on the joint or a hair inside the member, and one within
    rounding of a deck end may be on or off it.
    """
    xs = np.concatenate([[0.0], np.cumsum(L)])
    X = xs[-1]
    tol = 1e-9 * X
    e = 1e-12
    fixed, groups = [], {}
    for c, w in axles(v):
        x = pos - c
        if x < -tol or x > X + tol:
            continue
        near = [j for j in range(len(xs)) if abs(x - xs[j]) <= tol]
        if not near:
            i = int(np.searchsorted(xs, x) - 1)
            fixed.append([i + 1, 2, w, x - xs[i]])
            continue
        j = near[0]
        opts = []
        if j > 0:
            opts += [[j, 2, w, float(L[j - 1]) * f] for f in (1, 1 - e, 1 + e)]
        if j < len(L):
            opts += [[j + 1, 2, w, float(L[j]) * f] for f in (0, e)]
        if j in (0, len(L)) and not (x == xs[j] and c == 0.0):
            opts.append(None)  # on or off the deck
        groups.setdefault((j, c), []).append(opts)
    alts = [fixed]
    for _, g in list(groups.items())[:3]:
        alts = [a + [o[k] for o in g if o[k] is not None] for a in alts for k in range(len(g[0]))]
    for _, g in list(groups.items())[3:]:
        alts = [a + [o[0] for o in g] for a in alts]
    return alts


def lane_rows(w, pos, v, L, clear):
    """partial-UDL rows of the lane load (None: continuous)"""
    xs = np.concatenate([[0.0], np.cumsum(L)])
    X = xs[-1]
    if clear is None:
        iv = [(0.0, X)]
    else:
        lo, hi = pos - vlen(v) - clear[0], pos + clear[1]
        iv = [(0.0, min(lo, X)), (max(hi, 0.0), X)]
    rows = []
    for a, b in iv:
        for i in range(len(L)):
            p, q = max(a, xs[i]), min(b, xs[i + 1])
            if q - p > 1e-9:
                rows.append([i + 1, 3, w, p - xs[i], q - p])
    return rows


def gen_bridge(rng, nmax=4, **kw):
    k = dict(nmax=nmax, settle=0.1, kinds=("udl", "pl", "pudl", "ml", "trap"), loads=3, skip_support=0.05)
    k.update(kw)
    m = G.gen_model(rng, **k)
    if rng.random() < 0.6:
        m["LM"] = []
    m["how"] = int(rng.integers(0, 5))
    return m


def gen_run(rng, m, kmax=45):
    """vehicle and traverse"""
    X = float(sum(m["L"]))
    v = gen_vehicle(rng, X / len(m["L"]))
    tot = X + vlen(v)
    u = rng.random()
    if u < 0.4:
        step = tot / int(rng.integers(5, kmax))
    elif u < 0.7:
        step = float(m["L"][0]) / int(rng.integers(3, 12))
    else:
        step = G.rnd(rng.uniform(0.02, 0.2) * tot, 2)
    step = max(step, tot / kmax)
    r = {"v": v, "step": float(step), "start": None, "end": None}
    if rng.random() < 0.3:
        r["start"] = G.rnd(rng.uniform(-0.2, 0.5) * X, 3)
    if rng.random() < 0.3:
        r["end"] = G.rnd(rng.uniform(0.6, 1.4) * tot, 3)
    return r


def positions(m, r):
    s = 0.0 if r["start"] is None else r["start"]
    e = float(sum(m["L"])) + vlen(r["v"]) if r["end"] is None else r["end"]
    return s, e


class Band:
    """enveloping by brute force, over alternatives (A, B) per position"""

    def __init__(self, m, shear_points=None):
        self.m = m
        self.sp = shear_points
        self.lo = []
        self.hi = []
        self.all = []

    def analyse(self, rows):
        mm = dict(self.m, LM=list(self.m["LM"]) + rows)
        ba = G.build(mm)
        if self.sp is not None:
            ba.shear_points = self.sp
        ba.analyze()
        br = ba.beam_results
        r = br.results
        return {
            "x": np.asarray(r.x, float), "M": np.asarray(r.M, float), "V": np.asarray(r.V, float),
            "R": np.asarray(br.R, float).ravel(), "Rs": np.asarray(br.Rs, float).ravel(),
            "br": br, "rows": mm["LM"],
        }

    def add(self, alts, extra):
        self.all.append([self.analyse(a + extra) for a in alts])

    @staticmethod
    def bounds(p, q):
        z = np.array([a[q] for a in p])
        return z.min(axis=0), z.max(axis=0)

    def env(self, q, sgn):
        """bounds of the envelope of quantity q (sgn +1 max, -1 min), floored at 0"""
        lo = hi = 0.0
        for p in self.all:
            u, w = self.bounds([{q: sgn * a[q]} for a in p], q)
            lo = np.maximum(lo, u)
            hi = np.maximum(hi, w)
        return (lo, hi) if sgn > 0 else (-hi, -lo)

    def scale(self, q):
        return max([np.abs(a[q]).max() for a, *_ in self.all if a[q].size] + [1e-9])


def check_envelope(mon, env, band, key="env", tol=1e-8):
    from .oracle import between

    mon.close(env.x, band.all[0][0]["x"], 1e-9 * (band.all[0][0]["x"][-1] + 1), key + ":x", "stations")
    if len(env.x) != len(band.all[0][0]["x"]):
        return
    for q in "MV":
        s = band.scale(q)
        for sgn, nm in ((1, "max"), (-1, "min")):
            lo, hi = band.env(q, sgn)
            got = np.asarray(getattr(env, q + nm), float)
            between(mon, got, lo, hi, tol * s, f"{key}:{q}{nm}", f"{q}{nm} envelope")
            # co-existing value: that of a position which attains the extreme
            o = "V" if q == "M" else "M"
            co = np.asarray(getattr(env, f"{o}co_{q}{nm}"), float)
            so = band.scale(o)
            ok = (np.abs(got) <= tol * s) & (np.abs(co) <= tol * so)
            for p in band.all:
                lo1, hi1 = band.bounds(p, q)
                near = (got >= lo1 - 1e-7 * s) & (got <= hi1 + 1e-7 * s)
                l2, h2 = band.bounds(p, o)
                ok |= near & (co >= l2 - 1e-7 * so) & (co <= h2 + 1e-7 * so)
            mon.check(
                bool(np.all(ok)), f"{key}:{o}co_{q}{nm}",
                lambda: (lambda k: f"{o}co_{q}{nm}[{k}] = {co[k]!r} with {q}{nm} = {got[k]!r} belongs to no analysis")(int(np.argmin(ok))),
            )
    s = band.scale("R")
    n = len(band.all)
    nr = len(band.all[0][0]["R"])
    mon.check(int(env.nsup) == nr and int(env.nres) == n, key + ":size", f"nsup {env.nsup} nres {env.nres}, expected {nr} {n}")
    if nr:
        a, b = (np.array(z).T for z in zip(*[band.bounds(p, "R") for p in band.all]))
        for nm, f in (("Rmax", lambda z: np.maximum(z, 0)), ("Rmin", lambda z: np.minimum(z, 0))):
            got = np.asarray(getattr(env, nm), float)
            if got.shape != a.shape:
                mon.check(False, key + ":" + nm, f"{nm} history has shape {got.shape}, expected {a.shape}")
                continue
            between(mon, got.ravel(), f(a).ravel(), f(b).ravel(), tol * s, key + ":" + nm, nm + " history")
            ext = got.max(axis=1) if nm == "Rmax" else got.min(axis=1)
            mon.close(getattr(env, nm + "val"), ext, 1e-12 * s, key + ":" + nm + "val", nm + "val")
