"""C06 - the answer does not depend on how the same beam is described"""
import numpy as np

from .. import gen as G, oracle, units as U
from . import c01, c03

ID = "C06"
N_QUICK, N_THOROUGH = 4000, 40000
RULE = (
    "random stable beams of every member kind, each re-analysed mirrored end for end, "
    "in other units of length and force, with one member cut in two, with another "
    "number of stations and through another input route; reactions, nodal "
    "displacements and section forces are compared"
)
MUST_SEE = ("mirrored", "rescaled", "cut", "restationed", "rerouted")


def gen(rng, i, tier):
    m = c03.gen_any(rng, i, tier)
    n = len(m["L"])
    m["ls"] = float(rng.choice([0.3048, 1000.0, 12.0, 0.001, 3.7]))
    m["fs"] = float(rng.choice([1000.0, 0.2248, 9.81, 0.001]))
    m["ci"] = int(rng.integers(0, n))
    m["cx"] = G.rnd(rng.uniform(0.15, 0.85), 3)
    m["how2"] = int(rng.integers(0, 5))
    return m


def mirror_sec(s, L):
    if s is None or isinstance(s, (int, float)):
        return s
    out = []
    for g in reversed(s):
        x = [L - t for t in reversed(g[1])]
        x = [0.0 if abs(t) < 1e-12 * L else t for t in x]
        e = list(reversed(g[2])) if isinstance(g[2], list) else g[2]
        out.append([g[0], x, e] + list(g[3:]))
    out[0][1][0] = 0.0
    out[-1][1][-1] = L
    for a, b in zip(out[:-1], out[1:]):
        b[1][0] = a[1][-1]
    return out


def poly_shift(k, x0, sgn=1.0):
    """coefficients (ascending) of k(x0 + sgn*x)"""
    p = np.poly1d(list(reversed(k)))
    q = p(np.poly1d([sgn, x0]))
    c = list(reversed(np.atleast_1d(q.coeffs)))
    return [float(v) for v in c]


def mirror(m):
    n = len(m["L"])
    L = m["L"]
    o = dict(m, L=L[::-1], how=0)
    for k in ("EI", "GAv"):
        if m.get(k):
            o[k] = [mirror_sec(s, L[i]) for i, s in reversed(list(enumerate(m[k])))]
    if m.get("kf"):
        o["kf"] = m["kf"][::-1]
    R = []
    D = []
    for j in range(n, -1, -1):
        R += m["R"][2 * j : 2 * j + 2]
        if m.get("D"):
            v, t = m["D"][2 * j : 2 * j + 2]
            D += [v, None if t is None else -t]
    o["R"] = R
    if m.get("D"):
        o["D"] = D
    if m.get("et"):
        o["et"] = [{1: 1, 2: 3, 3: 2, 4: 4}[e] for e in m["et"][::-1]]
    LM = []
    for r in m["LM"]:
        i = int(r[0]) - 1
        Li, s, t = L[i], n - i, r[1]
        if t == 1:
            LM.append([s, 1, r[2]])
        elif t == 2:
            LM.append([s, 2, r[2], Li - r[3]])
        elif t == 3:
            c = min(r[4], Li - r[3])
            LM.append([s, 3, r[2], max(Li - r[3] - c, 0.0), c])
        elif t == 4:
            LM.append([s, 4, -r[2], Li - r[3]])
        elif t == 5:
            if len(r) == 4:
                LM.append([s, 5, r[3], r[2]])
            else:
                LM.append([s, 5, r[3], r[2], max(Li - r[4] - r[5], 0.0), r[5]])
        else:
            LM.append([s, 6] + poly_shift(r[2:], Li, -1.0))
    o["LM"] = LM
    return o


def rescale(m, a, f):
    """lengths x a, forces x f"""
    return dict(U.model(m, a, f), how=0)


def cut_sec(s, x0, x1):
    if s is None or isinstance(s, (int, float)):
        return s
    from ..ref import Prop

    out = []
    for g in s:
        x = g[1]
        a, b = max(x[0], x0), min(x[-1], x1)
        if b - a < 1e-9 * (x1 - x0):
            continue
        p = Prop([g], 1.0)
        if g[0] == "const":
            out.append(["const", [a - x0, b - x0], g[2]])
        elif g[0] == "poly":
            c = p.pieces[0][2]
            t = np.linspace(a, b, g[3] + 1)
            out.append(["poly", [float(v - x0) for v in t], [float(np.polyval(c, v)) for v in t], g[3]])
        else:
            t = [a] + [v for v in x if a + 1e-9 < v < b - 1e-9] + [b]
            val = []
            for v in t:
                k = next(q for q in p.pieces if q[0] - 1e-9 <= v <= q[1] + 1e-9)
                val.append(float(np.polyval(k[2], v)))
            out.append(["pwl", [v - x0 for v in t], val])
    return out


def cut(m, i, xc):
    """member i cut in two at local xc"""
    n = len(m["L"])
    L = m["L"][i]
    o = dict(m, how=0)
    o["L"] = m["L"][:i] + [xc, L - xc] + m["L"][i + 1 :]
    for k in ("EI", "GAv"):
        if m.get(k):
            o[k] = m[k][:i] + [cut_sec(m[k][i], 0, xc), cut_sec(m[k][i], xc, L)] + m[k][i + 1 :]
    if m.get("kf"):
        o["kf"] = m["kf"][:i] + [m["kf"][i]] * 2 + m["kf"][i + 1 :]
    o["R"] = m["R"][: 2 * i + 2] + [0, 0] + m["R"][2 * i + 2 :]
    if m.get("D"):
        o["D"] = m["D"][: 2 * i + 2] + [None, None] + m["D"][2 * i + 2 :]
    if m.get("et"):
        e = m["et"][i]
        o["et"] = m["et"][:i] + [3 if e in (3, 4) else 1, 2 if e in (2, 4) else 1] + m["et"][i + 1 :]
    LM = []
    for r in m["LM"]:
        j, t = int(r[0]) - 1, r[1]
        if j != i:
            LM.append([r[0] if j < i else r[0] + 1] + list(r[1:]))
            continue
        a, b = i + 1, i + 2
        if t == 1:
            LM += [[a, 1, r[2]], [b, 1, r[2]]]
        elif t in (2, 4):
            LM.append([a, t, r[2], r[3]] if r[3] <= xc else [b, t, r[2], r[3] - xc])
        elif t in (3, 5):
            if t == 3:
                x0, x1, w0, w1 = r[3], min(r[3] + r[4], L), r[2], r[2]
            elif len(r) == 4:
                x0, x1, w0, w1 = 0.0, L, r[2], r[3]
            else:
                x0, x1, w0, w1 = r[4], min(r[4] + r[5], L), r[2], r[3]
            k = (w1 - w0) / (x1 - x0)
            for s, p, q in ((a, 0.0, xc), (b, xc, L)):
                u, v = max(x0, p), min(x1, q)
                if v - u <= 1e-12 * L:
                    continue
                if t == 3:
                    LM.append([s, 3, w0, u - p, v - u])
                else:
                    LM.append([s, 5, w0 + k * (u - x0), w0 + k * (v - x0), u - p, v - u])
        else:
            LM += [[a, 6] + list(r[2:]), [b, 6] + poly_shift(r[2:], xc)]
    o["LM"] = LM
    return o


def analyse(m, npts=None):
    ba = G.build(m, how=m.get("how", 0))
    ba.analyze(npts)
    br = ba.beam_results
    return br, oracle.support_forces(m, br), np.asarray(br.D, float).ravel()


def run(m, mon):
    n = len(m["L"])
    L = np.array(m["L"], float)
    kf = m.get("kf") or [None] * n
    npts = m.get("npts")
    br, F, D = analyse(m, npts)
    mon.state(G.describe(m))
    fs, ms = G.scales(m)
    fs = max(fs, np.abs(F[0::2]).max())
    ms = max(ms, np.abs(F[1::2]).max(), fs * max(L))
    e = min(G.ei_min(m))
    vs = np.abs(D[0::2]).max() + 1e-3 * ms * max(L) ** 2 / e
    ts = np.abs(D[1::2]).max() + 1e-3 * ms * max(L) / e
    rel = 1e-6

    def same(F2, D2, key, mf=1.0, rel=rel):
        mon.close(F2[0::2], F[0::2], rel * fs, key + ":reactions", "vertical reactions")
        mon.close(F2[1::2], F[1::2], rel * ms, key + ":reactions", "moment reactions")
        mon.close(D2[0::2], D[0::2], rel * vs, key + ":nodes", "nodal deflections")
        mon.close(D2[1::2], D[1::2], rel * ts, key + ":nodes", "nodal rotations")

    # another route to the same model, another number of stations
    br2, F2, D2 = analyse(dict(m, how=m["how2"]), npts)
    same(F2, D2, "route", rel=1e-11)
    for q in ("x", "M", "V", "R", "D"):
        a, b = np.asarray(getattr(br.results, q)), np.asarray(getattr(br2.results, q))
        mon.close(a, b, 1e-10 * (np.abs(a).max() + 1e-9), "route:" + q, "diagram " + q)
    mon.event("rerouted")
    k = 3
    br3, F3, D3 = analyse(dict(m), (npts or 100) * k)
    same(F3, D3, "stations", rel=1e-11)
    for i in range(n):
        if kf[i]:
            continue
        a, b = oracle.member(br, m, i), oracle.member(br3, m, i)
        mon.close(a[0], b[0][::k], 1e-10 * L[i], "stations:x", f"member {i}")
        # a station on a concentrated action may take either side: compared elsewhere
        at = np.zeros(len(a[0]), bool)
        for r in m["LM"]:
            if int(r[0]) - 1 == i and r[1] in (2, 4):
                at |= np.abs(a[0] - r[3]) < 1e-9 * L[i]
        mon.close(a[1][~at], b[1][::k][~at], 1e-9 * ms, "stations:M", f"member {i}")
        mon.close(a[2][~at], b[2][::k][~at], 1e-9 * fs, "stations:V", f"member {i}")
    mon.event("restationed")

    # mirror image
    mm = mirror(m)
    br4, F4, D4 = analyse(mm, npts)
    Fm = F4.reshape(-1, 2)[::-1].copy()
    Dm = D4.reshape(-1, 2)[::-1].copy()
    Fm[:, 1] *= -1
    Dm[:, 1] *= -1
    same(Fm.ravel(), Dm.ravel(), "mirror")
    for i in range(n):
        a, b = oracle.member(br, m, i), oracle.member(br4, mm, n - 1 - i)
        if len(a[0]) != len(b[0]):
            mon.check(False, "mirror:x", f"member {i}: {len(a[0])} vs {len(b[0])} stations")
            continue
        at = np.zeros(len(a[0]), bool)
        for r in m["LM"]:
            if int(r[0]) - 1 == i and r[1] in (2, 4):
                at |= np.abs(a[0] - r[3]) < 1e-8 * L[i]
        tM, tV = 1e-6 * ms, 1e-6 * fs
        if kf[i]:
            qv, qm, _, _ = oracle.kf_tolerances(m, i, a[0], a[1], a[2], a[4])
            tM, tV = tM + qm, tV + 2.2 * qv
        mon.close(a[1][~at], b[1][::-1][~at], tM, "mirror:M", f"moment, member {i}")
        mon.close(a[2][~at], -b[2][::-1][~at], tV, "mirror:V", f"shear, member {i}")
    mon.event("mirrored")

    # other units
    s, f = m["ls"], m["fs"]
    br5, F5, D5 = analyse(rescale(m, s, f), npts)
    F5, D5 = F5.copy(), D5.copy()
    F5[0::2] /= f
    F5[1::2] /= f * s
    D5[0::2] /= s
    same(F5, D5, "units")
    for i in range(n):
        a = oracle.member(br, m, i)
        r5 = br5.vRes[i]
        sl = slice(1, -1)
        at = np.zeros(len(a[0]), bool)
        for r in m["LM"]:
            if int(r[0]) - 1 == i and r[1] in (2, 4):
                at |= np.abs(a[0] - r[3]) < 1e-8 * L[i]
        tR = 1e-6 * (np.abs(a[3]).max() + ts)
        tD = 1e-6 * (np.abs(a[4]).max() + vs)
        mon.close(np.asarray(r5.M)[sl][~at] / f / s, a[1][~at], 1e-6 * ms, "units:M", f"moment, member {i}")
        mon.close(np.asarray(r5.V)[sl][~at] / f, a[2][~at], 1e-6 * fs, "units:V", f"shear, member {i}")
        if not at.any():
            mon.close(np.asarray(r5.R)[sl], a[3], tR, "units:R", f"rotation, member {i}")
            mon.close(np.asarray(r5.D)[sl] / s, a[4], tD, "units:D", f"deflection, member {i}")
    mon.event("rescaled")

    # a joint inserted where nothing happens
    i = m["ci"]
    xc = float(m["cx"] * L[i])
    if any(int(r[0]) - 1 == i and r[1] in (2, 4) and abs(r[3] - xc) < 1e-6 * L[i] for r in m["LM"]):
        return
    mc = cut(m, i, xc)
    br6, F6, D6 = analyse(mc, npts)
    keep = [k for k in range(2 * n + 4) if k // 2 != i + 1]
    r = 1e-6 if not kf[i] else 2e-4
    same(F6[keep], D6[keep], "cut", rel=r)
    at6 = oracle.member(br6, mc, i)
    st = oracle.Statics(m, F)
    if not kf[i] and not any(kf):
        Va, Vb, Ma, Mb = st.band(i, np.array([xc]))
        mon.close(at6[1][-1], Ma[0], 1e-6 * ms, "cut:M", "moment at the new joint")
        mon.close(at6[2][-1], Va[0], 1e-6 * fs, "cut:V", "shear at the new joint")
    mon.event("cut")
