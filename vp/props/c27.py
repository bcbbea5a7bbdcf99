"""C27 - load objects: simple-span results and end forces of every load by itself"""
import numpy as np

from .. import gen as G, units as U

ID = "C27"
N_QUICK, N_THOROUGH = 4000, 60000
RULE = (
    "random load rows of every type at random, end, midpoint and coincident positions on "
    "spans of any length, turned into load objects by parse_LM; their simple-span V, M, R "
    "and D are compared with the reference solution of the simple span (EI=1) at random "
    "stations, their consistent and released end forces with the clamped span with and "
    "without hinges at its ends; superposition, end couples and refusals"
)
MUST_SEE = (
    "udl", "pl", "pudl", "ml", "trap", "ic", "simple_span", "consistent", "released_2", "released_3", "released_4",
    "at_left_end", "at_right_end", "superposed", "end_couples", "refused", "types",
)
ASSUMES = ["first and last station are the closing stations of the diagrams (section forces zero there)"]
NAME = {1: "udl", 2: "pl", 3: "pudl", 4: "ml", 5: "trap", 6: "ic"}
CLS = {1: "LoadUDL", 2: "LoadPL", 3: "LoadPUDL", 4: "LoadML", 5: "LoadTrapez", 6: "LoadIC"}


def UNITS(c, a, f):
    return dict(c, L=c["L"] * a, rows=U.rows(c["rows"], a, f), Mab=U.num(c["Mab"], a * f))


def gen(rng, i, tier):
    L = float(rng.choice([1.0, 10.0, G.rnd(G.log_u(rng, 0.5, 80)), G.rnd(G.log_u(rng, 0.5, 80))]))
    rows = [G.gen_load(rng, 0, L, ("udl", "pl", "pudl", "ml", "trap", "ic")) for _ in range(int(rng.integers(1, 4)))]
    for r in rows:
        if r[1] in (2, 4) and rng.random() < 0.3:
            r[3] = float(rng.choice([0.0, L, L / 2]))
        r[0] = int(rng.integers(1, 6)) if rng.random() < 0.3 else 1
    return {
        "L": L, "rows": rows, "EI": G.rnd(G.log_u(rng, 1e-2, 1e6)), "n": int(rng.integers(3, 60)),
        "u": [float(v) for v in rng.random(5)], "Mab": [G.rnd(v) for v in rng.uniform(-50, 50, 2)],
        "g": G.rnd(rng.uniform(-3, 3)),
    }


def stations(c):
    L = c["L"]
    x = np.concatenate([np.linspace(0, L, c["n"]), [L * u for u in c["u"]]])
    for r in c["rows"]:
        if r[1] in (2, 4):
            x = np.append(x, [r[3]])
        elif r[1] == 3:
            x = np.append(x, [r[3], r[3] + r[4]])
        elif r[1] == 5 and len(r) > 4:
            x = np.append(x, r[4])
    x = np.sort(x[(x >= 0) & (x <= L)])
    return np.concatenate([[0.0], x, [L]])


def within(mon, got, a, b, tol, key, msg):
    """got between the left- and right-hand limits (either order)"""
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    mon.close(got, np.clip(got, lo, hi), tol, key, msg)


def run(c, mon):
    from pycba import load as ld, types as ty
    from .. import ref

    L = c["L"]
    x = stations(c)
    keep = x.copy()
    LM = [list(r) for r in c["rows"]]
    objs = ld.parse_LM(LM)
    mon.check(LM == c["rows"], "parse", "parsing changed the load matrix")
    if not mon.check(len(objs) == len(LM), "parse", f"{len(objs)} loads from {len(LM)} rows"):
        return
    total = None
    for r, o in zip(LM, objs):
        mon.event(NAME[r[1]])
        mon.state(NAME[r[1]], len(r), "left" if r[1] in (2, 4) and r[3] == 0 else "right" if r[1] in (2, 4) and r[3] == L else "in")
        if r[1] in (2, 4):
            mon.event("at_left_end", r[3] == 0)
            mon.event("at_right_end", r[3] == L)
        mon.check(type(o).__name__ == CLS[r[1]] and o.i_span == r[0] - 1, "parse", f"row {r} became {type(o).__name__} of span index {o.i_span}")
        row = [1] + r[1:]
        simple = ref.Solution({"L": [L], "EI": [1.0], "R": [-1, 0, -1, 0], "LM": [row]})
        a, b = simple.states(0, x, "L"), simple.states(0, x, "R")
        mr = o.get_mbr_results(x, L)
        sV, sM = np.abs(np.r_[a[:, 3], b[:, 3]]).max(), np.abs(np.r_[a[:, 2], b[:, 2]]).max()
        sV, sM = max(sV, sM / L), max(sM, sV * L)
        if r[1] == 6:
            kap = np.array(r[2:], float)
            kx = np.polynomial.polynomial.polyval(np.linspace(0, L, 201), kap)
            sk = max(np.abs(kap[q]) * L**q for q in range(len(kap)))
            dx = np.diff(x).max()
            # (trapezoids between the stations)
            q2 = sum(abs(kap[q]) * q * (q - 1) * L ** max(q - 2, 0) for q in range(2, len(kap)))
            q1 = sk if len(kap) else 0.0
            tR = L * dx**2 * q2 / 6 + dx**2 * (q1 / L + q2 * L) / 4 + 1e-12 * sk * L
            tR, tD = tR + dx**2 * sk / L, None
            tD = tR * L + dx**2 * sk
            mon.close(mr.V, 0.0, 0.0, "simple-span", f"shear of {r}")
            mon.close(mr.M, 0.0, 0.0, "simple-span", f"moment of {r}")
            mon.close(mr.R[1:-1], a[1:-1, 1], tR, "simple-span", f"rotation under the curvature {r[2:]}")
            mon.close(mr.D[1:-1], a[1:-1, 0], tD, "simple-span", f"deflection under the curvature {r[2:]}")
            mon.close(o.kappa_imp(x), np.polynomial.polynomial.polyval(x, kap), 1e-12 * max(sk, 1e-300), "curvature", "imposed curvature")
            mon.raises(ValueError, lambda: o.get_cnl(L, 1), "refused", "end forces of an imposed curvature without a rigidity")
            o.EI = c["EI"]
        else:
            i = slice(1, -1)
            within(mon, mr.V[i], a[i, 3], b[i, 3], 1e-9 * sV, "simple-span", f"shear of {r}")
            within(mon, mr.M[i], a[i, 2], b[i, 2], 1e-9 * sM, "simple-span", f"moment of {r}")
            mon.close(mr.R[i], a[i, 1], 1e-9 * sM * L, "simple-span", f"rotation of {r}")
            mon.close(mr.D[i], a[i, 0], 1e-9 * sM * L * L, "simple-span", f"deflection of {r}")
        mon.close([mr.V[0], mr.V[-1], mr.M[0], mr.M[-1]], 0.0, 0.0, "closing", f"closing stations of {r}")
        mon.check(np.array_equal(mr.x, x) and np.array_equal(x, keep), "stations", "stations changed")
        mon.event("simple_span")
        # ---- end forces of the clamped span, as it is and hinged
        for e in (1, 2, 3, 4):
            EI = c["EI"] if r[1] == 6 else 1.0
            w = ref.Solution({"L": [L], "EI": [EI], "R": [-1] * 4, "et": [e], "LM": [row]}).react
            s = np.array([sV, sM, sV, sM]) + (np.array([1 / L, 1, 1 / L, 1]) * EI * sk * (1 if r[1] == 6 else 0) if r[1] == 6 else 0)
            mon.close(np.array(o.get_ref(L, e)), w, 1e-9 * s + 1e-300, f"released-{e}", f"released end forces of {r} on a type {e} member")
            if e == 1:
                for et in (1, 2, 3, 4):
                    q = o.get_cnl(L, et)
                    mon.check(type(q).__name__ == "LoadCNL", "consistent", "not a LoadCNL")
                    mon.close([q.Va, q.Ma, q.Vb, q.Mb], w, 1e-9 * s + 1e-300, "consistent", f"consistent nodal loads of {r}")
                mon.event("consistent")
            else:
                mon.event(f"released_{e}")
        total = mr if total is None else total + mr
    # ---- superposition
    a = np.sum([[getattr(o.get_mbr_results(x, L), k) for k in "MVRD"] for o in objs], axis=0)
    for k, w in zip("MVRD", a):
        mon.close(getattr(total, k), w, 1e-12 * (np.abs(w).max() + 1e-300) * 10, "superposed", f"sum of {k}")
    mon.check(np.array_equal(total.x, x), "superposed", "stations of the sum")
    R, D = total.R.copy(), total.D.copy()
    M = total.M.copy()
    total.apply_EI(c["EI"])
    mon.close(total.R, R / c["EI"], 1e-14 * (np.abs(R).max() / c["EI"] + 1e-300), "superposed", "rotations over EI")
    mon.close(total.D, D / c["EI"], 1e-14 * (np.abs(D).max() / c["EI"] + 1e-300), "superposed", "deflections over EI")
    mon.check(np.array_equal(total.M, M), "superposed", "EI changed the moments")
    mon.event("superposed")
    y = x.copy()
    y[len(y) // 2] += 1e-3 * L
    other = objs[0].get_mbr_results(np.sort(y), L)
    mon.raises((AssertionError, ValueError), lambda: total + other, "refused", "adding results of other stations")
    # ---- couples at the ends of the simple span
    Ma, Mb = c["Mab"]
    mr = ld.LoadMaMb(0, Ma, Mb).get_mbr_results(x, L)
    w = ref.Solution({"L": [L], "EI": [1.0], "R": [-1, 0, -1, 0], "LM": [[1, 4, Ma, 0.0], [1, 4, Mb, L]]})
    a = np.array([w.state(0, float(v), "R" if v == 0 else "L") for v in x])
    s = abs(Ma) + abs(Mb)
    for k, col, p in (("V", 3, 1 / L), ("M", 2, 1), ("R", 1, L), ("D", 0, L * L)):
        mon.close(getattr(mr, k)[1:-1], a[1:-1, col], 1e-9 * s * p, "end-couples", f"{k} of the couples {Ma}, {Mb}")
    mon.event("end_couples")
    # ---- refusals
    mon.raises(Exception, lambda: ld.parse_LM([[1, 7, 1.0, 0.0]]), "refused", "load type 7")
    mon.raises(ValueError, lambda: ty.MemberResults(), "refused", "member results of nothing")
    mon.event("refused")
    z = ty.MemberResults(n=5)
    mon.check(z.n == 5 and all(np.array_equal(getattr(z, k), np.zeros(5)) for k in "xMVRD"), "types", "empty member results")
    mt = ty.MemberType
    for k, name in enumerate(("FF", "FP", "PF", "PP"), 1):
        for v in (k, name, name.lower(), f" {name} ", mt(k), np.int64(k), np.array([k]), float(k)):
            mon.check(mt.coerce(v) == k, "types", f"member type {v!r}")
    for v in (0, 5, "FX", "", [1, 2], np.array([1, 1])):
        mon.raises(ValueError, lambda: mt.coerce(v), "types", f"member type {v!r}")
    mon.event("types")
