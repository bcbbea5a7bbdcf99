"""C18 - load combinations, additive envelopes and load patterns are exact sums"""
import itertools

import numpy as np

from .. import gen as G, oracle, units as U
from . import c03

ID = "C18"
N_QUICK, N_THOROUGH = 400, 6000
RULE = (
    "random beams of every member family with 1-6 random load cases and random factors; "
    "every combination (vectors, matrices, name and index mappings, factored load "
    "matrices), additive and sign-selective envelope, target combination, segmented "
    "load and design load pattern is compared with brute force over separately analysed "
    "cases, including all subsets of the cases"
)
MUST_SEE = ("crowds", "own_stations", "pattern_cases", 
    "combined", "combined_matrix", "combined_mapping", "subset_maxima", "additive_envelopes", "targets", "case_envelopes",
    "patterns", "segments", "all_spans", "refused",
)
ASSUMES = ["combinations are examined on beams without prescribed displacements, which belong to every case's own analysis"]


UNITS = {
    "cases": U.many(U.rows), "x": (1, 0), "LMg": U.rows, "LMq": U.rows,
    "seg": lambda v, a, f: [v[0] * a, v[1] * a, v[2] * f / a],
}


def gen(rng, i, tier):
    m = c03.gen_any(rng, i, tier, settle=0.0, nmax=4 if i % 7 else 8, kf=0.12)
    cases = []
    kinds = ("udl", "pl", "pudl", "ml", "trap", "ic")
    if m.get("kf"):
        kinds = ("udl", "pl", "pudl")
    elif m.get("et"):
        # (hinged members under curvature are recovered by another quadrature)
        kinds = kinds[:-1]
    for _ in range(int(rng.integers(1, 7))):
        cases.append(G.gen_loads(rng, m["L"], kinds, nmax=3))
    m["LM"] = []
    n = len(cases)
    m["cases"] = cases
    f = lambda: [G.factor(rng) if rng.random() < 0.85 else 0.0 for _ in range(n)]
    m["f"] = [f() for _ in range(3)]
    m["npts"] = int(rng.choice([10, 20, 37, 100]))
    X = float(sum(m["L"]))
    m["x"] = [float(rng.choice(np.concatenate([[0.0], np.cumsum(m["L"])]))), G.rnd(rng.uniform(0, 1) * X)]
    m["sel"] = sorted([G.rnd(rng.uniform(-1, 2)), G.rnd(rng.uniform(-1, 2))]) if rng.random() < 0.4 else [0.0, 1.0]
    m["resp"] = str(rng.choice(["M", "V", "D", "R"]))
    m["nc"] = int(rng.integers(1, n + 1))
    a, b = sorted(rng.uniform(0, X, 2))
    if rng.random() < 0.2:
        a = 0.0
    if rng.random() < 0.2:
        b = X
    if rng.random() < 0.2:
        # an end just short of, or just past, a support
        v = float(rng.choice(np.cumsum(m["L"]))) + float(rng.choice([-1, 1])) * X * 10.0 ** rng.uniform(-7, -4)
        if 1e-3 * X < v < X:
            a, b = (a, v) if a < v - 1e-3 * X else (v, b)
            if b <= a:
                b = X
    m["seg"] = [float(a), float(b), G.rnd(rng.uniform(2, 20))]
    m["nseg"] = int(rng.integers(1, 6))
    # design load pattern
    kd = tuple(k for k in kinds if k not in ("ic",))
    every = lambda: [[j + 1, 1, G.rnd(rng.uniform(5, 20))] for j in range(len(m["L"]))]
    some = lambda r: [x for x in r if rng.random() < 0.5] if rng.random() < 0.35 else r
    m["LMg"] = some(every()) + (G.gen_loads(rng, m["L"], kd, nmax=2) if rng.random() < 0.5 else [])
    m["LMq"] = some(every()) + (G.gen_loads(rng, m["L"], kd, nmax=2) if rng.random() < 0.5 else [])
    m["gam"] = [G.rnd(rng.uniform(1, 1.5)), G.rnd(rng.uniform(0.8, 1)), G.rnd(rng.uniform(1.2, 1.7)), 0.0 if rng.random() < 0.7 else 0.3]
    m["how"] = int(rng.integers(0, 3))
    m["crowd"] = i % 16 == 3
    return m


def factored(rows, f):
    """a factored copy of a load matrix, row by row"""
    out = []
    for r in rows:
        r = list(r)
        if r[1] in (1, 2, 3, 4):
            r[2] = f * r[2]
        elif r[1] == 5:
            r[2], r[3] = f * r[2], f * r[3]
        else:
            r[2:] = [f * c for c in r[2:]]
        out.append(r)
    return out


def analyse(m, rows, npts):
    ba = G.build(m, rows)
    ba.analyze(npts)
    return ba.beam_results


def sides(x, x0):
    """the stations at x0 which show a section force (not the diagram closure)"""
    k = np.flatnonzero(np.abs(x - x0) <= 1e-9 * x[-1])
    if abs(x0) <= 1e-9 * x[-1]:
        return k[1:]
    if abs(x0 - x[-1]) <= 1e-9 * x[-1]:
        return k[:-1]
    return k[[0, -1]]


def around(x, B, xt):
    """bounds of the responses a query at xt may give: those of the station there, or
    linear interpolation between its neighbours, taking either side at a joint"""
    k = np.flatnonzero(np.abs(x - xt) <= 1e-9 * x[-1])
    if len(k):
        z = B[:, sides(x, xt)]
        return z.min(axis=1), z.max(axis=1)
    x0, x1 = x[x < xt].max(), x[x > xt].min()
    a, b = B[:, sides(x, x0)], B[:, sides(x, x1)]
    u = (xt - x0) / (x1 - x0)
    return (1 - u) * a.min(axis=1) + u * b.min(axis=1), (1 - u) * a.max(axis=1) + u * b.max(axis=1)


def same_rows(a, b, tol=1e-12):
    """load matrices equal row by row (trailing zeros aside)"""
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        p, q = list(p), list(q)
        k = max(len(p), len(q))
        p += [0.0] * (k - len(p))
        q += [0.0] * (k - len(q))
        if any(abs(float(u) - float(v)) > tol * (abs(float(v)) + 1e-12) for u, v in zip(p, q)):
            return False
    return True


def run(m, mon):
    import pycba as cba
    from pycba import load_cases as lcm

    npts = m["npts"]
    ba = G.build(m, [], how=m["how"])
    ba.npts = npts
    names = [f"c{k}" for k in range(len(m["cases"]))]
    lc = cba.LoadCases(ba)
    for nm, rows in zip(names, m["cases"]):
        if len(names) % 2:
            lc.add(nm, rows)
        else:
            lc.append(cba.LoadCase(nm, [list(r) for r in rows]))
    n = len(names)
    brs = [analyse(m, rows, npts) for rows in m["cases"]]
    A = {q: np.array([np.asarray(getattr(b.results, q), float) for b in brs]) for q in "MVDR"}
    x = np.asarray(brs[0].results.x, float)
    sc = {q: np.abs(A[q]).max() + 1e-12 for q in A}
    mon.state(G.describe(m), f"c{n}", m["resp"])
    # ---- response matrix and combinations
    part = {nm: v for nm, v in zip(names, m["f"][0]) if v != 0}
    comb = cba.LoadCombination("k", part)
    for q, nms in (("M", "M"), ("V", "shear"), ("D", "deflection"), ("R", "rotation")):
        xx, B = lc.response_matrix(nms)
        mon.close(xx, x, 1e-9 * x[-1], "matrix:x", "stations")
        mon.close(B, A[q], 1e-9 * sc[q], "matrix:" + q, f"response matrix {nms}")
        if q != m["resp"]:
            continue
        f = np.array(m["f"][0])
        want = f @ A[q]
        s = sc[q] * (np.abs(f).sum() + 1)
        mon.close(lc.combine(m["f"][0], response=q)[1], want, 1e-9 * s, "combine:vector", f"combination of {q}")
        mon.close(lc.linear_combination(m["f"][0], response=q)[1], want, 1e-9 * s, "combine:vector", f"combination of {q}")
        F = np.array(m["f"])
        mon.close(lc.combine(m["f"], response=q)[1], F @ A[q], 1e-9 * s * 3, "combine:matrix", f"combinations of {q}")
        mon.event("combined_matrix")
        idx = {k: v for k, v in enumerate(m["f"][0]) if v != 0}
        mon.close(lc.combine(part, response=q)[1], want, 1e-9 * s, "combine:mapping", f"name mapping, {q}")
        mon.close(lc.combine(idx, response=q)[1], want, 1e-9 * s, "combine:mapping", f"index mapping, {q}")
        mon.close(comb.response(lc, q)[1], want, 1e-9 * s, "combine:mapping", f"combination object, {q}")
        mon.event("combined_mapping")
    # superposition against one analysis of the factored loads
    f = m["f"][0]
    rows = [r for fk, c in zip(f, m["cases"]) if fk != 0 for r in factored(c, fk)]
    mon.check(same_rows(lc.combined_loads(f), rows), "combined-loads", f"{lc.combined_loads(f)} is not {rows}")
    # superposition with cancellation: judged against the sum of the contributions
    emin = min(G.ei_min(m))
    Lm = max(m["L"])
    am = lc.analyze_combination(f)
    ab = comb.analyze(lc)
    direct = analyse(m, rows, npts)
    K = 1e3 if m.get("kf") else 1.0
    allr = [r for fk, c in zip(f, m["cases"]) for r in factored(c, fk)]
    f0, m0 = G.scales(dict(m, LM=allr))
    floor = {"V": 1e-2 * f0, "M": 1e-2 * m0, "R": 1e-3 * m0 * Lm / emin, "D": 1e-3 * m0 * Lm**2 / emin}
    for q in "MVDR":
        want = np.array(f) @ A[q]
        s = floor[q] + (np.abs(np.array(f))[:, None] * np.abs(A[q])).sum(axis=0).max() + 1e-12
        if q in "DR":
            ms = (np.abs(np.array(f))[:, None] * np.abs(A["M"])).sum(axis=0).max()
            s += 1e-3 * ms * Lm ** (2 if q == "D" else 1) / emin
        for r, nm in ((am, "analyze_combination"), (ab, "combination.analyze")):
            mon.close(getattr(r.beam_results.results, q), getattr(direct.results, q), 1e-12 * s, "superpose:same", f"{nm} {q}")
        mon.close(getattr(direct.results, q), want, 1e-7 * K * s, "superpose:" + q, f"analysis of the factored loads, {q}")
    mon.event("combined")
    e = comb.envelope(lc)
    for q in "MV":
        y = np.asarray(getattr(direct.results, q), float)
        mon.close(getattr(e, q + "max"), np.maximum(y, 0), 1e-9 * sc[q] * 10, "combination-envelope", q)
        mon.close(getattr(e, q + "min"), np.minimum(y, 0), 1e-9 * sc[q] * 10, "combination-envelope", q)
    c1 = comb.to_load_case(lc)
    mon.check(same_rows(c1.to_LM(), rows), "combined-loads", "to_load_case")
    # ---- subset maxima
    q = m["resp"]
    B = A[q]
    neg, pos, mneg, mpos = cba.sign_selective_envelope(B)
    subs = np.array(list(itertools.product((0.0, 1.0), repeat=n)))
    S = subs @ B
    mon.close(pos, S.max(axis=0), 1e-9 * n * sc[q], "subset:max", f"greatest {q} over every subset of cases")
    mon.close(neg, S.min(axis=0), 1e-9 * n * sc[q], "subset:min", f"least {q} over every subset of cases")
    mon.event("subset_maxima")
    for mask, env in ((mneg, neg), (mpos, pos)):
        tot = np.array([sum(B[j, k] for j in range(n) if int(mask[k]) >> j & 1) for k in range(0, B.shape[1], 7)])
        mon.close(tot, env[::7], 1e-9 * n * sc[q], "subset:mask", "sum of the cases named by the mask")
    ids = [3 * j + 5 for j in range(n)]  # any identifiers
    _, _, nm, pm = cba.sign_selective_envelope(B, ids)
    for k in range(0, B.shape[1], 11):
        wp = wn = 0
        for j in range(n):
            if B[j, k] > 0:
                wp |= ids[j]
            elif B[j, k] < 0:
                wn |= ids[j]
        mon.check(int(pm[k]) == wp and int(nm[k]) == wn, "subset:mask", f"identifiers {nm[k]}, {pm[k]} at station {k}, expected {wn}, {wp}")
    nc = m["nc"]
    neg, pos, ineg, ipos = cba.additive_envelope(B, nc)
    C = np.array([B[list(c)].sum(axis=0) for c in itertools.combinations(range(n), nc)])
    mon.close(pos, C.max(axis=0), 1e-9 * n * sc[q], "additive:max", f"greatest sum of {nc} cases")
    mon.close(neg, C.min(axis=0), 1e-9 * n * sc[q], "additive:min", f"least sum of {nc} cases")
    for idx, env in ((ineg, neg), (ipos, pos)):
        ok = idx.shape == (nc, B.shape[1]) and all(len(set(c)) == nc for c in idx.T.tolist())
        mon.check(ok, "additive:cases", "governing cases are not distinct")
        if ok:
            mon.close(np.take_along_axis(B, idx, axis=0).sum(axis=0), env, 1e-9 * n * sc[q], "additive:cases", "sum of the governing cases")
    mon.event("additive_envelopes")
    # ---- target combinations
    lo, hi = m["sel"]
    for xt in m["x"]:
        for sense in ("min", "max"):
            t = lc.target_combination("t", xt, sense=sense, response=q, selected_factor=hi, unselected_factor=lo)
            tv = np.asarray(t.metadata["target_values"], float)
            fv = np.asarray(t.factor_vector(), float)
            # the target values are this response at the target
            lo_, hi_ = around(x, B, xt)
            oracle.between(mon, tv, lo_, hi_, 1e-8 * sc[q], "target:values", f"case responses at {xt}")
            v = float(fv @ tv)
            every = np.array([s @ tv for s in lo + (hi - lo) * subs])
            best = every.min() if sense == "min" else every.max()
            mon.close(v, best, 1e-9 * n * sc[q] * (abs(lo) + abs(hi)), "target:optimal", f"{sense} {q} at {xt} over all selections")
            mon.check(set(np.round(fv, 12)) <= {round(lo, 12), round(hi, 12)}, "target:factors", f"factors {fv}")
            # exactly the cases of this sign are selected: one without effect is not
            takes = tv < 0 if sense == "min" else tv > 0
            mon.close(fv, np.where(takes, hi, lo), 1e-12, "target:selected", f"{sense} {q} at {xt}: effects {tv}")
            mon.event("target_without_effect", int((tv == 0).any()))
            mon.event("target_small_effect", int(((tv != 0) & (abs(tv) < 1e-9)).any()))
            nm = [names[j] for j in range(n) if fv[j] == hi] if hi != lo else None
            if nm is not None:
                mon.check(t.metadata["selected_names"] == nm, "target:names", f"{t.metadata['selected_names']} for factors {fv}")
            y = t.response(response=q)[1]
            mon.close(y, fv @ B, 1e-9 * n * sc[q] * (abs(lo) + abs(hi)), "target:response", "response of the target combination")
            mon.event("targets")
    # ---- envelope of the cases, each on its own
    e = lc.envelope()
    for q2 in "MV":
        mon.close(getattr(e, q2 + "max"), np.maximum(A[q2].max(axis=0), 0), 1e-9 * sc[q2], "cases:max", q2)
        mon.close(getattr(e, q2 + "min"), np.minimum(A[q2].min(axis=0), 0), 1e-9 * sc[q2], "cases:min", q2)
    mon.event("case_envelopes")
    # a number of stations of one's own
    own = 2 * m["npts"] + 3
    e2, a2 = lc.envelope(own), lc.analyze_combination(f, npts=own)
    solo = [analyse(m, r, own).results for r in m["cases"]]
    for q2 in "MV":
        top = np.max([getattr(r, q2) for r in solo], axis=0)
        mon.close(getattr(e2, q2 + "max"), np.maximum(top, 0), 1e-8 * sc[q2], "cases:max", f"{q2} at {own} stations")
    mon.close(a2.beam_results.results.x, solo[0].x, 1e-9 * sum(m["L"]), "cases:stations", f"stations of the combination, {own} asked for")
    mon.event("own_stations")
    if m.get("crowd"):
        crowd(m, mon, cba)
    pattern(m, mon, cba)
    segments(m, mon, cba, ba)
    # ---- refusals
    for bad in ([1.0] * (n + 1), np.ones((2, n + 1)), np.ones((1, 1, n))):
        mon.raises(ValueError, lambda: lc.combine(bad), "refused", f"factors of shape {np.shape(bad)} for {n} cases")
    mon.raises(KeyError, lambda: lc.combine({"nobody": 1.0}), "refused", "unknown case name")
    mon.raises(ValueError, lambda: lc.add(names[0], []), "refused", "duplicate case name")
    mon.raises(ValueError, lambda: cba.additive_envelope(B, n + 1), "refused", "too few cases")
    mon.raises(ValueError, lambda: cba.additive_envelope(B, 0), "refused", "no cases to combine")
    mon.raises(ValueError, lambda: lc.target_combination("t", x[-1] * 1.01), "refused", "target beyond the beam")
    mon.raises(ValueError, lambda: lc.target_combination("t", -0.01 * x[-1]), "refused", "target before the beam")
    mon.raises(ValueError, lambda: lc.target_combination("t", 0.0, sense="sideways"), "refused", "unknown sense")
    mon.raises(ValueError, lambda: lc.response_matrix("Q"), "refused", "unknown response")
    mon.raises(ValueError, lambda: lc.combined_loads(np.ones((2, n))), "refused", "two factor sets for one load matrix")
    mon.event("refused")


def crowd(m, mon, cba):
    """more load cases than a machine word has bits, each with its own bit"""
    rng = np.random.default_rng(len(m["L"]) * 1000 + m["npts"])
    nspan = len(m["L"])
    ba = G.build(m, [], how=m["how"])
    ba.analyze(12)
    S = -(-int(rng.integers(65, 90)) // nspan)
    lc = cba.make_patterned_udl(ba, 3.0, n_segments=S)
    q = m["resp"] if m["resp"] in "MV" else "M"
    _, B = lc.response_matrix(q)
    N = nspan * S
    ids = [int(v) for v in lc.load_positions()]
    mon.check(B.shape[0] == N == len(lc) and ids == [2**k for k in range(N)], "crowd", f"{len(lc)} cases, identifiers of {len(set(ids))}")
    plain = cba.LoadCases(ba)
    for k in range(N):
        plain.add(f"c{k}", [])
    mon.check([int(v) for v in plain.load_positions()] == [2**k for k in range(N)], "crowd", "identifiers of plain cases")
    for kw in ((), (ids,)):
        neg, pos, mneg, mpos = cba.sign_selective_envelope(B, *kw)
        for k in range(B.shape[1]):
            for mask, sgn in ((mneg, -1), (mpos, 1)):
                want = sum(2**j for j in range(N) if sgn * B[j, k] > 0)
                mon.check(int(mask[k]) == want, "crowd", f"cases at station {k}: {int(mask[k]):b}, expected {want:b}")
    mon.event("crowds", N)


def pattern(m, mon, cba):
    """documented arrangements: adjacent pairs, odd, even, all spans at maximum"""
    N = len(m["L"])
    gmax, gmin, qmax, qmin = m["gam"]
    ba = G.build(m, [], how=m["how"])
    lp = cba.LoadPattern(ba)
    lp.set_dead_loads(m["LMg"], gmax, gmin)
    lp.set_live_loads(m["LMq"], qmax, qmin)
    env = lp.analyze(m["npts"])
    arr = [{i, i + 1} for i in range(1, N)] + [set(range(1, N + 1, 2)), set(range(2, N + 1, 2)), set(range(1, N + 1))]
    got = lp.to_LM()
    mon.check(len(got) == len(arr), "pattern:count", f"{len(got)} arrangements, expected {len(arr)}")
    R = []
    rows_all = []
    for s in arr:
        rows = []
        for src, a, b in ((m["LMg"], gmax, gmin), (m["LMq"], qmax, qmin)):
            for r in src:
                rows += factored([r], a if int(r[0]) in s else b)
        rows_all.append(rows)
        R.append(analyse(m, rows, m["npts"]))
    if len(got) == len(arr):
        # the same arrangements, in any order
        left = list(got.values())
        for rows in rows_all:
            k = next((k for k, g in enumerate(left) if same_rows(g, rows)), None)
            mon.check(k is not None, "pattern:loads", f"no arrangement has the loads {rows}")
            if k is not None:
                left.pop(k)
    # the arrangements as a collection of load cases: the same ones, each with the
    # spans that are at their maximum
    col = lp.to_load_cases()
    mon.check(list(col.names) == list(got) and all(same_rows(c.loads, got[c.name]) for c in col), "pattern:cases", f"cases {col.names} for arrangements {list(got)}")
    spans = sorted(tuple(sorted(int(k) + 1 for k in c.loaded_spans)) for c in col)
    mon.check(spans == sorted(tuple(sorted(a)) for a in arr), "pattern:spans", f"loaded spans {spans}")
    for c in col:
        s = {int(k) + 1 for k in c.loaded_spans}
        rows = [z for src, a, b in ((m["LMg"], gmax, gmin), (m["LMq"], qmax, qmin)) for r in src for z in factored([r], a if int(r[0]) in s else b)]
        mon.check(same_rows(c.loads, rows), "pattern:cases", f"{c.name} claims spans {s}")
    mon.event("pattern_cases", len(arr))
    fs = 0.0
    for q in "MV":
        Z = np.array([np.asarray(getattr(r.results, q), float) for r in R])
        s = np.abs(Z).max() + 1e-9
        mon.close(getattr(env, q + "max"), np.maximum(Z.max(axis=0), 0), 1e-9 * s, "pattern:max", f"pattern envelope {q}max")
        mon.close(getattr(env, q + "min"), np.minimum(Z.min(axis=0), 0), 1e-9 * s, "pattern:min", f"pattern envelope {q}min")
        fs = max(fs, s)
    Rr = np.array([np.asarray(r.R, float).ravel() for r in R])
    if Rr.size:
        mon.close(env.Rmaxval, np.maximum(Rr.max(axis=0), 0), 1e-8 * (np.abs(Rr).max() + fs), "pattern:R", "pattern reactions")
        mon.close(env.Rminval, np.minimum(Rr.min(axis=0), 0), 1e-8 * (np.abs(Rr).max() + fs), "pattern:R", "pattern reactions")
    mon.event("patterns")


def segments(m, mon, cba, ba):
    L = m["L"]
    xs = np.concatenate([[0.0], np.cumsum(L)])
    X = float(xs[-1])
    a, b, w = m["seg"]
    case = cba.LoadCase("s").add_segment_udl(ba, a, b, w)
    rows = []
    for i in range(len(L)):
        p, q = max(a, xs[i]), min(b, xs[i + 1])
        if q - p > 1e-9:
            rows.append([i + 1, 3, w, p - xs[i], q - p])
    tot = lambda rr: np.array([sum(G.load_total(r, L[int(r[0]) - 1])[0] for r in rr), sum(G.load_total(r, L[int(r[0]) - 1])[1] + xs[int(r[0]) - 1] * G.load_total(r, L[int(r[0]) - 1])[0] for r in rr)])
    mon.close(tot(case.to_LM()), tot(rows), 1e-9 * w * X * np.array([1.0, X]), "segment:total", f"segment {a}..{b}")
    if rows:
        mon.close(tot(rows)[0], w * (b - a), 1e-6 * w * X, "segment:total", "segment load")
        r1, r2 = analyse(m, case.to_LM(), m["npts"]), analyse(m, rows, m["npts"])
        for q in "MVD":
            z = np.asarray(getattr(r2.results, q), float)
            s = np.abs(z).max() + {"M": 1e-3 * w * X * X, "V": 1e-3 * w * X, "D": 1e-4 * w * X**4 / min(G.ei_min(m))}[q]
            mon.close(getattr(r1.results, q), z, 1e-6 * s, "segment:" + q, f"response to the segment, {q}")
        mon.event("segments")
    for bad in ((b, a), (a, a), (-0.1 * X, a + 0.01 * X), (a, 1.1 * X)):
        mon.raises(ValueError, lambda: cba.LoadCase("z").add_segment_udl(ba, bad[0], bad[1], w), "segment:refused", f"segment {bad}")
    # patterned basis: tiles every span; the sum of the pieces is the whole
    ns = m["nseg"]
    pat = cba.make_patterned_udl(ba, w, ns)
    mon.check(len(pat) == ns * len(L), "patterned:count", f"{len(pat)} cases")
    edge = 0.0
    ok = True
    for c in pat:
        r = c.to_LM()
        x0 = xs[int(r[0][0]) - 1] + r[0][3]
        ok &= len(r) == 1 and abs(x0 - edge) < 1e-9 * X
        edge = x0 + r[0][4]
        ok &= abs(c.metadata["x0"] - x0) < 1e-9 * X and abs(c.metadata["x1"] - edge) < 1e-9 * X
    mon.check(ok and abs(edge - X) < 1e-9 * X, "patterned:tiles", "the segments do not tile the beam")
    pos = pat.load_positions()
    mon.check(len(set(pos)) == len(pos) and sum(pos) == 2 ** len(pos) - 1, "patterned:ids", "load positions are not distinct bits")
    allw = [[i + 1, 1, w] for i in range(len(L))]
    full = analyse(m, allw, 10)
    old = ba.npts
    ba.npts = 10
    B = pat.response_matrix("M")[1]
    S = cba.make_span_udl_cases(ba, w)
    B2 = S.response_matrix("M")[1]
    ba.npts = old
    s = (np.abs(B).sum(axis=0)).max() + 1e-9
    K = 1e3 if m.get("kf") else 1.0
    mon.close(B.sum(axis=0), full.results.M, 1e-7 * K * s, "patterned:sum", "sum of all segments against the full load")
    mon.check(len(S) == len(L), "span-cases:count", f"{len(S)} cases")
    mon.close(B2.sum(axis=0), full.results.M, 1e-7 * K * s, "span-cases:sum", "sum of the span cases against the full load")
    for i, c in enumerate(S):
        mon.check(same_rows(c.to_LM(), [[i + 1, 1, w]]), "span-cases:loads", f"case {i}: {c.to_LM()}")
    full2 = cba.LoadCases(ba)
    full2.add_all_spans_udl("all", w)
    mon.check(same_rows(full2["all"].to_LM() if False else full2.case("all").to_LM(), allw), "all-spans", "add_all_spans_udl")
    mon.event("all_spans")
    for bad in (0, -1, 2.5, True):
        mon.raises(ValueError, lambda: cba.make_patterned_udl(ba, w, bad), "patterned:refused", f"{bad} segments")
