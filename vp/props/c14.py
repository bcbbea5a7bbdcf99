"""C14 - merging, superposing and querying envelopes"""
import copy

import numpy as np

from .. import gen as G, moving, oracle, units as U

ID = "C14"
N_QUICK, N_THOROUGH = 700, 7000
RULE = (
    "random bridges each crossed by several random vehicles and loaded by random static "
    "cases; every way of merging or adding the envelopes (operators, class method, "
    "in-place methods, any order and grouping) is compared with the extremes over the "
    "individual analyses recorded while they ran"
)
MUST_SEE = ("merges", "sums", "same_count_merges", "mixed_count_merges", "operands_checked", "ratios", "rejected", "per_span", "single", "other_supports")

EXT = ("Mmax", "Mmin", "Vmax", "Vmin")
CO = {"Mmax": "Vco_Mmax", "Mmin": "Vco_Mmin", "Vmax": "Mco_Vmax", "Vmin": "Mco_Vmin"}


UNITS = {"runs": U.many(U.traverse), "static": U.many(U.rows)}


def gen(rng, i, tier):
    m = moving.gen_bridge(rng, nmax=3)
    runs = []
    for _ in range(int(rng.integers(2, 5))):
        runs.append(moving.gen_run(rng, m, kmax=18))
    if rng.random() < 0.6:  # same number of positions
        X = float(sum(m["L"]))
        for r in runs:
            r["start"], r["end"] = 0.0, X
            r["step"] = X / 9
    m["runs"] = runs
    m["static"] = [G.gen_loads(rng, m["L"], nmax=3) for _ in range(2)]
    m["order"] = [int(k) for k in rng.permutation(len(runs))]
    return m


def snap(e):
    out = {k: np.array(getattr(e, k), float) for k in EXT + tuple(CO.values()) + ("x", "Rmax", "Rmin", "Rmaxval", "Rminval")}
    out["n"] = (int(e.npts), int(e.nsup), int(e.nres))
    return out


def unchanged(mon, e, s, key):
    t = snap(e)
    ok = all(np.array_equal(s[k], t[k]) for k in s if k != "n") and s["n"] == t["n"]
    mon.check(ok, key, "merging changed an operand")
    mon.event("operands_checked")


def expect_env(mon, out, parts, key, nres):
    """pointwise extremes with the governing part's co-existing values"""
    for q in EXT:
        A = np.array([p[q] for p in parts])
        w = A.max(axis=0) if q.endswith("max") else A.min(axis=0)
        got = np.asarray(getattr(out, q), float)
        s = np.abs(A).max() + 1e-9
        mon.close(got, w, 1e-12 * s, key + ":" + q, q)
        C = np.array([p[CO[q]] for p in parts])
        co = np.asarray(getattr(out, CO[q]), float)
        gov = np.abs(A - w) <= 1e-12 * s
        ok = np.any(gov & (np.abs(C - co) <= 1e-12 * (np.abs(C).max() + 1e-9)), axis=0)
        # nothing governs a zero extreme
        ok |= (np.abs(w) <= 1e-12 * s) & (co == 0)
        mon.check(bool(ok.all()), key + ":" + CO[q], lambda: f"{CO[q]} at station {int(np.argmin(ok))} is not the governing part's")
    mon.close(out.Rmaxval, np.max([p["Rmaxval"] for p in parts], axis=0) if parts[0]["n"][1] else [], 1e-12, key + ":Rmaxval", "Rmaxval")
    mon.close(out.Rminval, np.min([p["Rminval"] for p in parts], axis=0) if parts[0]["n"][1] else [], 1e-12, key + ":Rminval", "Rminval")
    same = all(p["n"][2] == parts[0]["n"][2] for p in parts)
    for q, f in (("Rmax", np.max), ("Rmin", np.min)):
        got = np.asarray(getattr(out, q), float)
        if same:
            mon.close(got, f([p[q] for p in parts], axis=0), 1e-12, key + ":" + q, q + " history")
        else:
            mon.check(not np.any(got), key + ":" + q, q + " history kept for analyses that do not correspond")
    mon.event("same_count_merges" if same else "mixed_count_merges")


def expect_sum(mon, out, parts, key):
    for q in EXT + ("Rmaxval", "Rminval"):
        w = np.sum([p[q] for p in parts], axis=0)
        mon.close(getattr(out, q), w, 1e-12 * (np.abs(w).max() if np.size(w) else 0) + 1e-9, key + ":" + q, q)
    same = all(p["n"][2] == parts[0]["n"][2] for p in parts)
    for q in ("Rmax", "Rmin"):
        got = np.asarray(getattr(out, q), float)
        if same:
            w = np.sum([p[q] for p in parts], axis=0)
            mon.close(got, w, 1e-12 * (np.abs(w).max() if np.size(w) else 0) + 1e-9, key + ":" + q, q + " history")
        else:
            mon.check(not np.any(got), key + ":" + q, q + " history kept for analyses that do not correspond")


def run(m, mon):
    import pycba as cba

    ba = G.build(m, how=m["how"])
    b = cba.BridgeAnalysis(ba)
    E = cba.Envelopes
    envs = []
    for r in m["runs"]:
        b.set_vehicle(moving.make_vehicle(r["v"]))
        kw = {k: r[q] for k, q in (("pos_start", "start"), ("pos_end", "end")) if r[q] is not None}
        envs.append(b.run_vehicle(r["step"], **kw))
    # static cases lifted into envelopes
    for rows in m["static"]:
        s = G.build(dict(m, LM=rows))
        if not envs:
            break
        mon.raises(ValueError, lambda: E.from_beam_analysis(s), "unanalysed", "envelope of a beam not analysed")
        s.analyze()
        e = E.from_beam_analysis(s)
        q = s.beam_results.results
        mon.close(e.Mmax, np.maximum(q.M, 0), 0.0, "single", "Mmax of one analysis")
        mon.close(e.Mmin, np.minimum(q.M, 0), 0.0, "single", "Mmin of one analysis")
        mon.close(e.Vmax, np.maximum(q.V, 0), 0.0, "single", "Vmax of one analysis")
        mon.close(e.Vmin, np.minimum(q.V, 0), 0.0, "single", "Vmin of one analysis")
        mon.close(e.Vco_Mmax, np.where(q.M > 0, q.V, 0), 0.0, "single", "Vco_Mmax of one analysis")
        mon.close(e.Mco_Vmin, np.where(q.V < 0, q.M, 0), 0.0, "single", "Mco_Vmin of one analysis")
        mon.event("single")
        envs.append(e)
    P = [snap(e) for e in envs]
    mon.state(f"k{len(envs)}", "nres" + "".join("=" if p["n"][2] == P[0]["n"][2] else "x" for p in P), f"sup{P[0]['n'][1]}")
    n = len(envs)
    # zero element
    z = E.zero_like(envs[0])
    zs = snap(z)
    mon.check(all(not np.any(zs[k]) for k in zs if k not in ("x", "n")), "zero", "zero_like is not zero")
    mon.close(zs["x"], P[0]["x"], 0.0, "zero", "stations of zero_like")
    # whole-list merges, in any order
    full = E.combine(envs)
    expect_env(mon, full, P, "combine", None)
    o = [envs[k % n] for k in m["order"]] + envs[len(m["order"]):]
    po = [P[k % n] for k in m["order"]] + P[len(m["order"]):]
    expect_env(mon, E.combine(o, mode="envelope"), po, "combine-order", None)
    mon.event("merges", 2)
    # operators, two at a time: pair, nested left and right
    a, c = envs[0], envs[1]
    expect_env(mon, a | c, P[:2], "or", None)
    expect_env(mon, c | a, P[1::-1], "or-swapped", None)
    expect_env(mon, a | a, [P[0], P[0]], "or-self", None)
    left = (envs[0] | envs[1]) | envs[2]
    right = envs[0] | (envs[1] | envs[2])
    expect_env(mon, left, P[:3], "or-left", None)
    expect_env(mon, right, P[:3], "or-right", None)
    mon.event("merges", 5)
    # in place, from a zero element
    acc = E.zero_like(envs[-1])
    for e in envs:
        ret = acc.augment(e)
        mon.check(ret is None, "augment", "augment returned something")
    want = [p for p in P]
    for q in EXT:
        A = np.array([p[q] for p in want])
        mon.close(getattr(acc, q), A.max(axis=0) if q.endswith("max") else A.min(axis=0), 1e-12 * (np.abs(A).max() + 1e-9), "augment:" + q, q)
    # superposition
    expect_sum(mon, a + c, P[:2], "plus")
    expect_sum(mon, E.combine(envs, mode="sum"), P, "sum-all")
    expect_sum(mon, (envs[0] + envs[1]) + envs[2], P[:3], "plus-left")
    expect_sum(mon, envs[0] + (envs[1] + envs[2]), P[:3], "plus-right")
    acc = copy.deepcopy(envs[0])
    acc.sum(envs[1])
    expect_sum(mon, acc, P[:2], "sum-in-place")
    mon.event("sums", 5)
    # a merged envelope merged again must not resurrect a partial history
    same = [k for k in range(n) if P[k]["n"][2] == P[0]["n"][2]]
    diff = [k for k in range(n) if P[k]["n"][2] != P[0]["n"][2]]
    if diff:
        mix = envs[0] | envs[diff[0]]
        for k in same:
            again = mix | envs[k]
            expect_env(mon, again, [P[0], P[diff[0]], P[k]], "remerge", None)
            other = envs[k] | mix
            expect_env(mon, other, [P[k], P[0], P[diff[0]]], "remerge", None)
            mon.event("merges", 2)
        # a zero element made from it is a fresh start
        z = E.zero_like(mix)
        mon.check(not any(np.any(getattr(z, q)) for q in EXT + ("Rmax", "Rmin", "Rmaxval", "Rminval") + tuple(CO.values())), "zero", "zero_like of a merged envelope is not zero")
        z.augment(envs[0])
        expect_sum(mon, z, P[:1], "rezero")
    for e, p in zip(envs, P):
        unchanged(mon, e, p, "mutated")
    # incompatible envelopes
    mm = dict(m, L=list(m["L"]) + [5.0], EI=list(m["EI"]) + [1e4], R=list(m["R"]) + [-1, 0], LM=[[1, 1, 2.0]])
    for k in ("D", "et"):
        mm.pop(k, None)
    if not G.mechanism(mm):
        f = G.build(mm)
        f.analyze()
        g = E.from_beam_analysis(f)
        mon.raises(ValueError, lambda: a | g, "rejects", "envelopes of different beams merged")
        mon.raises(ValueError, lambda: a + g, "rejects", "envelopes of different beams added")
        mon.raises(ValueError, lambda: b.envelopes_ratios(a, g), "rejects", "ratios of envelopes of different beams")
        mon.event("rejected")
    # the same stations, one support fewer or more
    mm = dict(m, R=list(m["R"]), LM=[[1, 1, 2.0]])
    for k in ("D", "et"):
        mm.pop(k, None)
    free = [j for j in range(0, len(mm["R"]), 2) if mm["R"][j] == 0]
    for j in free + [j for j in range(0, len(mm["R"]), 2) if mm["R"][j] == -1]:
        R = list(mm["R"])
        R[j] = -1 if j in free else 0
        if G.mechanism(dict(mm, R=R)):
            continue
        f = G.build(dict(mm, R=R))
        f.analyze()
        g = E.from_beam_analysis(f)
        if len(g.x) != len(a.x) or g.nsup == a.nsup:
            break
        for how in ("augment", "sum"):
            acc = copy.deepcopy(a)
            mon.raises(ValueError, lambda: getattr(acc, how)(g), "rejects", f"{how} of envelopes with other supports")
            unchanged(mon, acc, P[0], "refused")
        mon.event("other_supports")
        break
    mon.raises(ValueError, lambda: E.combine([]), "rejects", "empty combination")
    mon.raises(ValueError, lambda: E.combine([a], mode="product"), "rejects", "unknown mode")
    # per-span extremes
    k0 = 0
    for q in EXT:
        got = full.per_span(q)
        ch = full.per_span(q, reduce="none")
        vals = np.asarray(getattr(full, q))
        mon.check(len(got) == len(m["L"]), "per-span", f"{len(got)} values for {len(m['L'])} spans")
        xs = np.concatenate([[0.0], np.cumsum(m["L"])])
        k0 = 0
        for i in range(len(m["L"])):
            npt = len(ch[i])
            x = np.asarray(full.x)[k0 : k0 + npt]
            mon.close([x.min(), x.max()], [xs[i], xs[i + 1]], 1e-9 * xs[-1], "per-span", f"extent of chunk {i}")
            mon.close(ch[i], vals[k0 : k0 + npt], 0.0, "per-span", "raw chunk")
            f = np.max if q.endswith("max") else np.min
            mon.close(got[i], f(vals[k0 : k0 + npt]), 0.0, "per-span", "reduced value")
            k0 += npt
        mon.check(k0 == len(vals), "per-span", "chunks do not cover the envelope")
    mon.event("per_span")
    # ratios, also of envelopes which were themselves merged or added
    al, su = E.combine(envs), E.combine(envs, mode="sum")
    pal, psu = snap(al), snap(su)
    for top, bot, p, r in ((a, c, P[0], P[1]), (a, al, P[0], pal), (al, c, pal, P[1]), (al, su, pal, psu), (c, a, P[1], P[0])):
        ratios(mon, b.envelopes_ratios(top, bot), p, r)
    unchanged(mon, al, pal, "mutated")


def ratios(mon, ra, p, r):
    for q in EXT:
        x, y = p[q], r[q]
        with np.errstate(all="ignore"):
            w = np.where(np.abs(y) > 1e-3, np.abs(x / np.where(y == 0, 1, y)), 0.0)
        clear = np.abs(np.abs(y) - 1e-3) > 1e-9
        mon.close(np.asarray(ra[q])[clear], w[clear], 1e-9 * (1 + np.abs(w).max()), "ratio:" + q, "ratio of " + q)
    for k in range(p["n"][1]):
        for q, v in ((f"Rmax{k}", "Rmaxval"), (f"Rmin{k}", "Rminval")):
            x, y = p[v][k], r[v][k]
            if abs(abs(y) - 1e-3) > 1e-9:
                w = abs(x / y) if abs(y) > 1e-3 else 0.0
                mon.close(ra[q], w, 1e-9 * (1 + abs(w)), "ratio:R", q)
    mon.event("ratios")
