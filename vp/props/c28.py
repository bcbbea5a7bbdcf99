"""C28 - a load-case collection is the ordered table its user has built"""
import copy

import numpy as np

from .. import gen as G, units as U

ID = "C28"
N_QUICK, N_THOROUGH = 4000, 50000
RULE = (
    "random histories of building a LoadCases collection (cases added, appended in every "
    "accepted form, replaced, extended load by load through the case and through the "
    "collection, refused requests in between, the caller's own data changed afterwards), "
    "each step compared with an ordered table kept separately: names, order, rows, spans, "
    "position identifiers, factor vectors and factored loads of combinations of every form"
)
MUST_SEE = (
    "built", "appended_case", "appended_dict", "appended_rows", "replaced", "load_added", "kinds", "refused", "segments",
    "vector", "mapping", "unbound", "stale_vector", "positions", "caller_data", "target", "rows_analysed",
)
ASSUMES = []
KINDS = ("udl", "pl", "pudl", "ml", "trap", "ic")
OPS = ("add", "add_case", "append_case", "append_dict", "append_rows", "extend", "set_old", "set_new", "load", "kind", "kind", "all_spans", "span_udl", "segment", "dup", "unknown", "bad_trap", "alias", "position")


def UNITS(c, a, f):
    ops = [dict(o, rows=U.rows(o["rows"], a, f), w=o["w"] * f) for o in c["ops"]]
    return dict(c, L=U.num(c["L"], a), ops=ops)


def gen(rng, i, tier):
    n = int(rng.integers(1, 5))
    L = [G.rnd(rng.uniform(1, 20)) for _ in range(n)]
    ops = []
    for k in range(int(rng.integers(4, 16))):
        op = str(rng.choice(OPS)) if k > 1 else str(rng.choice(["add", "append_case", "append_dict", "append_rows"]))
        ops.append({
            "op": op, "u": float(rng.random()), "v": float(rng.random()),
            "rows": G.gen_loads(rng, L, KINDS, nmax=3), "w": G.rnd(rng.uniform(-10, 10)),
            "kind": str(rng.choice(KINDS)), "span": int(rng.integers(1, n + 1)),
            "meta": bool(rng.random() < 0.4), "via": bool(rng.random() < 0.5),
        })
    return {
        "L": L, "ops": ops, "f": [G.factor(rng) if rng.random() > 0.25 else 0.0 for _ in range(60)],
        "bare": bool(rng.random() < 0.4), "np": bool(rng.random() < 0.3),
    }


def rows_of(o):
    return [[float(v) for v in r] for r in o]


def near(a, b):
    a, b = rows_of(a), rows_of(b)
    return len(a) == len(b) and all(len(x) == len(y) and np.allclose(x, y, rtol=1e-12, atol=0) for x, y in zip(a, b))


def observe(lc):
    return [(c.name, rows_of(c.loads), tuple(c.loaded_spans), copy.deepcopy(c.metadata)) for c in lc]


def run(c, mon):
    import pycba as cba

    L = c["L"]
    n = len(L)
    X = float(sum(L))
    edges = np.concatenate([[0.0], np.cumsum(L)])
    ba = cba.BeamAnalysis(list(L), 5e4, [-1, 0] * (n + 1))
    lc = cba.LoadCases(ba.beam if c["bare"] else ba)
    T = []  # the table: [name, rows, spans, metadata]

    def find(name):
        return next((t for t in T if t[0] == name), None)

    def expect(msg):
        mon.check(len(lc) == len(T) and lc.names == tuple(t[0] for t in T), "order", f"{msg}: names {lc.names} instead of {[t[0] for t in T]}")
        got = observe(lc)
        for g, t in zip(got, T):
            mon.check(g[0] == t[0] and near(g[1], t[1]), "rows", f"{msg}: case {g[0]} holds {g[1]} instead of {t[1]}")
            mon.check(t[2] is None or g[2] == tuple(t[2]), "spans", f"{msg}: loaded spans {g[2]} of {g[0]} instead of {t[2]}")
            mon.check(t[3] is ... or g[3] == t[3], "metadata", f"{msg}: metadata {g[3]} of {g[0]} instead of {t[3]}")
        lm = lc.to_LM()
        mon.check(list(lm) == [t[0] for t in T] and all(near(lm[t[0]], t[1]) for t in T), "table", f"{msg}: load matrices by name")
        mon.check([q.name for q in lc.cases] == [t[0] for t in T] and isinstance(lc.cases, tuple), "order", f"{msg}: cases")
        if T:
            mon.check(lc[0].name == T[0][0] and lc[-1].name == T[-1][0] and [q.name for q in lc[1:]] == [t[0] for t in T[1:]], "order", f"{msg}: by index")
        pos = lc.load_positions()
        want = [(t[3] or {}).get("load_position", 1 << k) if t[3] is not ... else None for k, t in enumerate(T)]
        mon.check(len(pos) == len(want) and all(w is None or p == w for p, w in zip(pos, want)), "positions", f"{msg}: identifiers {pos} instead of {want}")

    serial = 0
    for o in c["ops"]:
        serial += 1
        op, rows = o["op"], [list(r) for r in o["rows"]]
        meta = {"note": [serial], "load_position": 7 * serial} if o["meta"] else None
        spans = tuple(sorted({int(r[0]) - 1 for r in rows}))
        name = f"case {serial}"
        t = T[int(o["u"] * len(T))] if T else None
        mon.state(op, min(len(T), 5))
        if op == "add":
            r = lc.add(name, rows, loaded_spans=spans if o["via"] else (), metadata=meta)
            T.append([name, o["rows"], spans if o["via"] else (), copy.deepcopy(meta)])
            mon.check(r is lc.case(name), "returned", "add returns the stored case")
            mon.event("built")
        elif op == "add_case":
            r = lc.add_case(name, None if o["via"] else rows, metadata=meta)
            T.append([name, [] if o["via"] else o["rows"], (), copy.deepcopy(meta)])
            mon.check(r is lc.case(name), "returned", "add_case returns the stored case")
            mon.event("built")
        elif op == "append_case":
            given = cba.LoadCase(name, rows, metadata=meta)
            lc.append(given)
            T.append([name, o["rows"], spans, copy.deepcopy(meta)])
            given.loads.append([1, 1, 3.0])
            mon.event("appended_case")
        elif op == "append_dict":
            given = {"name": name, "loads": rows}
            if meta:
                given["metadata"] = meta
            lc.append(given)
            T.append([name, o["rows"], spans, copy.deepcopy(meta)])
            given["loads"].append([1, 1, 3.0])
            given["name"] = "other"
            mon.event("appended_dict")
        elif op == "append_rows":
            r = lc.append(rows)
            name = f"LC {len(T) + 1}"
            mon.check(r.name == name, "named", f"a bare load matrix was named {r.name}")
            T.append([name, o["rows"], spans, None])
            mon.event("appended_rows")
        elif op == "extend":
            more = [cba.LoadCase(f"{name}{q}", [list(r) for r in rows]) for q in "ab"]
            lc.extend(more)
            for q in more:
                T.append([q.name, o["rows"], spans, None])
        elif op == "set_old" and t:
            r = lc.set(t[0], rows, loaded_spans=spans, metadata=meta)
            t[1:] = [o["rows"], spans, copy.deepcopy(meta)]
            mon.check(r is lc.case(t[0]), "returned", "set returns the stored case")
            mon.event("replaced")
        elif op == "set_new":
            lc.set(name, rows, metadata=meta)
            T.append([name, o["rows"], (), copy.deepcopy(meta)])
            mon.event("replaced")
        elif op == "load":
            r = rows[0]
            nm = t[0] if t and o["via"] else name
            mon.check(lc.add_load(nm, r) is lc.case(nm), "returned", "add_load returns the case")
            add(T, nm, [o["rows"][0]])
            mon.event("load_added")
        elif op == "kind":
            nm = t[0] if t else name
            x, y = 0.4 * o["v"] * L[o["span"] - 1], 0.5 * L[o["span"] - 1]
            k, s, w = o["kind"], o["span"], o["w"]
            row = {"udl": [[s, 1, w]], "pl": [[s, 2, w, x]], "pudl": [[s, 3, w, x, y]], "ml": [[s, 4, w, x]],
                   "trap": [[s, 5, w, 2 * w, x, y]] if o["u"] < 0.5 else [[s, 5, w, 2 * w]], "ic": [[s, 6, w, 2.0]] if o["u"] < 0.5 else [[s, 6, w]]}[k]
            args = {"udl": (w,), "pl": (w, x), "pudl": (w, x, y), "ml": (w, x), "trap": tuple(row[0][2:]), "ic": (row[0][2:] if o["u"] < 0.5 else w,)}[k]
            if o["via"]:
                r = getattr(lc, "add_" + k)(nm, s, *args)
            else:
                q = lc.case(nm)
                r = getattr(q, "add_" + k)(s, *args)
            mon.check(r is lc.case(nm), "returned", f"add_{k} returns the case")
            add(T, nm, row)
            mon.event("kinds")
        elif op == "all_spans":
            nm = t[0] if t and o["via"] else name
            lc.add_all_spans_udl(nm, o["w"])
            add(T, nm, [[j + 1, 1, o["w"]] for j in range(n)])
        elif op == "span_udl":
            if find("UDL on span 1") is None:
                got = lc.add_span_udl(o["w"])
                mon.check([q.name for q in got] == [f"UDL on span {j + 1}" for j in range(n)], "returned", "span cases")
                for j in range(n):
                    T.append([f"UDL on span {j + 1}", [[j + 1, 1, o["w"]]], (j,), ...])
            else:
                mon.raises(ValueError, lambda: lc.add_span_udl(1.0), "refused", "the span cases a second time")
        elif op == "segment":
            nm = t[0] if t else name
            a, b = sorted((o["u"] * X, (o["u"] + 0.1 + 0.8 * o["v"] * (1 - o["u"])) * X))
            b = min(b, X)
            if o["via"]:
                a = float(edges[int(o["u"] * n)])
            if o["v"] < 0.3:
                b = float(edges[max(min(n, int(o["u"] * n) + 1), min(n, int(np.searchsorted(edges, b))))])
            if b <= a + 1e-4 * X:
                b = X
            if b <= a + 1e-4 * X:
                a = 0.0
            old = len(find(nm)[1]) if find(nm) else 0
            lc.add_segment_udl(nm, a, b, o["w"])
            got = lc.case(nm).to_LM()[old:]
            covers = []
            for r in got:
                j = int(r[0]) - 1
                s = 0.0 if r[1] == 1 else r[3]
                e = L[j] if r[1] == 1 else r[4]
                covers.append((edges[j] + s, edges[j] + s + e))
                mon.check(r[2] == o["w"] and r[1] in (1, 3), "segment", f"row {r} for the intensity {o['w']}")
            covers.sort()
            ok = bool(covers) and abs(covers[0][0] - a) < 1e-9 * X and abs(covers[-1][1] - b) < 1e-9 * X and all(abs(p[1] - q[0]) < 1e-9 * X for p, q in zip(covers, covers[1:]))
            mon.check(ok, "segment", f"the segment {a}..{b} became {covers}")
            add(T, nm, got)
            mon.event("segments")
        elif op == "dup" and t:
            mon.raises(ValueError, lambda: lc.add(t[0], rows), "refused", "a second case of that name")
            mon.raises(ValueError, lambda: lc.append(cba.LoadCase(t[0], rows)), "refused", "a second case of that name")
            mon.raises(ValueError, lambda: lc.append({"name": t[0], "loads": rows}), "refused", "a second case of that name")
            mon.raises(ValueError, lambda: lc.add_case(t[0]), "refused", "a second case of that name")
            mon.event("refused")
        elif op == "unknown":
            mon.raises(KeyError, lambda: lc.case("nobody", create=False), "refused", "an unknown case")
            mon.raises(IndexError, lambda: lc[len(T)], "refused", "a case beyond the last")
            if T:
                mon.raises(KeyError, lambda: lc.factors({"nobody": 1.0}), "refused", "factors of an unknown case")
                mon.raises(ValueError, lambda: lc.factors([1.0] * (len(T) + 1)), "refused", "too many factors")
                mon.raises(ValueError, lambda: lc.factors(np.ones((2, len(T) + 1))), "refused", "too many factors")
            mon.event("refused")
        elif op == "bad_trap" and t:
            mon.raises(ValueError, lambda: lc.add_trap(t[0], 1, 1.0, 2.0, 0.1), "refused", "a trapezoid without its length")
            for a, b in ((0.5 * X, 0.5 * X), (0.6 * X, 0.5 * X), (-0.1 * X, 0.5 * X), (0.5 * X, 1.1 * X)):
                mon.raises(ValueError, lambda: lc.add_segment_udl(t[0], a, b, 1.0), "refused", f"the segment {a}..{b}")
            mon.event("refused")
        elif op == "alias" and t:
            # returned tables are the caller's own
            lm = lc.to_LM()
            for v in lm.values():
                v.append([1, 1, 9.0])
            q = lc.case(t[0]).to_LM()
            for r in q:
                r[2] = -1e9
            mon.event("caller_data")
        elif op == "position" and t and t[3] is not ...:
            w = 11 + serial
            lc.case(t[0]).metadata = {"load_position": w}
            t[3] = {"load_position": w}
            mon.event("positions")
        # what the caller handed in stays the caller's
        for r in rows:
            r[2] = 4321.0
        rows.append([1, 1, 1.0])
        if meta:
            meta["note"].append("later")
            meta["load_position"] = -1
            mon.event("caller_data")
        expect(op)
    # ---- combinations of every form
    k = len(T)
    if k == 0:
        return
    f = np.array((c["f"] * (k // len(c["f"]) + 1))[:k])
    want = [[float(v) for v in r] for fk, t in zip(f, T) if fk for r in scaled(t[1], fk)]
    by_name = {t[0]: v for t, v in zip(T, f) if v}
    by_index = {j: v for j, v in enumerate(f) if v}
    mixed = {(j if j % 2 else T[j][0]): v for j, v in enumerate(f) if v}
    forms = {"list": list(f), "tuple": tuple(f), "array": f.copy(), "name": by_name, "index": by_index, "mixed": mixed, "np.index": {np.int64(j): v for j, v in by_index.items()}}
    for nm, g in forms.items():
        kept = copy.deepcopy(g)
        comb = cba.LoadCombination("k", g, metadata={"a": [1]})
        v = lc.factors(comb)
        mon.check(np.array_equal(v, f) and np.array_equal(lc.factors(g), f) and np.array_equal(comb.factor_vector(lc), f), "factors", f"{nm} factors {v} instead of {f}")
        for q in (lc.combined_loads(g), comb.to_LM(lc), lc.combined_loads(comb)):
            mon.check(near(q, want), "factored", f"{nm}: {q} instead of {want}")
        one = comb.to_load_case(lc)
        mon.check(one.name == "k" and near(one.loads, want) and one.loaded_spans == tuple(sorted({int(r[0]) - 1 for r in want})), "factored", f"as one case: {one}")
        one.metadata["a"].append(2)
        mon.check(comb.metadata == {"a": [1]}, "caller-data", "metadata of the combination shared with the load case")
        mon.check(str(kept) == str(g), "caller-data", "factors changed")
        mon.raises(ValueError, comb.to_LM, "unbound", "a combination without its load cases")
        mon.raises(ValueError, comb.factor_vector, "unbound", "a combination without its load cases")
        mon.event("mapping" if isinstance(g, dict) else "vector")
    mon.event("unbound")
    F = np.array([f, 2 * f, np.arange(k)])
    mon.check(np.array_equal(lc.factors(F), F) and np.array_equal(lc.factors(F.tolist()), F), "factors", "several factor sets")
    mon.raises(ValueError, lambda: lc.combined_loads(F), "refused", "several factor sets in one load matrix")
    mon.raises(ValueError, lambda: lc.factors(3.0), "refused", "one number for all cases")
    mon.raises(IndexError, lambda: lc.factors({k: 1.0}), "refused", "the index of no case")
    expect("combining")
    # ---- analysed rows are the rows of the table
    x, B = lc.response_matrix("M")
    mon.check(B.shape == (k, len(x)), "analysed", f"response matrix {B.shape} of {k} cases")
    for j, t in enumerate(T[:6]):
        b = cba.BeamAnalysis(list(L), 5e4, [-1, 0] * (n + 1), LM=[list(r) for r in t[1]])
        b.analyze()
        M = b.beam_results.results.M
        mon.close(B[j], M, 1e-9 * (np.abs(M).max() + 1e-9), "analysed", f"moments of {t[0]}")
        mon.event("rows_analysed")
    # ---- a combination made for a target keeps to its collection
    t = lc.target_combination("t", c["ops"][0]["u"] * X, "max", selected_factor=1.5, unselected_factor=0.5)
    v = t.factor_vector()
    near0 = np.abs(t.metadata["target_values"])
    sel = [T[j][0] for j in range(k) if v[j] == 1.5]
    mon.check(t.metadata["selected_names"] == sel and t.metadata["selected_indices"] == [j for j in range(k) if v[j] == 1.5] and len(near0) == k, "target", f"{t.metadata}")
    mon.check(near(t.to_LM(), [r for fk, q in zip(v, T) for r in scaled(q[1], fk)]), "target", "loads of the target combination")
    other = cba.LoadCases(ba)
    for j, q in enumerate(T):
        other.add(q[0], [[1, 1, 1.0 + j]])
    mon.check(near(t.to_LM(other), [[1, 1, fk * (1.0 + j)] for j, fk in enumerate(v)]), "target", "the collection named in the call comes first")
    mon.event("target")
    # ---- later cases: a vector no longer fits, a mapping leaves them out
    lc.add("later", [[1, 1, 1.0]])
    mon.raises(ValueError, lambda: cba.LoadCombination("k", list(f)).to_LM(lc), "stale", "a vector made before the last case")
    mon.check(near(lc.combined_loads(by_name), want) and near(lc.combined_loads(by_index), want), "stale", "mappings after one more case")
    mon.event("stale_vector")


def add(T, name, rows):
    for t in T:
        if t[0] == name:
            t[1] = [list(r) for r in t[1]] + [list(r) for r in rows]
            return
    T.append([name, [list(r) for r in rows], (), None])


def scaled(rows, f):
    out = []
    for r in rows:
        r = list(r)
        k = len(r) if r[1] == 6 else 4 if r[1] == 5 else 3
        out.append(r[:2] + [v * f for v in r[2:k]] + r[k:])
    return out
