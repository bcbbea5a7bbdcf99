"""C24 - point queries, exports and station arrays are faithful to the diagrams"""
import contextlib
import io
import os
import pathlib
import tempfile

import numpy as np

from .. import gen as G, moving as MV, units as U
from . import c01

ID = "C24"
N_QUICK, N_THOROUGH = 1600, 16000
RULE = (
    "random beams of every member kind, and envelopes of random vehicle runs, queried at "
    "stations, nodes, just beside nodes, between stations; each value is compared with the "
    "member's own stations. Tables and CSV files (with random formatting options) are read "
    "back and compared with the diagrams; station grids and closures are checked"
)
MUST_SEE = (
    "stations_checked", "node_queries", "beside_node_queries", "inside_queries", "frames", "csv_files",
    "envelope_queries", "envelope_csv", "before_analysis", "closures", "curves",
)


UNITS = {"m": U.model, "run": U.traverse}


def gen(rng, i, tier):
    u = i % 5
    if u == 4:
        m = MV.gen_bridge(rng, 4)
        return {"kind": "env", "m": m, "run": MV.gen_run(rng, m, kmax=12), "r": int(rng.integers(0, 2**31))}
    kw = [
        {},
        dict(sections=0.8),
        dict(gav=1.0, kinds=("udl", "pl", "pudl", "ml", "trap", "ic")),
        dict(kf=1.0, releases=0.0, kinds=("udl", "pl", "pudl")),
    ][u]
    m = c01.gen_case(rng, nmax=6, **kw)
    return {"kind": "ba", "m": m, "r": int(rng.integers(0, 2**31))}


def queries(rng, xs, xe):
    """(x, kind) global coordinates; xs nodes, xe evaluation stations"""
    tot = float(xs[-1])
    out = []
    for j, x in enumerate(xs):
        out.append((float(x), "node", j))
        for s in (-1, 1):
            y = float(x) + s * tot * float(rng.choice([1e-6, 1e-5, 1e-3]))
            if 0 < y < tot:
                out.append((y, "beside", j))
    for _ in range(4):
        out.append((float(rng.uniform(0, tot)), "in", -1))
    for _ in range(3):
        out.append((float(xe[int(rng.integers(0, len(xe)))]), "station", -1))
    return out


def want_at(x, xs, members, tol):
    """
    Range of values allowed at x: that of the linear interpolation between the
    stations of the span x lies in; the left-hand limit at a node or station step.
    """
    for i, (mx, mv) in enumerate(members):
        if x <= xs[i + 1] + tol or i == len(members) - 1:
            break
    if i == 0 and x <= xs[0] + tol:
        return mv[0], mv[0]
    at = np.flatnonzero(np.abs(mx - x) <= tol)
    if len(at):
        # first of coincident stations; at the right-hand end of the span as well
        return mv[at].min() if len(at) > 1 else mv[at[0]], mv[at].max() if len(at) > 1 else mv[at[0]]
    k = int(np.searchsorted(mx, x)) - 1
    k = min(max(k, 0), len(mx) - 2)
    t = (x - mx[k]) / (mx[k + 1] - mx[k])
    v = mv[k] + t * (mv[k + 1] - mv[k])
    return v, v


def check_value(mon, got, band, scale, key, msg):
    lo, hi = band
    t = 1e-9 * max(scale, 1e-300)
    mon.checks += 1
    if not (isinstance(got, (float, int, np.floating)) and lo - t <= got <= hi + t):
        mon.fail(key, f"{msg}: {got!r}, the stations give {lo!r}..{hi!r}")


def read_csv(path, delim, skip):
    with open(path) as f:
        lines = f.read().splitlines()
    head = lines[0] if skip else None
    return head, np.array([[float(t) for t in r.split(delim)] for r in lines[skip:]])


def check_csv(mon, rng, d, write, names, cols, key):
    p = os.path.join(d, "out.csv")
    if rng.random() < 0.5:
        p = pathlib.Path(p)
    kw, delim, head, tol = {}, ",", ",".join(names), 1e-14
    u = rng.random()
    if u < 0.2:
        kw["delimiter"] = delim = str(rng.choice([";", "\t", " "]))
    elif u < 0.35:
        kw["fmt"], tol = "%.6e", 1e-6
    elif u < 0.5:
        kw["header"] = head = "a b c"
    got = write(p, **kw)
    mon.check(got == p, key, f"to_csv returned {got!r}")
    h, data = read_csv(p, delim, 1)
    mon.check(h == head, key, f"header {h!r} instead of {head!r}")
    want = np.column_stack(cols)
    if mon.check(data.shape == want.shape, key, f"{data.shape} values in the file, {want.shape} in the results"):
        mon.close(data, want, tol * np.maximum(np.abs(want), 1e-300) + 1e-300, key, f"file {kw}")


def run(c, mon):
    with tempfile.TemporaryDirectory(prefix="vp24_") as d:
        (run_ba if c["kind"] == "ba" else run_env)(c, mon, d)


def run_ba(c, mon, d):
    m = c["m"]
    rng = np.random.default_rng(c["r"])
    ba = G.build(m, how=m.get("how", 0))
    with contextlib.redirect_stdout(io.StringIO()):
        mon.check(ba.beam_results is None, "before", "results before any analysis")
        mon.check(ba.at(0.5) is None, "before", "at() before any analysis returned something")
        mon.check(ba.to_dataframe() is None, "before", "to_dataframe() before any analysis returned something")
        p = os.path.join(d, "none.csv")
        mon.check(ba.to_csv(p) is None and not os.path.exists(p), "before", "to_csv() before any analysis")
    mon.event("before_analysis")
    ba.analyze(m["npts"])
    br = ba.beam_results
    mon.state(G.describe(m))
    n = len(m["L"])
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    tot = float(xs[-1])
    # station grid, closure, concatenation
    mon.check(len(br.vRes) == n, "grid", "one result per member")
    for i, r in enumerate(br.vRes):
        x = np.asarray(r.x, float)
        mon.check(all(len(getattr(r, a)) == len(x) for a in "MVRD"), "grid", "array lengths")
        mon.close(x[[0, 1, -2, -1]], xs[[i, i, i + 1, i + 1]], 1e-12 * tot, "grid", "member end stations")
        mon.check(np.all(np.diff(x) >= -1e-12 * tot), "grid", "stations not in order")
        mon.event("stations_checked", len(x))
        if not (m.get("kf") and m["kf"][i] is not None):
            mon.check(len(x) == m["npts"] + 3, "grid", lambda: f"{len(x)} stations for npts={m['npts']}")
            mon.close(x[1:-1], np.linspace(xs[i], xs[i + 1], len(x) - 2), 1e-11 * tot, "grid", "even spacing")
        mon.event("closures")
        for a in "MVRD":
            v = np.asarray(getattr(r, a), float)
            s = 1e-9 * max(np.abs(v[1:-1]).max(), 1e-12)
            mon.close(v[[0, -1]], 0.0, s, "closure", f"{a} at the closing stations of member {i}")
    for a in "xMVRD":
        want = np.concatenate([np.asarray(getattr(r, a), float) for r in br.vRes])
        got = np.asarray(getattr(br.results, a), float)
        mon.check(np.array_equal(got, want), "concat", f"{a} of the whole beam is not that of the members")
    # point queries
    xe = np.concatenate([np.asarray(r.x, float)[1:-1] for r in br.vRes])
    tol = 1e-11 * max(1.0, tot)
    full = br.at(0.37 * tot)
    mon.check(sorted(full) == ["D", "M", "R", "V"], "at", f"at() returned {sorted(full)}")
    for x, kind, j in queries(rng, xs, xe):
        attrs = tuple(rng.permutation(list("MVRD"))[: int(rng.integers(1, 5))])
        got = br.at(x, attrs) if rng.random() < 0.5 else ba.at(x, attrs)
        mon.event({"node": "node_queries", "beside": "beside_node_queries"}.get(kind, "inside_queries"))
        if not mon.check(sorted(got) == sorted(attrs), "at", f"asked for {attrs}, got {sorted(got)}"):
            continue
        for a in attrs:
            mem = [(np.asarray(r.x, float)[1:-1], np.asarray(getattr(r, a), float)[1:-1]) for r in br.vRes]
            s = max(np.abs(v).max() for _, v in mem)
            check_value(mon, got[a], want_at(x, xs, mem, tol), s, "at", f"{a} at x={x!r} ({kind})")
    # deflection curve
    xc, dc = br.deflection_curve()
    mon.event("curves")
    mon.check(np.array_equal(np.asarray(xc, float), xe), "curve", "stations of the deflection curve")
    mon.check(
        np.array_equal(np.asarray(dc, float), np.concatenate([np.asarray(r.D, float)[1:-1] for r in br.vRes])),
        "curve", "deflections of the deflection curve",
    )
    # exports
    res = br.results
    for o in (ba, br):
        df = o.to_dataframe()
        mon.event("frames")
        mon.check(list(df.columns) == ["x", "M", "V", "R", "D"], "frame", f"columns {list(df.columns)}")
        for a in "xMVRD":
            mon.check(np.array_equal(df[a].to_numpy(), getattr(res, a)), "frame", f"column {a}")
        check_csv(mon, rng, d, o.to_csv, list("xMVRD"), [getattr(res, a) for a in "xMVRD"], "csv")
        mon.event("csv_files")
    # a query must not disturb the results
    ba2 = G.build(m, how=0)
    ba2.analyze(m["npts"])
    for a in "xMVRD":
        v = np.asarray(getattr(ba2.beam_results.results, a), float)
        mon.close(getattr(res, a), v, 1e-9 * max(np.abs(v).max(), 1e-300), "undisturbed", a)


def run_env(c, mon, d):
    import pycba as cba

    m, r = c["m"], c["run"]
    rng = np.random.default_rng(c["r"])
    ba = G.build(dict(m, LM=[]))
    v = MV.make_vehicle(r["v"])
    bridge = cba.BridgeAnalysis(ba, v)
    env = bridge.run_vehicle(r["step"]) if "step" in r else bridge.run_vehicle(0.5)
    mon.state("env", len(m["L"]))
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    tot = float(xs[-1])
    tol = 1e-11 * max(1.0, tot)
    mem0 = env.vResults[0].vRes
    cnt = np.cumsum([0] + [len(q.x) for q in mem0])
    mon.check(np.array_equal(env.x, np.concatenate([q.x for q in mem0])), "env-x", "stations of the envelope")
    names = ["Mmax", "Mmin", "Vmax", "Vmin", "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin"]
    xe = np.concatenate([np.asarray(q.x, float)[1:-1] for q in mem0])
    mon.check(sorted(env.at(0.4 * tot)) == sorted(names[:4]), "env-at", "default attributes")
    for x, kind, j in queries(rng, xs, xe):
        attrs = tuple(str(a) for a in rng.permutation(names)[: int(rng.integers(1, 5))])
        got = env.at(x, attrs)
        mon.event("envelope_queries")
        if not mon.check(sorted(got) == sorted(attrs), "env-at", f"asked for {attrs}, got {sorted(got)}"):
            continue
        for a in attrs:
            val = np.asarray(getattr(env, a), float)
            mem = [(np.asarray(q.x, float)[1:-1], val[cnt[k] : cnt[k + 1]][1:-1]) for k, q in enumerate(mem0)]
            check_value(mon, got[a], want_at(x, xs, mem, tol), np.abs(val).max(), "env-at", f"{a} at x={x!r} ({kind})")
    for attrs in (names[:4], [str(a) for a in rng.permutation(names)[:3]]):
        kw = {} if attrs == names[:4] and rng.random() < 0.5 else {"attrs": tuple(attrs)}
        df = env.to_dataframe(**kw)
        mon.check(list(df.columns) == ["x"] + attrs, "env-frame", f"columns {list(df.columns)}")
        for a in ["x"] + attrs:
            mon.check(np.array_equal(df[a].to_numpy(), getattr(env, a)), "env-frame", f"column {a}")
        check_csv(
            mon, rng, d, lambda p, **k: env.to_csv(p, **kw, **k), ["x"] + attrs,
            [getattr(env, a) for a in ["x"] + attrs], "env-csv",
        )
        mon.event("envelope_csv")
