"""C15 - moving load models: axles plus lane load, placed and conserved"""
import numpy as np

from .. import gen as G, moving, oracle, units as U

ID = "C15"
N_QUICK, N_THOROUGH = 900, 9000
RULE = (
    "random bridges crossed by random vehicles accompanied by a lane load, continuous "
    "or interrupted by random clear zones (including zero and longer than the bridge); "
    "every position's total support force is compared with the axles on the deck plus "
    "lane load on the uncleared length plus permanent loads, and envelopes with a "
    "from-scratch re-analysis of each position"
)
MUST_SEE = ("positions", "continuous", "interrupted", "fully_cleared", "partly_cleared", "conserved", "bad_clearances")


UNITS = {"run": U.traverse, "clear": (1, 0), "w": (-1, 1)}


def gen(rng, i, tier):
    m = moving.gen_bridge(rng)
    m["run"] = moving.gen_run(rng, m, kmax=35)
    X = float(sum(m["L"]))
    u = rng.random()
    if u < 0.3:
        m["clear"] = None
    elif u < 0.45:
        m["clear"] = [0.0, 0.0]
    elif u < 0.6:
        m["clear"] = [0.0, G.rnd(rng.uniform(0, 0.6) * X)]
    elif u < 0.7:
        m["clear"] = [G.rnd(rng.uniform(0, 1.5) * X), 0.0]
    else:
        m["clear"] = [G.rnd(rng.uniform(0, 0.4) * X), G.rnd(rng.uniform(0, 0.4) * X)]
    m["w"] = G.rnd(rng.uniform(2, 30))
    if rng.random() < 0.05:
        m["w"] = 0.0
    return m


def run(m, mon):
    import pycba as cba

    r = m["run"]
    v = r["v"]
    ba = G.build(m, how=m["how"])
    b = cba.BridgeAnalysis(ba, moving.make_vehicle(v))
    kw = {}
    if r["start"] is not None:
        kw["pos_start"] = r["start"]
    if r["end"] is not None:
        kw["pos_end"] = r["end"]
    if m["clear"] is not None:
        kw["clearances"] = tuple(m["clear"])
    env = b.run_load_model(r["step"], m["w"], **kw)
    s, e = moving.positions(m, r)
    pos = np.asarray(b.pos, float)
    X = float(sum(m["L"]))
    k = (e - s) / r["step"]
    lo, hi = int(np.floor(k + 0.5 - 1e-6)) + 1, int(np.ceil(k + 0.5 + 1e-6))
    mon.check(lo <= len(pos) <= hi, "positions", f"{len(pos)} positions from {s} to {e} by {r['step']}")
    mon.close(pos, s + r["step"] * np.arange(len(pos)), 1e-9 * (X + abs(e)), "positions", "vehicle positions")
    mon.event("positions", len(pos))
    mon.event("continuous" if m["clear"] is None else "interrupted")
    mon.state(G.describe(m), f"ax{len(v['w'])}", "clear" if m["clear"] else "cont")
    band = moving.Band(m)
    W0 = sum(G.load_total(q, m["L"][int(q[0]) - 1])[0] for q in m["LM"])
    for p, res in zip(pos, b.vResults):
        extra = moving.lane_rows(m["w"], float(p), v, m["L"], m["clear"])
        alts = moving.axle_rows(v, float(p), m["L"])
        band.add(alts, extra)
        # conservation at this position
        free = X
        if m["clear"] is not None:
            a, c = p - moving.vlen(v) - m["clear"][0], p + m["clear"][1]
            free = X - max(0.0, min(c, X) - max(a, 0.0))
            mon.event("fully_cleared" if free < 1e-9 else ("partly_cleared" if free < X - 1e-9 else "outside"))
        on = [sum(t[2] for t in al) for al in alts]
        tot = float(np.sum(oracle.support_forces(m, res)[0::2]))
        want = [W0 + m["w"] * free + w for w in on]
        sc = abs(W0) + m["w"] * X + sum(v["w"]) + np.abs(res.R).sum() + np.abs(res.Rs).sum()
        oracle.between(mon, [tot], [min(want)], [max(want)], 1e-7 * sc, "conserved", f"total support force with the vehicle at {p}")
        mon.event("conserved")
    moving.check_envelope(mon, env, band)
    for bad in (1.0, (1.0,), (1.0, 2.0, 3.0), (-1.0, 0.0), (0.0, -1e-3), (float("nan"), 0.0), (0.0, float("inf"))):
        mon.raises(ValueError, lambda: b.run_load_model(r["step"], m["w"], clearances=bad), "clearances", f"clearances {bad}")
    mon.event("bad_clearances")
    # after a refused run the analysis still works and gives the same answer
    env2 = b.run_load_model(r["step"], m["w"], **kw)
    for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
        mon.close(getattr(env2, q), getattr(env, q), 1e-12 * band.scale(q[0]), "repeat", q)
