"""C13 - vehicle traverses: every position, every axle, true envelopes"""
import numpy as np

from .. import gen as G, moving, oracle, units as U

ID = "C13"
N_QUICK, N_THOROUGH = 900, 9000
RULE = (
    "random bridges (hinges, springs, settlements, permanent loads) crossed by random "
    "vehicles (1-6 axles, coincident axles, longer than the bridge, reversed) with "
    "default and custom ranges; every position is re-analysed from scratch with the "
    "axles found independently, and the envelopes, co-existing values and reaction "
    "histories are compared"
)
MUST_SEE = ("positions", "envelopes", "axle_over_node", "reference_positions", "static_positions", "permanent_loads", "axles_at_deck_end", "axles_rounded_off_the_deck")
ASSUMES = ["an axle exactly over a joint may be assigned to either adjoining span (the shear sample at that joint then takes either side)"]


UNITS = {"run": U.traverse}


def gen(rng, i, tier):
    m = moving.gen_bridge(rng, sections=0.4 if i % 6 == 0 else 0.0, gav=0.5 if i % 6 == 1 else 0.0)
    m["run"] = moving.gen_run(rng, m)
    m["via"] = int(rng.integers(0, 4))
    m["pick"] = [int(k) for k in rng.integers(0, 10**6, 2)]
    if i % 5 == 2:
        m["end"] = [int(rng.integers(5, 300)), int(rng.integers(1, 8)), int(rng.integers(0, 3)), int(rng.integers(1, 90))]
    return m


def bridge(m, via):
    import pycba as cba

    v = m["run"]["v"]
    ba = G.build(m, how=m["how"])
    if via == 0:
        return cba.BridgeAnalysis(ba, moving.make_vehicle(v))
    b = cba.BridgeAnalysis()
    if via == 3:
        # another bridge, with loads of its own, was crossed before this one
        L0 = [1.3 * x for x in m["L"]]
        m0 = dict(m, L=L0, EI=[float(e) for e in G.ei_min(m)], LM=[[1, 1, 7.0], [len(L0), 2, 3.0, L0[-1] / 3]], D=None)
        b.set_bridge(G.build(m0, how=m["how"]))
        b.set_vehicle(moving.make_vehicle(v))
        b.run_vehicle(sum(L0) / 7)
    if via in (1, 3) or m["LM"] or m.get("D"):
        b.set_bridge(ba)
    else:
        EI = [G.sec(cba, s) for s in m["EI"]]
        g = [G.sec(cba, s) for s in m["GAv"]] if m.get("GAv") else None
        b.add_bridge(m["L"], EI, m["R"], eletype=m.get("et"), GAv=g)
    if v.get("rev"):
        b.set_vehicle(moving.make_vehicle(v))
    else:
        b.add_vehicle(np.array(v["sp"]), np.array(v["w"]))
    return b


def run(m, mon):
    from .. import ref

    r = m["run"]
    v = r["v"]
    b = bridge(m, m["via"])
    kw = {}
    if r["start"] is not None:
        kw["pos_start"] = r["start"]
    if r["end"] is not None:
        kw["pos_end"] = r["end"]
    env = b.run_vehicle(r["step"], **kw)
    s, e = moving.positions(m, r)
    pos = np.asarray(b.pos, float)
    mon.state(G.describe(m), f"ax{len(v['w'])}", "rev" if v["rev"] else "fwd")
    X = float(sum(m["L"]))
    k = (e - s) / r["step"]
    lo, hi = int(np.floor(k + 0.5 - 1e-6)) + 1, int(np.ceil(k + 0.5 + 1e-6))
    mon.check(lo <= len(pos) <= hi, "positions", f"{len(pos)} positions from {s} to {e} by {r['step']}")
    mon.close(pos, s + r["step"] * np.arange(len(pos)), 1e-9 * (X + abs(e)), "positions", "vehicle positions")
    mon.event("positions", len(pos))
    if m["LM"]:
        mon.event("permanent_loads")
    band = moving.Band(m)
    for p in pos:
        alts = moving.axle_rows(v, float(p), m["L"])
        if len(alts) > 1:
            mon.event("axle_over_node")
        band.add(alts, [])
    moving.check_envelope(mon, env, band)
    mon.event("envelopes")
    # the per-position results the analysis keeps
    mon.check(len(b.vResults) == len(pos), "history", f"{len(b.vResults)} results for {len(pos)} positions")
    ms, fs = band.scale("M"), band.scale("V")
    for kk in m["pick"]:
        j = kk % len(pos)
        a, c = ({q: band.bounds(band.all[j], q)[z] for q in ("M", "V", "R")} for z in (0, 1))
        q = b.vResults[j].results
        oracle.between(mon, q.M, a["M"], c["M"], 1e-8 * ms, "position:M", f"moments at position {pos[j]}")
        oracle.between(mon, q.V, a["V"], c["V"], 1e-8 * fs, "position:V", f"shears at position {pos[j]}")
        # one position through the single-position interface
        st = b.static_vehicle(float(pos[j]))
        oracle.between(mon, st.results.M, a["M"], c["M"], 1e-8 * ms, "static:M", f"static_vehicle({pos[j]})")
        oracle.between(mon, st.R, a["R"], c["R"], 1e-8 * (band.scale("R") + fs), "static:R", f"static_vehicle({pos[j]})")
        mon.event("static_positions")
        # and the envelope encloses the independent solution there
        alts = moving.axle_rows(v, float(pos[j]), m["L"])
        if len(alts) == 1:
            sol = ref.Solution(dict(m, LM=list(m["LM"]) + alts[0]))
            x0 = 0.0
            i0 = 0
            for i, Li in enumerate(m["L"]):
                npt = len(q.x) // len(m["L"])
                sl = slice(i0 + 1, i0 + npt - 1)
                x = np.asarray(env.x, float)[sl] - x0
                z = sol.states(i, np.clip(x, 0, Li), "L")
                y = sol.states(i, np.clip(x, 0, Li), "R")
                mon.check(np.all(np.minimum(z[:, 2], y[:, 2]) <= env.Mmax[sl] + 1e-6 * ms), "encloses", "moment above the envelope")
                mon.check(np.all(np.maximum(z[:, 2], y[:, 2]) >= env.Mmin[sl] - 1e-6 * ms), "encloses", "moment below the envelope")
                mon.check(np.all(np.minimum(z[:, 3], y[:, 3]) <= env.Vmax[sl] + 1e-6 * fs), "encloses", "shear above the envelope")
                mon.check(np.all(np.maximum(z[:, 3], y[:, 3]) >= env.Vmin[sl] - 1e-6 * fs), "encloses", "shear below the envelope")
                x0 += Li
                i0 += npt
            mon.event("reference_positions")
    if m.get("end"):
        deck_end(m, mon)


def deck_end(m, mon):
    """an axle that stops at an end of the deck, but for the rounding of its position, is on it"""
    import pycba as cba

    n, s, k, g = m["end"]
    step = s / 10
    L = n * s / 10
    R = ([-1, 0, -1, 0], [-1, -1, 0, 0], [0, 0, -1, -1])[k]
    veh = cba.Vehicle(np.array([g / 10]), np.array([7.0, 11.0]))
    b = cba.BridgeAnalysis(cba.BeamAnalysis([L], 1e4, R), veh)
    b.run_vehicle(step)
    for p, res in zip(b.pos, b.vResults):
        x = np.array([p, p - g / 10])
        w = np.array([7.0, 11.0])
        edge = np.minimum(abs(x), abs(x - L)) <= 1e-12 * L
        off = edge & ((x < 0) | (x > L))
        on = (x >= 0) & (x <= L)
        got = float(res.R[0] + (res.R[1] if k == 0 else 0.0)) if k < 2 else float(res.R[0])
        mon.event("axles_at_deck_end", int((edge & on).sum()))
        mon.event("axles_rounded_off_the_deck", int(off.sum()))
        if abs(got - w[on | off].sum()) <= 1e-9 * 18:
            continue
        if off.any():
            # (recorded: an existing test of the repository pins results without it)
            mon.fail("axle-at-deck-end-rounding", f"axles at {x[off]} of a deck of {L} are not counted")
        else:
            mon.check(False, "deck-end", f"support force {got} with axles at {x} on a deck of {L}")
    mon.event("deck_ends")
