"""C17 - vehicles: geometry, reversal, trains, and the standard library"""
import copy

import numpy as np

from .. import gen as G, moving, oracle, units as U

ID = "C17"
N_QUICK, N_THOROUGH = 4000, 40000
RULE = (
    "random vehicles (1-6 axles, coincident axles, lists/tuples/arrays), reversed in "
    "place, copied, queued into trains with common or individual gaps; every vehicle of "
    "the standard library over its whole parameter range and just outside it; the loads "
    "each one puts on a simple span (total and first moment) and on a random continuous "
    "bridge (superposition of its members) are compared with axle lists kept separately"
)
MUST_SEE = ("vehicles", "reversed", "trains", "mixed_train", "equal_gap", "library", "library_rejects", "library_isolated", "crossings", "refused")

KIP, FT = 4.4482216152605, 0.3048
T = 9.81


def lib_cases(rng):
    """(label, call, spacings, weights) from the published definitions"""
    u = lambda a, b: G.rnd(rng.uniform(a, b))
    i4, i3 = int(rng.integers(0, 4)), int(rng.integers(0, 3))
    a, b, c, d, e, f, g = u(6.25, 15), u(3, 8), u(4.27, 9.14), u(4.3, 9.0), u(10, 120), u(25, 45), u(12, 20)
    q, al, h, aw = int(rng.integers(1, 13)), u(0.75, 1.46), float(rng.choice([6, 11, 16, 21, 26])), u(100, 350)
    if rng.random() < 0.3:  # limits of the ranges
        a, b, c, d, g = 6.25, float(rng.choice([3, 8])), float(rng.choice([4.27, 9.14])), float(rng.choice([4.3, 9])), float(rng.choice([12, 20]))
    m16 = [1.25, 1.25, 3.75, 1.25, 1.25, a, 1.25, 1.25, 5.0, 1.25, 1.25]
    loco_w, loco_s = [5, 10, 10, 10, 10, 6.5, 6.5, 6.5, 6.5], [8, 5, 5, 5, 9, 5, 6, 5]
    grp = [1.7, 1.1, 1.7]
    la_s = [2.0] + (grp + [g - 4.5]) * q
    tri = 22.5 / 3
    return [
        ("AU.get_abag_semitrailer", [i4], [3.0, 1.2, 4.4 + 2 * i4, 1.2, 1.2], [T * t for t in (6, 8.5, 8.5, tri, tri, tri)]),
        ("AU.get_abag_bdouble", [i3], [3.0, 1.2, 5.5 + 0.5 * i3, 1.2, 1.2, 6.5 - 0.5 * i3, 1.2, 1.2], [T * t for t in (6, 8.5, 8.5) + (tri,) * 6]),
        ("AU.get_example_permit", [], [1.793, 2.507, 1.370, 5.403, 1.232, 1.232, 6.303, 1.232, 1.232], [T * t for t in (5.5, 5.5, 8.5, 8.5) + (7.5,) * 6]),
        ("AU.get_m1600", [a], m16, [120.0] * 12),
        ("AU.get_s1600", [a], m16, [80.0] * 12),
        ("AU.get_a160", [], [], [160.0]),
        ("AU.get_w80", [], [], [80.0]),
        ("AU.get_la_rail", [q, g, aw], la_s[:-1], [1.2 * aw] + [aw] * (4 * q)),
        ("AU.get_300la", [q, g], la_s[:-1], [360.0] + [300.0] * (4 * q)),
        ("AU.get_300la", [], ([2.0] + (grp + [7.5]) * 10)[:-1], [360.0] + [300.0] * 40),
        ("AU.get_t44", [b], [3.7, 1.2, b, 1.2], [48.0, 96, 96, 96, 96]),
        ("AU.get_t44", [], [3.7, 1.2, 3.0, 1.2], [48.0, 96, 96, 96, 96]),
        ("AU.get_ms18", [c], [4.27, c], [35.6, 142.3, 142.3]),
        ("US.get_hl93_truck", [d], [4.3, d], [35.0, 145, 145]),
        ("US.get_hl93_truck", [], [4.3, 4.3], [35.0, 145, 145]),
        ("US.get_hl93_tandem", [], [1.2], [110.0, 110]),
        ("US.get_cooper", [e], [FT * s for s in loco_s + [8] + loco_s], [KIP * e / 10 * w for w in loco_w * 2]),
        ("US.get_cooper", [], [FT * s for s in loco_s + [8] + loco_s], [KIP * 8 * w for w in loco_w * 2]),
        ("EU.get_lm1", [al], [1.2], [300 * al] * 2),
        ("EU.get_lm71", [al], [1.6] * 3, [250 * al] * 4),
        ("UK.get_hb", [f, h], [1.8, h, 1.8], [10 * f] * 4),
        ("UK.get_hb", [], [1.8, 6.0, 1.8], [450.0] * 4),
        ("CA.get_cl625", [], [3.6, 1.2, 6.6, 6.6], [50.0, 125, 125, 175, 150]),
        ("CN.get_jtg_vehicle", [], [3.0, 1.4, 7.0, 1.4], [30.0, 120, 120, 140, 140]),
        ("get_validation_truck", [], [4, 4], [5, 4, 3]),
    ]


REJECT = [
    ("AU.get_m1600", [6.24]), ("AU.get_s1600", [6.2]), ("AU.get_la_rail", [5, 11.9]), ("AU.get_la_rail", [5, 20.1]),
    ("AU.get_la_rail", [0, 12]), ("AU.get_t44", [2.99]), ("AU.get_t44", [8.01]), ("AU.get_ms18", [4.26]), ("AU.get_ms18", [9.15]),
    ("US.get_hl93_truck", [4.29]), ("US.get_hl93_truck", [9.01]), ("AU.get_300la", [-1, 12]),
]


def lookup(cba, path):
    o = cba.VehicleLibrary
    for p in path.split("."):
        o = getattr(o, p)
    return o


UNITS = {"v": U.many(U.vehicle), "gap": (1, 0), "m": U.model}


def gen(rng, i, tier):
    c = {"kind": ["veh", "train", "cross", "lib"][i % 4]}
    if c["kind"] == "lib":
        c["lib"] = lib_cases(rng)
        c["fac"] = G.rnd(rng.uniform(1.1, 2))
        return c
    c["v"] = [moving.gen_vehicle(rng) for _ in range(1 if c["kind"] == "veh" else int(rng.integers(1, 5)))]
    n = len(c["v"])
    c["gap"] = [G.rnd(rng.uniform(0.5, 20)) for _ in range(n - 1)]
    if n > 1 and rng.random() < 0.4:
        c["gap"] = [c["gap"][0]]
    c["form"] = int(rng.integers(0, 3))
    if c["kind"] == "cross":
        c["m"] = moving.gen_bridge(rng, nmax=3)
        c["m"]["LM"] = []
        c["m"].pop("D", None)
        c["p"] = [float(rng.uniform(0, 1.5)) for _ in range(3)]
    return c


def as_form(x, f):
    return np.array(x, float) if f == 0 else (list(x) if f == 1 else tuple(x))


def compare(mon, veh, ax, key, msg):
    """the axles of a pycba vehicle against (offset, weight) pairs"""
    sc = 1e-9 * (abs(ax[-1][0]) + abs(ax[0][0]) + 1)
    W = sum(w for _, w in ax)
    mon.check(int(veh.NoAxles) == len(ax), key + ":count", f"{msg}: {veh.NoAxles} axles, expected {len(ax)}")
    if int(veh.NoAxles) != len(ax):
        return
    mon.close(veh.W, W, 1e-9 * W, key + ":W", msg + " total weight")
    Lv = max(c for c, _ in ax) - min(c for c, _ in ax)
    mon.close(veh.L, Lv, sc, key + ":L", msg + " length")
    g = sorted(zip(np.asarray(veh.axle_coords, float).tolist(), np.asarray(veh.axw, float).tolist()))
    e = sorted(ax)
    mon.close([c for c, _ in g], [c for c, _ in e], sc, key + ":coords", msg + " axle coordinates")
    # group by location (coincident axles may come in any order)
    A = lambda z: [sum(w for c, w in z if abs(c - c0) < 1e-6) for c0, _ in z]
    mon.close(A(g), A(e), 1e-9 * W, key + ":weights", msg + " axle weights")


def loads(mon, cba, veh, ax, key):
    """what the vehicle puts on a simple span longer than itself"""
    Lv = max(c for c, _ in ax)
    L = 1.5 * Lv + 3.0
    b = cba.BridgeAnalysis(cba.BeamAnalysis([L], 1e5, [-1, 0, -1, 0]), veh)
    p = Lv + 1.0
    br = b.static_vehicle(p)
    R = np.asarray(br.R, float).ravel()
    W = sum(w for _, w in ax)
    mon.close(R.sum(), W, 1e-9 * W, key + ":on-span", "total load on the span")
    mon.close(R[1] * L, sum(w * (p - c) for c, w in ax), 1e-9 * W * L, key + ":on-span", "first moment of the loads on the span")


def run(c, mon):
    import pycba as cba

    if c["kind"] == "lib":
        return library(c, mon, cba)
    vs = c["v"]
    if c["kind"] == "veh":
        v = vs[0]
        f = c["form"]
        sp, w = as_form(v["sp"], f), as_form(v["w"], f)
        sp0, w0 = copy.deepcopy(sp), copy.deepcopy(w)
        veh = cba.Vehicle(sp, w)
        fwd = moving.axles(dict(v, rev=False))
        bwd = moving.axles(dict(v, rev=True))
        compare(mon, veh, fwd, "vehicle", "vehicle")
        loads(mon, cba, veh, fwd, "vehicle")
        rc = veh.reverse(in_place=False)
        compare(mon, rc, bwd, "reversed-copy", "reversed copy")
        loads(mon, cba, rc, bwd, "reversed-copy")
        compare(mon, veh, fwd, "reversed-copy:original", "vehicle after taking a reversed copy")
        compare(mon, rc.reverse(in_place=False), fwd, "reversed-copy", "copy of the copy")
        out = veh.reverse()
        mon.check(out is None, "reversed", "reverse() returned a value")
        compare(mon, veh, bwd, "reversed", "vehicle reversed in place")
        loads(mon, cba, veh, bwd, "reversed")
        compare(mon, veh.reverse(in_place=False), fwd, "reversed-copy", "reversed copy of a reversed vehicle")
        veh.reverse(in_place=True)
        compare(mon, veh, fwd, "reversed-twice", "vehicle reversed twice")
        loads(mon, cba, veh, fwd, "reversed-twice")
        same = np.array_equal(np.asarray(sp), np.asarray(sp0)) and np.array_equal(np.asarray(w), np.asarray(w0))
        mon.check(same, "inputs", "the caller's axle data changed")
        if f == 0 and len(sp):  # the caller's arrays are not shared
            sp *= 2
            w *= 3
            compare(mon, veh, fwd, "inputs", "vehicle after the caller reused its arrays")
        mon.raises(ValueError, lambda: cba.Vehicle(np.array(list(v["sp"]) + [1.0]), np.array(v["w"])), "counts", "one spacing too many")
        mon.raises(ValueError, lambda: cba.Vehicle(np.array(v["sp"]), np.array(v["w"] + [1.0])), "counts", "one weight too many")
        mon.event("refused", 2)
        mon.event("vehicles")
        mon.event("reversed")
        mon.state("veh", len(v["w"]), "coincident" if 0.0 in v["sp"] else "", f)
        return
    # ---- trains
    n = len(vs)
    objs = [moving.make_vehicle(v) for v in vs]
    before = [(np.array(o.axle_coords), np.array(o.axw), np.array(o.axs)) for o in objs]
    gap = as_form(c["gap"], c["form"]) if n > 1 else []
    train = cba.make_train(objs, gap)
    gaps = c["gap"] if len(c["gap"]) == n - 1 else c["gap"] * (n - 1)
    ax, off, offs = [], 0.0, []
    for k, v in enumerate(vs):
        if k:
            off += gaps[k - 1]
        offs.append(off)
        ax += sorted((off + cc, w) for cc, w in moving.axles(v))
        off += moving.vlen(v)
    compare(mon, train, ax, "train", "train")
    mon.event("trains")
    if any(v["rev"] for v in vs) and not all(v["rev"] for v in vs):
        mon.event("mixed_train")
    if n > 2 and len(c["gap"]) == 1:
        mon.event("equal_gap")
    ok = all(np.array_equal(a, b) for o, t in zip(objs, before) for a, b in zip((o.axle_coords, o.axw, o.axs), t))
    mon.check(ok, "train:operands", "making a train changed a vehicle")
    mon.state("train", n, sum(v["rev"] for v in vs), len(c["gap"]))
    if n > 1:
        for bad in ([1.0] * (n + 1), [1.0] * (n - 2) if n > 3 else [1.0] * (n + 2)):
            mon.raises(ValueError, lambda: cba.make_train(objs, bad), "train:counts", f"{len(bad)} gaps for {n} vehicles")
        mon.raises(ValueError, lambda: cba.make_train(objs[:-1] + ["truck"], gap), "train:type", "a train with something that is no vehicle")
        mon.event("refused", 3)
    loads(mon, cba, train, ax, "train")
    if c["kind"] == "cross":
        # the train on a continuous bridge = its vehicles superposed
        m = c["m"]
        X = float(sum(m["L"]))
        ba = G.build(m)
        bt = cba.BridgeAnalysis(ba, train)
        bv = [cba.BridgeAnalysis(ba, o) for o in objs]
        Lt = ax[-1][0]
        sc = 1e-7 * sum(w for _, w in ax) + 1e-9
        for u in c["p"]:
            p = u * (X + Lt) / 1.5
            # keep clear of joints and deck ends, where an axle may go either way
            xs = np.concatenate([[0.0], np.cumsum(m["L"])])
            if min(abs(p - cc - x) for cc, _ in ax for x in xs) < 1e-6:
                continue
            r = bt.static_vehicle(p)
            tot = {"M": 0, "V": 0, "R": 0, "D": 0}
            gx = np.asarray(r.results.x)
            for b, o in zip(bv, offs):
                q = b.static_vehicle(p - o)
                tot = {"M": tot["M"] + q.results.M, "V": tot["V"] + q.results.V, "D": tot["D"] + q.results.D, "R": tot["R"] + np.asarray(q.R)}
            # a station under an axle: either side
            st = np.array([np.min(np.abs(gx - (p - cc))) < 1e-7 for cc, _ in ax])
            if not st.any():
                mon.close(r.results.V, tot["V"], sc, "superpose:V", f"train at {p}")
            mon.close(r.results.M, tot["M"], sc * X, "superpose:M", f"train at {p}")
            mon.close(np.asarray(r.R), tot["R"], sc * (1 + X), "superpose:R", f"train at {p}")
            D = np.asarray(r.results.D)
            ds = max(np.abs(D).max(), np.abs(tot["D"]).max()) + 1e-12
            mon.close(D, tot["D"], 1e-6 * ds + sc * X**3 / min(m["EI"]), "superpose:D", f"train at {p}")
            mon.event("crossings")


def library(c, mon, cba):
    for path, args, sp, w in c["lib"]:
        fn = lookup(cba, path)
        veh = fn(*args)
        mon.check(isinstance(veh, cba.Vehicle), "library:type", path)
        ax = moving.axles({"sp": sp, "w": w})
        W = sum(w)
        x = np.asarray(veh.axle_coords, float)
        mon.check(len(x) == len(ax) and len(veh.axw) == len(ax), "library:count", f"{path}{args}: {len(x)} axles, expected {len(ax)}")
        if len(x) != len(ax):
            continue
        mon.close(x, [a for a, _ in ax], 1e-6 * (ax[-1][0] + 1), "library:coords", f"{path}{args} axle coordinates")
        mon.close(veh.axw, w, 1e-6 * W, "library:weights", f"{path}{args} axle weights")
        mon.close([veh.W, veh.L], [W, sum(sp)], 1e-6 * (W + sum(sp)), "library:totals", f"{path}{args} weight and length")
        mon.event("library")
        mon.state("lib", path, len(args))
        # a changed vehicle must not change the library
        veh.axw *= int(np.ceil(c["fac"])) if veh.axw.dtype.kind == "i" else c["fac"]
        veh.reverse()
        v2 = fn(*args)
        mon.close(v2.axw, w, 1e-6 * W, "library:isolated", f"{path}{args} after scaling an earlier copy")
        mon.close(v2.axle_coords, [a for a, _ in ax], 1e-6 * (ax[-1][0] + 1), "library:isolated", f"{path}{args} after reversing an earlier copy")
        mon.event("library_isolated")
    for path, args in REJECT:
        mon.raises(ValueError, lambda: lookup(cba, path)(*args), "library:range", f"{path}{args}")
        mon.event("library_rejects")
