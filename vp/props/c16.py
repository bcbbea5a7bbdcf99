"""C16 - critical values of a traverse and both-sided shears at requested sections"""
import numpy as np

from .. import gen as G, moving, oracle, units as U

ID = "C16"
N_QUICK, N_THOROUGH = 900, 9000
RULE = (
    "random bridges crossed by random vehicles (with or without a lane load) with "
    "requested shear sections: random points, points on the evaluation grid, at axle "
    "positions, at supports, off the deck, and a distance dv from every support; every "
    "reported extreme, its location, coincident value and vehicle positions, and both "
    "shear limits at every section, are compared with a from-scratch re-analysis of "
    "each position"
)
MUST_SEE = ("criticals", "sections", "axle_on_section", "grid_section", "node_section", "dv", "static_jump", "stale_rejected", "lane", "no_sections_after", "stale_sections")


UNITS = {
    "run": U.traverse, "pts": (1, 0), "dv": (1, 0),
    "lane": lambda v, a, f: [v[0] * f / a, U.num(v[1], a)],
}


def gen(rng, i, tier):
    m = moving.gen_bridge(rng, nmax=4)
    m["run"] = moving.gen_run(rng, m, kmax=30)
    r = m["run"]
    L = m["L"]
    xs = np.concatenate([[0.0], np.cumsum(L)])
    X = float(xs[-1])
    pts = []
    for _ in range(int(rng.integers(1, 5))):
        u = rng.random()
        k = int(rng.integers(0, len(L)))
        if u < 0.25:
            pts.append(G.rnd(rng.uniform(0, X)))
        elif u < 0.5:  # on the evaluation grid, to rounding
            pts.append(float(xs[k] + L[k] * int(rng.integers(1, 100)) / 100))
        elif u < 0.75:  # where an axle stands at some position
            n = int(rng.integers(0, 12))
            c = moving.axles(r["v"])[int(rng.integers(0, len(r["v"]["w"])))][0]
            p = (r["start"] or 0.0) + n * r["step"] - c
            pts.append(float(p))
        elif u < 0.88:
            pts.append(float(xs[int(rng.integers(0, len(xs)))]))
        elif u < 0.94:  # just inside a member end
            d = float(L[k] * 10.0 ** rng.uniform(-6, -2))
            pts.append(float(xs[k] + d if rng.random() < 0.5 else xs[k] + L[k] - d))
        else:
            pts.append(G.rnd(rng.uniform(-0.5 * X, 1.5 * X)))
    m["pts"] = pts if rng.random() < 0.85 else None
    m["dv"] = G.rnd(rng.uniform(0.02, 0.7) * min(L), 3) if (m["pts"] is None or rng.random() < 0.4) else None
    m["lane"] = None
    if rng.random() < 0.25:
        m["lane"] = [G.rnd(rng.uniform(2, 20)), None if rng.random() < 0.5 else [0.0, G.rnd(0.3 * X)]]
    m["form"] = int(rng.integers(0, 4))
    return m


def near(a, b, X):
    return abs(a - b) <= 1e-9 * X


def run(m, mon):
    import pycba as cba

    r = m["run"]
    v = r["v"]
    L = m["L"]
    n = len(L)
    xs = np.concatenate([[0.0], np.cumsum(L)])
    X = float(xs[-1])
    ba = G.build(m, how=m["how"])
    b = cba.BridgeAnalysis(ba, moving.make_vehicle(v))
    kw = {}
    if r["start"] is not None:
        kw["pos_start"] = r["start"]
    if r["end"] is not None:
        kw["pos_end"] = r["end"]
    # the sections one expects
    want = list(m["pts"] or [])
    sup = [float(xs[j]) for j in range(n + 1) if m["R"][2 * j] != 0]
    if m["dv"] is not None:
        want += [s - m["dv"] for s in sup] + [s + m["dv"] for s in sup]
        kw["dv"] = m["dv"]
        mon.event("dv")
    edge = [g for g in want if near(g, 0, X) or near(g, X, X)]
    want = sorted({g for g in want if 0 < g < X} - set(edge))
    pts = m["pts"]
    if pts is not None:
        f = m["form"]
        kw["shear_points"] = pts if f == 0 else (np.array(pts) if f == 1 else (tuple(pts) if f == 2 else pts))
        if f == 3 and len(pts) == 1:
            kw["shear_points"] = pts[0]
    if m["lane"]:
        w, cl = m["lane"]
        env = b.run_load_model(r["step"], w, clearances=tuple(cl) if cl else None, **kw)
        mon.event("lane")
    else:
        env = b.run_vehicle(r["step"], **kw)
    pos = np.asarray(b.pos, float)
    got = [float(g) for g in b.shear_points_x]
    inner = [g for g in got if not (near(g, 0, X) or near(g, X, X))]
    mon.check(
        inner == sorted(inner) and len(inner) == len(want) and all(near(a, c, X) for a, c in zip(inner, want)),
        "sections-placed", f"sections {inner}, expected {want}",
    )
    if len(inner) != len(want):
        return
    # pairs on the evaluation grid
    where = {}
    sp = {}
    for g in got:
        j = [k for k in range(n + 1) if near(g, xs[k], X)]
        if j:
            where[g] = ("node", j[0])
            continue
        i = int(np.searchsorted(xs, g) - 1)
        where[g] = ("in", i)
        sp.setdefault(i, []).append(g - float(xs[i]))
    band = moving.Band(m, {k: np.array(sorted(z)) for k, z in sp.items()})
    for p in pos:
        extra = moving.lane_rows(m["lane"][0], float(p), v, L, m["lane"][1]) if m["lane"] else []
        band.add(moving.axle_rows(v, float(p), L), extra)
    mon.state(G.describe(m), f"ax{len(v['w'])}", f"sp{len(got)}", "dv" if m["dv"] else "")
    if len(env.x) == len(band.all[0][0]["x"]):
        moving.check_envelope(mon, env, band)
    else:  # an endpoint section: the grid is compared through the values only
        mon.check(bool(edge), "grid", f"{len(env.x)} stations, expected {len(band.all[0][0]['x'])}")
        return
    cv = b.critical_values(env)
    # ---- extremes
    for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
        sgn = 1 if q.endswith("max") else -1
        s = band.scale(q[0])
        lo, hi = band.env(q[0], sgn)
        c = cv[q]
        a, z = (lo.max(), hi.max()) if sgn > 0 else (lo.min(), hi.min())
        oracle.between(mon, [c["val"]], [a], [z], 1e-8 * s, "critical:val", f"critical {q}")
        k = np.flatnonzero(np.abs(np.asarray(env.x, float) - c["at"]) <= 1e-9 * X)
        ok = len(k) > 0 and bool(np.any(sgn * (hi if sgn > 0 else lo)[k] >= sgn * c["val"] - 1e-8 * s))
        mon.check(ok, "critical:at", f"{q} = {c['val']} is not reached at x = {c['at']}")
        # positions which attain it
        listed = np.asarray(c["pos"], float)
        mon.check(len(listed) > 0, "critical:pos", f"{q}: no positions listed")
        ext = []
        for al in band.all:
            e = [sgn * (sgn * x[q[0]]).max() for x in al]
            ext.append((min(e), max(e)))
        for p, (e0, e1) in zip(pos, ext):
            isin = bool(np.any(np.abs(listed - p) <= 1e-9 * (X + abs(p))))
            d = 0.0 if e0 <= c["val"] <= e1 else min(abs(e0 - c["val"]), abs(e1 - c["val"]))
            if isin:
                mon.check(d <= 2e-4 * abs(c["val"]) + 1e-7 * s, "critical:pos", f"{q} = {c['val']} is not attained with the vehicle at the listed position {p} ({e0}..{e1})")
            elif abs(e1 - e0) <= 1e-9 * s:
                mon.check(d > 1e-9 * abs(c["val"]) or abs(c["val"]) <= 1e-9 * s, "critical:pos", f"{q} = {c['val']} is attained at {p}, which is not listed")
        # coincident
        o = "V" if q[0] == "M" else "M"
        co = c[o + "co"]
        so = band.scale(o)
        ok = abs(c["val"]) <= 1e-8 * s and abs(co) <= 1e-8 * so
        for al in band.all:
            for kk in k:
                l1, h1 = (x[kk] for x in band.bounds(al, q[0]))
                l2, h2 = (x[kk] for x in band.bounds(al, o))
                ok |= bool(l1 - 1e-7 * s <= c["val"] <= h1 + 1e-7 * s and l2 - 1e-7 * so <= co <= h2 + 1e-7 * so)
        mon.check(ok, "critical:co", f"{o} = {co} does not coincide with {q} = {c['val']} at {c['at']}")
    nr = int((np.asarray(m["R"]) < 0).sum())
    mon.check(int(cv["nsup"]) == nr, "critical:R", f"nsup {cv['nsup']}")
    if nr:
        s = band.scale("R")
        a, z = (np.array(t).T for t in zip(*[band.bounds(p, "R") for p in band.all]))
        for i in range(nr):
            for nm, f, g in (("Rmax", np.maximum, np.max), ("Rmin", np.minimum, np.min)):
                c = cv[f"{nm}{i}"]
                oracle.between(mon, [c["val"]], [g(f(a[i], 0))], [g(f(z[i], 0))], 1e-8 * s, "critical:R", f"{nm}{i}")
                j = np.flatnonzero(np.abs(pos - c["pos"]) <= 1e-9 * (X + abs(c["pos"])))
                ok = len(j) == 1 and f(a[i], 0)[j[0]] - 1e-7 * s <= c["val"] <= f(z[i], 0)[j[0]] + 1e-7 * s
                mon.check(bool(ok), "critical:Rpos", f"{nm}{i} = {c['val']} with the vehicle at {c['pos']}")
    mon.event("criticals")
    # ---- both-sided shears
    if got:
        blk = cv["shear_points"]
        mon.check([g for g in sorted(blk) if g in inner] == inner and set(blk) <= set(got), "sections-reported", f"{sorted(blk)} reported for {got}")
    else:
        mon.check(not cv.get("shear_points"), "sections-reported", "sections reported, none requested")
        blk = {}
    fs = band.scale("V") + sum(v["w"])
    dl = 1e-8
    st = [[oracle.Statics(m, oracle.support_forces(m, al["br"]), al["rows"]) for al in p] for p in band.all]
    for g, c in blk.items():
        if g not in where:
            continue
        kind, i = where[g]
        sides = {}
        for side in ("left", "right"):
            bl, bh = [], []
            for p in st:
                vals = []
                for t in p:
                    if kind == "node":
                        mem, x = (i - 1, float(L[i - 1])) if side == "left" else (i, 0.0)
                        e = t.band(mem, [x])
                    else:
                        mem = i
                        d = dl * L[i]
                        e = t.band(i, [g - float(xs[i]) + (-d if side == "left" else d)], tol=1e-10 * L[i])
                    vals += [float(e[0][0]), float(e[1][0])]
                bl.append(min(vals))
                bh.append(max(vals))
            sides[side] = (np.array(bl), np.array(bh))
            tol = 2e-7 * fs + 1e-7 * sum(abs(t[2]) * L[int(t[0]) - 1] for t in m["LM"] if t[1] in (1, 3, 5))
            for nm, f, ext in (("Vmax", np.maximum, np.max), ("Vmin", np.minimum, np.min)):
                oracle.between(
                    mon, [c[f"{nm}_{side}"]], [ext(f(sides[side][0], 0))], [ext(f(sides[side][1], 0))], tol,
                    "section:" + nm, f"{nm} just {side} of the section at {g}",
                )
        mon.close(c["Vmax"], max(c["Vmax_left"], c["Vmax_right"]), 0.0, "section:both", f"Vmax at {g}")
        mon.close(c["Vmin"], min(c["Vmin_left"], c["Vmin_right"]), 0.0, "section:both", f"Vmin at {g}")
        if sup:
            dmin = min(abs(s - g) for s in sup)
            sx = c["support"]
            mon.check(abs(abs(sx - g) - dmin) <= 1e-9 * X and any(near(sx, s, X) for s in sup), "section:support", f"section {g} tagged with the support at {sx}")
            if abs(sx - g) > 1e-9 * X:
                mon.check(c["side"] == ("left" if g < sx else "right"), "section:side", f"section {g}, support {sx}: {c['side']}")
        mon.event("sections")
        if kind == "node":
            mon.event("node_section")
        else:
            u = (g - xs[i]) / L[i] * 100
            if abs(u - round(u)) < 1e-9:
                mon.event("grid_section")
            if any(near(p - cc, g, X) for p in pos for cc, _ in moving.axles(v)):
                mon.event("axle_on_section")
    # ---- one position: the shear jumps by the axles standing at the section
    ins = [g for g in got if where[g][0] == "in"]
    if ins:
        g = ins[0]
        i = where[g][1]
        cc, w = moving.axles(v)[0]
        p = g + cc
        res = b.static_vehicle(p, shear_points=ins)
        on = sum(wt for c2, wt in moving.axles(v) if abs(p - c2 - g) <= 1e-12 * X)
        tot = on + sum(q[2] for q in m["LM"] if q[1] == 2 and q[0] == i + 1 and abs(q[3] - (g - xs[i])) <= 1e-12 * X)
        amb = any(1e-12 * X < abs(p - c2 - g) < 1e-7 * X for c2, _ in moving.axles(v))
        x = np.asarray(res.vRes[i].x, float)
        V = np.asarray(res.vRes[i].V, float)
        kl = np.flatnonzero(x < g - 4e-10 * L[i])[-1]
        kr = np.flatnonzero(x > g + 4e-10 * L[i])[0]
        if not amb:
            wd = sum(max(abs(q[2]), abs(q[3]) if q[1] == 5 else 0) for q in m["LM"] if q[1] in (1, 3, 5))
            mon.close(V[kl] - V[kr], tot, 1e-7 * fs + wd * 4e-9 * L[i], "static-jump", f"shear step at {g} under an axle")
            mon.event("static_jump")
        # the traverse's critical values are still those of its own sections
        again = b.critical_values(env)
        mon.check(again.get("shear_points") == cv.get("shear_points"), "sections-reported", f"after one static position, {sorted(again.get('shear_points') or {})} reported for {got}")
    b.static_vehicle(float(pos[0]))
    again = b.critical_values(env)
    mon.check(again == cv, "criticals-kept", "critical values after one static position")
    # ---- an envelope of another analysis is refused
    v2 = dict(v, w=[3.0 * w for w in v["w"]])
    if got:
        # nor is it taken for one without (or with other) sections
        other = {}
        if len(m["L"]) > 1 or m["form"] % 2:
            other = {0: [0.456789 * L[0]]}
        if m["lane"]:
            e3 = b.run_load_model(r["step"], m["lane"][0], clearances=tuple(m["lane"][1]) if m["lane"][1] else None, **dict(kw, shear_points=other, dv=None))
        else:
            e3 = b.run_vehicle(r["step"], **dict(kw, shear_points=other, dv=None))
        mon.check(not b.critical_values(e3).get("shear_points"), "sections-reported", f"sections {b.shear_points_x} of an earlier run")
        if not np.array_equal(e3.x, env.x):
            mon.raises(ValueError, lambda: b.critical_values(env), "stale-sections", f"envelope with sections {got} read as one with {other}")
            mon.event("stale_sections")
        b.run_vehicle(r["step"], pos_start=pos[0], pos_end=pos[0], **{k: z for k, z in kw.items() if not k.startswith("pos")})
    b.set_vehicle(moving.make_vehicle(v2))
    env2 = b.run_vehicle(r["step"], pos_start=pos[0], pos_end=pos[-1])
    if got:
        # (this run asked for no sections, whatever the last one did)
        mon.check(len(b.shear_points_x) == 0 and not b.critical_values(env2).get("shear_points"), "sections-reported", f"sections {b.shear_points_x} of an earlier run")
        mon.check(len(env2.x) == len(L) * (ba.npts + 3), "grid", f"{len(env2.x)} stations without requested sections")
        mon.event("no_sections_after")
    amb = stale = False
    for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
        sgn = 1 if q.endswith("max") else -1
        val = sgn * (sgn * np.asarray(getattr(env, q), float)).max()
        d = min(abs(sgn * (sgn * np.asarray(getattr(x.results, q[0]), float)).max() - val) for x in b.vResults)
        if d > 1e-3 * abs(val) + 1e-6:
            stale = True
    if stale:
        mon.raises(ValueError, lambda: b.critical_values(env), "stale", "envelope of another analysis")
        mon.event("stale_rejected")
