"""C25 - drawings show the model and its results; units only label"""
import copy
import os
import pathlib
import re
import tempfile

import numpy as np

from .. import gen as G, moving as MV, ref
from . import c01
from .c26 import br_state, env_state, freeze, same

ID = "C25"
N_QUICK, N_THOROUGH = 1500, 15000
RULE = (
    "random beams, bridges, influence lines, modal, elasto-plastic and tendon models drawn "
    "through every plotting entry point, in both drawing libraries and as TikZ, in every "
    "unit system. The artists, traces and TikZ commands are read back: supports, hinges and "
    "loads at the places, of the kinds, directions and values of the model; curves equal to "
    "the reported results; the model, its results and the global settings left alone"
)
MUST_SEE = (
    "supports_read", "loads_read", "hinges_read", "tikz_read", "mpl_read", "curves_read", "plotly_read", "reactions_read",
    "envelope_drawn", "static_drawn", "il_drawn", "modes_drawn", "nl_drawn", "tendon_drawn", "patterns_drawn",
    "unit_settings", "unchanged", "files_written", "combination_drawn", "section_drawn", "animated",
    "bars", "nl_vehicle_drawn", "drawn_on_the_way", "own_panels", "animation_files",
)

UNIT_NAMES = [None, "SI", "us", "kip-in", "N-mm", "none", "own"]
NAMES = {
    "si": "SI (kN, m)", "kN-m": "SI (kN, m)", "EU": "SI (kN, m)", "AUS": "SI (kN, m)", "Metric": "SI (kN, m)", "knm": "SI (kN, m)",
    "si n mm": "SI (N, mm)", "N_mm": "SI (N, mm)", "nmm": "SI (N, mm)",
    "US": "US (kip, ft)", "us_ft": "US (kip, ft)", " kip-ft ": "US (kip, ft)", "US Customary": "US (kip, ft)",
    "us-in": "US (kip, in)", "KIP_IN": "US (kip, in)",
    "none": "dimensionless", "Dimensionless": "dimensionless", "": "dimensionless",
}
# force, length, moment, distributed, displacement label, displacement factor
UNIT = {
    "SI (kN, m)": ("kN", "m", "kNm", "kN/m", "mm", 1000.0),
    "SI (N, mm)": ("N", "mm", "N·mm", "N/mm", "mm", 1.0),
    "US (kip, ft)": ("kip", "ft", "kip·ft", "kip/ft", "in", 12.0),
    "US (kip, in)": ("kip", "in", "kip·in", "kip/in", "in", 1.0),
    "dimensionless": ("", "", "", "", "", 1.0),
    "own": ("tonf", "yd", "tonf·yd", "tonf/yd", "cm", 91.44),
}


def worker_init():
    import matplotlib

    matplotlib.use("Agg")


def unit_of(u):
    """(argument for units=, table row)"""
    import pycba as cba

    if u == "own":
        t = UNIT["own"]
        return cba.UnitSystem("own", t[0], t[1], t[2], t[3], t[4], t[5]), t
    key = {None: "SI (kN, m)", "SI": "SI (kN, m)", "us": "US (kip, ft)", "kip-in": "US (kip, in)", "N-mm": "SI (N, mm)", "none": "dimensionless"}[u]
    return u, UNIT[key]


# ---------------------------------------------------------------- generation


def gen(rng, i, tier):
    u = i % 10
    r = int(rng.integers(0, 2**31))
    U = UNIT_NAMES[int(rng.integers(0, len(UNIT_NAMES)))]
    d = {"r": r, "U": U}
    if u < 3:
        kw = [
            dict(kinds=("udl", "pl", "pudl", "ml", "trap", "ic")), dict(sections=0.5, releases=0.6),
            dict(kf=0.6, kinds=("udl", "pl", "pudl"), releases=0.0),
        ][u]
        m = c01.gen_case(rng, nmax=6, **kw)
        if rng.random() < 0.03:
            k = int(rng.integers(27, 30))
            m = G.gen_model(rng, nmax=2, releases=0.0, loads=3)
            a = float(m["L"][0])
            m = {"L": [a] * k, "EI": [1e4] * k, "R": [-1, 0] * (k + 1), "LM": [[k, 1, 5.0]], "how": 0}
        for r in m["LM"]:
            if r[1] == 5 and len(r) > 4 and rng.random() < 0.15:
                r[5] = G.rnd(m["L"][r[0] - 1] * rng.uniform(0.5, 1.5))  # may overhang: cut
        d.update(kind="scheme", m=m)
    elif u < 5:
        m = c01.gen_case(rng, nmax=4, settle=0.15, **[{}, dict(sections=0.6), dict(kf=1.0, releases=0.0, kinds=("udl", "pl", "pudl"))][i // 10 % 3])
        d.update(kind="diag", m=m)
    elif u < 7:
        m = MV.gen_bridge(rng, 3)
        d.update(kind="bridge", m=m, run=MV.gen_run(rng, m, kmax=9))
    elif u == 7:
        m = G.gen_model(rng, nmax=3, loads=1)
        m["EI"] = [e if isinstance(e, float) else 1e4 for e in m["EI"]]
        d.update(kind="lines", m=m)
    elif u == 8:
        from . import c21, c22

        if i // 10 % 2:
            d.update(kind="nl", m=c21.gen(rng, i, "quick"))
        else:
            d.update(kind="tendon", m=c22.gen(rng, i, tier))
    else:
        if i // 10 % 2:
            d.update(kind="units", ops=[int(x) for x in rng.integers(0, 6, size=12)])
        else:
            m = G.gen_model(rng, nmax=5, loads=1)
            d.update(kind="cases", m=m)
    return d


# ---------------------------------------------------------------- what the model says


def want_supports(m):
    n = len(m["L"])
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    R = m["R"]
    encastre = any(R[2 * j] == -1 and R[2 * j + 1] == -1 for j in range(n + 1))
    pinned = encastre
    out = []
    for j in range(n + 1):
        v, r = R[2 * j], R[2 * j + 1]
        if v == -1 and r == -1:
            k = "fixed"
        elif v == -1:
            k = "roller" if pinned else "pin"
            pinned = True
        elif v > 0:
            k = "spring"
        elif r == -1:
            k = "guided"
        elif r > 0:
            k = "torsion_spring"
        else:
            continue
        out.append((j, float(xs[j]), k, v == -1 and r > 0))
    return out


def want_hinges(m):
    n = len(m["L"])
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    et = m.get("et") or [1] * n
    return [(j, float(xs[j])) for j in range(1, n) if et[j - 1] in (2, 4) or et[j] in (3, 4)]


def want_loads(L, LM):
    """distributed (x0, x1, w0, w1), points (x, P), moments (x, M), others"""
    xs = np.concatenate([[0.0], np.cumsum(L)])
    D, P, M, other = [], [], [], 0
    for r in LM:
        i = int(r[0]) - 1
        o, l, t = float(xs[i]), float(L[i]), int(r[1])
        if t == 1:
            D.append((o, o + l, r[2], r[2]))
        elif t == 2:
            P.append((o + r[3], r[2]))
        elif t == 3:
            c = min(r[4], l - r[3])
            if c > 1e-12 * l:
                D.append((o + r[3], o + r[3] + c, r[2], r[2]))
        elif t == 4:
            M.append((o + r[3], r[2]))
        elif t == 5:
            a, c = (r[4], r[5]) if len(r) > 4 else (0.0, l)
            w2 = r[3]
            if a + c > l:
                w2 = r[2] + (r[3] - r[2]) * (l - a) / c
                c = l - a
            if c > 1e-12 * l:
                D.append((o + a, o + a + c, r[2], w2))
        else:
            other += 1
    return D, P, M, other


def match(mon, got, want, tol, key, msg):
    """multiset of tuples of numbers equal within tol (per column)"""
    if not mon.check(len(got) == len(want), key, lambda: f"{msg}: {len(got)} drawn, {len(want)} in the model: {got[:6]} / {want[:6]}"):
        return
    left = [tuple(float(v) for v in g) for g in got]
    for w in want:
        k = next((q for q, g in enumerate(left) if all(abs(a - b) <= t for a, b, t in zip(g, w, tol))), None)
        if not mon.check(k is not None, key, lambda: f"{msg}: nothing drawn for {w}; left {left[:6]}"):
            return
        left.pop(k)


# ---------------------------------------------------------------- TikZ


NUM = r"[-+0-9.eE]+"


def read_tikz(s):
    t = {"xy": {}, "beams": [], "sup": [], "dims": [], "notes": [], "hinges": [], "line": [], "load": []}
    for k, x in re.findall(r"\\point\{(\w+)\}\{(%s)\}\{0\}" % NUM, s):
        t["xy"][k] = float(x)
    for k, a, f, b in re.findall(r"\\node \((\w+)\) at \(\$\((\w+)\)!(%s)!\((\w+)\)\$\)" % NUM, s):
        t["xy"][k] = t["xy"][a] + float(f) * (t["xy"][b] - t["xy"][a])
    t["beams"] = re.findall(r"\\beam\{\w+\}\{(\w+)\}\{(\w+)\}", s)
    t["sup"] = re.findall(r"\\support\{(\w+)\}\{(\w+)\}(?:\[(-?\d+)\])?", s)
    t["dims"] = re.findall(r"\\dimensioning\{1\}\{(\w+)\}\{(\w+)\}\{%s\}\[\$(%s)\$(?:~([^\]]*))?\]" % (NUM, NUM), s)
    t["hinges"] = re.findall(r"\\hinge\{(\d)\}\{(\w+)\}", s)
    t["line"] = re.findall(r"\\lineload\{\w+\}\{(\w+)\}\{(\w+)\}\[(%s)\]\[(%s)\]" % (NUM, NUM), s)
    t["load"] = re.findall(r"\\load\{(\d)\}\{(\w+)\}(?:\[(-?\d+)\])?", s)
    t["notes"] = re.findall(r"\\notation\{(\d)\}\{(\w+)\}\{\$([^$]*)\$ ?([^}]*)\}", s)
    t["dnotes"] = re.findall(r"\\notation\{5\}\{(\w+)\}\{(\w+)\}\[\$([^$]*)\$ ?([^\]]*)\]", s)
    return t


def letter(j):
    a = chr(ord("A") + j % 26)
    return a if j < 26 else letter(j // 26 - 1) + a


def check_tikz(mon, beam, m, LM, loads, u, kw):
    arg, tab = unit_of(u)
    X = float(sum(m["L"]))
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    n = len(m["L"])
    opts = dict(kw)
    src = beam.to_tikz(loads, units=arg, **opts)
    mon.event("tikz_read")
    body = src
    mon.check(body.count("\\begin{") == body.count("\\end{") and body.count("{") == body.count("}"), "tikz", "unbalanced TikZ source")
    mon.check(("\\documentclass" in body) == opts.get("standalone", True), "tikz", "standalone document or not")
    mon.check(not any(ord(ch) < 32 and ch not in "\t\n" for ch in body), "tikz", "control characters in the source")
    t = read_tikz(body)
    g = lambda v, s=X: 2e-5 * s
    nodes = sorted({k for p in t["beams"] for k in p}, key=lambda k: t["xy"][k])
    mon.check(len(t["beams"]) == n and len(nodes) == n + 1, "tikz", f"{len(t['beams'])} members drawn")
    if len(nodes) != n + 1:
        return
    mon.close([t["xy"][k] for k in nodes], xs, g(0), "tikz", "TikZ nodes")
    idx = {k: j for j, k in enumerate(nodes)}
    # supports
    code = {"pin": ("1",), "roller": ("2ooo",), "fixed": ("4",), "spring": ("5",), "guided": ("3",), "torsion_spring": ("6",)}
    rotsides = {"fixed": {0: "-90", n: "90"}}
    want = want_supports(m)
    got = {idx[k]: (c, rot) for c, k, rot in t["sup"]}
    mon.check(len(t["sup"]) == len(want), "tikz-supports", f"{len(t['sup'])} supports drawn, {len(want)} in the model")
    for j, x, kind, _ in want:
        c = got.get(j)
        mon.check(c is not None and c[0] in code[kind], "tikz-supports", f"support {kind} at node {j} drawn as {c}")
        if c and kind == "fixed" and j in (0, n):
            mon.check(c[1] == rotsides["fixed"][j], "tikz-supports", f"wall at node {j} turned {c[1]}")
    # hinges: at each free moment release and none at other unsupported nodes
    pins = {j for j, _, k, _ in want if k in ("pin", "roller")}
    hs = {j for j, _ in want_hinges(m)}
    drawn = {idx[k] for _, k in t["hinges"]}
    mon.check(drawn == hs | pins, "tikz-hinges", f"hinges at nodes {sorted(drawn)} instead of {sorted(hs | pins)}")
    # loads
    D, P, M, _ = want_loads(m["L"], LM)
    show = opts.get("load_values", True)
    lab = {}
    for a, b, txt, unit in t["dnotes"]:
        mon.check(unit == tab[3], "tikz-units", f"line load in {unit!r} instead of {tab[3]!r}")
        v = [float(z) for z in txt.split("\\rightarrow")]
        lab[a, b] = (v[0], v[-1])
    rows = []
    wm = max([max(abs(d[2]), abs(d[3])) for d in D] + [1e-300])
    for a, b, h0, h1 in t["line"]:
        w = lab.get((a, b), (np.nan, np.nan))
        rows.append((t["xy"][a], t["xy"][b]) + (w if show else (0.0, 0.0)) + (float(h0), float(h1)))
    mon.check(len(lab) == (len(D) if show else 0), "tikz-loads", f"{len(lab)} line load values")
    hh = lambda w: 0.3 + 0.4 * abs(w) / wm
    # heights grow with the intensity: compared through their order only
    match(mon, [r[:4] for r in rows], [(d[0], d[1]) + ((d[2], d[3]) if show else (0.0, 0.0)) for d in D], (g(0), g(0), 1e-5 * wm, 1e-5 * wm), "tikz-loads", "line loads")
    if show and rows:
        hv = [(abs(r[2 + q]), r[4 + q]) for r in rows for q in (0, 1)]
        hv.sort()
        mon.check(all(b[1] >= a[1] - 1e-6 for a, b in zip(hv, hv[1:])), "tikz-loads", "the height of line loads does not follow their intensity")
    notes = {k: (float(v), un) for c, k, v, un in t["notes"] if k not in idx}
    for c, k, rot in t["load"]:
        mon.check(k in t["xy"], "tikz-loads", "load at an unknown node")
        if k in notes:
            mon.check(notes[k][1] == (tab[0] if c == "1" else tab[2]), "tikz-units", f"load value in {notes[k][1]!r}")
        mon.check((k in notes) == show, "tikz-loads", "load values shown or not")
    sg = lambda v: 1.0 if v >= 0 else -1.0
    pm = max([abs(p[1]) for p in P] + [0.0])
    mm = max([abs(p[1]) for p in M] + [0.0])
    pl = [(t["xy"][k], (notes[k][0] if show else 1.0) * (1.0 if rot == "90" else -1.0 if rot == "270" else np.nan)) for c, k, rot in t["load"] if c == "1"]
    ml = [(t["xy"][k], (notes[k][0] if show else 1.0) * (1.0 if c == "3" else -1.0)) for c, k, rot in t["load"] if c in "23"]
    match(mon, pl, [(x, v if show else sg(v)) for x, v in P], (g(0), 1e-5 * pm + 1e-12), "tikz-loads", "point loads (x, value)")
    match(mon, ml, [(x, v if show else sg(v)) for x, v in M], (g(0), 1e-5 * mm + 1e-12), "tikz-loads", "moments (x, value)")
    # dimensions and letters
    mon.check(all(un == tab[1] for *_, un in t["dims"]), "tikz-units", f"dimensions in {[d[3] for d in t['dims']]} instead of {tab[1]!r}")
    spans = [d for d in t["dims"] if d[0] in idx]
    mon.check(len(spans) == (n if opts.get("dimensions", True) else 0), "tikz", f"{len(spans)} spans dimensioned")
    for a, b, v, _ in t["dims"]:
        mon.close(float(v), t["xy"][b] - t["xy"][a], 4 * g(0), "tikz", "a dimension")
    if show:
        part = [d for d in D if d[0] - xs[np.searchsorted(xs, d[0] + 1e-9 * X) - 1] > 2e-6 * max(X, 1) or xs[np.searchsorted(xs, d[1] - 1e-9 * X)] - d[1] > 2e-6 * max(X, 1)]
        mon.check(len(t["dims"]) - len(spans) == len(part), "tikz", f"{len(t['dims']) - len(spans)} partial loads dimensioned, there are {len(part)}")
    names = {idx[k]: v for c, k, v, un in t["notes"] if k in idx}
    mon.check(names == ({j: letter(j) for j, *_ in want} if opts.get("labels", True) else {}), "tikz", f"node letters {names}")
    return src


# ---------------------------------------------------------------- matplotlib


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def has_line(mon, ax, x, y, key, msg, tol=1e-12):
    x, y = np.asarray(x, float), np.asarray(y, float)
    s = max(float(np.abs(y).max()) if y.size else 0.0, 1e-300)
    ok = any(a.shape == x.shape and b.shape == y.shape and np.allclose(a, x, rtol=0, atol=1e-12 * max(1.0, abs(x).max() if x.size else 1)) and np.allclose(b, y, rtol=0, atol=tol * s) for a, b in lines(ax))
    mon.event("curves_read")
    return mon.check(ok, key, f"{msg}: the reported curve is not drawn")


def arrows(ax):
    """(x, y) tail -> (x, y) head of each arrow, and its colour"""
    out = []
    for t in ax.texts:
        if hasattr(t, "arrow_patch") and t.arrow_patch is not None and t.get_text() == "":
            out.append((t.xyann, t.xy))
    return out


def texts(ax):
    return [(t.get_position(), t.get_text()) for t in ax.texts if t.get_text()]


def g6(v):
    return float(f"{v:g}")


def value_of(txt, unit):
    """number of a label 'value unit', or None"""
    txt = txt.strip()
    if unit:
        if not txt.endswith(unit):
            return None
        txt = txt[: -len(unit)].strip()
    try:
        return [float(z) for z in txt.split("→")]
    except ValueError:
        return None


def arc_turns(ax):
    """(x, +1 anticlockwise / -1 clockwise, radius) of each moment symbol"""
    from matplotlib.patches import Arc, Polygon

    arcs = [p for p in ax.patches if isinstance(p, Arc)]
    heads = [p.get_xy()[:3] for p in ax.patches if isinstance(p, Polygon) and len(p.get_xy()) == 4]
    out = []
    for a in arcs:
        cx, cy = a.center
        r = a.width / 2
        turns = []  # (several moments at one place: a head each)
        for h in heads:
            d = abs(np.hypot(h[0][0] - cx, h[0][1] - cy) - r)
            if d <= 1e-6 * r:
                tip, back = h[0], 0.5 * (h[1] + h[2])
                v = tip - back
                c = np.array([tip[0] - cx, tip[1] - cy])
                turns.append(np.sign(c[0] * v[1] - c[1] * v[0]))
        out += [(cx, t, r) for t in turns or [None]]
    return out


def check_mpl(mon, beam, m, LM, loads, u, kw):
    import matplotlib.pyplot as plt
    from matplotlib.patches import Polygon

    arg, tab = unit_of(u)
    X = float(sum(m["L"]))
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    ax = beam.plot(loads, units=arg, **kw)
    mon.event("mpl_read")
    show = kw.get("load_values", True)
    D, P, M, _ = want_loads(m["L"], LM)
    e = 1e-9 * X
    # point loads: an arrow onto the beam at x, from above if downward
    vert = [(b[0], a[1]) for a, b in arrows(ax) if abs(b[1]) <= e and abs(a[0] - b[0]) <= e and abs(a[1]) > e]
    for x, v in P:
        ok = any(abs(x - p) <= e and (y > 0) == (v >= 0) for p, y in vert)
        mon.check(ok, "mpl-loads", f"no arrow {'down' if v >= 0 else 'up'} at x = {x}")
    # distributed loads: an outline over [x0, x1] of the signs of w
    polys = [p.get_xy()[:4] for p in ax.patches if isinstance(p, Polygon) and len(p.get_xy()) == 5]
    sg = lambda z: 0 if abs(z) <= e else (1 if z > 0 else -1)
    match(
        mon, [(p[0][0], p[3][0], sg(p[1][1]), sg(p[2][1])) for p in polys], [(d[0], d[1], np.sign(d[2]), np.sign(d[3])) for d in D],
        (e, e, 0.1, 0.1), "mpl-loads", "distributed loads (x0, x1, sides)",
    )
    # bigger intensities are drawn higher, equal ones equal
    if len(polys) == len(D) and D:
        hv = []
        left = list(polys)
        for d in D:
            k = [q for q, p in enumerate(left) if abs(p[0][0] - d[0]) <= e and abs(p[3][0] - d[1]) <= e and sg(p[1][1]) == np.sign(d[2]) and sg(p[2][1]) == np.sign(d[3])]
            if len(k) == 1:
                p = left[k[0]]
                hv += [(abs(d[2]), abs(p[1][1])), (abs(d[3]), abs(p[2][1]))]
        hv.sort()
        mon.check(all(b[1] >= a[1] - 1e-9 * X for a, b in zip(hv, hv[1:])), "mpl-loads", "the height of distributed loads does not follow their intensity")
        # every arrow of a distributed load reaches its outline
        for p, y in vert:
            if any(abs(p - x) <= e for x, _ in P):
                continue
            on = [np.interp(p, [q[0][0], q[3][0]], [q[1][1], q[2][1]]) for q in polys if q[0][0] - e <= p <= q[3][0] + e]
            mon.check(any(abs(y - h) <= 1e-6 * X for h in on), "mpl-loads", f"an arrow of height {y} at x = {p}, the outlines there are at {on}")
        # arrows only inside distributed loads or at point loads
        for p, y in vert:
            ok = any(abs(p - x) <= e for x, _ in P) or any(d[0] - e <= p <= d[1] + e for d in D)
            mon.check(ok, "mpl-loads", f"an arrow at x = {p}, where no load acts")
    # moments
    arcs = [(x, s) for x, s, r in arc_turns(ax) if abs(r - 0.045 * X) < 1e-6 * X]
    allarcs = [(x, s) for x, s, r in arc_turns(ax)]
    for x, v in M:
        mon.check(any(abs(x - a) <= e and s == (1 if v >= 0 else -1) for a, s in allarcs), "mpl-loads", f"no {'anti' if v >= 0 else ''}clockwise moment at x = {x}")
    # values
    T = texts(ax)
    if show:
        for x, v in P:
            ok = any(abs(p[0] - x) <= e and value_of(t, tab[0]) == [g6(abs(v))] for p, t in T)
            mon.check(ok, "mpl-values", f"no label {abs(v):g} {tab[0]} at x = {x}")
        for x, v in M:
            ok = any(abs(p[0] - x) <= e and value_of(t, tab[2]) == [g6(abs(v))] for p, t in T)
            mon.check(ok, "mpl-values", f"no label {abs(v):g} {tab[2]} at x = {x}")
        for d in D:
            w = [g6(abs(d[2])), g6(abs(d[3]))]
            ok = any(abs(p[0] - 0.5 * (d[0] + d[1])) <= e and (value_of(t, tab[3]) or [None])[0] == w[0] and value_of(t, tab[3])[-1] == w[1] for p, t in T)
            mon.check(ok, "mpl-values", f"no label {w} {tab[3]} between x = {d[0]} and {d[1]}")
    else:
        mon.check(not any(value_of(t, tab[q]) is not None for p, t in T for q in (0, 2, 3) if tab[q] and not kw.get("dimensions")), "mpl-values", "values shown although not wanted")
    # letters of the supported nodes
    if kw.get("labels", True):
        got = {t for p, t in T if t.isalpha() and t.isupper() and len(t) < 3}
        want = {letter(j) for j, *_ in want_supports(m)}
        mon.check(want <= got, "mpl", f"node letters {sorted(got)} instead of {sorted(want)}")
    if kw.get("dimensions"):
        for j in range(len(m["L"])):
            ok = any(abs(p[0] - 0.5 * (xs[j] + xs[j + 1])) <= e and value_of(t, tab[1]) == [g6(xs[j + 1] - xs[j])] for p, t in T)
            mon.check(ok, "mpl", f"span {j + 1} not dimensioned in {tab[1]!r}")
    if show:
        for d in D:
            j = int(np.searchsorted(xs, d[0] + 1e-9 * X) - 1)
            if d[0] - xs[j] > 1e-5 * max(X, 1) or xs[j + 1] - d[1] > 1e-5 * max(X, 1):
                ok = any(abs(p[0] - 0.5 * (d[0] + d[1])) <= e and value_of(t, tab[1]) == [g6(d[1] - d[0])] for p, t in T)
                mon.check(ok, "mpl", f"the part load from {d[0]} to {d[1]} is not dimensioned in {tab[1]!r}")
    # the elevation of a beam whose rigidity varies
    check_elevation(mon, ax, m)
    un = f" ({tab[1]})" if tab[1] else ""
    mon.check(ax.get_xlabel() == "Distance along beam" + un, "mpl", f"axis label {ax.get_xlabel()!r}")
    plt.close("all")


def check_elevation(mon, ax, m):
    import pycba as cba

    Ls, n = m["L"], len(m["L"])
    xs = np.concatenate([[0.0], np.cumsum(Ls)])
    X = float(xs[-1])
    secs = [None if isinstance(s, (int, float)) else G.sec(cba, s) for s in m["EI"]]
    # end values and mid values of every span, as the reference evaluates them
    pts = []
    for i in range(n):
        for t in (0.0, 1.0):
            v = m["EI"][i] if secs[i] is None else float(np.asarray(secs[i](np.array([t * Ls[i]])))[0])
            pts.append((i, t, float(v)))
    vm = [v for *_, v in pts]
    tops = [(x, y) for x, y in lines(ax) if len(x) >= 2 * n and abs(x[0]) < 1e-9 * X and abs(x[-1] - X) < 1e-9 * X and np.all(y > 0)]
    if all(s is None for s in secs) and max(vm) - min(vm) <= 1e-9 * max(vm):
        return
    if not mon.check(len(tops) >= 1 or max(vm) - min(vm) <= 1e-5 * max(vm), "elevation", "the varying section is drawn as a plain line"):
        return
    if not tops:
        return
    x, y = tops[0]
    # depth in proportion to the cube root of the rigidity, at the ends of the spans
    r = []
    for i, t, v in pts:
        xx = xs[i] + t * Ls[i]
        k = np.flatnonzero(np.abs(x - xx) < 1e-9 * X)
        if len(k) == 0:
            continue
        q = k[0] if t == 1.0 and len(k) > 1 else k[-1] if t == 0.0 else k[0]
        r.append(y[q] / v ** (1 / 3))
    if len(r) > 1:
        mon.close(np.array(r), np.full(len(r), r[0]), 1e-6 * abs(r[0]), "elevation", "depth over cube root of the rigidity")


# ---------------------------------------------------------------- cases


def run_scheme(c, mon):
    import pycba as cba
    from pycba.render import BeamPlotter

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    ba = G.build(m, how=m.get("how", 0))
    beam = ba.beam
    kept = freeze([list(r) for r in beam.loads]), list(beam.restraints)
    rows = m["LM"]
    src = int(rng.integers(0, 5))
    LM, loads, kw = rows, None, {}
    if src == 1:
        LM, loads = [], []
    elif src == 2:
        LM = G.gen_loads(rng, m["L"])
        loads = [list(r) for r in LM]
    elif src == 3:
        LM = G.gen_loads(rng, m["L"])
        lc = cba.LoadCases(ba)
        loads = lc.case("a")
        for r in LM:
            loads.add_load(list(r))
    X = float(sum(m["L"]))
    bp = BeamPlotter(beam, loads)
    mon.event("supports_read")
    got = [(s.node, s.x, s.kind, s.rot_spring) for s in bp.supports]
    want = want_supports(m)
    mon.check(
        [(a, k, q) for a, _, k, q in got] == [(a, k, q) for a, _, k, q in want], "supports", f"supports {got} instead of {want}",
    )
    mon.close([s[1] for s in got], [s[1] for s in want], 1e-9 * X, "supports", "support positions") if len(got) == len(want) else None
    n = len(m["L"])
    mon.check(all(s.at_left_end == (s.node == 0) and s.at_right_end == (s.node == n) for s in bp.supports), "supports", "ends of the beam")
    mon.event("hinges_read")
    mon.check([(h.node, round(h.x, 9)) for h in bp.hinges] == [(j, round(x, 9)) for j, x in want_hinges(m)], "hinges", f"hinges {[h.node for h in bp.hinges]}")
    D, P, M, other = want_loads(m["L"], LM)
    mon.event("loads_read")
    e = 1e-9 * X
    match(mon, [(d.x0, d.x1, d.w0, d.w1) for d in bp.dist_loads], D, (e, e, 1e-9, 1e-9), "loads", "distributed loads")
    match(mon, [(p.x, p.P) for p in bp.point_loads], P, (e, 1e-9), "loads", "point loads")
    match(mon, [(p.x, p.M) for p in bp.moment_loads], M, (e, 1e-9), "loads", "moments")
    mon.check(len(bp.skipped_loads) == other, "loads", f"{len(bp.skipped_loads)} loads left out")
    rnd = lambda *names: {k: bool(rng.random() < 0.5) for k in names if rng.random() < 0.4}
    check_tikz(mon, beam, m, LM, loads, c["U"], rnd("standalone", "dimensions", "labels", "load_values"))
    check_mpl(mon, beam, m, LM, loads, c["U"], rnd("dimensions", "labels", "load_values", "equal_aspect"))
    if rng.random() < 0.4:
        files(c, mon, ba, rng, loads)
    mon.event("unchanged")
    mon.check(same(([list(r) for r in beam.loads], list(beam.restraints)), kept), "unchanged", "drawing changed the model")
    mon.state("scheme", G.describe(m), str(c["U"]), src)


def files(c, mon, ba, rng, loads):
    import matplotlib.pyplot as plt

    arg, _ = unit_of(c["U"])
    beam = ba.beam
    with tempfile.TemporaryDirectory() as d:
        d = pathlib.Path(d)
        p = ba.plot_beam(loads, save=str(d / "a.tex"), units=arg)
        mon.check(pathlib.Path(p) == d / "a.tex" and (d / "a.tex").read_text() == beam.to_tikz(loads, units=arg), "files", "TikZ file")
        q = beam.save_tikz(d / "b", loads, units=arg, standalone=False)
        mon.check(q == d / "b.tex" and q.read_text() == beam.to_tikz(loads, units=arg), "files", "save_tikz")
        s = beam.plot(loads, tikz=True, units=arg)
        mon.check(s == beam.to_tikz(loads, units=arg), "files", "plot(tikz=True)")
        beam.plot(loads, save=d / "c.png", units=arg)
        mon.check((d / "c.png").read_bytes()[:4] == b"\x89PNG", "files", "picture")
        mon.check(sorted(os.listdir(d)) == ["a.tex", "b.tex", "c.png"], "files", f"files written: {os.listdir(d)}")
        mon.event("files_written")
    plt.close("all")


def labels(tab):
    s = lambda n, u: n + (f" ({u})" if u else "")
    return {
        "M": s("Bending Moment", tab[2]), "V": s("Shear Force", tab[0]), "D": s("Deflection", tab[4]), "x": s("Distance along beam", tab[1]),
        "pos": s("Position of Front Axle", tab[1]),
    }


def plain(a):
    return np.asarray(a, float)


def run_diag(c, mon):
    import matplotlib.pyplot as plt
    import pycba as cba

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    arg, tab = unit_of(c["U"])
    lab = labels(tab)
    ba = G.build(m, how=m.get("how", 0))
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        mon.check(all(f(**({"show": False} if f.__name__ in ("plot_results", "plot_reactions") else {})) is None for f in (ba.plot_results, ba.plot_bmd, ba.plot_sfd, ba.plot_dsd, ba.plot_reactions)), "before", "something was plotted before the analysis")
    ba.analyze(int(rng.choice([7, 20, 50])))
    br = ba.beam_results
    res = br.results
    was = br_state(br)
    xd, yd = br.deflection_curve()
    want = {"M": (res.x, res.M, 1.0), "V": (res.x, res.V, 1.0), "D": (xd, yd, tab[5])}
    want = {k: (plain(x), plain(y) * f) for k, (x, y, f) in want.items()}
    fn = {"M": ba.plot_bmd, "V": ba.plot_sfd, "D": ba.plot_dsd}
    # one diagram
    for k in "MVD":
        ax = fn[k](units=arg, **({"color": "g", "label": "q"} if rng.random() < 0.3 else {}))
        has_line(mon, ax, *want[k], "diagram", f"{k} diagram")
        mon.check(ax.yaxis_inverted() == (k == "M"), "diagram", f"{k} axis direction")
        mon.check(ax.get_ylabel() == lab[k] and ax.get_xlabel() == lab["x"], "labels", f"{k} axis labels {ax.get_ylabel()!r}, {ax.get_xlabel()!r}")
        n0 = len(ax.lines)
        mon.check(fn[k](ax=ax, units=arg) is ax and len(ax.lines) == n0 + 1 and ax.yaxis_inverted() == (k == "M"), "diagram", f"{k} drawn over an earlier one")
        fig = fn[k](units=arg, backend="plotly")
        plotly_curve(mon, fig, *want[k], f"{k} diagram")
        yr = fig.layout.yaxis
        mon.check((yr.autorange == "reversed") == (k == "M") and yr.title.text == lab[k] and fig.layout.xaxis.title.text == lab["x"], "labels", f"plotly {k} axes")
        mon.check(hover(fig.data[0]).endswith({"M": tab[2], "V": tab[0], "D": tab[4]}[k]), "labels", f"plotly hover {hover(fig.data[0])}")
        plt.close("all")
    # all three
    sb, sr = bool(rng.random() < 0.5), bool(rng.random() < 0.7)
    fig, axs = ba.plot_results(show_beam=sb, show=False, units=arg, show_reactions=sr)
    mon.check(len(axs) == 3 + sb + sr, "diagram", f"{len(axs)} panels")
    for k, ax in zip("MVD", axs[sb : sb + 3]):
        has_line(mon, ax, *want[k], "diagram", f"{k} panel")
        mon.check(ax.yaxis_inverted() == (k == "M") and ax.get_ylabel() == lab[k], "diagram", f"{k} panel axis")
    if sr:
        check_reactions(mon, axs[-1], m, br, tab)
    plt.close("all")
    pf = ba.plot_results(units=arg, backend="plotly")
    cur = [d for d in pf.data if d.y is not None]
    mon.check(len(cur) == 3, "diagram", "three plotly panels")
    for k in "MVD":
        plotly_curve(mon, pf, *want[k], f"{k} panel")
    mon.check(
        pf.layout.yaxis.autorange == "reversed" and pf.layout.yaxis2.autorange != "reversed" and pf.layout.yaxis3.autorange != "reversed"
        and [pf.layout.yaxis.title.text, pf.layout.yaxis2.title.text, pf.layout.yaxis3.title.text] == [lab[k] for k in "MVD"],
        "labels", "plotly panels",
    )
    fig, ax = ba.plot_reactions(units=arg, show=False)
    check_reactions(mon, ax, m, br, tab)
    plt.close("all")
    # envelope of one analysis
    e = cba.Envelopes.from_beam_analysis(ba)
    env_figure(mon, e, arg, lab, False)
    mon.event("unchanged")
    mon.check(ba.beam_results is br, "unchanged", "drawing replaced the results")
    now = br_state(br)
    mon.check(all(same(now[k], was[k]) for k in was), "unchanged", "drawing changed the results")
    mon.check([list(map(float, r)) for r in ba.beam.loads] == [list(map(float, r)) for r in m["LM"]], "unchanged", "drawing changed the loads")
    mon.state("diag", G.describe(m), str(c["U"]))


def hover(tr):
    return tr.hovertemplate.split("<extra>")[0].split("}")[-1].strip()


def plotly_curve(mon, fig, x, y, msg):
    mon.event("plotly_read")
    s = max(float(np.abs(y).max()), 1e-300)
    ok = any(
        d.x is not None and len(d.x) == len(x) and np.allclose(plain(d.x), x, rtol=0, atol=1e-12 * max(1, x.max())) and np.allclose(plain(d.y), y, rtol=0, atol=1e-12 * s)
        for d in fig.data
    )
    mon.check(ok, "plotly", f"{msg}: the reported curve is not drawn")


def sig4(v):
    return float(f"{v:.4g}")


def check_reactions(mon, ax, m, br, tab):
    n = len(m["L"])
    X = float(sum(m["L"]))
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    R, Rs = list(br.R), list(br.Rs)
    F = np.zeros(2 * n + 2)
    for k, r in enumerate(m["R"]):
        if r < 0:
            F[k] = R.pop(0)
        elif r > 0:
            F[k] = Rs.pop(0)
    mon.event("reactions_read")
    T = texts(ax)
    A = [(a, b) for a, b in arrows(ax) if abs(a[0] - b[0]) < 1e-9 * X and max(a[1], b[1]) < -1e-9 * X]
    turns = arc_turns(ax)
    e = 1e-9 * X
    for j in range(n + 1):
        v, q = F[2 * j], F[2 * j + 1]
        at = [(a, b) for a, b in A if abs(a[0] - xs[j]) < e]
        if abs(v) > 2e-6:
            mon.check(len(at) == 1 and (at[0][1][1] > at[0][0][1]) == (v > 0), "reactions", f"the reaction {v:.5g} at node {j} is drawn as {at}")
            mon.check(any(abs(p[0] - xs[j]) < e and near4(value_of(t, tab[0]), v) for p, t in T), "reactions", f"no value {abs(v):.4g} {tab[0]} at node {j}: {[t for p, t in T if abs(p[0] - xs[j]) < e]}")
        elif abs(v) < 5e-7:
            mon.check(not at, "reactions", f"a reaction is drawn at node {j}, where there is none")
        at = [s for x, s, r in turns if abs(x - xs[j]) < e]
        if abs(q) > 2e-6:
            mon.check((1 if q > 0 else -1) in at, "reactions", f"the moment reaction {q:.5g} at node {j} is drawn turning {at}")
            mon.check(any(abs(p[0] - xs[j]) < e and near4(value_of(t, tab[2]), q) for p, t in T), "reactions", f"no value {abs(q):.4g} {tab[2]} at node {j}")


def near4(got, v):
    return got is not None and len(got) == 1 and abs(got[0] - abs(v)) <= 0.51e-3 * abs(v) * 1.02


def env_figure(mon, e, arg, lab, each):
    import matplotlib.pyplot as plt

    fig, _ = e.plot(units=arg, each=each)
    a = fig.axes
    for k, ax in zip("MV", a):
        for t in ("max", "min"):
            has_line(mon, ax, e.x, getattr(e, k + t), "envelope", f"{k}{t}")
        mon.check(ax.yaxis_inverted() == (k == "M") and ax.get_ylabel() == lab[k], "labels", f"envelope axis of {k}")
        if each:
            for r in e.vResults:
                has_line(mon, ax, e.x, getattr(r.results, k), "envelope", f"{k} of one position")
    mon.check(a[-1].get_xlabel() == lab["x"], "labels", "envelope distance axis")
    plt.close(fig)
    pf = e.plot(units=arg, backend="plotly")
    for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
        tr = [d for d in pf.data if d.name == f"{q[0]} {q[1:]}"]
        mon.event("plotly_read")
        mon.check(len(tr) == 1 and np.array_equal(plain(tr[0].x), plain(e.x)) and np.array_equal(plain(tr[0].y), plain(getattr(e, q))), "plotly", f"envelope {q}")
    mon.check(pf.layout.yaxis.autorange == "reversed" and pf.layout.yaxis2.autorange != "reversed" and pf.layout.yaxis.title.text == lab["M"] and pf.layout.yaxis2.title.text == lab["V"], "labels", "plotly envelope axes")
    fig, axs = e.plot_coincidents(units=arg, show=False)
    a = fig.axes
    pick = {
        "Bending Moment": ("Mmax", "Mmin"), "Shear Force": ("Vmax", "Vmin"),
        "Coincident Bending Moment": ("Mco_Vmax", "Mco_Vmin"), "Coincident Shear Force": ("Vco_Mmax", "Vco_Mmin"),
    }
    seen = set()
    for ax in a:
        key = next((k for k in sorted(pick, key=len, reverse=True) if ax.get_ylabel().startswith(k)), None)
        if key is None:
            continue
        seen.add(key)
        for q in pick[key]:
            has_line(mon, ax, e.x, getattr(e, q), "coincidents", q)
            l = [l for l in ax.lines if l.get_label().replace(" coincident @ ", "co_") == q]
            mon.check(len(l) == 1 and np.array_equal(plain(l[0].get_ydata()), plain(getattr(e, q))), "coincidents", f"the line labelled {q}")
        mon.check(ax.yaxis_inverted() == ("Moment" in key), "coincidents", f"direction of the {key} axis")
    mon.check(seen == set(pick), "coincidents", f"axes {[ax.get_ylabel() for ax in a]}")
    plt.close("all")
    mon.event("envelope_drawn")


def run_bridge(c, mon):
    import matplotlib.pyplot as plt
    import pycba as cba

    m, r = c["m"], c["run"]
    rng = np.random.default_rng(c["r"])
    arg, tab = unit_of(c["U"])
    lab = labels(tab)
    ba = G.build(m, how=m.get("how", 0))
    X = float(sum(m["L"]))
    veh = MV.make_vehicle(r["v"])
    b = cba.BridgeAnalysis(ba, veh)
    step = max(r["step"], (X + veh.L) / 9)
    kw = {}
    if rng.random() < 0.3:
        kw["shear_points"] = [0.35 * X]
    env = b.run_vehicle(step, **kw)
    was = env_state(env)
    quiet = b.run_vehicle(step, plot_env=True, **kw)
    plt.close("all")
    mon.check(all(same(env_state(quiet)[k], was[k]) for k in was), "unchanged", "asking for a plot changed the envelope")
    env_figure(mon, env, arg, lab, bool(rng.random() < 0.5))
    # the bridge's own envelope figure
    b.plot_envelopes(env, units=arg)
    axs = plt.gcf().axes
    for k in "MV":
        ax = [a for a in axs if a.get_ylabel() == lab[k]]
        if mon.check(len(ax) == 1, "envelope", f"{k} panel of the bridge envelopes"):
            for t in ("max", "min"):
                has_line(mon, ax[0], env.x, getattr(env, k + t), "envelope", f"bridge {k}{t}")
            mon.check(ax[0].yaxis_inverted() == (k == "M"), "envelope", f"bridge {k} axis")
    for j in range(env.nsup):
        ax = [a for a in axs if a.get_ylabel().startswith(f"Reaction {j + 1}") and not a.get_ylabel()[len(f"Reaction {j + 1}"):][:1].isdigit()]
        if mon.check(len(ax) == 1, "envelope", f"panel of reaction {j + 1}"):
            has_line(mon, ax[0], b.pos, env.Rmax[j], "envelope", f"reaction {j + 1}")
            has_line(mon, ax[0], b.pos, env.Rmin[j], "envelope", f"reaction {j + 1}")
    plt.close("all")
    # ratios
    veh2 = MV.make_vehicle(r["v"])
    other = cba.BridgeAnalysis(G.build(m, how=m.get("how", 0)), veh2).run_load_model(step, 7.0, **kw)
    rat = b.envelopes_ratios(other, env)
    kept = copy.deepcopy(rat)
    b.plot_ratios(rat, units=arg)
    axs = plt.gcf().axes
    for k, name in (("M", "Bending Moment Ratio"), ("V", "Shear Force Ratio")):
        ax = [a for a in axs if a.get_ylabel() == name]
        if mon.check(len(ax) == 1, "ratios", f"panel {name}"):
            for t in ("max", "min"):
                y = plain(rat[k + t])
                if np.all(np.isfinite(y)):
                    has_line(mon, ax[0], rat["x"], y, "ratios", f"{k}{t}")
    for t in ("max", "min"):
        ax = [a for a in axs if a.get_ylabel() == f"Reaction Ratio [{t}]"]
        y = plain([rat[f"R{t}{j}"] for j in range(env.nsup)])
        if mon.check(len(ax) == 1, "ratios", f"reaction panel {t}") and np.all(np.isfinite(y)):
            mon.check(np.allclose([p.get_height() for p in ax[0].patches], y), "ratios", f"reaction bars {t}")
    mon.check(same(kept, rat), "unchanged", "drawing changed the ratios")
    plt.close("all")
    for k in ("x", "Mmin", "Vmax", "nsup") + (("Rmax0", "Rmin0") if env.nsup else ()):
        short = {q: v for q, v in rat.items() if q != k}
        if k == "nsup" and not env.nsup:
            continue
        mon.raises(ValueError, lambda: b.plot_ratios(short), "ratios", f"ratios without {k}")
    plt.close("all")
    # an envelope of envelopes: its reactions belong to no one position
    coarse = cba.BridgeAnalysis(G.build(m, how=m.get("how", 0)), veh2).run_vehicle(1.37 * step, **kw)
    both = cba.Envelopes.zero_like(env)
    both.augment(env)
    both.augment(coarse)
    if env.nsup and coarse.nres != env.nres:
        kept = env_state(both)
        b.plot_envelopes(both, units=arg)
        axs = plt.gcf().axes
        for t, sign in (("max", 1), ("min", -1)):
            ax = [a for a in axs if a.get_ylabel().startswith(f"Reactions [{t}]")]
            if not mon.check(len(ax) == 1, "envelope", f"panel of the {t} reactions"):
                continue
            w = [max(0.0, max((sign * plain(getattr(e, f"R{t}"))[j]).max() for e in (env, coarse))) * sign for j in range(env.nsup)]
            sr = max(np.abs(plain(env.Rmax)).max(), np.abs(plain(env.Rmin)).max(), 1e-300)
            mon.close([q.get_height() for q in ax[0].patches], w, 1e-12 * sr, "envelope", f"bars of the {t} reactions")
            mon.check(t == "max" or [q.get_text() for q in ax[0].get_xticklabels()] == [f"R{j + 1}" for j in range(env.nsup)], "envelope", "names of the bars")
            unit = tab[0], tab[1]
            mon.check(all(u in ax[0].get_ylabel() for u in unit if u) or not all(unit), "labels", f"reaction panel {ax[0].get_ylabel()}")
        mon.check(all(same(env_state(both)[k], kept[k]) for k in kept), "unchanged", "drawing changed the envelope of envelopes")
        mon.event("bars")
        plt.close("all")
    # the vehicle at one place
    pos = float(rng.uniform(-0.1, 1.1) * (X + veh.L))
    st = cba.BridgeAnalysis(G.build(m, how=m.get("how", 0)), veh2).static_vehicle(pos)
    fig, axs = b.plot_static(pos, units=arg)
    mon.event("static_drawn")
    for ax, k, s in ((axs[1], "M", -1.0), (axs[2], "V", 1.0)):
        y = plain(getattr(st.results, k))
        sgn = s if not ax.yaxis_inverted() else -s
        has_line(mon, ax, st.results.x, sgn * y if k == "M" else y, "static", f"{k} with the vehicle at {pos}", tol=1e-7)
        mon.check(ax.get_ylabel() == lab[k], "labels", f"static {k} axis")
    wheels = sorted(p.center[0] for p in axs[0].patches if p.get_gid() == "vehicle_wheel")
    ax_x = sorted(pos - q for q, _ in MV.axles(r["v"]))
    mon.close(wheels, ax_x, 1e-9 * max(X, veh.L, abs(pos)), "static", "wheels") if len(wheels) == len(ax_x) else mon.fail("static", f"{len(wheels)} wheels")
    on = [x for x in ax_x if 1e-9 * X < x < X * (1 - 1e-9)]
    heads = [h[0] for t, h in arrows(axs[0]) if abs(t[0] - h[0]) < 1e-9 * X and h[1] < 0.01 * X and t[1] > 0.05 * X]
    for x in on:
        mon.check(any(abs(x - q) < 1e-9 * X for q in heads), "static", f"no arrow for the axle at {x}")
    spec = [t for p, t in texts(axs[0]) if t.startswith("Vehicle:")]
    mon.check(len(spec) == 1 and abs(weights(spec[0], tab[0])[0] - veh.W) <= 1e-5 * veh.W and abs(weights(spec[0], tab[0])[1] - veh.W) <= 1e-5 * veh.W, "static", f"vehicle caption {spec}")
    plt.close("all")
    mon.check([list(map(float, q)) for q in ba.beam.loads] == [list(map(float, q)) for q in m["LM"]], "unchanged", f"after drawing the bridge carries {[list(map(float, q)) for q in ba.beam.loads][:6]}")
    # asking a static analysis for a plot does not change its answer
    sk = dict(shear_points=[0.4 * X]) if rng.random() < 0.5 else {}
    a1 = b.static_vehicle(pos, **sk)
    s1 = br_state(a1)
    a2 = b.static_vehicle(pos, plotflag=True, **sk)
    s2 = br_state(a2)
    mon.check(s1.keys() == s2.keys() and all(same(s2[k], s1[k], 1e-9) or np.allclose(s2[k], s1[k], rtol=1e-9, atol=1e-9 * max(1.0, np.abs(s1[k]).max() if s1[k].size else 0)) for k in s1 if s1[k].shape == s2[k].shape) and all(s1[k].shape == s2[k].shape for k in s1), "unchanged", "asking for a plot changed the static results")
    plt.close("all")
    # the vehicle
    ax = veh.plot(units=arg, show=False, title="T")
    got = sorted((p[0], t) for p, t in texts(ax) if p[0] is not None)
    lbl = [(p[0], value_of(t, tab[0])) for p, t in texts(ax)]
    want = [(float(x), float(w)) for x, w in zip(veh.axle_coords, veh.axw)]
    match(mon, [(x, v[0]) for x, v in lbl if v], [(x, g6(w)) for x, w in want], (1e-9 * max(veh.L, 1), 1e-9), "vehicle", "axle labels")
    heads = sorted(h[0] for t, h in arrows(ax))
    mon.close(heads, sorted(x for x, _ in want), 1e-9 * max(veh.L, 1), "vehicle", "axle arrows") if len(heads) == len(want) else mon.fail("vehicle", f"{len(heads)} axles")
    mon.check(f"{veh.W:g}" in ax.get_title() and f"{veh.L:g}" in ax.get_title() and ax.get_title().startswith("T"), "vehicle", f"title {ax.get_title()}")
    plt.close("all")
    if rng.random() < 0.35:
        anim = b.animate(step, units=arg)
        fig = plt.gcf()
        mon.event("animated")
        k = int(rng.integers(0, len(b.pos)))
        for q in (0, k):
            anim._func(q)
        axs = fig.axes
        # b.animate ran the traverse without shear points
        rr = b.vResults[k].results
        Mx = np.array([v.results.M for v in b.vResults[: k + 1]])
        Vx = np.array([v.results.V for v in b.vResults[: k + 1]])
        s = -1.0 if not axs[1].yaxis_inverted() else 1.0
        has_line(mon, axs[1], rr.x, s * rr.M, "animation", "moment of a frame")
        has_line(mon, axs[2], rr.x, rr.V, "animation", "shear of a frame")
        for y, ax in ((s * Mx, axs[1]), (Vx, axs[2])):
            has_line(mon, ax, rr.x, y.max(axis=0), "animation", f"running maximum at frame {k}")
            has_line(mon, ax, rr.x, y.min(axis=0), "animation", f"running minimum at frame {k}")
        mon.check(len(b.pos) == len(b.vResults) and f"{b.pos[k]:.1f}" in axs[0].get_title(), "animation", f"frame title {axs[0].get_title()}")
        anim._draw_was_started = True
        plt.close("all")
        mon.check([list(map(float, q)) for q in ba.beam.loads] == [list(map(float, q)) for q in m["LM"]], "unchanged", "the animation left loads on the bridge")
    more = np.random.default_rng(c["r"] + 1)
    if more.random() < 0.3 and len(b.pos) < 14:
        # a traverse drawn as it goes
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            shown = b.run_vehicle(step, plot_all=True, **kw)
        mon.check(all(same(env_state(shown)[k], was[k]) for k in was), "unchanged", "drawing every position changed the envelope")
        axs = plt.gcf().axes
        if mon.check(len(axs) == 2, "static", f"{len(axs)} panels of the positions drawn"):
            for q, v in zip(b.pos, b.vResults):
                y = plain(v.results.M)
                has_line(mon, axs[0], v.results.x, y if axs[0].yaxis_inverted() else -y, "static", f"moments at {q}, drawn on the way", tol=1e-9)
                has_line(mon, axs[1], v.results.x, v.results.V, "static", f"shears at {q}, drawn on the way", tol=1e-9)
            mon.event("drawn_on_the_way")
        plt.close("all")
        # panels of one's own show the results there are
        here = float(b.pos[int(more.integers(0, len(b.pos)))])
        res = b.static_vehicle(here).results
        for k in (2, 3):
            fig, mine = plt.subplots(k, 1)
            out = b.plot_static(here, mine, units=arg)
            mon.check(out is None and plt.get_fignums() == [fig.number], "static", "drawing into given axes made another figure")
            y = plain(res.M)
            has_line(mon, mine[-2], res.x, y if mine[-2].yaxis_inverted() else -y, "static", f"moments in {k} given panels", tol=1e-9)
            has_line(mon, mine[-1], res.x, res.V, "static", f"shears in {k} given panels", tol=1e-9)
            if k == 3:
                wheels = sorted(p.center[0] for p in mine[0].patches if p.get_gid() == "vehicle_wheel")
                mon.check(len(wheels) == len(ax_x), "static", "wheels in given panels")
            plt.close("all")
        mon.event("own_panels")
        if more.random() < 0.3:
            # an animation on file has a frame for every position
            from PIL import Image

            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, "crossing.gif")
                anim = b.animate(step, save=f, fps=5, dpi=30, units=arg)
                with Image.open(f) as im:
                    t, n = 0, im.n_frames
                    for j in range(n):
                        im.seek(j)
                        t += im.info["duration"]
                mon.check(t == 200 * len(b.pos) and 1 <= n <= len(b.pos), "animation", f"{n} frames, {t} ms on file for {len(b.pos)} positions")
                mon.event("animation_files")
            anim._draw_was_started = True
            plt.close("all")
    mon.event("unchanged")
    mon.check(all(same(env_state(env)[k], was[k]) for k in was), "unchanged", "drawing changed the envelope")
    mon.state("bridge", len(m["L"]), str(c["U"]), len(r["v"]["w"]))


def weights(t, unit):
    """(sum of the listed axles, total) of a vehicle caption"""
    a, b = t.split("Vehicle:")[1].split("(ΣW =")
    tot = float(re.findall(NUM, b)[0])
    s = 0.0
    for p in a.replace(unit, "").split(" + ") if unit else a.split(" + "):
        n, _, w = p.strip().rpartition("×")
        s += (int(n) if n else 1) * float(w)
    return s, tot


def run_lines(c, mon):
    import matplotlib.pyplot as plt
    import pycba as cba

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    arg, tab = unit_of(c["U"])
    lab = labels(tab)
    X = float(sum(m["L"]))
    il = cba.InfluenceLines(list(m["L"]), list(m["EI"]), list(m["R"]), list(m.get("et") or [1] * len(m["L"])))
    il.create_ils(X / 11)
    for ef in "MVR":
        if ef == "R" and not any(r == -1 for r in m["R"][::2]):
            continue
        poi = float(rng.uniform(0, X))
        x, y = il.get_il(poi, ef)
        if rng.random() < 0.5:
            fig, ax = plt.subplots()
            il.plot_il(poi, ef, ax=ax, units=arg)
        else:
            il.plot_il(poi, ef, units=arg)
            ax = plt.gcf().axes[0]
        has_line(mon, ax, x, y, "il", f"influence line of {ef} at {poi}")
        mon.check(ax.get_xlabel() == lab["x"] and ef in ax.get_title(), "labels", "influence line labels")
        mon.event("il_drawn")
        plt.close("all")
    # vibration modes
    mm = copy.deepcopy(m)
    mm["et"] = None
    mm["R"] = [r if r else 0 for r in m["R"]]
    if not G.mechanism(mm):
        ba = G.build(mm)
        md = ba.modal(1.3, n_modes=3, nseg=8)
        k = list(range(min(3, md.n_modes)))
        fig, axs = md.plot_results(units=arg)
        for q in k:
            x, v = md.mode_shape(q)
            has_line(mon, axs[1], x, v, "modes", f"mode {q + 1}")
            l = [l for l in axs[1].lines if l.get_label().startswith(f"Mode {q + 1}:")]
            mon.check(len(l) == 1 and np.allclose(plain(l[0].get_ydata()), v) and abs(float(l[0].get_label().split(":")[1].split()[0]) - md.f[q]) <= 0.6e-2 * md.f[q], "modes", f"label of mode {q + 1}")
        mon.check(axs[1].get_xlabel() == lab["x"], "labels", "modes")
        plt.close("all")
        ax = md.plot_modes(k[-1], units=arg)
        has_line(mon, ax, *md.mode_shape(k[-1]), "modes", "one mode")
        plt.close("all")
        # some of the modes, in any order; an index from NumPy
        for ks in (k[::-1], np.int64(k[-1])):
            ax = md.plot_modes(ks, units=arg)
            for q in np.atleast_1d(ks):
                l = [l for l in ax.lines if l.get_label().startswith(f"Mode {q + 1}:")]
                mon.check(len(l) == 1 and np.allclose(plain(l[0].get_ydata()), md.mode_shape(q)[1]) and abs(float(l[0].get_label().split(":")[1].split()[0]) - md.f[q]) <= 0.6e-2 * md.f[q], "modes", f"label of mode {q + 1} of {ks}")
            plt.close("all")
        many = ba.modal(1.3, n_modes=7, nseg=8)
        said = [float(t) for t in re.findall(r"[-+0-9.e]+", repr(many).split("=")[1].split("...")[0]) if any(ch.isdigit() for ch in t)]
        mon.check(repr(many).startswith(f"ModalResults({many.n_modes} modes") and 1 <= len(said) <= many.n_modes and np.allclose(said, many.f[: len(said)], rtol=1e-3), "modes", repr(many))
        mon.event("modes_drawn")
        plt.close("all")
    # section
    s = G.gen_section(rng, m["L"][0], 1e5)
    sec = G.sec(cba, s)
    fig, ax = sec.plot(show_breakpoints=False)
    L = m["L"][0]
    for x, y in lines(ax):
        if len(x) > 2:
            a, b = x[0], x[-1]
            q = 0.5 * (x[1:-1] if len(x) > 2 else x)
            inner = (x > a) & (x < b)
            mon.close(y[inner], plain(sec(x[inner])), 1e-9 * np.abs(y).max(), "section", "rigidity drawn")
    cov = sorted((x[0], x[-1]) for x, y in lines(ax) if x[-1] > x[0])
    mon.check(abs(cov[0][0]) < 1e-9 * L and abs(cov[-1][1] - sec.length) < 1e-6 * L and all(abs(a[1] - b[0]) < 1e-9 * L for a, b in zip(cov, cov[1:])), "section", f"the drawn pieces cover {cov}")
    mon.event("section_drawn")
    plt.close("all")
    mon.state("lines", len(m["L"]), str(c["U"]))


def check_state(mon, ax, r, xs):
    """yield and hinge marks on the beam line"""
    want = [sorted(h.location for h in r.hinge_events if h.event_type == t) for t in ("initial_yield", "plastic_hinge")]
    got = [sorted(float(p[0]) for p in plain(col.get_offsets())) for col in ax.collections]
    got = [g for g in got if g]
    for w in want:
        mon.check(not w or any(len(g) == len(w) and np.allclose(g, w) for g in got), "nl", f"marks at {got} instead of {w}")
    lo, hi = ax.get_xlim()
    mon.check(lo < xs[0] and hi > xs[-1], "nl", "beam cut off")


def run_nl(c, mon):
    import matplotlib.pyplot as plt
    import pycba as cba
    from .c26 import nl_state

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    arg, tab = unit_of(c["U"])
    lab = labels(tab)
    nba = cba.NonlinearBeamAnalysis(L=list(m["L"]), EI=list(m["EI"]), R=list(m["R"]), Mp=list(m["Mp"]), My=list(m["My"]), mesh_size=m["h"])
    X = float(sum(m["L"]))
    moving = rng.random() < 0.4
    if moving:
        k = int(rng.integers(1, 4))
        v = {"w": [G.rnd(q) for q in rng.uniform(0.5, 3.0, k) * min(m["My"]) / max(m["L"])], "sp": [G.rnd(q) for q in rng.uniform(0.05, 0.4, k - 1) * max(m["L"])], "rev": bool(rng.random() < 0.3)}
        veh = MV.make_vehicle(v) if k > 1 else cba.Vehicle(np.array([]), np.array(v["w"]))
        v["rev"] = v["rev"] and k > 1
        axle_w = {round(q, 12): w for q, w in MV.axles(v)}
        mon.check({round(float(q), 12): float(w) for q, w in zip(veh.axle_coords, veh.axw)} == axle_w, "nl", "axles of the vehicle")
        r = nba.analyze_moving(vehicle=veh, step=max(m["L"]) / 5, n_sub=3, record_every=1)
    else:
        r = nba.analyze([list(q) for q in m["LM"]], lambda_max=4.0, record_every=7, max_steps=1500)
    was = nl_state(r)
    xs = plain(r.node_coords)
    ax = r.plot_moments(Mp=m["Mp"][0], units=arg)
    has_line(mon, ax, xs, r.final_moments, "nl", "final moments")
    for q in r.moment_history[:10]:
        has_line(mon, ax, xs, q, "nl", "a recorded state")
    mon.check(ax.yaxis_inverted() and ax.get_ylabel() == lab["M"] and ax.get_xlabel() == lab["x"], "labels", "elasto-plastic moments")
    lv = sorted(float(y[0]) for x, y in lines(ax) if len(x) == 2 and y[0] == y[1] and y[0] != 0)
    mon.check(len(lv) == 2 and abs(lv[0] + m["Mp"][0]) < 1e-9 * m["Mp"][0] and abs(lv[1] - m["Mp"][0]) < 1e-9 * m["Mp"][0], "nl", f"capacity lines {lv}")
    plt.close("all")
    ax = r.plot_hinge_history(moving=bool(moving), units=arg)
    got = sorted(tuple(np.round(p, 9)) for col in ax.collections for p in plain(col.get_offsets()))
    want = sorted(tuple(np.round((e.location, e.load_factor), 9)) for e in r.hinge_events if e.event_type in ("initial_yield", "plastic_hinge"))
    mon.check(len(got) == len(want) and np.allclose(np.array(got).reshape(-1, 2), np.array(want).reshape(-1, 2)), "nl", f"hinge history {got[:4]} instead of {want[:4]}")
    plt.close("all")
    ax = r.plot_collapse(units=arg)
    d = plain(r.final_displacements)
    if d.size >= 2 * len(xs):
        v = d[0 : 2 * len(xs) : 2]
        ok = False
        for x, y in lines(ax):
            if len(x) == len(xs) and np.allclose(x, xs) and np.abs(v).max() > 0:
                k = int(np.abs(v).argmax())
                f = y[k] / v[k]
                ok |= bool(f > 0 and np.allclose(y, f * v, atol=1e-9 * np.abs(y).max()))
        mon.check(ok or np.abs(v).max() == 0, "nl", "the collapse shape is not in proportion to the displacements")
    hx = sorted({round(h.location, 9) for h in r.hinge_events if h.event_type == "plastic_hinge"})
    got = [sorted(round(float(p[0]), 9) for p in plain(col.get_offsets())) for col in ax.collections]
    mon.check(not hx or any(len(g) == len(hx) and np.allclose(g, hx) for g in got), "nl", f"plastic hinges drawn at {got} instead of {hx}")
    plt.close("all")
    ax = r.plot_beam_state(units=arg, vehicle=None)
    check_state(mon, ax, r, xs)
    mon.check(not arrows(ax), "nl", "axles drawn without a vehicle")
    plt.close("all")
    if moving:
        ax = r.plot_beam_state(units=arg, vehicle=veh)
        check_state(mon, ax, r, xs)
        on = sorted((r.collapse_lambda - q, w) for q, w in MV.axles(v) if 0 <= r.collapse_lambda - q <= X)
        got = sorted((h[0], t[0]) for t, h in arrows(ax))
        tips = sorted((p[0], t) for p, t in texts(ax))
        mon.check(len(got) == len(on) and np.allclose(np.array(got).reshape(-1, 2), np.array([(q, q) for q, _ in on]).reshape(-1, 2)), "nl", f"axles drawn at {got} instead of {on}")
        mon.check(len(tips) == len(on) and all(abs(a[0] - b[0]) < 1e-9 * X and abs(float(a[1]) - b[1]) <= 0.5 + 1e-9 * b[1] for a, b in zip(tips, on)), "nl", f"axle loads {tips} instead of {on}")
        word = "collapse" if r.collapsed else "final"
        nums = re.findall(r"=\s*(-?[0-9.]+)", ax.get_title())
        mon.check(word in ax.get_title() and len(nums) == 1 and abs(float(nums[0]) - r.collapse_lambda) <= 0.05 + 1e-9 * X and (not tab[1] or ax.get_title().rstrip().endswith(tab[1])), "nl", f"title {ax.get_title()} at {r.collapse_lambda}")
        mon.event("nl_vehicle_drawn")
        plt.close("all")
    mon.event("nl_drawn")
    mon.event("unchanged")
    now = nl_state(r)
    mon.check(all(same(now[k], was[k]) for k in was), "unchanged", "drawing changed the elasto-plastic results")
    mon.state("nl", len(m["L"]), moving)


def run_tendon(c, mon):
    import matplotlib.pyplot as plt
    from pycba.prestress import equivalent_loads, plot_tendon
    from . import c22

    m = c["m"]
    arg, tab = unit_of(c["U"])
    n, L = len(m["L"]), m["L"]
    ba = G.build(m, how=0)
    F = m["F"][0] if m["scalar"] else list(m["F"])
    P = [c22.profile(None, p) for p in m["P"]]
    keep = copy.deepcopy(P)
    LM = equivalent_loads(ba, F, P)
    fig, axs = plot_tendon(ba, F, P, units=arg)
    off = np.concatenate([[0.0], np.cumsum(L)])
    X = float(off[-1])
    mon.event("tendon_drawn")
    mon.check(axs[1].yaxis_inverted(), "tendon", "the drape is not drawn with positive eccentricity below")
    PC = [None if p is None else c22.pieces(p, L[i], c22.side(m, i)) for i, p in enumerate(m["P"])]
    cur = [(x, y) for x, y in lines(axs[1]) if len(x) > 10]
    mon.check(len(cur) == sum(p is not None for p in P), "tendon", f"{len(cur)} drapes drawn")
    for i in range(n):
        if PC[i] is None:
            continue
        q = [(x, y) for x, y in cur if abs(x[0] - off[i]) < 1e-9 * X and abs(x[-1] - off[i + 1]) < 1e-9 * X]
        if mon.check(len(q) == 1, "tendon", f"drape of span {i + 1}"):
            x, y = q[0]
            e = plain(c22.ecc_at(PC[i], x - off[i]))
            mon.close(y, e, 1e-7 * max(np.abs(e).max(), 1e-3), "tendon", f"drape of span {i + 1}")
    # the loads panel shows the equivalent loads
    D, PL, M, _ = want_loads(L, LM)
    from matplotlib.patches import Polygon

    e = 1e-9 * X
    ax = axs[2]
    polys = [p.get_xy()[:4] for p in ax.patches if isinstance(p, Polygon) and len(p.get_xy()) == 5]
    match(mon, [(p[0][0], p[3][0], np.sign(p[1][1])) for p in polys], [(d[0], d[1], np.sign(d[2])) for d in D], (e, e, 0.1), "tendon", "equivalent distributed loads")
    vert = [(b[0], a[1]) for a, b in arrows(ax) if abs(b[1]) <= e and abs(a[0] - b[0]) <= e and abs(a[1]) > e]
    for x, v in PL:
        mon.check(any(abs(x - p) <= e and (y > 0) == (v >= 0) for p, y in vert), "tendon", f"no arrow for the kink force at {x}")
    for x, v in M:
        mon.check(any(abs(x - a) <= e and s == (1 if v >= 0 else -1) for a, s, _ in arc_turns(ax)), "tendon", f"no anchorage moment at {x}")
    mon.event("unchanged")
    mon.check(P == keep and not ba.beam.loads, "unchanged", "drawing the tendon changed it or the beam")
    plt.close("all")
    mon.state("tendon", n)


def run_cases(c, mon):
    import matplotlib.pyplot as plt
    import pycba as cba
    from pycba import load_cases as lcm

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    ba = G.build(m)
    n, L = len(m["L"]), m["L"]
    X = float(sum(L))
    off = np.concatenate([[0.0], np.cumsum(L)])
    lc = cba.LoadCases(ba)
    rows = []
    for k in range(int(rng.integers(2, 5))):
        q = [G.gen_load(rng, int(rng.integers(0, n)), 1.0, ("udl", "pudl", "trap")) for _ in range(int(rng.integers(1, 4)))]
        rows.append([scale_len(r, L) for r in q])
        case = lc.case(f"c{k}")
        for r in rows[-1]:
            case.add_load(list(r))
    cases = [lc.case(f"c{k}", create=False) for k in range(len(rows))]
    kept = freeze([x.to_LM() for x in cases])
    fig, ax = lcm.plot_load_patterns(ba, cases, show=False)
    mon.event("patterns_drawn")
    got = [[] for _ in rows]
    for col in ax.collections:
        ps = [p.get_extents() for p in col.get_paths()]
        if np.allclose(np.asarray(col.get_facecolor())[0][:3], 0.92):
            continue
        for p in ps:
            got[int(round(0.5 * (p.y0 + p.y1)))].append((p.x0, p.x1))
    for k, rr in enumerate(rows):
        D, *_ = want_loads(L, rr)
        match(mon, got[k], [(d[0], d[1]) for d in D], (1e-9 * X, 1e-9 * X), "patterns", f"loaded lengths of case {k}")
    mon.check([t.get_text() for t in ax.get_yticklabels()] == [f"c{k}" for k in range(len(rows))], "patterns", "names of the cases")
    plt.close("all")
    # additive envelope
    x, B = lc.response_matrix("M")
    x = plain(x)
    neg, pos = np.minimum(B, 0).sum(axis=0), np.maximum(B, 0).sum(axis=0)
    fig, ax = lcm.plot_response_envelope(x, B, neg, pos, beam_model=ba, load_cases=cases, show=False)
    for k in range(len(rows)):
        has_line(mon, ax, x, B[k], "patterns", f"response of case {k}")
        l = [l for l in ax.lines if l.get_label() == f"c{k}"]
        mon.check(len(l) == 1 and np.array_equal(plain(l[0].get_ydata()), plain(B[k])), "patterns", f"the line labelled c{k}")
    has_line(mon, ax, x, neg, "patterns", "negative envelope")
    has_line(mon, ax, x, pos, "patterns", "positive envelope")
    plt.close("all")
    # a combination is drawn factored
    from pycba.render import BeamPlotter

    f = [float(G.rnd(rng.uniform(-1.5, 2.0))) for _ in rows]
    combo = None
    try:
        combo = lc.add_combination("k", {f"c{k}": f[k] for k in range(len(rows))})
    except (AttributeError, TypeError):
        pass
    if combo is None:
        combo = cba.LoadCombination(name="k", factors={f"c{k}": f[k] for k in range(len(rows))})
    want = [G.scale_row(r, f[k]) for k, rr in enumerate(rows) for r in rr]
    D, P, M, _ = want_loads(L, want)
    bp = BeamPlotter(ba.beam, combo, load_cases=lc)
    mon.event("combination_drawn")
    match(mon, [(d.x0, d.x1, d.w0, d.w1) for d in bp.dist_loads if (d.w0 or d.w1)], [d for d in D if d[2] or d[3]], (1e-9 * X, 1e-9 * X, 1e-6, 1e-6), "combination", "factored loads")
    check_mpl(mon, ba.beam, m, combo.to_LM(lc), combo, c["U"], {"load_cases": lc})
    mon.raises(ValueError, lambda: BeamPlotter(ba.beam, combo), "combination", "a combination without its cases")
    mon.event("unchanged")
    mon.check(same([x.to_LM() for x in cases], kept) and [list(map(float, r)) for r in ba.beam.loads] == [list(map(float, r)) for r in m["LM"]], "unchanged", "drawing changed the load cases or the beam")
    mon.state("cases", n, len(rows))


def scale_len(r, L):
    """a row made for a unit span, on its own span"""
    l = L[int(r[0]) - 1]
    r = list(r)
    if r[1] == 3:
        r[3], r[4] = r[3] * l, r[4] * l
    elif r[1] == 5 and len(r) > 4:
        r[4], r[5] = r[4] * l, r[5] * l
    return r


def run_units(c, mon):
    import pycba as cba
    from pycba import plotting, units as U
    import matplotlib.pyplot as plt

    rng = np.random.default_rng(c["r"])
    cur, back = "SI (kN, m)", "matplotlib"
    ba = cba.BeamAnalysis([4.0, 5.0], 1e4, [-1, 0, -1, 0, -1, 0], LM=[[1, 1, 3.0], [2, 2, 5.0, 2.0]])
    ba.analyze(20)
    was = br_state(ba.beam_results)
    try:
        cba.set_units("SI")
        plotting.set_backend("matplotlib")
        for op in c["ops"]:
            mon.event("unit_settings")
            names = list(NAMES)
            k = names[int(rng.integers(0, len(names)))]
            if op == 0:
                got = cba.set_units(k)
                cur = NAMES[k]
                mon.check(got is cba.get_units(), "units", "set_units returned another system")
            elif op == 1:
                own, _ = unit_of("own")
                mon.check(cba.set_units(own) is own, "units", "own unit system")
                cur = "own"
            elif op == 2:
                bad = str(rng.choice(["furlong", "kN", "SII", "k n m", "us-mm"]))
                mon.raises(KeyError, lambda: cba.set_units(bad), "units", f"unknown unit system {bad}")
                mon.raises(KeyError, lambda: U.resolve(bad), "units", f"unknown unit system {bad}")
                mon.raises(KeyError, lambda: ba.plot_bmd(units=bad), "units", f"unknown unit system {bad}")
            elif op == 3:
                mon.check(U.resolve(k).name == NAMES[k] and U.resolve(None) is cba.get_units(), "units", f"resolve({k!r})")
                t = UNIT[NAMES[k]]
                q = U.resolve(k)
                mon.check((q.force, q.length, q.moment, q.distributed, q.disp_label, q.disp_scale) == t, "units", f"{k!r} is {q}")
            elif op == 4:
                want = str(rng.choice(["plotly", "matplotlib", "Plotly", "MATPLOTLIB"]))
                plotting.set_backend(want)
                back = want.lower()
            elif op == 5:
                mon.raises(ValueError, lambda: plotting.set_backend("gnuplot"), "backend", "unknown backend")
                mon.raises(ValueError, lambda: ba.plot_bmd(backend="gnuplot"), "backend", "unknown backend")
            mon.check(cba.get_units().name == cur, "units", f"units are {cba.get_units().name}, set to {cur}")
            mon.check(plotting.get_backend() == back, "backend", f"backend is {plotting.get_backend()}")
            # the default is used where none is given; one given does not stay
            t = UNIT[cur]
            lab = labels(t)
            for arg, tt in ((None, t), ("us-in", UNIT["US (kip, in)"])):
                fig = ba.plot_dsd(units=arg)
                xd, yd = ba.beam_results.deflection_curve()
                if back == "plotly":
                    plotly_curve(mon, fig, plain(xd), plain(yd) * tt[5], "deflection")
                    mon.check(fig.layout.yaxis.title.text == labels(tt)["D"], "units", "deflection label")
                else:
                    has_line(mon, fig, xd, plain(yd) * tt[5], "units", f"deflection in {tt[4]!r}")
                    mon.check(fig.get_ylabel() == labels(tt)["D"], "units", f"deflection label {fig.get_ylabel()}")
                src = ba.beam.to_tikz(units=arg)
                mon.check(read_tikz(src)["dnotes"][0][3] == tt[3], "units", "load label")
            plt.close("all")
            ba.analyze(20)
            now = br_state(ba.beam_results)
            mon.event("unchanged")
            mon.check(all(same(now[q], was[q]) for q in was), "units", "units changed the analysis")
    finally:
        cba.set_units("SI")
        plotting.set_backend("matplotlib")
    mon.state("units", cur, back)


def run(c, mon):
    import matplotlib.pyplot as plt

    try:
        {
            "scheme": run_scheme, "diag": run_diag, "bridge": run_bridge, "lines": run_lines, "nl": run_nl, "tendon": run_tendon,
            "cases": run_cases, "units": run_units,
        }[c["kind"]](c, mon)
    finally:
        plt.close("all")
