"""
The same case written in other units: lengths x a, forces x f (imposed curvatures and
stiffnesses follow).  Every generator draws in "engineering" magnitudes; a share of the
cases is rewritten here, so that an absolute tolerance in the code under test meets
millimetres, newtons, and a beam of unit length.
"""

PAIRS = (
    (1000.0, 1.0), (1000.0, 1000.0), (1.0, 1000.0), (3.28084, 0.224809), (0.001, 1.0),
    (1.0, 1e-4), (1.0, 1e6), (39.3701, 224.809), (0.01, 0.01), (100.0, 1e-3),
)


def section(s, a, b):
    if s is None or isinstance(s, (int, float)):
        return None if s is None else s * b
    return [
        [g[0], [t * a for t in g[1]], [e * b for e in g[2]] if isinstance(g[2], list) else g[2] * b] + list(g[3:])
        for g in s
    ]


def row(r, a, f):
    s, t = r[:2]
    if t == 1:
        return [s, 1, r[2] * f / a]
    if t == 2:
        return [s, 2, r[2] * f, r[3] * a]
    if t == 3:
        return [s, 3, r[2] * f / a, r[3] * a, r[4] * a]
    if t == 4:
        return [s, 4, r[2] * f * a, r[3] * a]
    if t == 5:
        return [s, 5, r[2] * f / a, r[3] * f / a] + [x * a for x in r[4:]]
    return [s, 6] + [k / a ** (p + 1) for p, k in enumerate(r[2:])]


def rows(rr, a, f):
    return [row(r, a, f) for r in rr]


def restraints(R, a, f):
    return [r if r <= 0 else (r * f / a if k % 2 == 0 else r * f * a) for k, r in enumerate(R)]


def model(m, a, f):
    o = dict(m, L=[x * a for x in m["L"]])
    if "EI" in m:
        o["EI"] = [section(s, a, f * a * a) for s in m["EI"]]
    if m.get("GAv"):
        o["GAv"] = [section(s, a, f) for s in m["GAv"]]
    if m.get("kf"):
        o["kf"] = [None if k is None else k * f / a / a for k in m["kf"]]
    if "R" in m:
        o["R"] = restraints(m["R"], a, f)
    if m.get("D"):
        o["D"] = [d if (d is None or k % 2) else d * a for k, d in enumerate(m["D"])]
    if "LM" in m:
        o["LM"] = rows(m["LM"], a, f)
    return o


def num(v, s):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (list, tuple)):
        return [num(x, s) for x in v]
    return v * s


def vehicle(v, a, f):
    return dict(v, sp=num(v["sp"], a), w=num(v["w"], f))


def traverse(r, a, f):
    o = dict(r, v=vehicle(r["v"], a, f))
    for k in ("start", "end", "step"):
        o[k] = num(r[k], a)
    return o


def case(c, a, f, keys):
    """keys: name -> (power of length, power of force), or one of the functions above"""
    o = model(c, a, f) if "L" in c else dict(c)
    for k, d in keys.items():
        if c.get(k) is None:
            continue
        o[k] = d(c[k], a, f) if callable(d) else num(c[k], a ** d[0] * f ** d[1])
    return o


def many(g):
    return lambda v, a, f: [g(x, a, f) for x in v]
