"""C23 - equivalent descriptions give the same beam, inconsistent ones are refused"""
import numpy as np

from .. import gen as G, oracle
from . import c01

ID = "C23"
N_QUICK, N_THOROUGH = 4500, 45000
RULE = (
    "random beams described twice: by the plain vectors, and by one of the friendlier "
    "routes (beam string in random spelling, named supports, raw support pairs, member "
    "type names and enumerations, scalar rigidities, arrays, tuples, integers, loads "
    "added one by one or replaced, members added one by one); all results must agree. "
    "Every kind of inconsistent description, derived from a random valid one, must be "
    "refused with an exception by construction or analysis"
)
MUST_SEE = (
    "beam_strings", "string_hinges", "string_analyses", "string_refusals", "routes_compared", "named_supports",
    "type_names", "broadcasts", "incremental_members", "refusals", "node_of_position", "default_types",
    "nonlinear_refusals", "respelled_sections", "callable_rigidity", "sections_evaluated", "section_refusals",
)

NAMES = {
    "pin": ["p", "pin", "pinned", "r", "roller"],
    "fix": ["e", "encastre", "fixed", "clamped"],
    "free": ["f", "free"],
}


def spell(rng, s):
    u = rng.random()
    if u < 0.35:
        return s
    if u < 0.6:
        return s.upper()
    if u < 0.8:
        return s.capitalize()
    return "".join(c.upper() if rng.random() < 0.5 else c for c in s)


# ---------------------------------------------------------------- generation


def gen_string(rng):
    n = int(rng.integers(1, 7))
    t = [str(rng.choice(list("preef")))]
    for _ in range(n - 1):
        t.append(str(rng.choice(list("prhpr"))))
    t.append(str(rng.choice(list("preef"))))
    L, txt = [], ""
    for i in range(n):
        k = int(rng.integers(0, 5))
        v = rng.uniform(0.5, 60)
        s = ["%d" % (1 + v), "%.1f" % v, "%.3f" % v, "%.2f" % v, "%.6f" % v][k]
        if k == 1 and rng.random() < 0.2:
            s = "0" + s
        if rng.random() < 0.05:
            s = "." + "%d" % (1 + int(8 * rng.random()))
        if rng.random() < 0.1:
            s = s + "." if "." not in s else s
        L.append(s)
    for i in range(n):
        pad = " " * int(rng.choice([0, 0, 0, 1, 2]))
        c = t[i].upper() if rng.random() < 0.7 else t[i]
        txt += c + pad + L[i] + (" " if rng.random() < 0.1 else "")
    txt += t[-1].upper() if rng.random() < 0.7 else t[-1]
    return {"kind": "string", "text": txt, "t": t, "L": [float(s) for s in L]}


BAD_STRINGS = (
    "one", "none", "hinge_first", "hinge_last", "inner_fixed", "inner_free", "no_length",
    "junk", "tail", "head", "empty",
)
BAD = (
    "both", "neither", "R_short", "R_long", "R_odd", "EI_short", "EI_long", "GAv_short", "GAv_long",
    "kf_short", "kf_long", "D_short", "D_long", "D_setter", "sup_short", "sup_long", "sup_name",
    "sup_hinge", "sup_pair1", "sup_pair3", "et_short", "et_long", "et_code", "et_name", "et_zero",
    "et_neg", "LM_flat", "LM_tuple", "LM_array", "trap_a", "spring_D_load", "sec_length",
    "gav_sec_length", "sup_noL", "kf_release", "kf_gav", "kf_section", "kf_load", "setL_tuple",
    "bad_add_member", "ld_span_high", "ld_span_low", "ld_type", "ld_beyond", "ld_before", "ld_cover",
    "nl_R", "nl_EI", "nl_Mp", "nl_My", "nl_section", "nl_type", "nl_span", "nl_outside",
)


def gen_bad_string(rng, kind):
    c = gen_string(rng)
    t, L = c["t"], ["%g" % v for v in c["L"]]
    if kind == "one":
        s = t[0] + L[0]
    elif kind == "none":
        s = L[0]
    elif kind == "empty":
        s = str(rng.choice(["", " "]))
    elif kind == "hinge_first":
        s = "h" + "".join(a + b for a, b in zip(L, t[1:]))
    elif kind == "hinge_last":
        s = "".join(a + b for a, b in zip(t, L)) + "h"
    elif kind in ("inner_fixed", "inner_free"):
        while len(L) < 2:
            L.append("7.5")
            t.insert(1, "p")
        k = int(rng.integers(1, len(t) - 1))
        t[k] = "e" if kind == "inner_fixed" else "f"
        s = "".join(a + b for a, b in zip(t, L)) + t[-1]
    elif kind == "no_length":
        k = int(rng.integers(0, len(L)))
        L[k] = str(rng.choice(["", " "]))
        s = "".join(a + b for a, b in zip(t, L)) + t[-1]
    elif kind == "junk":
        k = int(rng.integers(0, len(L)))
        L[k] = L[k] + str(rng.choice(["x", "m", ",", "..", "-3", " 4"]))
        s = "".join(a + b for a, b in zip(t, L)) + t[-1]
    elif kind == "tail":
        s = "".join(a + b for a, b in zip(t, L)) + t[-1] + str(rng.choice(["12", "3.5", " 20", "x"]))
    elif kind == "head":
        s = str(rng.choice(["12", "3.5 ", "x"])) + "".join(a + b for a, b in zip(t, L)) + t[-1]
    s = s.upper() if rng.random() < 0.6 else s
    return {"kind": "badstring", "what": kind, "text": s}


def gen(rng, i, tier):
    u = i % 10
    if u < 3:
        return gen_string(rng)
    if u == 3:
        return gen_bad_string(rng, BAD_STRINGS[(i // 10) % len(BAD_STRINGS)])
    if u == 4 or u == 5:
        what = BAD[(i // 10 * 2 + (u - 4)) % len(BAD)]
        m = c01.gen_case(rng, nmax=5, releases=0.2)
        return {"kind": "bad", "what": what, "m": m, "r": int(rng.integers(0, 2**31))}
    if i % 40 in (9, 19):
        L = G.rnd(rng.uniform(2, 25), 3)
        return {"kind": "section", "L": L, "spec": G.gen_section(rng, L, 3e4), "r": int(rng.integers(0, 2**31))}
    if i % 40 == 29:
        return {"kind": "badsection", "L": G.rnd(rng.uniform(2, 25), 3), "e": G.log_u(rng, 1e2, 1e6), "what": BAD_SECTIONS[i // 40 % len(BAD_SECTIONS)], "r": int(rng.integers(0, 2**31))}
    kw = {}
    if u == 6:
        kw = dict(sections=0.6)
    elif u == 7:
        kw = dict(gav=1.0, kinds=("udl", "pl", "pudl", "ml", "trap", "ic"))
    elif u == 8:
        kw = dict(kf=1.0, kinds=("udl", "pl", "pudl"), releases=0.0)
    m = c01.gen_case(rng, nmax=5, **kw)
    n = len(m["L"])
    # encourage inputs that have a short spelling
    if rng.random() < 0.5:
        m["EI"] = [m["EI"][0] if isinstance(m["EI"][0], float) else 2.5e4] * n
    if m.get("GAv") and rng.random() < 0.6:
        g = next(x for x in m["GAv"] if x is not None)
        if isinstance(g, float):
            m["GAv"] = [g] * n
    if m.get("kf") and rng.random() < 0.6:
        m["kf"] = [next(x for x in m["kf"] if x is not None)] * n
        m["LM"] = [r for r in m["LM"] if r[1] in (1, 2, 3)] or [[1, 1, 5.0]]
    if rng.random() < 0.25:  # whole numbers
        m["L"] = [float(max(2, round(x))) for x in m["L"]]
        m["EI"] = [float(round(e)) if isinstance(e, float) else e for e in m["EI"]]
        if any(not isinstance(e, float) for e in m["EI"]) or any(
            g is not None and not isinstance(g, float) for g in (m.get("GAv") or [])
        ):
            m["EI"] = [3.0e4] * n
            m.pop("GAv", None)
        m["LM"] = [[int(r[0]), 1, float(round(r[2]) or 1)] for r in m["LM"]]
    return {"kind": "route", "m": m, "r": int(rng.integers(0, 2**31))}


# ---------------------------------------------------------------- running


def expect_R(t):
    R = []
    for c in t:
        R += {"p": [-1, 0], "r": [-1, 0], "e": [-1, -1], "f": [0, 0], "h": [0, 0]}[c]
    return R


def run_string(c, mon):
    import pycba as cba

    out = cba.parse_beam_string(c["text"])
    mon.check(len(out) == 4, "string", "parse_beam_string did not return (L, EI, R, eType)")
    L, EI, R, et = out
    n = len(c["L"])
    key = "string"
    mon.event("beam_strings")
    mon.check(len(L) == n and np.array_equal(np.asarray(L, float), c["L"]), key,
              lambda: f"{c['text']!r}: lengths {list(L)}")
    mon.check(len(R) == 2 * n + 2 and list(map(float, R)) == expect_R(c["t"]), key,
              lambda: f"{c['text']!r}: restraints {list(R)}")
    et = [int(np.asarray(e).ravel()[0]) for e in et]
    mon.check(len(et) == n, key, f"{c['text']!r}: {len(et)} member types")
    EI = np.asarray(EI, float)
    mon.check(EI.shape == (n,) and np.all(EI > 0) and np.all(EI == EI[0]), key, f"{c['text']!r}: EI {EI}")
    if len(et) != n:
        return
    ok = True
    for k in range(n + 1):
        rel = (k > 0 and et[k - 1] in (2, 4)) + (k < n and et[k] in (3, 4))
        want = 1 if c["t"][k] == "h" else 0
        mon.event("string_hinges", want)
        ok &= mon.check(rel == want, key, lambda: f"{c['text']!r}: {rel} released member ends at node {k}")
    mon.state("string", n, "".join(sorted(set(c["t"]))))
    m = {"L": c["L"], "EI": [float(e) for e in EI], "R": expect_R(c["t"])}
    m["et"] = [1] * n
    for k in range(n):  # an equivalent hinge on the *other* side of the node
        if c["t"][k] == "h":
            m["et"][k] = 3
    if not ok or G.mechanism(m) or G.dangling_joint(m) or max(c["L"]) > 25 * min(c["L"]):
        return
    m["LM"] = [[k + 1, 1, 10.0 + 3 * k] for k in range(n)]
    m["LM"].append([1, 2, 25.0, 0.3 * c["L"][0]])
    a = cba.BeamAnalysis(L, EI, R, [list(r) for r in m["LM"]], et)
    a.analyze(12)
    b = G.build(m)
    b.analyze(12)
    mon.event("string_analyses")
    compare(mon, m, a, b, "string-analysis", rot=False, rel=1e-6)


def compare(mon, m, a, b, key, rot=True, rel=1e-9):
    """two analyses of what must be the same beam"""
    ra, rb = a.beam_results, b.beam_results
    sF, sM = G.load_scale(m)[:2]
    for nm in ("R", "Rs"):
        x, y = np.asarray(getattr(ra, nm), float), np.asarray(getattr(rb, nm), float)
        s = np.abs(y).max() if y.size else 0.0
        mon.close(x, y, rel * max(s, sF, sM), key, nm)
    for nm in "xVMRD":
        x = np.asarray(getattr(ra.results, nm), float)
        y = np.asarray(getattr(rb.results, nm), float)
        if x.shape != y.shape:
            mon.check(False, key, f"{nm}: {x.shape} against {y.shape} stations")
            return
        s = float(np.abs(y).max())
        if nm in "VM":
            s = max(s, sM if nm == "M" else sF)
        mon.close(x, y, rel * max(s, 1e-300) * (1e3 if nm in "RD" else 1), key, f"diagram {nm}")
    if rot:
        s = float(np.abs(rb.D).max())
        mon.close(np.asarray(ra.D, float), np.asarray(rb.D, float), rel * 1e3 * max(s, 1e-300), key, "nodal D")


def named(rng, R, mon=None):
    out = []
    for j in range(len(R) // 2):
        p = [R[2 * j], R[2 * j + 1]]
        kind = {(-1, 0): "pin", (-1, -1): "fix", (0, 0): "free"}.get(tuple(p))
        if kind and rng.random() < 0.85:
            s = spell(rng, str(rng.choice(NAMES[kind])))
            out.append(s if rng.random() < 0.85 else " " + s + " ")
            if mon:
                mon.event("named_supports")
        else:
            out.append([p, tuple(p), np.array(p, float)][int(rng.integers(0, 3))])
    return out


def types(rng, et, n, mon):
    import pycba as cba

    u = int(rng.integers(0, 7))
    if et is None or all(e == 1 for e in et):
        if rng.random() < 0.4:
            mon.event("default_types")
            return None
        et = [1] * n
    nm = {1: "FF", 2: "FP", 3: "PF", 4: "PP"}
    mon.event("type_names", u in (0, 1, 2))
    if u == 0:
        return [spell(rng, nm[e]) for e in et]
    if u == 1:
        return [getattr(cba.MemberType, nm[e]) for e in et]
    if u == 2:
        return [[nm[e], cba.MemberType(e), e, float(e), np.int64(e)][int(rng.integers(0, 5))] for e in et]
    if u == 3:
        return np.array(et)
    if u == 4:
        return np.array(et, float).reshape(-1, 1)
    if u == 5:
        return tuple(et)
    return list(et)


def whole(v):
    return int(v) if isinstance(v, float) and v == int(v) else v


def respell(rng, spec, cba, mon):
    """an equivalent SectionEI, described in another way"""
    out = []
    for s in spec:
        kind, x, e = s[0], list(s[1]), s[2]
        u = rng.random()
        if kind == "const":
            if u < 0.25:
                out.append(["linear", x, [e, e]])
            elif u < 0.5:
                mid = x[0] + (x[1] - x[0]) * float(rng.uniform(0.2, 0.8))
                out.append(["pwl", [x[0], mid, x[1]], [e, e, e]] if u < 0.4 else ["const", [x[0], mid], e])
                if u >= 0.4:
                    out.append(["const", [mid, x[1]], e])
            else:
                out.append([kind, x if u < 0.7 else np.array(x), e if u < 0.8 else [e]])
        elif kind == "linear":
            t = float(rng.uniform(0.2, 0.8))
            xm, em = x[0] + t * (x[1] - x[0]), e[0] + t * (e[1] - e[0])
            if u < 0.2:
                out.append(["pwl", x, e])
            elif u < 0.4:
                out.append(["pwl", [x[0], xm, x[1]], [e[0], em, e[1]]])
            elif u < 0.6:
                out += [["linear", [x[0], xm], [e[0], em]], ["linear", [xm, x[1]], [em, e[1]]]]
            elif u < 0.7:
                out.append(["poly", x, e])
            elif u < 0.8:
                out.append(["poly", x, lambda z, x=x, e=e: e[0] + (np.asarray(z) - x[0]) / (x[1] - x[0]) * (e[1] - e[0]), 1])
                mon.event("callable_rigidity")
            else:
                out.append([kind, tuple(x), np.array(e)])
        elif kind == "pwl":
            if u < 0.5:
                out += [["linear", [a, b], [p, q]] for a, b, p, q in zip(x[:-1], x[1:], e[:-1], e[1:])]
            else:
                out.append([kind, np.array(x), tuple(e)])
        else:
            deg = s[3] if len(s) > 3 else len(x) - 1
            c = np.polyfit(np.array(x) - x[0], e, deg)
            f = lambda z, c=c, x=x: np.polyval(c, np.asarray(z) - x[0])
            if u < 0.35:
                out.append(["poly", [x[0], x[-1]], f, deg])
                mon.event("callable_rigidity")
            elif u < 0.6:
                z = np.linspace(x[0], x[-1], deg + int(rng.integers(1, 4)))
                out.append(["poly", z, f(z), deg])
            elif u < 0.8 and deg == len(x) - 1:
                out.append(["poly", x, e])
            else:
                out.append(list(s))
    how = int(rng.integers(0, 3))
    mon.event("respelled_sections")
    if how == 0:
        return cba.SectionEI([tuple(s) for s in out])
    if how == 1:
        return cba.SectionEI([dict(zip(("seg_type", "x", "ei", "degree"), s)) for s in out])
    q = cba.SectionEI()
    for s in out:
        if q.add_segment(*s) is not q:
            mon.check(False, "section", "add_segment does not return the section")
    return q


def section_at(spec, x):
    """the rigidity described, at x: the piece ending at x counts at a step"""
    for s in spec:
        a, b = s[1][0], s[1][-1]
        if x <= b or s is spec[-1]:
            break
    if s[0] == "const":
        return s[2]
    if s[0] == "poly":
        deg = s[3] if len(s) > 3 else len(s[1]) - 1
        return float(np.polyval(np.polyfit(np.array(s[1]) - a, s[2], deg), x - a))
    return float(np.interp(x, s[1], s[2]))


def run_section(c, mon):
    import pycba as cba

    rng = np.random.default_rng(c["r"])
    spec, L = c["spec"], c["L"]
    a, b = G.sec(cba, spec), respell(rng, spec, cba, mon)
    cuts = sorted({x for s in spec for x in ([s[1][0], s[1][-1]] if s[0] == "poly" else s[1])})
    xs = [float(x) for x in rng.uniform(0, L, 6)] + cuts
    want = np.array([section_at(spec, x) for x in xs])
    top = np.abs(want).max()
    for q, nm in ((a, "as described"), (b, "respelled")):
        mon.event("sections_evaluated")
        mon.close(q.length, L, 1e-9 * L, "section", f"length, {nm}")
        mon.close(np.asarray(q(np.array(xs)), float), want, 1e-8 * top, "section", f"values, {nm}")
        mon.close([q(x) for x in xs], want, 1e-8 * top, "section", f"values one by one, {nm}")
        q.validate_length(L)
        mon.raises(ValueError, lambda: q.validate_length(1.01 * L), "section", "another length")
    bp = np.asarray(a.breakpoints, float)
    ok = len(bp) == len(cuts)
    mon.check(ok, "section", lambda: f"breakpoints {bp} instead of {cuts}")
    if ok:
        mon.close(bp, cuts, 1e-9 * L, "section", "breakpoints")
    if all(s[0] == "const" for s in spec):
        v = [s[2] for s in spec]
        if max(v) == min(v) or max(v) > 1.001 * min(v):
            mon.check(a.is_constant == (max(v) == min(v)), "section", f"is_constant {a.is_constant} for {v}")
    elif top > 1.001 * np.abs(want).min():
        mon.check(not a.is_constant, "section", "is_constant for a varying rigidity")
    mon.state("section", "-".join(s[0] for s in spec))


BAD_SECTIONS = ("gap", "overlap", "start", "unsorted", "repeated", "one", "negative", "zero", "dip", "count", "two", "scalar", "kind", "empty")


def run_badsection(c, mon):
    import pycba as cba

    rng = np.random.default_rng(c["r"])
    L, e, what = c["L"], c["e"], c["what"]
    h = 0.4 * L
    seg = {
        "gap": [("const", [0, h], e), ("const", [1.2 * h, L], e)],
        "overlap": [("const", [0, h], e), ("linear", [0.8 * h, L], [e, 2 * e])],
        "start": [("linear", [0.1 * L, L], [e, 2 * e])],
        "unsorted": [("pwl", [0, L, h], [e, e, 2 * e])],
        "repeated": [("pwl", [0, h, h, L], [e, e, 2 * e, e])],
        "one": [("pwl", [0], [e])],
        "negative": [[("const", [0, L], -e)], [("linear", [0, L], [e, -e])], [("pwl", [0, h, L], [e, -e, e])], [("poly", [0, h, L], [e, -e, e])]][int(rng.integers(0, 4))],
        "zero": [[("const", [0, L], 0.0)], [("linear", [0, L], [0.0, e])], [("poly", [0, h, L], [e, e, 0.0])]][int(rng.integers(0, 3))],
        "dip": [[("poly", [0, L / 3, 2 * L / 3, L], [e, 0.01 * e, 0.01 * e, e], 3)], [("poly", [0, 0.5 * h, L], [e, 0.02 * e, e])], [("poly", [0, L], lambda z: e * ((np.asarray(z) / L - 0.5) ** 2 - 0.001), 2)]][int(rng.integers(0, 3))],
        "count": [[("pwl", [0, h, L], [e, e])], [("linear", [0, L], [e, e, e])], [("poly", [0, h, L], [e, e])]][int(rng.integers(0, 3))],
        "two": [("linear", [0, h, L], [e, e, 2 * e])],
        "scalar": [("const", [0, L], [e, 2 * e])],
        "kind": [(str(rng.choice(["cubic", "", "constant", "step", "parabola"])), [0, L], [e, e])],
        "empty": [],
    }[what]

    def go():
        s = cba.SectionEI(seg)
        cba.BeamAnalysis([L], s, [-1, 0, -1, 0], LM=[[1, 1, 5.0]]).analyze()

    mon.event("section_refusals")
    mon.state("badsection", what)
    mon.raises((ValueError, TypeError) if what in ("kind", "count") else ValueError, go, "section-refusal", f"{what}: {seg}")


def rigid(rng, vals, cba, mon, none_ok):
    """an equivalent spelling of a per-member rigidity list"""
    v = [respell(rng, s, cba, mon) if isinstance(s, list) and rng.random() < 0.6 else G.sec(cba, s) for s in vals]
    num = all(isinstance(x, float) for x in v)
    one = num and len(set(v)) == 1
    if len(v) == 1 and not num and v[0] is not None and rng.random() < 0.4:
        mon.event("broadcasts")
        return v[0]
    u = rng.random()
    if one and u < 0.5:
        mon.event("broadcasts")
        k = int(rng.integers(0, 4))
        if k == 3 and v[0] == int(v[0]) and abs(v[0]) < 2**53:
            mon.event("numpy_integers")
            return np.int64(v[0])
        return [float(v[0]), whole(v[0]), np.float64(v[0])][k % 3]
    if num and u < 0.7:
        return np.array(v)
    if u < 0.8:
        return tuple(v)
    if u < 0.9 and num:
        return [whole(x) for x in v]
    return v


def run_route(c, mon):
    import pycba as cba

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    n = len(m["L"])
    base = G.build(m)
    base.analyze(m["npts"])
    mon.state(G.describe(m))
    for rep in range(3):
        kw = {}
        L = list(m["L"])
        L = [L, np.array(L), tuple(L), [whole(x) for x in L]][int(rng.integers(0, 4))]
        EI = rigid(rng, m["EI"], cba, mon, False)
        if m.get("GAv"):
            kw["GAv"] = rigid(rng, m["GAv"], cba, mon, True)
        elif rng.random() < 0.2:
            kw["GAv"] = [None] * n
        if m.get("kf"):
            kw["kf"] = rigid(rng, m["kf"], cba, mon, True)
        elif rng.random() < 0.2:
            kw["kf"] = [None] * n
        D = m.get("D")
        if D:
            kw["D"] = [list(D), tuple(D), np.array(D, dtype=object)][int(rng.integers(0, 3))]
        elif rng.random() < 0.2:
            kw["D"] = [None] * (2 * n + 2)
        R = list(m["R"])
        if rng.random() < 0.6:
            kw["supports"] = named(rng, R, mon)
        else:
            kw["R"] = [R, np.array(R), tuple(R), [float(x) for x in R], np.array(R, float)][int(rng.integers(0, 5))]
        et = types(rng, m.get("et"), n, mon)
        if et is not None or rng.random() < 0.5:
            kw["eletype"] = et
        rows = [list(r) for r in m["LM"]]
        if rng.random() < 0.3:
            rows = [[np.int64(r[0]), r[1]] + [np.float64(x) for x in r[2:]] for r in rows]
        elif rng.random() < 0.3:
            rows = [[r[0], r[1]] + [whole(x) for x in r[2:]] for r in rows]
        k = int(rng.integers(0, len(rows) + 1))
        how = int(rng.integers(0, 6))
        if how == 0:
            ba = cba.BeamAnalysis(L, EI, LM=rows, **kw)
        elif how == 1:
            ba = cba.BeamAnalysis(L, EI, LM=rows[:k], **kw)
            for r in rows[k:]:
                G.add_row(ba, r)
        elif how == 2:
            ba = cba.BeamAnalysis(L, EI, LM=[[1, 1, 99.0]], **kw)
            ba.add_pl(1, 5.0, 0.5)
            ba.set_loads(rows[:k])
            for r in rows[k:]:
                G.add_row(ba, r)
        elif how == 3:
            ba = cba.BeamAnalysis(L, EI, **kw)
            for r in rows:
                ba.beam.add_load(r)
        elif how == 4:
            ba = cba.BeamAnalysis(L, EI, LM=(), **kw)
            ba.beam.loads = rows
        else:
            ba = cba.BeamAnalysis(L, EI, LM=tuple(rows), **kw)
        ba.analyze(m["npts"])
        mon.event("routes_compared")
        # (another division of a section changes the quadrature)
        plain = all(e is None or isinstance(e, float) for e in list(m["EI"]) + list(m.get("GAv") or []))
        compare(mon, m, ba, base, "route", rel=1e-9 if plain else 1e-6)
        check_beam(mon, rng, m, ba.beam)
    # members one by one
    b = cba.Beam()
    et = m.get("et") or [1] * n
    for i in range(n):
        ei = G.sec(cba, m["EI"][i])
        ga = G.sec(cba, m["GAv"][i]) if m.get("GAv") else None
        kf = m["kf"][i] if m.get("kf") else None
        f = b.add_span if rng.random() < 0.5 else b.add_member
        if et[i] == 1 and ga is None and kf is None and rng.random() < 0.5:
            f(m["L"][i], ei)
        else:
            f(m["L"][i], ei, ["FF", "FP", "PF", "PP"][et[i] - 1] if rng.random() < 0.5 else et[i], ga, kf)
    b.restraints = list(m["R"])
    if m.get("D"):
        b.prescribed_displacements = list(m["D"])
    b.loads = [list(r) for r in m["LM"]]
    b._set_loads()
    mon.event("incremental_members")
    check_beam(mon, rng, m, b)
    # Beam itself, in one go
    kw = dict(supports=named(rng, m["R"])) if rng.random() < 0.5 else dict(R=list(m["R"]))
    if m.get("GAv"):
        kw["GAv"] = [G.sec(cba, s) for s in m["GAv"]]
    if m.get("kf"):
        kw["kf"] = list(m["kf"])
    if any(e != 1 for e in et) or rng.random() < 0.3:
        kw["eletype"] = list(et)
    b2 = cba.Beam(L=list(m["L"]), EI=[G.sec(cba, s) for s in m["EI"]], LM=[list(r) for r in m["LM"]], **kw)
    b2._set_loads()
    check_beam(mon, rng, m, b2)
    for i in range(n):
        if b.no_members != n or b2.no_members != n:
            break
        for x in (b, b2):
            mon.close(x.get_span_k(i), base.beam.get_span_k(i), 1e-12 * np.abs(base.beam.get_span_k(i)).max(),
                      "incremental", "member stiffness")
            want = np.asarray(base.beam.get_ref(i), float)
            mon.close(np.asarray(x.get_ref(i), float), want, 1e-12 * max(np.abs(want).max(), 1e-300),
                      "incremental", "member end forces")


def check_beam(mon, rng, m, b):
    n = len(m["L"])
    key = "beam"
    tot = float(np.sum(m["L"]))
    ok = mon.check(b.no_members == n and b.no_spans == n, key, lambda: f"{b.no_members} members instead of {n}")
    mon.close(b.length, tot, 1e-12 * tot, key, "length")
    mon.check(list(map(float, np.asarray(b.restraints, float).ravel())) == [float(x) for x in m["R"]], key,
              lambda: f"restraints {b.restraints}")
    mon.check(b.no_restraints == len(m["R"]), key, "no_restraints")
    mon.check(b.no_fixed_restraints == sum(x == -1 for x in m["R"]), key,
              lambda: f"no_fixed_restraints {b.no_fixed_restraints}")
    mon.check(len(b.loads) == len(m["LM"]), key, lambda: f"{len(b.loads)} loads instead of {len(m['LM'])}")
    if not ok:
        return
    xs = np.concatenate([[0.0], np.cumsum(m["L"])])
    for _ in range(3):
        x = float(rng.uniform(0, tot)) if rng.random() < 0.7 else float(xs[int(rng.integers(0, n + 1))])
        i, xl = b.get_local_span_coords(x)
        mon.event("node_of_position")
        fine = 0 <= i < n and -1e-9 <= xl <= m["L"][i] * (1 + 1e-12) + 1e-9
        fine = fine and abs(xs[i] + xl - x) <= 1e-9 * tot
        mon.check(fine, key, lambda: f"position {x} of members {m['L']} placed at {xl} of member index {i}")
    for x in (-0.3 * tot, tot * 1.2):
        mon.check(b.get_local_span_coords(x)[0] == -1, key, f"position {x} outside the beam was placed in it")


def run_badstring(c, mon):
    import pycba as cba

    mon.event("string_refusals")
    mon.state("badstring", c["what"])
    mon.raises((ValueError,), lambda: cba.parse_beam_string(c["text"]), "string-refusal",
               f"beam string {c['text']!r} ({c['what']})")


def run_bad(c, mon):
    import pycba as cba

    m, what = c["m"], c["what"]
    rng = np.random.default_rng(c["r"])
    n = len(m["L"])
    L, R = list(m["L"]), list(m["R"])
    EI = [G.sec(cba, s) for s in m["EI"]]
    LM = [list(r) for r in m["LM"]]
    et = list(m.get("et") or [1] * n)
    exc = (ValueError,)
    a = dict(L=L, EI=EI, R=R, LM=LM, eletype=et)
    if m.get("D"):
        a["D"] = list(m["D"])
    post = None

    def cut(v):
        k = int(rng.integers(0, len(v)))
        return v[:k] + v[k + 1 :]

    def put(v, x):
        k = int(rng.integers(0, len(v) + 1))
        return v[:k] + [x] + v[k:]

    if what == "both":
        a["supports"] = named(rng, R)
    elif what == "neither":
        del a["R"]
    elif what == "R_short":
        a["R"] = R[:-2]
        a.pop("D", None)
    elif what == "R_odd":
        a["R"] = R[:-1]
        a.pop("D", None)
    elif what == "R_long":
        a["R"] = R + [-1, 0]
        a.pop("D", None)
    elif what == "EI_short":
        a["EI"] = cut(EI)
    elif what == "EI_long":
        a["EI"] = put(EI, EI[0])
    elif what == "GAv_short":
        a["GAv"] = cut([1e5] * n)
    elif what == "GAv_long":
        a["GAv"] = [1e5] * (n + 1)
    elif what in ("kf_short", "kf_long"):
        a["eletype"] = [1] * n
        a["EI"] = [2e4] * n
        a["LM"] = [[1, 1, 5.0]]
        a["kf"] = [1e3] * (n - 1 if what == "kf_short" else n + 1)
    elif what == "D_short":
        a["D"] = [None] * (2 * n + 1 if rng.random() < 0.5 else 2 * n)
    elif what == "D_long":
        a["D"] = [None] * (2 * n + (3 if rng.random() < 0.5 else 4))
    elif what == "D_setter":
        def post(ba):
            ba.beam.prescribed_displacements = [None] * int(rng.choice([2 * n, 2 * n + 1, 2 * n + 3, 0]))
    elif what.startswith("sup_") and what != "sup_noL":
        del a["R"]
        s = named(rng, R)
        k = int(rng.integers(0, n + 1))
        if what == "sup_short":
            s = cut(s)
        elif what == "sup_long":
            s = put(s, "p")
        elif what == "sup_name":
            s[k] = str(rng.choice(["x", "", "pinn", "rollers", "fix", "spring", "guided", "ef", "-1"]))
        elif what == "sup_hinge":
            s[k] = spell(rng, str(rng.choice(["h", "hinge"])))
        elif what == "sup_pair1":
            s[k] = [-1]
        elif what == "sup_pair3":
            s[k] = [-1, 0, 0]
        a["supports"] = s
    elif what == "sup_noL":
        mon.event("refusals")
        mon.raises(exc, lambda: cba.Beam(supports=named(rng, R)), "refusal", "supports without lengths")
        return
    elif what == "et_short":
        a["eletype"] = np.array(cut(et)) if rng.random() < 0.3 else cut(et)
    elif what == "et_long":
        a["eletype"] = put(et, 1)
    elif what in ("et_code", "et_zero", "et_neg"):
        et[int(rng.integers(0, n))] = {"et_code": int(rng.integers(5, 9)), "et_zero": 0, "et_neg": -1}[what]
        a["eletype"] = et
    elif what == "et_name":
        et = list(et)
        et[int(rng.integers(0, n))] = str(rng.choice(["FX", "", "F", "FFF", "pinned", "hinge", "1F"]))
        a["eletype"] = et
    elif what == "LM_flat":
        a["LM"] = [1, 1, 5.0]
        exc = (ValueError, TypeError)
    elif what == "LM_tuple":
        a["LM"] = put(LM, (1, 1, 5.0))
    elif what == "LM_array":
        a["LM"] = np.array([[1, 1, 5.0], [n, 1, 2.0]])
    elif what == "setL_tuple":
        def post(ba):
            ba.set_loads([(1, 1, 5.0)])
    elif what == "trap_a":
        def post(ba):
            k = int(rng.integers(1, n + 1))
            ba.add_trap(k, 3.0, 5.0, a=[0.0, 0.5, 1][int(rng.integers(0, 3))])
    elif what == "spring_D_load":
        k = int(rng.integers(0, n + 1))
        R2 = [-1, -1] * (n + 1)
        R2[2 * k] = 2.5e3
        D = [None] * (2 * n + 2)
        D[2 * k] = float(rng.choice([0.0, -0.01]))
        a.update(R=R2, D=D, eletype=[1] * n, LM=[[min(k, n - 1) + 1, 1, 4.0]])
    elif what in ("sec_length", "gav_sec_length"):
        k = int(rng.integers(0, n))
        f = float(rng.choice([0.5, 0.9, 0.99, 1.01, 1.5]))
        if rng.random() < 0.5:
            s = cba.SectionEI([("const", [0.0, L[k] * f], 2e4)])
        else:
            s = cba.SectionEI([("linear", [0.0, L[k] * f], [2e4, 5e4])])
        if what == "sec_length":
            EI[k] = s
        else:
            a["GAv"] = [None] * n
            a["GAv"][k] = s
    elif what.startswith("kf_"):
        k = int(rng.integers(0, n))
        kf = [None] * n
        kf[k] = 2e3
        a.update(R=[-1, 0] * (n + 1), kf=kf, eletype=[1] * n, EI=[2e4] * n, LM=[[k + 1, 1, 5.0]])
        a.pop("D", None)
        if what == "kf_release":
            a["eletype"][k] = 2 if k > 0 or n == 1 else 3
            if n == 1:
                a["R"] = [-1, -1, -1, 0]
        elif what == "kf_gav":
            a["GAv"] = [None] * n
            a["GAv"][k] = 1e5
        elif what == "kf_section":
            a["EI"][k] = cba.SectionEI([("linear", [0.0, L[k]], [2e4, 5e4])])
        elif what == "kf_load":
            a["LM"] = [[[k + 1, 4, 5.0, 0.4 * L[k]], [k + 1, 5, 3.0, 5.0], [k + 1, 6, 1e-4]][int(rng.integers(0, 3))]]
        exc = (ValueError, NotImplementedError)
    elif what == "bad_add_member":
        b = cba.Beam()
        mon.event("refusals")
        mon.raises(exc, lambda: b.add_member(5.0, 1e4, [0, 5, "XX", "F"][int(rng.integers(0, 4))]), "refusal",
                   "add_member with an unknown type")
        return

    elif what.startswith("ld_"):
        k = int(rng.integers(0, n))
        w = float(rng.uniform(1, 9))
        if what in ("ld_span_high", "ld_span_low"):
            s = n + int(rng.integers(1, 3)) if what == "ld_span_high" else -int(rng.integers(0, 2))
            row = [[s, 1, w], [s, 2, w, 0.5], [s, 3, w, 0.2, 0.5], [s, 4, w, 0.5], [s, 5, w, 2 * w], [s, 6, 1e-4]][int(rng.integers(0, 6))]
        elif what == "ld_type":
            row = [k + 1, [0, 7, 8, -1, 12][int(rng.integers(0, 5))], w, 0.3 * L[k], 0.2 * L[k]]
        elif what == "ld_cover":
            row = [[k + 1, 3, w, 0.5 * L[k], -0.2 * L[k]], [k + 1, 5, w, 2 * w, 0.5 * L[k], -0.2 * L[k]]][int(rng.integers(0, 2))]
        else:
            x = L[k] * float(rng.choice([1.01, 1.2, 3.0])) if what == "ld_beyond" else -L[k] * float(rng.choice([0.01, 0.3, 1.0]))
            row = [[k + 1, 2, w, x], [k + 1, 4, w, x], [k + 1, 3, w, x, 0.4 * L[k]], [k + 1, 5, w, 2 * w, x, 0.4 * L[k]]][int(rng.integers(0, 4))]
        how = int(rng.integers(0, 4))
        a.update(R=[-1, 0] * (n + 1), eletype=[1] * n, EI=[2e4] * n)
        a.pop("D", None)
        if how == 0:
            a["LM"] = put(LM, row)
        else:
            def post(ba):
                if how == 1:
                    ba.set_loads(put(LM, row))
                elif how == 2 and row[1] in (1, 2, 3, 4, 5, 6):
                    G.add_row(ba, row)
                else:
                    ba.beam.add_load(row)
    elif what.startswith("nl_"):
        c = dict(L=L, EI=[2e4] * n, R=[-1, 0] * (n + 1), Mp=[80.0] * n, My=None if rng.random() < 0.5 else [60.0] * n, mesh_size=max(L) / 2)
        rows = [[n, 2, 5.0, 0.5 * L[-1]]]
        more = rng.random() < 0.5
        k = int(rng.integers(1, n + 1))
        if what == "nl_R":
            c["R"] = c["R"] + [-1, 0] if more else c["R"][:-2] + ([-1] if rng.random() < 0.5 else [])
        elif what in ("nl_EI", "nl_Mp", "nl_My"):
            q = what[3:]
            v = list(c[q] or [60.0] * n)
            c[q] = v + v[:1] if more or n == 1 else v[1:]
        elif what == "nl_section":
            c["EI"] = [cba.SectionEI([("linear", [0.0, L[0]], [2e4, 3e4])])] + c["EI"][1:]
            exc = (ValueError, TypeError)
        elif what == "nl_type":
            rows.append([[k, 3, 5.0, 0.2, 0.5], [k, 4, 5.0, 0.5], [k, 5, 3.0, 5.0], [k, 6, 1e-4], [k, 9, 5.0, 0.2], [k, 0, 5.0]][int(rng.integers(0, 6))])
        elif what == "nl_span":
            s = n + 1 if more else 0
            rows.append([[s, 1, 5.0], [s, 2, 5.0, 0.5]][int(rng.integers(0, 2))])
        else:
            rows.append([k, 2, 5.0, L[k - 1] * float(rng.choice([1.05, 2.0]) if more else rng.choice([-0.05, -1.0]))])
        mon.event("nonlinear_refusals")
        mon.state("bad", what)
        mon.raises(exc, lambda: cba.NonlinearBeamAnalysis(**c).analyze(rows, lambda_max=0.5), "refusal", f"{what}: {str(c)[:200]} {rows}")
        return

    def go():
        ba = cba.BeamAnalysis(**a)
        if post:
            post(ba)
        return ba.analyze(5)

    mon.event("refusals")
    mon.state("bad", what)
    mon.raises(exc, go, "refusal", f"{what}: {str({k: v for k, v in a.items() if k != 'LM'})[:300]}")


def run(c, mon):
    {"string": run_string, "badstring": run_badstring, "bad": run_bad, "section": run_section, "badsection": run_badsection, "route": run_route}[c["kind"]](c, mon)
