"""C05 - superposition: results are linear in loads and settlements"""
import copy

import numpy as np

from .. import gen as G, oracle, units as U
from . import c01, c03

ID = "C05"
N_QUICK, N_THOROUGH = 4000, 40000
RULE = (
    "random stable beams of every member kind; the full result set of the combined "
    "analysis is compared with the sum of the analyses of each load row and of the "
    "settlements alone, with the load-matrix helpers for factoring and concatenation, "
    "and with permuted / subdivided load matrices"
)
MUST_SEE = ("superposed_rows", "settlement_parts", "factored", "permuted", "split_rows", "concatenated")


UNITS = {}


def gen(rng, i, tier):
    m = c03.gen_any(rng, i, tier, settle=0.35)
    m["g"] = G.rnd(rng.uniform(-3, 3))
    m["perm"] = [int(k) for k in rng.permutation(len(m["LM"]))]
    m["cut"] = G.rnd(rng.uniform(0.1, 0.9))
    return m


class Out:
    """every reported number of one analysis"""

    def __init__(self, m, LM, D=True, how=0, npts=None):
        mm = dict(m, LM=LM)
        if not D:
            mm.pop("D", None)
        ba = G.build(mm, how=how)
        ba.analyze(npts)
        br = ba.beam_results
        r = br.results
        self.v = {
            "R": np.asarray(br.R, float).ravel(),
            "Rs": np.asarray(br.Rs, float).ravel(),
            "D": np.asarray(br.D, float).ravel(),
            "x": np.asarray(r.x, float),
            "M": np.asarray(r.M, float),
            "V": np.asarray(r.V, float),
            "rot": np.asarray(r.R, float),
            "defl": np.asarray(r.D, float),
        }
        self.len = [len(q.x) for q in br.vRes]


def combine(parts, w=None):
    w = w or [1.0] * len(parts)
    out = {k: sum(a * p.v[k] for a, p in zip(w, parts)) for k in parts[0].v}
    out["x"] = parts[0].v["x"]
    return out


def size(m):
    """a priori size of each quantity (so that exact cancellations are judged against
    what was cancelled)"""
    F, M = G.scales(m)
    Lm = max(m["L"])
    e = min(G.ei_min(m))
    k = [abs(r) for r in m["R"]]
    return dict(R=F + M / Lm, Rs=F + M, D=M * Lm / e * (1 + Lm), M=M, V=F, rot=M * Lm / e, defl=M * Lm**2 / e)


def compare(mon, m, got, want, key, tol=1e-8, skip_rd=None, lens=None, parts=()):
    for k in got:
        g, w = got[k], want[k]
        if g.shape != w.shape:
            mon.check(False, key, f"{k}: {g.shape} values vs {w.shape}")
            continue
        if k == "x":
            mon.close(g, w, 1e-9 * sum(m["L"]), key, "stations")
            continue
        s = max([np.abs(p.v[k]).max() if p.v[k].size else 0.0 for p in parts] + [np.abs(w).max() if w.size else 0.0])
        s = s * len(parts or [1]) + size(m)[k]
        if k in ("rot", "defl") and skip_rd is not None:
            g, w = g[skip_rd], w[skip_rd]
        mon.close(g, w, tol * s, key, k)


def mask_ic(m, lens):
    """
    Rotation/deflection of a hinged member carrying an imposed curvature are closed by
    numerical integration, of the others in closed form: identical only within the
    integration error (the other monitors bound it).
    """
    et = m.get("et") or [1] * len(m["L"])
    keep = []
    for i, n in enumerate(lens):
        ic = any(r[1] == 6 and int(r[0]) - 1 == i for r in m["LM"])
        keep += [not (et[i] != 1 and ic)] * n
    return np.array(keep)


def run(m, mon):
    import pycba as cba

    LM = m["LM"]
    npts = m.get("npts")
    full = Out(m, LM, how=m.get("how", 0), npts=npts)
    keep = mask_ic(m, full.len)
    mon.state(G.describe(m))
    parts = [Out(m, [r], D=False, npts=npts) for r in LM]
    mon.event("superposed_rows", len(LM))
    if m.get("D"):
        parts.append(Out(m, [], D=True, npts=npts))
        mon.event("settlement_parts")
    compare(mon, m, full.v, combine(parts), "superposition", skip_rd=keep, parts=parts)
    # factored loads (settlement-free part scales)
    g = m["g"]
    before = copy.deepcopy(LM)
    fl = cba.factor_LM(LM, g)
    mon.check(LM == before, "mutates", "factor_LM changed its argument")
    a = Out(m, LM, D=False, npts=npts)
    b = Out(m, [list(r) for r in fl], D=False, npts=npts)
    compare(mon, m, b.v, combine([a], [g]), "factor", parts=[a, b])
    mon.event("factored")
    # order of the rows is immaterial
    c = Out(m, [LM[k] for k in m["perm"]], npts=npts)
    compare(mon, m, c.v, full.v, "order", parts=parts)
    mon.event("permuted")
    # concatenation helper, and a row split into two unequal shares
    t = m["cut"]
    A, B = [list(r) for r in cba.factor_LM(LM, t)], [list(r) for r in cba.factor_LM(LM, 1 - t)]
    A0, B0 = copy.deepcopy(A), copy.deepcopy(B)
    s = cba.add_LM(A, B)
    mon.check(A == A0 and B == B0, "mutates", "add_LM changed an argument")
    mon.check(len(s) == len(A) + len(B), "concat", "add_LM lost or invented rows")
    d = Out(m, [list(r) for r in s], npts=npts)
    compare(mon, m, d.v, full.v, "split", parts=parts)
    mon.event("split_rows")
    mon.event("concatenated")
