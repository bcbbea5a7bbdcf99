"""C07 - a mechanism is refused, a stable structure is analysed, after every edit"""
import numpy as np

from .. import gen as G, oracle, units as U
from . import c01

ID = "C07"
N_QUICK, N_THOROUGH = 8000, 80000
RULE = (
    "random under-, just- and over-restrained beams (all member kinds, hinges, "
    "springs, settlements) and random sequences of edits of the restraints of one "
    "analysis object; the verdict of each analysis and of the stability query is "
    "compared with the exact number of rigid-body mechanisms"
)
MUST_SEE = ("stable", "mechanisms", "edits", "edit_to_mechanism", "edit_to_stable", "hinge_mechanisms", "elastoplastic")
ASSUMES = ["joints at which both adjoining member ends and the support are free to rotate are left out: the rotation of such a joint moves no member"]


UNITS = {"edits": U.many(U.restraints), "dedit": lambda d, a, f: [d[0], d[1] * a]}


def gen(rng, i, tier):
    u = i % 4
    kinds = ("udl", "pl", "pudl", "ml", "trap")
    while True:
        m = G._gen_model(
            rng, 6, 0.6, 0.3, 0.25, 0.6 if u == 1 else 0.0, 0.6 if u == 2 else 0.0,
            0.5 if u == 3 and i % 8 == 3 else 0.0, kinds if u != 3 else ("udl", "pl", "pudl"), 4, 0.3,
            float(rng.choice([0.2, 0.5, 0.9])), float(rng.choice([0.1, 0.4, 0.8])),
        )
        if G.dangling_joint(m):
            continue
        break
    m["how"] = int(rng.integers(0, 5))
    # a sequence of restraint edits, each a full restraint vector
    n2 = len(m["R"])
    ed = []
    R = list(m["R"])
    for _ in range(int(rng.integers(1, 5))):
        R = list(R)
        for _ in range(int(rng.integers(1, 3))):
            k = int(rng.integers(0, n2))
            R[k] = [0, 0, -1, -1, G.log_u(rng, 1e3, 1e5)][int(rng.integers(0, 5))]
        if rng.random() < 0.3:
            R = list(m["R"])
        ed.append(R)
    m["edits"] = ed
    m["dedit"] = None
    if not m.get("kf") and rng.random() < 0.3:
        m["dedit"] = [int(rng.integers(0, n2 // 2)) * 2, G.rnd(rng.uniform(-0.01, 0.01))]
    return m


def verdict(mon, ba, m, label):
    n = G.mechanism(m)
    if n:
        mon.raises(ValueError, lambda: ba.analyze(6), "mechanism-accepted", f"{label}: {n} mechanism(s)")
        mon.check(ba.is_stable() is False, "is-stable", f"{label}: is_stable() true for a mechanism")
        # asked first or second, the answer is the same
        mon.raises(ValueError, lambda: ba.analyze(6), "mechanism-accepted", f"{label}: after is_stable()")
        mon.event("mechanisms")
        et = m.get("et") or [1]
        if any(e != 1 for e in et):
            mon.event("hinge_mechanisms")
    else:
        try:
            ba.analyze(6)
        except ValueError as e:
            mon.check(False, "stable-refused", f"{label}: {str(e)[:80]}")
            return n
        mon.check(ba.is_stable() is True, "is-stable", f"{label}: is_stable() false for a stable beam")
        d = np.asarray(ba.beam_results.D, float)
        mon.check(np.all(np.isfinite(d)), "finite", f"{label}: displacements not finite")
        mon.event("stable")
    if not (m.get("et") or m.get("GAv") or m.get("kf") or m.get("D")) and all(isinstance(e, float) for e in m["EI"]):
        # the elasto-plastic analysis of the same beam is offered or refused alike
        import pycba as cba

        mon.event("elastoplastic")

        def make():
            return cba.NonlinearBeamAnalysis(m["L"], m["EI"], list(m["R"]), Mp=100.0, mesh_size=max(m["L"]) / 2)

        if n:
            mon.raises(ValueError, lambda: make().analyze([[1, 2, 1.0, 0.4 * m["L"][0]]], lambda_max=0.2), "elastoplastic", f"{label}: {n} mechanism(s)")
        else:
            make()
    mon.state("mech%d" % min(n, 4), G.describe(m).rsplit("-", 1)[0])
    return n


def specials(tier):
    out = []
    b = dict(EI=[1e4] * 3, LM=[[1, 1, 5.0]], how=0, edits=[], dedit=None)
    for nsp in (1, 2, 3):
        for k in range(3 ** (nsp + 1)):
            R = []
            q = k
            for _ in range(nsp + 1):
                R += [[0, 0], [-1, 0], [-1, -1]][q % 3]
                q //= 3
            m = dict(b, L=[5.0, 6.0, 7.0][:nsp], EI=b["EI"][:nsp], R=R)
            out.append(m)
            for et in ([2, 1, 1], [1, 3, 1], [3, 1, 1], [1, 2, 1], [1, 1, 2], [4, 1, 1], [1, 4, 1])[: 7 if nsp > 1 else 1]:
                mm = dict(m, et=et[:nsp])
                if not G.dangling_joint(mm):
                    out.append(mm)
    return out


def run(m, mon):
    ba = G.build(m, how=m["how"])
    prev = verdict(mon, ba, m, "initial")
    cur = dict(m)
    for k, R in enumerate(m["edits"]):
        c2 = dict(cur, R=R)
        if c2.get("D"):
            pass
        if G.dangling_joint(c2):
            continue
        # spring + settlement at one freedom is refused by documented validation
        if c2.get("D") and any(r > 0 and d is not None for r, d in zip(R, c2["D"])):
            continue
        ba.beam.restraints = np.array(R, float) if k % 2 else list(R)
        cur = c2
        now = verdict(mon, ba, cur, f"edit {k}")
        mon.event("edits")
        if now and not prev:
            mon.event("edit_to_mechanism")
        if prev and not now:
            mon.event("edit_to_stable")
            # the answer after a history of edits is that of a fresh model
            fr = G.build(cur)
            fr.analyze(6)
            a, b = np.asarray(ba.beam_results.D, float), np.asarray(fr.beam_results.D, float)
            mon.close(a, b, 1e-9 * (np.abs(b).max() + 1e-12), "history", f"edit {k}: displacements")
        prev = now
    if m.get("dedit"):
        k, v = m["dedit"]
        if cur["R"][k] == 0:
            D = list(cur.get("D") or [None] * len(cur["R"]))
            D[k] = v
            c2 = dict(cur, D=D)
            if not G.dangling_joint(c2):
                ba.beam.prescribed_displacements = D
                verdict(mon, ba, c2, "prescribed displacement")
                # and taken away again
                ba.beam.prescribed_displacements = cur.get("D") or [None] * len(cur["R"])
                verdict(mon, ba, cur, "prescription removed")
                mon.event("edits", 2)
