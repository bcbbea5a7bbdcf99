"""C26 - results depend on the model only; nothing handed in or handed out changes"""
import copy

import numpy as np

from .. import gen as G, moving as MV, units as U
from . import c01

ID = "C26"
N_QUICK, N_THOROUGH = 1300, 13000
RULE = (
    "random sequences of operations on one analysis object (loads replaced, added, "
    "supports and settlements edited, stability questions, modal analyses, drawings, "
    "exports, refused inputs, traverses, use as a template, envelopes), on one bridge "
    "object, one influence line object and one elasto-plastic object; after each "
    "operation the results equal those of a freshly made object of the same model, and "
    "the caller's inputs and all results handed out earlier are as they were"
)
MUST_SEE = (
    "beam_operations", "beam_fresh_compared", "bridge_operations", "bridge_fresh_compared", "il_fresh_compared",
    "nl_fresh_compared", "inputs_unchanged", "earlier_results_unchanged", "refused_then_continued", "loads_kept",
    "op_traverse", "op_restraints", "op_settlement", "op_modal", "op_template", "op_draw", "op_tendon", "op_edit_rows",
)


# ---------------------------------------------------------------- helpers


def freeze(o):
    """deep copy for later comparison"""
    return copy.deepcopy(o)


def same(a, b, rel=0.0):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], rel) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(same(x, y, rel) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        with np.errstate(all="ignore"):
            return bool(np.all((np.abs(a - b) <= rel * max(np.abs(b).max() if b.size else 0, 1e-300)) | (a == b)))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None:
            return a is b
        return a == b or abs(a - b) <= rel * abs(b)
    try:
        return bool(a == b)
    except Exception:
        return a is b


def br_state(br):
    return {
        "R": np.array(br.R, float), "Rs": np.array(br.Rs, float), "D": np.array(br.D, float),
        **{a: np.array(getattr(br.results, a), float) for a in "xMVRD"},
        **{f"{a}{i}": np.array(getattr(r, a), float) for i, r in enumerate(br.vRes) for a in "xMVRD"},
    }


ENV = ["x", "Mmax", "Mmin", "Vmax", "Vmin", "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin", "Rmax", "Rmin", "Rmaxval", "Rminval"]


def env_state(e):
    return {a: np.array(getattr(e, a), float) for a in ENV}


class Keeper:
    """inputs handed in and results handed out, each with a snapshot"""

    def __init__(self, mon):
        self.mon, self.inp, self.out = mon, [], []

    def given(self, name, o):
        self.inp.append((name, o, freeze(o)))
        return o

    def result(self, name, o, state):
        self.out.append((name, o, state, state(o)))
        return o

    def check(self, when):
        for name, o, was in self.inp:
            self.mon.event("inputs_unchanged")
            self.mon.check(same(o, was), "input-changed", lambda: f"{name} changed by {when}: {str(was)[:120]} -> {str(o)[:120]}")

    def check_out(self, when):
        for name, o, state, was in self.out:
            self.mon.event("earlier_results_unchanged")
            now = state(o)
            bad = [k for k in was if not same(now[k], was[k])]
            self.mon.check(not bad, "result-changed", lambda: f"{name} handed out earlier changed ({bad[:5]}) after {when}")


def close_states(mon, got, want, key, msg, rel=1e-9, floor=None):
    if not mon.check(got.keys() == want.keys(), key, f"{msg}: different results"):
        return
    for k in want:
        w = np.asarray(want[k], float)
        s = float(np.abs(w).max()) if w.size else 0.0
        f = (floor or {}).get(k[0], 0.0)
        if k[0] in "RD" and len(k) == 1 or k[0] in "RD":
            r = rel * 100
        else:
            r = rel
        mon.close(np.asarray(got[k], float), w, r * max(s, f, 1e-300), key, f"{msg}: {k}")


# ---------------------------------------------------------------- generation


OPS = (
    "analyze", "set_loads", "add", "restraints", "settle", "stable", "modal", "query", "bad_loads", "bad_trap",
    "traverse", "static", "template", "envelope", "draw", "npts", "tendon", "pattern", "edit_rows",
)
BOPS = ("vehicle", "lane", "static", "critical", "swap", "bad", "analyze", "algebra", "mistake", "ratios", "rebridge")


UNITS = {"m": lambda m, a, f: m if "Mp" in m else U.model(m, a, f), "runs": U.many(U.traverse)}


def gen(rng, i, tier):
    u = i % 10
    r = int(rng.integers(0, 2**31))
    if u < 5:
        kw = [{}, dict(sections=0.7), dict(gav=1.0), dict(kf=1.0, releases=0.0, kinds=("udl", "pl", "pudl")), {}][u]
        m = c01.gen_case(rng, nmax=4, settle=0.15, **kw)
        ops = [str(o) for o in rng.choice(OPS, size=int(rng.integers(4, 10)))]
        return {"kind": "beam", "m": m, "ops": ops, "r": r}
    if u < 8:
        m = MV.gen_bridge(rng, 3)
        runs = [MV.gen_run(rng, m, kmax=10) for _ in range(3)]
        ops = [str(o) for o in rng.choice(BOPS, size=int(rng.integers(3, 8)))]
        return {"kind": "bridge", "m": m, "runs": runs, "ops": ops, "r": r}
    if u == 8:
        m = G.gen_model(rng, nmax=4, settle=0.0, loads=1)
        m["EI"] = [e if isinstance(e, float) else 1e4 for e in m["EI"]]
        return {"kind": "il", "m": m, "r": r}
    from . import c21

    return {"kind": "nl", "m": c21.gen(rng, i, "quick"), "r": r}


# ---------------------------------------------------------------- one beam analysis


def rows_for(rng, m, n):
    kf = m.get("kf") or [None] * len(m["L"])
    out = []
    for _ in range(n):
        k = int(rng.integers(0, len(m["L"])))
        kinds = ("udl", "pl", "pudl") if kf[k] is not None else ("udl", "pl", "pudl", "ml", "trap", "ic")
        out.append(G.gen_load(rng, k, m["L"][k], kinds))
    return out


def run_beam(c, mon):
    import pycba as cba

    m = copy.deepcopy(c["m"])
    rng = np.random.default_rng(c["r"])
    K = Keeper(mon)
    n = len(m["L"])
    held = [k for k in range(2 * n + 2) if m.get("D") and m["D"][k] is not None and m["R"][k] > 0]
    # a caller's own containers
    arr = rng.random() < 0.4
    L = K.given("L", np.array(m["L"]) if arr else list(m["L"]))
    EI = [G.sec(cba, s) for s in m["EI"]]
    if all(isinstance(e, float) for e in EI):
        EI = K.given("EI", np.array(EI) if arr else EI)
    R = K.given("R", np.array(m["R"], float) if arr else list(m["R"]))
    kw = {}
    if m.get("et"):
        kw["eletype"] = K.given("eletype", np.array(m["et"]) if arr else list(m["et"]))
    if m.get("D"):
        kw["D"] = K.given("D", list(m["D"]))
    if m.get("GAv"):
        kw["GAv"] = [G.sec(cba, s) for s in m["GAv"]]
    if m.get("kf"):
        kw["kf"] = K.given("kf", list(m["kf"]))
    LM = K.given("LM", [list(r) for r in m["LM"]])
    ba = cba.BeamAnalysis(L, EI, R, LM=LM, **kw)
    npts = [int(rng.choice([6, 11, 24]))]
    ba.analyze(npts[0])
    K.result("results", ba.beam_results, br_state)
    n0 = npts[0]
    last = "nothing"
    for op in c["ops"]:
        mon.event("beam_operations")
        mon.event("op_" + {"restraints": "restraints", "settle": "settlement"}.get(op, op))
        done = beam_op(c, op, ba, m, rng, K, mon, cba, npts, held)
        last = op
        if done is False:
            continue
        # the model is still the one the user described
        got = [list(map(float, r)) for r in ba.beam.loads]
        want = [list(map(float, r)) for r in m["LM"]]
        mon.event("loads_kept")
        mon.check(got == want, "loads", lambda: f"after {op} the loads are {str(got)[:150]} instead of {str(want)[:150]}")
        got = [float(x) for x in ba.beam.restraints]
        mon.check(got == [float(x) for x in m["R"]], "loads", f"after {op} the restraints are {got}")
        mon.check(ba.analyze(npts[0]) == 0, "fresh", "analyze() did not return 0")
        f = G.build(m, how=0)
        f.analyze(npts[0])
        sF, sM = G.scales(m)
        mon.event("beam_fresh_compared")
        close_states(mon, br_state(ba.beam_results), br_state(f.beam_results), "fresh", f"after {op}", floor={"M": sM, "V": sF})
        K.result(f"results after {op}", ba.beam_results, br_state)
        K.check(op)
    K.check_out(f"{c['ops']}")
    mon.state("beam", G.describe(c["m"]), "-".join(sorted(set(c["ops"])))[:40])


def beam_op(c, op, ba, m, rng, K, mon, cba, npts, held):
    n = len(m["L"])
    if op == "analyze":
        ba.analyze(npts[0])
    elif op == "npts":
        npts[0] = int(rng.choice([5, 9, 17, 30]))
        ba.analyze(npts[0])
        ba.analyze(npts[0], check_stability=False)
    elif op == "set_loads":
        rows = K.given("load rows", rows_for(rng, m, int(rng.integers(0, 4))))
        if held:
            rows = K.given("load rows", [r for r in rows if not any(k // 2 in (r[0] - 1, r[0]) for k in held)])
        ba.set_loads(rows)
        m["LM"] = [list(r) for r in rows]
    elif op == "add":
        for r in rows_for(rng, m, int(rng.integers(1, 3))):
            if any(k // 2 in (r[0] - 1, r[0]) for k in held):
                continue
            G.add_row(ba, r)
            m["LM"].append(list(r))
    elif op == "edit_rows":
        # the beam's own load matrix, edited row by row
        if not m["LM"]:
            return False
        k = int(rng.integers(0, len(m["LM"])))
        new = [r for r in rows_for(rng, m, 1) if not any(q // 2 in (r[0] - 1, r[0]) for q in held)]
        u = rng.random()
        if u < 0.3 or not new:
            new = [G.scale_row(m["LM"][k], float(G.rnd(rng.uniform(0.3, 3))))]
        if u < 0.8:
            ba.beam.loads[k] = list(new[0])
            m["LM"][k] = list(new[0])
        elif u < 0.9:
            del ba.beam.loads[k]
            del m["LM"][k]
        else:
            ba.beam.loads.insert(k, list(new[0]))
            m["LM"].insert(k, list(new[0]))
    elif op == "restraints":
        for _ in range(20):
            m2 = copy.deepcopy(m)
            k = int(rng.integers(0, 2 * n + 2))
            if k in held:
                return False
            m2["R"][k] = [-1, 0, G.log_u(rng, 3e2, 1e5)][int(rng.integers(0, 3))]
            if m2.get("D") and m2["D"][k] is not None and m2["R"][k] >= 0:
                continue
            if G.mechanism(m2) or G.dangling_joint(m2):
                continue
            m["R"] = m2["R"]
            ba.beam.restraints = K.given("new restraints", list(m["R"]))
            break
        else:
            return False
    elif op == "settle":
        D = [None] * (2 * n + 2)
        for k in range(2 * n + 2):
            if m["R"][k] == -1 and rng.random() < 0.5:
                D[k] = float(G.rnd(rng.uniform(-0.02, 0.02)))
            if k in held:
                D[k] = m["D"][k]
        m["D"] = D
        ba.beam.prescribed_displacements = K.given("settlements", list(D))
    elif op == "stable":
        mon.check(ba.is_stable(), "stable", "a stable beam was called unstable")
    elif op == "modal":
        if all(isinstance(e, float) for e in m["EI"]) and not m.get("GAv") and not m.get("et") and not m.get("kf"):
            try:
                a = ba.modal(2.5, n_modes=2, nseg=6)
            except Exception:
                return False
            b = G.build(m).modal(2.5, n_modes=2, nseg=6)
            mon.close(a.omega, b.omega, 1e-6 * np.abs(b.omega).max(), "fresh", "modal frequencies")
    elif op == "query":
        ba.at(float(rng.uniform(0, sum(m["L"]))))
        ba.to_dataframe()
        ba.beam_results.deflection_curve()
        repr(ba), repr(ba.beam)
        ba.beam.get_local_span_coords(float(sum(m["L"]) / 3))
    elif op == "bad_loads":
        keep = [list(r) for r in m["LM"]]
        ba.set_loads([(1, 1, 5.0)])
        mon.raises(ValueError, lambda: ba.analyze(npts[0]), "refused", "a load matrix which is not a list of lists")
        mon.event("refused_then_continued")
        ba.set_loads(keep)
    elif op == "bad_trap":
        mon.raises(ValueError, lambda: ba.add_trap(1, 2.0, 3.0, a=0.5), "refused", "a trapezoid with a start and no length")
        mon.event("refused_then_continued")
    elif op in ("traverse", "static"):
        v = MV.gen_vehicle(rng, sum(m["L"]) / n)
        veh = MV.make_vehicle(v)
        if m.get("kf") or held:
            return False
        b = cba.BridgeAnalysis(ba, veh)
        K.given("axle weights", veh.axw)
        if op == "static":
            b.static_vehicle(float(rng.uniform(0, sum(m["L"]))), dv=0.2 if rng.random() < 0.5 else None)
        else:
            env = b.run_vehicle(sum(m["L"]) / 5.0, shear_points=[0.3 * sum(m["L"])] if rng.random() < 0.5 else None)
            K.result("envelope", env, env_state)
    elif op == "template":
        lc = cba.LoadCases(ba)
        lc.add_udl("a", 1, 4.0)
        lc.add_pl("b", n, 7.0, 0.4 * m["L"][-1])
        lc.response_matrix("M")
        lc.envelope()
        lc.analyze_combination([1.0, 2.0]) if rng.random() < 0.5 else None
    elif op == "pattern":
        # works on its own copy of the model
        if m.get("kf") or held:
            return False
        own = G.build(m)
        dead = K.given("dead loads", [[k + 1, 1, 5.0] for k in range(n)])
        live = K.given("live loads", [[k + 1, 1, 3.0] for k in range(n)] + [[1, 2, 4.0, 0.3 * m["L"][0]]])
        lp = cba.LoadPattern(own)
        lp.set_dead_loads(dead, 1.35, 0.9)
        lp.set_live_loads(live, 1.5, 0.0)
        e1 = K.result("pattern envelope", lp.analyze(npts[0]), env_state)
        e2 = lp.analyze(npts[0])
        close_states(mon, env_state(e2), env_state(e1), "repeat", "second pattern analysis", rel=1e-12)
    elif op == "envelope":
        e = cba.Envelopes.from_beam_analysis(ba)
        K.result("envelope", e, env_state)
        e2 = e + e
        e3 = e | e2
        e3.augment(e)
        e2.sum(e)
    elif op == "draw":
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        if rng.random() < 0.5:
            ba.plot_results()
        else:
            ba.beam.to_tikz()
            ba.beam.plot()
        plt.close("all")
    elif op == "tendon":
        if m.get("et") or m.get("kf"):
            return False
        from pycba.prestress import Harp, Parabola, equivalent_loads

        P = K.given("profiles", [Parabola(0.0, 0.3, 0.0) if k % 2 else Harp(0.0, 0.25, 0.0, 0.4 * m["L"][k]) for k in range(n)])
        F = K.given("forces", [500.0] * n)
        try:
            a = equivalent_loads(ba, F[0] if n == 1 else F, P)
            b = equivalent_loads(ba, F[0] if n == 1 else F, P)
        except (ValueError, TypeError):
            return False  # a cantilever span wants another profile
        mon.check(same([list(r) for r in a], [list(r) for r in b]), "repeat", "equivalent loads of the same tendon differ")
    return True


# ---------------------------------------------------------------- one bridge analysis


def run_bridge(c, mon):
    import pycba as cba

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    K = Keeper(mon)
    LM = K.given("LM", [list(r) for r in m["LM"]])
    X = float(sum(m["L"]))
    kw0 = {}
    if m.get("D"):
        kw0["D"] = list(m["D"])
    if m.get("et"):
        kw0["eletype"] = list(m["et"])

    def make():
        return cba.BeamAnalysis(list(m["L"]), [G.sec(cba, s) for s in m["EI"]], list(m["R"]), LM=[list(r) for r in m["LM"]], **kw0)

    ba = cba.BeamAnalysis(list(m["L"]), [G.sec(cba, s) for s in m["EI"]], list(m["R"]), LM=LM, **kw0)
    vehs = [MV.make_vehicle(r["v"]) for r in c["runs"]]
    for v in vehs:
        K.given("axle weights", v.axw)
        K.given("axle coordinates", v.axle_coords)
    cur = 0
    b = cba.BridgeAnalysis()
    if rng.random() < 0.5:
        b = cba.BridgeAnalysis(ba, vehs[0])
    else:
        b.set_bridge(ba)
        b.set_vehicle(vehs[0])
    envs = []
    for op in c["ops"]:
        mon.event("bridge_operations")
        r = c["runs"][int(rng.integers(0, len(c["runs"])))]
        kw = {}
        if r["start"] is not None:
            kw["pos_start"] = r["start"]
        if r["end"] is not None:
            kw["pos_end"] = r["end"]
        step = max(r["step"], (X + vehs[cur].L) / 12)
        if rng.random() < 0.3:
            kw["shear_points"] = K.given("shear points", [0.25 * X, 0.6 * X])
        if rng.random() < 0.2:
            kw["dv"] = 0.1 * min(m["L"])
        clear = [None, (0.0, 0.0), (0.1 * X, 0.2 * X)][int(rng.integers(0, 3))]

        def call(x, vi=cur):
            if op == "vehicle":
                return x.run_vehicle(step, **kw)
            return x.run_load_model(step, 6.0, clearances=clear, **kw)

        if op in ("vehicle", "lane"):
            env = K.result("envelope", call(b), env_state)
            f = cba.BridgeAnalysis(make(), MV.make_vehicle(c["runs"][cur]["v"]))
            e2 = call(f)
            mon.event("bridge_fresh_compared")
            close_states(mon, env_state(env), env_state(e2), "bridge-fresh", f"{op} of {c['ops']}", rel=1e-8)
            mon.close(b.pos, f.pos, 0.0, "bridge-fresh", "positions")
            mon.check(len(b.vResults) == len(f.vResults), "bridge-fresh", "number of results kept")
            cv, cf = b.critical_values(env), f.critical_values(e2)
            mon.check(str(sorted(cv)) == str(sorted(cf)), "bridge-fresh", "critical value names")
            for k in cf:
                if isinstance(cf[k], dict) and "val" in cf[k]:
                    mon.close(cv[k]["val"], cf[k]["val"], 1e-8 * np.max(np.abs(cf[k]["val"])) + 1e-12, "bridge-fresh", f"critical {k}")
            envs.append((env, step, dict(kw), op, clear, cur))
        elif op == "static":
            p = float(rng.uniform(-0.2, 1.2) * X)
            res = K.result("static", b.static_vehicle(p, shear_points=kw.get("shear_points"), dv=kw.get("dv")), br_state)
            f = cba.BridgeAnalysis(make(), MV.make_vehicle(c["runs"][cur]["v"]))
            r2 = f.static_vehicle(p, shear_points=kw.get("shear_points"), dv=kw.get("dv"))
            mon.event("bridge_fresh_compared")
            sF, sM = G.scales(m)
            W = sum(c["runs"][cur]["v"]["w"])
            close_states(mon, br_state(res), br_state(r2), "bridge-fresh", f"static of {c['ops']}", rel=1e-8, floor={"M": sM + W * X, "V": sF + W})
        elif op == "critical" and envs:
            # values of the last run's envelope, asked again
            env = envs[-1][0]
            try:
                a = b.critical_values(env)
                a2 = b.critical_values(env)
                mon.check(all(same(a[k], a2[k]) for k in a), "repeat", "critical values differ when asked twice")
            except ValueError:
                pass
        elif op == "swap":
            cur = int(rng.integers(0, len(vehs)))
            b.set_vehicle(vehs[cur])
        elif op == "bad":
            mon.raises(ValueError, lambda: b.run_load_model(step, 5.0, clearances=(-1.0, 0.0)), "refused", "negative clearance")
            mon.event("refused_then_continued")
        elif op == "mistake" and not m.get("D"):  # settlements given would hold the beam
            # a traverse which fails at its first position: the beam is made a mechanism
            keep = list(ba.beam.restraints)
            ba.beam.restraints = [0] * len(keep)
            try:
                b.run_vehicle(step)
                mon.fail("refused", "a traverse of an unsupported beam was analysed")
            except Exception:
                pass
            mon.event("refused_then_continued")
            ba.beam.restraints = keep
        elif op == "analyze":
            ba.analyze()
            f = make()
            f.analyze()
            sF, sM = G.scales(m)
            mon.event("bridge_fresh_compared")
            close_states(mon, br_state(ba.beam_results), br_state(f.beam_results), "bridge-fresh", f"own loads after {c['ops']}", floor={"M": sM, "V": sF})
            K.result("own results", ba.beam_results, br_state)
        elif op == "algebra" and len(envs) > 1:
            a, d = envs[-1][0], envs[-2][0]
            try:
                a | d
                a + d
                cba.Envelopes.zero_like(a)
            except ValueError:
                pass  # different shear sections, so different stations
        elif op == "ratios" and len(envs) > 1:
            try:
                b.envelopes_ratios(envs[-1][0], envs[-2][0])
            except (ValueError, AttributeError, TypeError):
                pass
        elif op == "rebridge":
            b.set_bridge(ba)
        K.check(op)
        got = [list(map(float, q)) for q in ba.beam.loads]
        mon.event("loads_kept")
        mon.check(got == [list(map(float, q)) for q in m["LM"]], "loads", lambda: f"after {op} the bridge's own loads are {str(got)[:200]}")
    K.check_out(f"{c['ops']}")
    mon.state("bridge", "-".join(sorted(set(c["ops"])))[:50])


# ---------------------------------------------------------------- influence lines


def run_il(c, mon):
    import pycba as cba

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    K = Keeper(mon)
    X = float(sum(m["L"]))
    L = K.given("L", list(m["L"]))
    EI = K.given("EI", list(m["EI"]))
    R = K.given("R", list(m["R"]))
    et = K.given("eletype", list(m.get("et") or [1] * len(L)))
    il = cba.InfluenceLines(L, EI, R, et)
    step = None
    lv = 1.0
    for k in range(4):
        if rng.random() < 0.5 or k == 0:
            step, lv = [X / 12, X / 7.3, X / 20][int(rng.integers(0, 3))], [1.0, 10.0][int(rng.integers(0, 2))]
            il.create_ils(step, lv)
        f = cba.InfluenceLines(list(m["L"]), list(m["EI"]), list(m["R"]), list(et))
        f.create_ils(step, lv)
        for _ in range(3):
            poi = float(rng.uniform(0, X)) if rng.random() < 0.7 else float(np.cumsum([0.0] + m["L"])[int(rng.integers(0, len(L) + 1))])
            ef = str(rng.choice(["M", "V", "R", "m", "v"]))
            if ef == "R" and not any(r == -1 for r in m["R"][0::2]):
                continue
            x, y = il.get_il(poi, ef)
            K.result("influence line", (x, y), lambda t: {"x": np.array(t[0]), "y": np.array(t[1])})
            x2, y2 = f.get_il(poi, ef)
            mon.event("il_fresh_compared")
            mon.close(x, x2, 0.0, "il-fresh", "positions")
            mon.close(y, y2, 1e-9 * max(np.abs(y2).max(), lv * (X if ef in "Mm" else 1.0) * 1e-3), "il-fresh", f"{ef} at {poi}")
    K.check("influence lines")
    K.check_out("influence lines")


# ---------------------------------------------------------------- elasto-plastic


def nl_state(r):
    d = {
        "lam": np.array(r.collapse_lambda, float), "coll": np.array(float(r.collapsed)), "mom": np.array(r.final_moments, float),
        "Rf": np.array(r.final_R, float), "disp": np.array(r.final_displacements, float), "hist": np.array(r.lambda_history, float),
        "nh": np.array(len(r.hinge_events)),
    }
    for i, q in enumerate(r.moment_history[:40]):
        d[f"h{i}"] = np.array(q, float)
    return d


def run_nl(c, mon):
    import pycba as cba

    m = c["m"]
    rng = np.random.default_rng(c["r"])
    K = Keeper(mon)
    a = dict(L=list(m["L"]), EI=list(m["EI"]), R=list(m["R"]), Mp=list(m["Mp"]), My=list(m["My"]))
    for k, v in a.items():
        K.given(k, v)
    mk = lambda: cba.NonlinearBeamAnalysis(mesh_size=m["h"], **copy.deepcopy(a))
    nba = cba.NonlinearBeamAnalysis(mesh_size=m["h"], **a)
    LM = K.given("LM", [list(r) for r in m["LM"]])
    LM2 = K.given("LM2", [[1, 1, G.rnd(0.3 * m["Mp"][0] / m["L"][0])]])
    P = G.rnd(2.0 * min(m["My"]) / max(m["L"]))
    for k in range(3):
        u = int(rng.integers(0, 3))
        if u == 2 and k == 0:
            u = 0
        lm = float(rng.choice([0.6, 1.5, 4.0]))
        if u < 2:
            rows = [LM, LM2][u]
            f = lambda x: x.analyze(rows, lambda_max=lm, record_every=5, max_steps=1500)
        else:
            f = lambda x: x.analyze_moving(P=P, step=max(m["L"]) / 4, n_sub=3, record_every=1)
        got = K.result("elasto-plastic results", f(nba), nl_state)
        want = f(mk())
        mon.event("nl_fresh_compared")
        s1, s2 = nl_state(got), nl_state(want)
        bad = [q for q in s2 if not (q in s1 and same(s1[q], s2[q], 1e-9))]
        mon.check(not bad, "nl-fresh", f"run {k} of the same object differs from a fresh one in {bad[:6]}")
    K.check("elasto-plastic analysis")
    K.check_out("elasto-plastic analysis")
    mon.state("nl", len(m["L"]))


def run(c, mon):
    {"beam": run_beam, "bridge": run_bridge, "il": run_il, "nl": run_nl}[c["kind"]](c, mon)
