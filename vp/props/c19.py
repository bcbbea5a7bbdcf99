"""C19 - load cases are analysed on the very beam they were defined for, in isolation"""
import copy

import numpy as np

from .. import gen as G, units as U
from . import c03, c18

ID = "C19"
N_QUICK, N_THOROUGH = 900, 12000
RULE = (
    "random beams of every member family (sections, shear flexibility, foundations, "
    "springs, hinges, settlements, any number of stations) given as an analysis or a "
    "bare beam; every load case's results (all quantities, reactions) are compared "
    "with a separate analysis of the same loads, and snapshots of the template, of the "
    "stored cases and of the caller's data are compared before and after every operation"
)
MUST_SEE = ("fidelity", "settled", "foundation", "sections", "shear_flexible", "template_intact", "case_isolated", "beam_template", "operations", "forms", "held", "current")


UNITS = {"cases": U.many(U.rows), "extra": U.row}


def gen(rng, i, tier):
    m = c03.gen_any(rng, i, tier, settle=0.4, nmax=4 if i % 5 else 6)
    if i % 4 == 1:
        m = G.add_held(rng, m, springs=False)
    if m.get("kf") and i % 2:
        # (the one foundation is under the last member)
        k = m["kf"]
        m["kf"] = [None] * (len(k) - 1) + [next(v for v in k if v is not None)]
        m["LM"] = [r for r in m["LM"] if int(r[0]) < len(k) or r[1] in (1, 2, 3)]
    kinds = ("udl", "pl", "pudl", "ml", "trap", "ic")
    if m.get("kf"):
        kinds = ("udl", "pl", "pudl")
    m["cases"] = [G.gen_loads(rng, m["L"], kinds, nmax=3) for _ in range(int(rng.integers(1, 4)))]
    m["npts"] = int(rng.choice([8, 20, 50, 100]))
    m["how"] = int(rng.integers(0, 5))
    m["bare"] = bool(rng.random() < 0.3)
    m["f"] = [G.rnd(rng.uniform(-1, 2)) for _ in m["cases"]]
    m["extra"] = G.gen_load(rng, 0, m["L"][0], kinds)
    return m


def rows_of(o):
    return [[float(v) for v in r] for r in o]


def snap(ba):
    """everything a user can read off the template"""
    b = ba.beam
    r = ba.beam_results
    return {
        "L": list(map(float, b.mbr_lengths)),
        "EI": [e if not isinstance(e, (int, float, np.floating)) else float(e) for e in b.mbr_EIs],
        "R": list(map(float, b.restraints)),
        "et": list(map(int, b.mbr_eletype)),
        "LM": rows_of(b.loads),
        "npts": int(ba.npts),
        "res": None if r is None else {q: np.array(getattr(r.results, q)) for q in "xMVRD"},
        "Rx": None if r is None else (np.array(r.R), np.array(r.Rs), np.array(r.D)),
    }


def same(a, b):
    for k in ("L", "R", "et", "LM", "npts"):
        if a[k] != b[k]:
            return f"{k}: {a[k]} -> {b[k]}"
    if any(x is not y and x != y for x, y in zip(a["EI"], b["EI"])):
        return "EI"
    if (a["res"] is None) != (b["res"] is None):
        return "results"
    if a["res"] is not None:
        for q in "xMVRD":
            if not np.array_equal(a["res"][q], b["res"][q]):
                return "results " + q
        if not all(np.array_equal(x, y) for x, y in zip(a["Rx"], b["Rx"])):
            return "reactions"
    return ""


def run(m, mon):
    import pycba as cba

    npts = m["npts"]
    ba = G.build(m, how=m["how"])
    ba.analyze(npts)
    before = snap(ba)
    tmpl = ba.beam if m["bare"] else ba
    n_eff = 100 if m["bare"] else npts
    if m["bare"]:
        mon.event("beam_template")
    mon.state(G.describe(m), npts, "bare" if m["bare"] else "")
    lc = cba.LoadCases(tmpl)
    given = [[list(r) for r in rows] for rows in m["cases"]]
    names = []
    for k, rows in enumerate(given):
        nm = f"case {k}"
        names.append(nm)
        if k == 0:
            lc.add(nm, rows)
        elif k == 1:
            c = cba.LoadCase(nm, rows)
            lc.append(c)
        else:
            lc.append({"name": nm, "loads": rows})
            mon.event("forms")
    # the caller goes on using its lists
    for rows in given:
        for r in rows:
            r[2] = 12345.0
        rows.append([1, 1, 999.0])
    for nm, rows in zip(names, m["cases"]):
        mon.check(rows_of(lc.case(nm).to_LM()) == rows_of(rows), "case-isolated", f"stored case changed with the caller's list: {lc.case(nm).to_LM()}")
    lm = lc.to_LM()
    mon.check(list(lm) == names, "case-order", f"{list(lm)}")
    for v in lm.values():
        v[0][2] = -777.0
    c0 = lc.case(names[0]).to_LM()
    c0.append([1, 1, 5.0])
    for nm, rows in zip(names, m["cases"]):
        mon.check(rows_of(lc.case(nm).to_LM()) == rows_of(rows), "case-isolated", "stored case changed through a returned load matrix")
    mon.event("case_isolated")
    # ---- fidelity of each case
    emin = min(G.ei_min(m))
    first = []
    for nm, rows in zip(names, m["cases"]):
        d = c18.analyse(m, rows, n_eff)
        model = cba.build_pycba_model(tmpl, lc.case(nm))
        model.analyze(n_eff)
        br = model.beam_results
        f0, m0 = G.scales(dict(m, LM=rows))
        sc = {"V": f0, "M": m0, "R": 1e-2 * m0 * max(m["L"]) / emin, "D": 1e-2 * m0 * max(m["L"]) ** 2 / emin, "x": sum(m["L"])}
        for q in "xMVRD":
            w = np.asarray(getattr(d.results, q), float)
            s = np.abs(w).max() + 1e-6 * sc[q]
            mon.close(getattr(br.results, q), w, 1e-9 * s, "fidelity:" + q, f"case {nm}, {q}")
        for q in ("R", "Rs", "D"):
            w = np.asarray(getattr(d, q), float).ravel()
            mon.close(np.asarray(getattr(br, q), float).ravel(), w, 1e-9 * (np.abs(w).max() + 1e-6 * f0 if w.size else 1.0), "fidelity:" + q, f"case {nm}, {q}")
        xs, y = cba.analyse_load_case(tmpl, lc.case(nm), response="M")
        mon.close(y, d.results.M, 1e-9 * (np.abs(d.results.M).max() + 1e-6 * m0), "fidelity:analyse", nm)
        xs, y2 = cba.analyse_load_case(tmpl, [list(r) for r in rows], response="V")
        mon.close(y2, d.results.V, 1e-9 * (np.abs(d.results.V).max() + 1e-6 * f0), "fidelity:analyse", nm + " as a bare load matrix")
        first.append((np.array(y), np.array(y2)))
        mon.event("fidelity")
        for k, e in (("D", "settled"), ("kf", "foundation"), ("GAv", "shear_flexible")):
            if m.get(k):
                mon.event(e)
        if m.get("D") and any(d is not None and r == 0 for d, r in zip(m["D"], m["R"])):
            mon.event("held")
        if any(not isinstance(e, float) for e in m["EI"]):
            mon.event("sections")
        # a model is independent of the template and of its siblings
        model.set_loads([[1, 1, 1.0]])
        model.analyze()
    msg = same(before, snap(ba))
    mon.check(not msg, "template-intact", f"analysing the cases changed the template: {msg}")
    # ---- the other operations
    lc.envelope(10)
    lc.combine(m["f"])
    lc.combined_loads(m["f"])
    model = lc.analyze_combination(m["f"], npts=10)
    model.add_udl(1, 3.0)
    t = lc.target_combination("t", 0.4 * sum(m["L"]), "max")
    t.envelope(npts=10)
    t.to_load_case()
    cba.make_span_udl_cases(tmpl, 3.0).envelope(10)
    msg = same(before, snap(ba))
    mon.check(not msg, "template-intact", f"combining the cases changed the template: {msg}")
    for nm, rows in zip(names, m["cases"]):
        mon.check(rows_of(lc.case(nm).to_LM()) == rows_of(rows), "case-isolated", "stored case changed by an operation")
    mon.event("template_intact")
    # again, after all of that: the same numbers
    for nm, (a, b) in zip(names, first):
        _, y = cba.analyse_load_case(tmpl, lc.case(nm), response="M")
        mon.check(np.array_equal(y, a), "repeatable", f"{nm} moments changed on repeating")
        _, y = cba.analyse_load_case(tmpl, lc.case(nm), response="V")
        mon.check(np.array_equal(y, b), "repeatable", f"{nm} shears changed on repeating")
    # ---- editing one case touches that case alone
    ex = list(m["extra"])
    lc.add_load(names[0], ex)
    ex[2] = 4242.0
    mon.check(rows_of(lc.case(names[0]).to_LM()) == rows_of(m["cases"][0] + [m["extra"]]), "editing", "row added to a case")
    for nm, rows in list(zip(names, m["cases"]))[1:]:
        mon.check(rows_of(lc.case(nm).to_LM()) == rows_of(rows), "editing", "another case changed")
    src = [list(r) for r in m["cases"][-1]]
    lc.set(names[0], src)
    src[0][2] = 0.0
    mon.check(rows_of(lc.case(names[0]).to_LM()) == rows_of(m["cases"][-1]), "editing", "replaced case")
    mon.check(lc.names == tuple(names) and len(lc) == len(names), "editing", f"names {lc.names}")
    lc.add_udl("new", 1, 7.0)
    lc.add_pl("new", 1, 2.0, 0.5 * m["L"][0])
    if not m.get("kf"):
        lc.add_ml("new", 1, 2.0, 0.5 * m["L"][0])
        lc.add_trap("new", 1, 2.0, 3.0)
        lc.add_trap("new", 1, 2.0, 3.0, 0.1, 0.5)
        lc.add_ic("new", 1, [1e-4, 2e-5])
        want = [[1, 4, 2.0, 0.5 * m["L"][0]], [1, 5, 2.0, 3.0], [1, 5, 2.0, 3.0, 0.1, 0.5], [1, 6, 1e-4, 2e-5]]
    else:
        want = []
    lc.add_pudl("new", 1, 4.0, 0.1, 0.5)
    want = [[1, 1, 7.0], [1, 2, 2.0, 0.5 * m["L"][0]]] + want + [[1, 3, 4.0, 0.1, 0.5]]
    mon.check(c18.same_rows(lc.case("new").to_LM(), want), "editing", f"loads added by kind: {lc.case('new').to_LM()}")
    mon.check(lc.names == tuple(names) + ("new",), "editing", f"names {lc.names}")
    mon.raises(ValueError, lambda: lc.add(names[0], []), "refused", "duplicate name")
    mon.raises(ValueError, lambda: lc.append(cba.LoadCase(names[0], [])), "refused", "duplicate name appended")
    mon.raises(KeyError, lambda: lc.case("nobody", create=False), "refused", "unknown case")
    mon.raises(ValueError, lambda: lc.add_trap("new", 1, 1.0, 2.0, 0.1), "refused", "trapezoid without cover")
    # design patterning leaves the nominal loads as given
    if not m["bare"]:
        g = [[j + 1, 1, 10.0] for j in range(len(m["L"]))]
        q = [[j + 1, 1, 5.0] for j in range(len(m["L"]))]
        lp = cba.LoadPattern(G.build(m, how=m["how"]))
        lp.set_dead_loads(g, 1.4, 1.0)
        lp.set_live_loads(q, 1.6, 0.0)
        a = lp.analyze(10)
        b = lp.analyze(10)
        ok = all(np.array_equal(getattr(a, k), getattr(b, k)) for k in ("Mmax", "Mmin", "Vmax", "Vmin"))
        mon.check(ok, "pattern-repeat", "patterning twice gave different envelopes")
        mon.check(g == [[j + 1, 1, 10.0] for j in range(len(m["L"]))] and q == [[j + 1, 1, 5.0] for j in range(len(m["L"]))], "pattern-inputs", "nominal loads changed")
    mon.event("operations")
    # ---- every query always speaks of the loads and the beam as they are now
    cases = {nm: [list(r) for r in rows] for nm, rows in zip(names, m["cases"])}
    cases[names[0]] = [list(r) for r in m["cases"][-1]]
    lc = cba.LoadCases(tmpl)
    for nm in names:
        lc.add(nm, cases[nm])
    mm = dict(m)
    for step in range(5):
        if step == 1:  # the same number of loads, other values
            nm = names[-1]
            cases[nm] = [G.scale_row(r, -1.7) for r in cases[nm]]
            lc.set(nm, cases[nm])
        elif step == 2:  # in place, through the stored case
            nm = names[0]
            cases[nm] = [list(r) for r in cases[nm]]
            cases[nm][0][2] = 2.5 * cases[nm][0][2] + 1.0
            lc.case(nm).loads[0][2] = cases[nm][0][2]
        elif step == 3:  # the beam's supports
            R = list(mm["R"])
            k = next((j for j, r in enumerate(R) if r != 0), None)
            if k is not None:
                R[k] = 3.0 * R[k] if R[k] > 0 else R[k]
            k = next((j for j in range(2, len(R), 2) if R[j] == 0 and not (m.get("D") and m["D"][j] is not None)), None)
            if k is not None:
                R[k] = 2.0 * emin / max(m["L"]) ** 3
            mm = dict(mm, R=R)
            ba.beam.restraints = list(R)
        elif step == 4:  # the number of stations
            if m["bare"]:
                break
            n_eff = 2 * npts + 1
            ba.npts = n_eff
        want = {}
        for nm in names:
            want[nm] = c18.analyse(dict(mm, LM=cases[nm]), cases[nm], n_eff)
        q0 = "MVDR"[npts % 4]
        for q in (q0, "MVDR"[(npts + 1 + step) % 4], q0):
            _, B = lc.response_matrix(q)
            for k, nm in enumerate(names):
                w = np.asarray(getattr(want[nm].results, q), float)
                f0, m0 = G.scales(dict(m, LM=cases[nm]))
                s = np.abs(w).max() + 1e-6 * {"V": f0, "M": m0, "R": 1e-2 * m0 * max(m["L"]) / emin, "D": 1e-2 * m0 * max(m["L"]) ** 2 / emin}[q]
                mon.close(B[k], w, 1e-9 * s, "current:" + q, f"{nm} after edit {step}")
        env = lc.envelope()
        f0, m0 = G.scales(dict(m, LM=sum(cases.values(), [])))
        top = np.maximum(0.0, np.max([w.results.M for w in want.values()], axis=0))
        low = np.minimum(0.0, np.min([w.results.V for w in want.values()], axis=0))
        mon.close(env.Mmax, top, 1e-9 * (np.abs(top).max() + 1e-6 * m0), "current:envelope", f"Mmax after edit {step}")
        mon.close(env.Vmin, low, 1e-9 * (np.abs(low).max() + 1e-6 * f0), "current:envelope", f"Vmin after edit {step}")
        f = [float(v) for v in m["f"]]
        if not m.get("D"):
            comb = lc.analyze_combination(f)
            tot = sum(k * np.asarray(want[nm].results.M, float) for k, nm in zip(f, names))
            size = sum(abs(k) * np.abs(want[nm].results.M).max() for k, nm in zip(f, names)) + 1e-6 * m0
            mc = np.asarray(comb.beam_results.results.M, float)
            mon.close(mc, tot, 1e-8 * size, "current:combination", f"after edit {step}")
        mon.event("current")
