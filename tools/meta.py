#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing the table below)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pycba/"
BM, AN, LD, RS, SE, FO = (S + f for f in ("beam.py", "analysis.py", "load.py", "results.py", "section.py", "foundation.py"))
BR, VE, IL, LC, PA, MO, NL, PR, UT = (
    S + f
    for f in (
        "bridge.py", "vehicle.py", "inf_lines.py", "load_cases.py", "pattern.py",
        "modal.py", "nonlinear.py", "prestress.py", "utils.py",
    )
)
UN, RE, PL = (S + f for f in ("units.py", "render.py", "plotting.py"))

REF = "an independent multiple-shooting integration of the beam equations (own code, no shared method)"

P = []


def prop(id, title, statement, over, text, why, mech, technique, note, observe=None):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why,
            mech=mech, technique=technique, note=note, observe=observe or [],
        )
    )


prop(
    "C01", "Equilibrium of every analysis, globally and at every section",
    "After any successful analysis the support reactions and the applied loads balance in force and in moment about any point. At every evaluation station of every span, the reported shear force and bending moment are those that balance the loads and reactions on one side of the cut, with the documented sign conventions.",
    ["inputs"],
    "every stable continuous beam (spans, rigidities, releases, rigid/elastic/settling supports, non-prismatic, shear-flexible) under every combination of the six load types",
    "The tests check a few dozen textbook beams; equilibrium has to hold for every placement, overlap and overhang of loads, every release and every support pattern.",
    [("reaction recovery", AN), ("member end forces and diagrams of each load type", LD), ("member result assembly", BM)],
    "runtime equilibrium monitors (global sums and free-body cuts) over generated analyses",
    "Exploration: every analysis run is decided exactly up to rounding by a free-body oracle that needs no structural theory; coverage is what the random workload reaches.",
)
prop(
    "C02", "Prismatic analyses give the exact elastic solution",
    "For any stable continuous beam of prismatic Euler-Bernoulli spans the reactions, nodal displacements and the shear, moment, rotation and deflection at every evaluation station are those of linear elastic beam theory. This includes spring supports, prescribed support movements, hinges (released span ends) and free ends, for uniform, point, partial uniform, concentrated moment and trapezoidal loads.",
    ["inputs"],
    "all geometries, rigidities, releases, supports, settlements and load matrices of prismatic beams",
    "The tests compare a few beams with closed forms; stiffness terms, fixed-end forces and release condensation interact for every combination of load position, release and support.",
    [("member stiffness and fixed-end forces", BM), ("fixed-end forces and member results per load type", LD), ("assembly, boundary conditions, solution", AN)],
    "runtime monitor comparing every result with an independent multiple-shooting reference solution",
    "Exploration against " + REF + "; deflections and rotations within the bound of the documented numerical integration.",
)
prop(
    "C03", "Supports, springs, settlements, hinges and continuity are honoured",
    "A rigidly supported degree of freedom does not move, a settled one moves by exactly the prescribed amount, and an elastic support pushes back with exactly its stiffness times its movement. A released span end carries no bending moment, deflection is continuous along the whole beam, rotation is continuous wherever ends are joined, and free ends carry no force other than applied loads.",
    ["inputs"],
    "every stable beam of every member kind with any mixture of rigid, elastic and settling restraints and releases",
    "Tests sample single combinations; the conditions must hold at every node of every beam, in the presence of any other node's condition.",
    [("boundary conditions and reactions", AN), ("release condensation", BM), ("span-end rotation recovery", LD)],
    "runtime assertion monitors on boundary, joint and continuity conditions",
    "Exploration; boundary and joint conditions are decided exactly, continuity within the bound of the documented integration.",
)
prop(
    "C04", "Rotation and deflection diagrams integrate the moment and shear diagrams",
    "Along every span the change of rotation between neighbouring stations is the integral of bending moment over flexural rigidity (plus any imposed curvature), and the change of deflection is the integral of the rotation, less the shear strain where the span is shear-flexible. On spans on an elastic foundation the shear changes by the load less the foundation pressure of the reported deflection.",
    ["inputs"],
    "every stable beam of every member kind (prismatic, stepped/tapered/polynomial rigidity, shear-flexible, on elastic foundation), any loads, any number of stations",
    "Tests look at peak deflections of a few beams; the diagrams must be compatible in every interval whatever the discontinuities in load or rigidity inside it.",
    [("result integration", BM), ("member results per load type", LD), ("rigidity functions", SE), ("foundation member results", FO)],
    "runtime interval-by-interval compatibility monitors on the reported diagrams",
    "Exploration; the interval integrals are recomputed independently with the interval's own quadrature bound.",
)
prop(
    "C05", "Superposition: results are linear in loads and settlements",
    "The results of an analysis under several loads and prescribed support movements are the sums of the results under each of them acting alone, and scale with factors on the loads. The order of the loads does not matter, neither does splitting a load into parts, and the helpers that factor and join load matrices agree with factoring and adding results.",
    ["inputs"],
    "any stable beam, any set of loads of all types, any settlements, any factors, orders and partitions",
    "Tests add two fixed loads once; linearity relates whole families of runs over all load types and positions.",
    [("load vector assembly", AN), ("load parsing, factoring and joining", LD), ("member results", BM)],
    "metamorphic runtime monitor: combined analysis versus sum of separate analyses",
    "Exploration; every result array of the combined run is compared with the sum over separately run analyses.",
)
prop(
    "C06", "The answer does not depend on how the same beam is described",
    "Mirroring a beam end for end mirrors its results, changing the units of length and force only rescales them, and cutting a span in two at a continuous joint changes nothing. The number of evaluation stations changes only where results are sampled, and the different ways of entering the same beam (constructor, span by span, beam string, beam object) agree.",
    ["inputs", "configurations"],
    "every stable beam and load matrix, every mirror image, unit system, cut position, number of stations and input route",
    "Tests never relate two descriptions of the same beam; an asymmetry or hidden dependence on units shows only when both are run on awkward beams.",
    [("span and support definition", BM), ("entry routes", AN), ("beam strings and support conversion", UT), ("stability tolerance", AN)],
    "metamorphic runtime monitor over equivalent descriptions",
    "Exploration; the equivalent runs are compared quantity by quantity.",
)
prop(
    "C07", "Mechanisms are refused and stable structures analysed, after every edit",
    "An analysis of a structure that can move without deforming (too few restraints or too many hinges) is refused, and a stable one is carried out, however stiff, flexible, long or short its spans are and whatever the units. The stability query agrees, and both stay right after any sequence of edits to the supports and spans of the same object.",
    ["inputs", "histories"],
    "every pattern of restraints, springs, settlements and releases on 1-6 spans, and every sequence of edits between analyses",
    "Tests try a handful of mechanisms; whether hinges and supports suffice depends on their pattern, and the cached verdict on the history of edits.",
    [("stability check and its cache", AN), ("structure version of the beam", BM)],
    "runtime monitor comparing each verdict with an exact rank computation",
    "Exploration; the number of mechanisms is computed exactly from rigid-body kinematics.",
)
prop(
    "C08", "Non-prismatic spans give the exact elastic solution",
    "For spans whose flexural rigidity varies along their length (stepped, tapered or polynomial segments) the reactions, nodal displacements and all diagrams are those of elastic beam theory with that rigidity, for every load type, support condition and hinge. A constant rigidity given as a function gives the same results as the plain number.",
    ["inputs"],
    "all rigidity variations of one to three segments per span, loads, releases, supports and settlements",
    "Tests compare a few tapered members; errors depend on where load and rigidity discontinuities fall relative to each other and to the hinges.",
    [("flexibility integrals of variable members", BM), ("fixed-end forces and primary rotations by quadrature", LD), ("rigidity description and breakpoints", SE)],
    "runtime monitor comparing every result with an independent multiple-shooting reference solution",
    "Exploration against " + REF + ".",
)
prop(
    "C09", "Shear-flexible spans give the exact Timoshenko solution",
    "For spans with a shear rigidity the reactions, nodal displacements and all diagrams are those of Timoshenko beam theory for every load type, support condition and hinge, with constant or variable shear and flexural rigidity. As the shear rigidity grows they approach the Euler-Bernoulli results.",
    ["inputs"],
    "all slendernesses, constant and variable rigidities, load types, releases, supports and settlements",
    "Tests cover stocky beams under a few loads; each load type has its own fixed-end correction and its own recovered diagram.",
    [("shear-flexible member stiffness", BM), ("shear corrections of fixed-end forces and deflections", LD)],
    "runtime monitor comparing every result with an independent multiple-shooting reference solution",
    "Exploration against " + REF + ".",
)
prop(
    "C10", "Spans on an elastic foundation",
    "For spans resting on a continuous elastic foundation the reactions, nodal displacements and all diagrams are those of a beam on a Winkler foundation, alone or mixed with ordinary spans and any supports, including beams held by the foundation alone. Loads, reactions and the foundation pressure are in balance, and combinations the foundation spans do not support are refused rather than analysed wrongly.",
    ["inputs"],
    "foundation stiffnesses from negligible to dominating, uniform, point and partial uniform loads, free, pinned, clamped and spring ends, any mixture with ordinary spans",
    "Tests compare a few infinite- and finite-beam closed forms; internal discretisation, condensation and recovery have to be right for every stiffness, load position and neighbour.",
    [("foundation stiffness, condensation and recovery", FO), ("member results", BM), ("assembly", AN)],
    "runtime monitor comparing every result with an independent reference solution and a pressure balance",
    "Exploration against " + REF + ", within the discretisation the documentation states for foundation spans.",
)
prop(
    "C11", "Imposed curvatures: free where determinate, self-equilibrated, exact",
    "Imposed curvatures (temperature, shrinkage, prestrain) of any polynomial variation cause no forces in a statically determinate beam, and in an indeterminate beam cause reactions that balance among themselves. Displacements, reactions and all diagrams are those of elastic beam theory with that imposed curvature.",
    ["inputs"],
    "polynomial curvature fields of degree 0-4 on any spans of any determinate or indeterminate beam, prismatic, variable or shear-flexible, alone or with other loads",
    "Tests use constant and linear fields on a few beams; fixed-end terms of every degree interact with hinges, variable rigidity and spring supports.",
    [("imposed curvature load", LD), ("member results", BM)],
    "runtime monitor: zero-force and self-balance assertions plus independent reference solution",
    "Exploration against " + REF + ".",
)
prop(
    "C12", "Influence lines are the responses to the load at each position",
    "The ordinate of an influence line for moment, shear or reaction at a point equals the response there when the load (one unless another value is given) stands at that position, for every position across every span including the last and the supports. Step size, the point's position and earlier requests do not change the ordinates, they scale with the load, vertical and moment reactions are found also next to elastic supports, and unknown load effects or points off the beam are refused.",
    ["inputs", "histories"],
    "every stable beam (hinges, springs, cantilevers, stepped rigidity), every point of interest, step, load value and order of requests",
    "Tests look at a few ordinates on two beams; grid rounding, support indexing and recomputation depend on the beam, the step and the history.",
    [("influence line generation and extraction", IL)],
    "runtime monitor re-analysing the load at every recorded position independently",
    "Exploration; every ordinate is compared with an independent analysis.",
)
prop(
    "C13", "Vehicle traverses: every position analysed, envelopes exact",
    "Each position of a vehicle crossing a bridge is analysed with exactly the axles that are on the deck at that position, together with the permanent loads. The envelopes are exactly the extremes over these positions at every station, the co-existing values belong to the governing position, and the reaction history records every position in order.",
    ["inputs"],
    "every bridge, vehicle (any axles, coincident axles, longer than the bridge, reversed), step and range of positions",
    "Tests run a few vehicles on a few bridges and look at maxima; each position, axle and station can go wrong independently (joints, ends of the deck, first and last position).",
    [("placing axles, stepping the vehicle", BR), ("axle geometry", VE), ("envelope building", RS)],
    "runtime monitor re-analysing every position of every traverse and recomputing envelopes",
    "Exploration; every position is re-run from an independently built load matrix and a sample also against " + REF + ".",
)
prop(
    "C14", "Merging, adding and querying envelopes",
    "Merging envelopes gives the pointwise extremes over all their analyses whatever the order, grouping or operator used, and superposing envelopes adds the extremes. The operands are left untouched unless an in-place operation was asked for, incompatible envelopes are refused, and point and per-span queries return the envelope's own values.",
    ["inputs", "histories"],
    "any number of traverses and static cases with equal or different numbers of positions, merged and added in any order",
    "Tests merge two fixed envelopes; order independence, operand isolation and mixed position counts are relations over many runs.",
    [("envelope merge, sum, queries", RS)],
    "runtime monitor recomputing extremes from recorded individual analyses, with operand snapshots",
    "Exploration; the expected envelopes are computed from the analyses recorded while they ran.",
)
prop(
    "C15", "Moving load models: lane load placed and conserved at every position",
    "At every position of a vehicle accompanied by a lane load, the lane load acts exactly on the parts of the deck not cleared ahead of, behind and beneath the vehicle, and the vehicle's axles on the deck act with it. The total of the support reactions equals axles on the deck plus lane load on the uncleared length plus permanent loads, and the envelopes are the extremes over the positions.",
    ["inputs"],
    "every bridge, vehicle, lane load intensity and clear distance (zero to longer than the bridge), every step and range",
    "Tests compare one or two positions; the cleared zone crosses joints and ends differently at every position.",
    [("moving load model and lane load placement", BR), ("partial uniform loads", LD)],
    "runtime conservation monitor at every position plus from-scratch re-analysis",
    "Exploration; the lane load's placement is recomputed independently at every position.",
)
prop(
    "C16", "Critical values of a traverse and both-sided shears at sections",
    "The critical values reported for a traverse are the true extremes of moment, shear and reaction over all its positions and stations, attained at the reported location by the reported vehicle position. At each requested shear section the reported values are the extremes of the shear just left and just right of it over all positions, also when an axle, a support, a point load or a station falls on the section. They stay those of the traverse's own sections whatever is analysed in between; an envelope of another analysis, or sampled at other sections, is refused.",
    ["inputs", "histories"],
    "every bridge, vehicle, permanent load, lane load, set and order of requested sections and distances from the supports",
    "Tests check maxima of a few crossings; both-sided limits at arbitrary sections and the attribution to positions depend on coincidences of axles, stations and supports.",
    [("critical values", BR), ("shear sections", BR), ("envelopes at shear points", RS)],
    "runtime monitor recomputing extremes and one-sided shears from independent re-analysis",
    "Exploration; every position of the traverse is re-run independently.",
)
prop(
    "C17", "Vehicles: geometry, reversal, trains and the standard library",
    "A vehicle's axle positions, length and total weight follow from its weights and spacings, reversing it mirrors it (twice restores it), and a train of vehicles places each vehicle behind the previous one at the given gap with nothing lost. Every vehicle of the standard library has the published axle weights and spacings over its whole parameter range, refuses parameters outside it, and is unaffected by what is done to vehicles obtained earlier; what a vehicle does to a bridge is the sum of what its parts do.",
    ["inputs", "histories"],
    "all axle lists, gaps, trains and reversals, all library vehicles and parameters, and any sequence of operations on them",
    "Tests spot-check some library vehicles; aliasing between vehicles and odd trains appear only after particular sequences.",
    [("vehicles, trains and library", VE), ("crossing", BR)],
    "runtime monitor against separately kept axle lists and load totals on a bridge",
    "Exploration; library tables were entered independently from the class documentation.",
)
prop(
    "C18", "Load combinations, additive envelopes and load patterns are exact sums",
    "Every load combination gives the factored sum of the individually analysed cases, whether factors are given as vectors, matrices, names or indices. The additive (sign-selective) envelope is at every station the most adverse sum over subsets of the cases, a target combination maximises the chosen response at the chosen place, and pattern and segmented loads apply exactly the stated loads with the stated factors.",
    ["inputs"],
    "any beam of any member kind, any number of cases and factors, any target response and place, any segmentation",
    "Tests combine a few fixed cases; optimality is a statement over all subsets of cases at all stations.",
    [("combinations and envelopes", LC), ("load patterns", PA), ("load segmentation", LC)],
    "runtime monitor against brute force over all subsets of separately analysed cases",
    "Exploration; within each example all subsets of up to six cases are enumerated.",
)
prop(
    "C19", "Load cases are analysed on the very beam they were defined for, in isolation",
    "Each load case gives the results of a separate analysis of its loads on the complete defined beam: same spans, rigidities, foundations, hinges, supports, prescribed movements and number of stations. Defining, analysing, combining and querying cases changes neither the beam it was built from, nor other cases, nor data of the caller.",
    ["inputs", "histories"],
    "any beam given as an analysis or a beam object, any cases, and any sequence of operations",
    "Tests compare simple prismatic beams; properties lost in copying show only on beams that have them, and leaks only after particular sequences.",
    [("model building for each case", LC), ("beam copying", BM)],
    "runtime monitor with separate analyses and before/after snapshots",
    "Exploration.",
)
prop(
    "C20", "Natural frequencies and mode shapes of the beam as defined",
    "The natural frequencies reported for a beam are those of the continuous beam as defined (spans, masses, rigid and elastic supports, hinge-free, foundations), in order and none missing, up to the stated discretisation. The mode shapes satisfy the supports, are normalised as documented and orthogonal; the static analysis is not disturbed and unsupported inputs are refused.",
    ["inputs"],
    "continuous prismatic beams with any spans, masses per length, supports and numbers of modes and elements",
    "Tests compare simple spans with closed forms; missing or spurious modes occur only for particular supports, masses and clusters of frequencies.",
    [("modal analysis", MO)],
    "runtime monitor bracketing each frequency by exact dynamic-stiffness mode counts",
    "Exploration; the Wittrick-Williams count of the continuous beam is independent of the finite element model.",
)
prop(
    "C21", "Elasto-plastic analysis: equilibrium, yield limits and the plastic collapse load",
    "In an elasto-plastic analysis the response is the elastic one until the first section reaches its plastic moment, every recorded state is in equilibrium with the loads applied, no moment exceeds the plastic moment, and static collapse is reported at the plastic limit load of the beam, not before and not after. Yield and hinge events are reported at the load where the recorded moments attain them, and the outcome does not depend on mirror image, units or other loads' order; moving loads below first yield stay elastic and loads well above the limit load collapse the beam.",
    ["inputs"],
    "continuous beams with any spans, stiffnesses, plastic moments, end fixities, cantilevers and spring supports, under loads of both signs, static and moving",
    "Tests check a handful of textbook limit loads; the event sequence and mechanism detection differ for every beam and load pattern.",
    [("incremental analysis, hinge and mechanism detection", NL)],
    "runtime monitor against an independent linear-programming limit analysis, equilibrium and elastic stiffness oracles",
    "Exploration; the limit load is bracketed by a linear programme over the same nodes. Two known findings are reported, not hidden.",
)
prop(
    "C22", "Equivalent loads of draped tendons are in self-equilibrium and balance the tendon",
    "The loads equivalent to draped tendons bend the beam by the primary moment of the tendon, force times eccentricity with the documented sign and profile, plus a secondary moment which is carried by the support reactions alone: straight between supports, zero on a statically determinate beam, and equal to what restraint of the tendon's curvature produces otherwise. This holds for every profile kind, force per span, cantilever, unstressed span and support arrangement, and impossible profiles are refused.",
    ["inputs"],
    "continuous beams of any member kind with parabolic, compound parabolic, harped and double harped tendons of any eccentricities and forces",
    "Tests check the textbook profiles on one or two spans; errors in kinks, anchorages, reversed curvature or unsupported joints show only in particular layouts.",
    [("tendon profiles and equivalent loads", PR)],
    "runtime monitor: statics of the secondary moment, determinate identity and reference solution under imposed curvature",
    "Exploration; the primary moment comes from independently written profiles, the secondary moment from the reference solver.",
)
prop(
    "C23", "Equivalent descriptions give the same beam; inconsistent ones are refused",
    "A beam described by a beam string, by named supports, by member type names, by scalar or per-span rigidities, all at once or member by member, with its loads given together or added one by one, is the same beam with the same results as when described by the plain vectors. A description which does not fit together (wrong counts, unknown names, misplaced terminals, incompatible features) is refused with an error and never analysed as a different beam.",
    ["inputs"],
    "all valid descriptions in any spelling and container type, and every kind of inconsistency applied to any of them",
    "Tests try a few spellings of a few beams; a dropped span, a mis-mapped support or a silently truncated list depends on the particular combination.",
    [("beam strings and named supports", UT), ("beam construction and broadcasting", BM), ("member type names", S + "types.py"), ("load entry", AN), ("load matrix parsing", LD)],
    "metamorphic runtime monitor over input routes, and refusal monitor over generated inconsistencies",
    "Exploration.",
)
prop(
    "C24", "Point queries, exports and station arrays are faithful to the diagrams",
    "The value reported at any coordinate, by an analysis or by an envelope, is that of the diagram of the span the coordinate lies in, with the left-hand value at a step; whole-beam arrays join the members' arrays in order, on stations which cover each member, close to the baseline at its ends and nowhere else. Tables, CSV files and deflection curves hold exactly the reported diagrams. Queries before an analysis return nothing and none disturbs the results.",
    ["inputs"],
    "any analysed beam or envelope, any coordinate including nodes and their neighbourhood, any export options",
    "Tests query a few mid-span points; padding, coincident stations and steps matter only at and beside nodes of particular grids.",
    [("results, queries and exports", RS), ("forwarding queries", AN), ("foundation member results", FO)],
    "runtime monitor interpolating the members' own stations, and reading exports back",
    "Exploration.",
)

prop(
    "C25", "Drawings show the model and its results, and units only label",
    "Every plotting entry point, in matplotlib, plotly or TikZ, shows the supports, releases and loads of the model at their places, of their kinds, directions and values, and curves equal to the reported diagrams, envelopes, reactions, influence lines, modes, hinge states and drapes (times the display factor for deflections). Unit systems and backends change labels and the deflection scale only, a per-call choice does not stick, unknown names are refused, and drawing, saving or animating changes neither the model, its loads nor any result.",
    ["inputs", "histories"],
    "any beam, bridge, load source, unit system and plotting option",
    "Tests check that plotting runs and a few artists of textbook beams; a mirrored arrow, an unscaled curve or loads left behind show only for particular supports, signs and options.",
    [("schematics", RE), ("interactive figures", PL), ("unit systems", UN), ("diagrams and reactions", AN), ("bridge figures", BR), ("envelope figures", RS), ("influence line figure", IL), ("mode shapes", MO), ("elasto-plastic figures", NL), ("drape", PR), ("pattern figures", LC), ("vehicle figure", VE), ("section figure", SE)],
    "runtime monitor reading artists, traces and TikZ commands back against the model and the reported results",
    "Exploration. Cosmetic choices (colours, sizes) are not judged.",
)

prop(
    "C26", "Results depend on the model only, and nothing handed in or out changes behind the user's back",
    "After any sequence of operations on one analysis, bridge, influence-line or elasto-plastic object (loads and supports replaced, settlements, stability and modal questions, drawings, refused inputs, traverses, use as a template, envelopes), its results equal those of a freshly made object of the same model; containers the caller passed in keep their values, and results handed out earlier keep theirs.",
    ["inputs", "histories"],
    "any model and any sequence of operations, including ones which end in a refusal half-way",
    "Tests make a fresh object per case; state left by one operation shows only in some later, different operation.",
    [("analysis object", AN), ("bridge runs swap loads", BR), ("beam caches", BM), ("influence lines", IL), ("load patterns", PA), ("load cases", LC), ("elasto-plastic path", NL), ("result objects", RS)],
    "runtime monitor: random operation histories, each step compared with a fresh object and with snapshots",
    "Exploration.",
)

prop(
    "C27", "A load by itself gives the results of the simple span and the end forces of the clamped span",
    "A load object made from a load-matrix row gives, at any stations of a span of any length, the shear, moment, rotation and deflection of the simply supported span under that load (unit rigidity; closing stations zero), the fixed-end forces of the clamped span as its consistent nodal loads, and the end forces of the span with its hinged ends released for every member type. Results of several loads add, divide by a rigidity only where they should, and are refused when they belong to other stations; member types are recognised in every spelling and anything else is refused.",
    ["inputs"],
    "every load type anywhere on a span of any length, every member type, any stations",
    "The tests look at load objects through a few whole-beam analyses, in which rotations and deflections of the loads are recomputed by other code; formulas by region (left of, under and right of a load) are reached by special positions only.",
    [("load formulas", LD), ("member results and member types", S + "types.py")],
    "runtime monitor: load objects compared with an independently integrated simple and clamped span",
    "Exploration.",
    ["parse_LM, get_mbr_results, get_cnl, get_ref of loads; MemberResults; MemberType.coerce"],
)

prop(
    "C28", "A load-case collection is the ordered table of named cases its user has built",
    "Whatever the order of adding, appending (as a case, a dictionary or a bare load matrix), replacing and extending cases, a LoadCases collection holds exactly the named load rows, spans, metadata and position identifiers given, in order, unaffected by refused requests and by what the caller later does to the data passed in or handed out; names are unique; loads added by kind are the rows of that kind and a segment load covers exactly its segment. Factors given as sequences, as mappings by name, index or both, or as combination objects mean the same vector and the same factored load matrix, are refused when they do not fit, and a combination made for a target belongs to its own collection.",
    ["inputs", "histories"],
    "any history of building operations on a collection, any factors",
    "The tests build collections of two or three cases one way; orders, forms, aliasing and refusals part-way multiply.",
    [("load-case collection and combinations", LC)],
    "runtime monitor: a collection driven by random histories against a separately kept ordered table",
    "Exploration.",
    ["LoadCases names, cases, indexing, to_LM, load_positions, factors, combined_loads; LoadCombination"],
)

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            files = sorted({w for _, w in p["mech"]})
            d = dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=files,
                    mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                    observe_at=p["observe"] or ["public results and queries of the library"],
                    hook_needed=None,
                ),
            )
            f.write(json.dumps(d) + "\n")
    man = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"./check.sh {p['id']}",
                thorough_cmd=f"./check.sh {p['id']} --thorough",
                technique=p["technique"], level="exploration", level_note=p["note"],
            )
            for p in P
        ],
        not_applicable=[],
        notes="No hooks are needed: the monitors observe public results and wrap public methods at run time.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
