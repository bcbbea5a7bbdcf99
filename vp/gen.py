"""Random (JSON-able) beam models and loads, and their construction in pycba."""
import numpy as np

# ---------------------------------------------------------------- helpers


def rnd(x, n=4):
    """round to n significant digits (short, readable cases)"""
    return float(f"{float(x):.{n}g}")


def factor(rng):
    """a load factor: mostly of the usual size, sometimes very small or large"""
    v = rng.uniform(-1.8, 2)
    if rng.random() < 0.12:
        v *= 10.0 ** rng.uniform(-11, 6)
    return rnd(v)


def choice(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def log_u(rng, a, b):
    return rnd(np.exp(rng.uniform(np.log(a), np.log(b))))


# ------------------------------------------------------------- kinematics


def joint_state(m):
    """releases per node: (left member's right end, right member's left end)"""
    n = len(m["L"])
    et = m.get("et") or [1] * n
    rel = []
    for j in range(n + 1):
        a = j > 0 and et[j - 1] in (2, 4)
        b = j < n and et[j] in (3, 4)
        rel.append((a, b))
    return rel


def dangling_joint(m):
    """a node whose rotation no member end and no support holds"""
    n = len(m["L"])
    D = m.get("D") or [None] * (2 * n + 2)
    for j, (a, b) in enumerate(joint_state(m)):
        held = (j > 0 and not a) or (j < n and not b)
        if not held and m["R"][2 * j + 1] == 0 and D[2 * j + 1] is None:
            return True
    return False


def mechanism(m):
    """
    Exact rigid-body kinematics: does a non-zero motion exist in which no member
    bends, no foundation compresses and every restrained / spring / prescribed
    coordinate stays put?  Each member moves as v = a + b*x; members share v at
    nodes, and share the node rotation where they are not released.
    Returns the number of independent mechanisms.
    """
    n = len(m["L"])
    et = m.get("et") or [1] * n
    kf = m.get("kf") or [None] * n
    D = m.get("D") or [None] * (2 * n + 2)
    R = m["R"]
    Lr = max(m["L"])
    rows = []
    N = 2 * n + (n + 1)  # a_i, b_i, node rotations

    for i in range(n):
        if kf[i]:
            r = np.zeros(N)
            r[2 * i] = 1
            rows.append(r)
            r = np.zeros(N)
            r[2 * i + 1] = 1
            rows.append(r)
        if i + 1 < n:  # continuity of v
            r = np.zeros(N)
            r[2 * i] = 1
            r[2 * i + 1] = m["L"][i] / Lr
            r[2 * i + 2] = -1
            rows.append(r)
        if et[i] in (1, 2):
            r = np.zeros(N)
            r[2 * i + 1] = 1
            r[2 * n + i] = -1
            rows.append(r)
        if et[i] in (1, 3):
            r = np.zeros(N)
            r[2 * i + 1] = 1
            r[2 * n + i + 1] = -1
            rows.append(r)
    for j in range(n + 1):
        if R[2 * j] != 0 or D[2 * j] is not None:
            r = np.zeros(N)
            if j < n:
                r[2 * j] = 1
            else:
                r[2 * (n - 1)] = 1
                r[2 * (n - 1) + 1] = m["L"][n - 1] / Lr
            rows.append(r)
        if R[2 * j + 1] != 0 or D[2 * j + 1] is not None:
            r = np.zeros(N)
            r[2 * n + j] = 1
            rows.append(r)
    rk = np.linalg.matrix_rank(np.array(rows), tol=1e-9) if rows else 0
    return N - rk


# ----------------------------------------------------------------- models


def gen_section(rng, L, base, kinds=("const", "linear", "pwl", "poly")):
    """a random SectionEI specification tiling [0, L]"""
    n = int(rng.integers(1, 4))
    cuts = [0.0]
    for c in sorted(rng.uniform(0.12, 0.88, n - 1)):
        c = rnd(c * L, 3)
        if c - cuts[-1] > 0.05 * L and L - c > 0.05 * L:
            cuts.append(c)
    cuts.append(L)
    segs = []
    for a, b in zip(cuts[:-1], cuts[1:]):
        k = choice(rng, kinds)
        f = lambda: rnd(base * np.exp(rng.uniform(-1.1, 1.1)))
        if k == "const":
            segs.append(["const", [a, b], f()])
        elif k == "linear":
            segs.append(["linear", [a, b], [f(), f()]])
        elif k == "pwl":
            if rng.random() < 0.7:
                mid = [rnd(a + (b - a) * rng.uniform(0.3, 0.7))]
            else:
                k = int(rng.integers(2, 5))
                mid = [rnd(a + (b - a) * (j + rng.uniform(0.7, 1.3)) / (k + 1), 6) for j in range(k)]
            segs.append(["pwl", [a] + mid + [b], [f() for _ in range(len(mid) + 2)]])
        else:
            # a gentle parabola/cubic: stays well away from zero
            deg = int(rng.integers(2, 4))
            x = [rnd(t, 6) for t in np.linspace(a, b, deg + 1)]
            x[0], x[-1] = a, b
            e0 = f()
            u = rng.random()
            if u < 0.75:
                segs.append(["poly", x, [rnd(e0 * rng.uniform(0.75, 1.4)) for _ in x], deg])
            elif u < 0.9:
                # through five or six samples
                x = [rnd(t, 6) for t in np.linspace(a, b, int(rng.integers(5, 7)))]
                x[0], x[-1] = a, b
                segs.append(["poly", x, [rnd(e0 * rng.uniform(0.9, 1.1)) for _ in x], len(x) - 1])
            else:
                # of a lower order than the samples
                x = [rnd(t, 6) for t in np.linspace(a, b, deg + 3)]
                x[0], x[-1] = a, b
                segs.append(["poly", x, [rnd(e0 * rng.uniform(0.8, 1.25)) for _ in x], deg])
    if len(segs) > 1 and segs[0][0] == segs[1][0] == "const" and rng.random() < 0.3:
        segs[1][2] = rnd(segs[0][2] * 1.005, 6)  # a step one could overlook
    u = rng.random()
    if u < 0.12:
        return mirror_section(segs, L)
    if u < 0.2:
        # ends with the value it started with (or all values alike bar one)
        first = segs[0][2] if segs[0][0] == "const" else segs[0][2][0]
        if segs[-1][0] == "const":
            segs[-1][2] = first
        elif segs[-1][0] != "poly":  # (a polynomial stays gentle)
            segs[-1][2][-1] = first
    return segs


def mirror_section(segs, L):
    """a section symmetric about mid-span: the given one squeezed into the left
    half, followed by its mirror image"""
    half = [[s[0], [rnd(x / 2, 8) for x in s[1]], s[2]] + list(s[3:]) for s in segs]
    half[-1][1][-1] = L / 2
    for a, b in zip(half[:-1], half[1:]):
        b[1][0] = a[1][-1]
    out = [list(s) for s in half]
    for s in reversed(half):
        x = [L - t for t in reversed(s[1])]
        e = list(reversed(s[2])) if isinstance(s[2], list) else s[2]
        x[0] = out[-1][1][-1]
        out.append([s[0], x, e] + list(s[3:]))
    out[-1][1][-1] = L
    return out


LOAD_TYPES = ("udl", "pl", "pudl", "ml", "trap", "ic")


def gen_load(rng, i, L, kinds=("udl", "pl", "pudl", "ml", "trap"), edge=0.25):
    k = choice(rng, kinds)
    w = rnd(rng.uniform(-30, 40) if rng.random() < 0.4 else rng.uniform(2, 60))
    if rng.random() < 0.03:
        w = 0.0

    def pos():
        u = rng.random()
        if u < edge * 0.4:
            return 0.0
        if u < edge * 0.8:
            return L
        if u < edge:
            return L / 2
        return rnd(rng.uniform(0.01, 0.99) * L)

    def cover():
        a = 0.0 if rng.random() < 0.2 else rnd(rng.uniform(0, 0.9) * L)
        c = L - a if rng.random() < 0.2 else rnd(rng.uniform(0.02, 1.0) * (L - a))
        return a, min(c, L - a)

    s = i + 1
    if k == "udl":
        return [s, 1, w]
    if k == "pl":
        return [s, 2, rnd(3 * w), pos()]
    if k == "pudl":
        a, c = cover()
        if rng.random() < 0.08:
            c = rnd(c + 0.5 * L)  # overhangs the member: clipped
        return [s, 3, w, a, c]
    if k == "ml":
        return [s, 4, rnd(4 * w), pos()]
    if k == "trap":
        w2 = rnd(rng.uniform(-30, 60))
        if rng.random() < 0.25:
            w2 = 0.0
        if rng.random() < 0.25:
            w, w2 = 0.0, w
        if rng.random() < 0.3:
            return [s, 5, w, w2]
        a, c = cover()
        return [s, 5, w, w2, a, c]
    if k == "ic":
        k0 = rnd(rng.uniform(-2e-3, 2e-3))
        if rng.random() < 0.45:
            return [s, 6, k0]
        deg = 1 if rng.random() < 0.6 else int(rng.integers(2, 5))
        c = [k0] + [rnd(rng.uniform(-2e-3, 2e-3) / L**p) for p in range(1, deg + 1)]
        while rng.random() < 0.25:  # a missing term (constant, linear, ...)
            c[int(rng.integers(0, len(c)))] = 0.0
        return [s, 6] + c
    raise ValueError(k)


def gen_loads(rng, L, kinds=("udl", "pl", "pudl", "ml", "trap"), nmax=6, nmin=1):
    rows = []
    for _ in range(int(rng.integers(nmin, nmax + 1))):
        i = int(rng.integers(0, len(L)))
        rows.append(gen_load(rng, i, L[i], kinds))
    coincide(rng, rows, L)
    return rows


def gen_model(
    rng,
    nmax=5,
    releases=0.3,
    springs=0.25,
    settle=0.2,
    sections=0.0,
    gav=0.0,
    kf=0.0,
    kinds=("udl", "pl", "pudl", "ml", "trap"),
    loads=6,
    same_L=0.3,
    free_ends=0.35,
    skip_support=0.15,
):
    """A stable random model."""
    for _ in range(200):
        m = _gen_model(
            rng, nmax, releases, springs, settle, sections, gav, kf, kinds, loads,
            same_L, free_ends, skip_support,
        )
        if dangling_joint(m) or mechanism(m):
            continue
        return m
    raise RuntimeError("no stable model found")


def _gen_model(rng, nmax, releases, springs, settle, sections, gav, kf, kinds, loads,
               same_L, free_ends, skip_support):
    n = int(choice(rng, list(range(1, nmax + 1))))
    if rng.random() < same_L:
        L = [rnd(rng.uniform(4, 20), 3)] * n
    else:
        L = [rnd(rng.uniform(2, 25), int(rng.integers(2, 6))) for _ in range(n)]
    if rng.random() < 0.25:
        L = [float(max(2, round(x))) for x in L]
    base = log_u(rng, 5e3, 5e5)
    if rng.random() < 0.4:
        EI = [base] * n
    else:
        EI = [rnd(base * np.exp(rng.uniform(-0.9, 0.9))) for _ in range(n)]
    m = {"L": L, "EI": EI}
    # supports
    R = []
    for j in range(n + 1):
        end = j in (0, n)
        u = rng.random()
        if end and u < free_ends * 0.5:
            R += [0, 0]
        elif end and u < free_ends:
            R += [-1, -1]
        elif not end and u < skip_support:
            R += [0, 0]
        else:
            R += [-1, 0]
    for k in range(len(R)):
        if rng.random() < springs * 0.5:
            if k % 2 == 0 and R[k] == -1:
                R[k] = log_u(rng, 2e2, 5e5)
            elif k % 2 == 1 and R[k] == 0 and rng.random() < 0.6:
                R[k] = log_u(rng, 1e2, 1e5)
            elif k % 2 == 0 and R[k] == 0 and rng.random() < 0.5:
                R[k] = log_u(rng, 2e2, 1e5)
            elif k % 2 == 1 and R[k] == -1:
                R[k] = log_u(rng, 1e3, 1e6)
    if n > 1 and rng.random() < 0.04:
        R[2 * int(rng.integers(1, n)) + 1] = -1  # interior rotation fixity
    if rng.random() < 0.03:
        j = int(choice(rng, [0, n]))
        R[2 * j], R[2 * j + 1] = 0, -1  # guided end
    m["R"] = R
    if rng.random() < releases:
        et = [1] * n
        for i in range(n):
            if rng.random() < 0.45:
                et[i] = int(choice(rng, [2, 3, 4], p=[0.42, 0.42, 0.16]))
        m["et"] = et
    if rng.random() < settle:
        D = [None] * (2 * n + 2)
        for k in range(2 * n + 2):
            if R[k] == -1 and rng.random() < 0.35:
                D[k] = rnd(rng.uniform(-0.02, 0.02)) if k % 2 == 0 else rnd(rng.uniform(-4e-3, 4e-3))
        if any(d is not None for d in D):
            m["D"] = D
    if rng.random() < sections:
        for i in range(n):
            if rng.random() < 0.6:
                m["EI"][i] = gen_section(rng, L[i], base)
    if rng.random() < gav:
        g = [None] * n
        for i in range(n):
            if rng.random() < 0.75:
                ga = log_u(rng, 0.05, 30) * base / L[i] ** 2 * 12
                g[i] = rnd(ga)
                if sections and rng.random() < 0.3:
                    g[i] = gen_section(rng, L[i], ga)
        if any(x is not None for x in g):
            m["GAv"] = g
    if rng.random() < kf:
        k = [None] * n
        for i in range(n):
            if rng.random() < 0.7:
                lam = rng.uniform(0.3, 4.0) / L[i] * 1.0
                k[i] = rnd(4 * base * lam**4)
        if any(x is not None for x in k):
            m["kf"] = k
            m.pop("et", None)
            m.pop("GAv", None)
            m["EI"] = [e if isinstance(e, float) else base for e in m["EI"]]
    LM = []
    kq = tuple(k for k in kinds)
    for _ in range(int(rng.integers(1, loads + 1))):
        i = int(rng.integers(0, n))
        kk = kq
        if m.get("kf") and m["kf"][i] is not None:
            kk = tuple(k for k in kq if k in ("udl", "pl", "pudl"))
        LM.append(gen_load(rng, i, L[i], kk))
    coincide(rng, LM, L)
    m["LM"] = LM
    return m


def coincide(rng, LM, L):
    """sometimes make two loads share a member, a position, a magnitude: the
    coincidences random numbers never produce"""
    if rng.random() > 0.2:
        return
    r = list(choice(rng, LM))
    i = int(r[0]) - 1
    u = rng.random()
    if u < 0.25:
        pass  # exactly the same row again
    elif u < 0.45:
        r = scale_row(r, -1.0 if rng.random() < 0.5 else rnd(rng.uniform(0.2, 3)))
    elif r[1] in (3, 5) and len(r) in (5, 6):
        k = len(r) - 2
        if u < 0.7:  # same start, other cover
            r[k + 1] = rnd(rng.uniform(0.05, 1.0) * (L[i] - r[k]))
        else:  # starts where the first one stops
            a = r[k] + r[k + 1]
            if a > 0.95 * L[i]:
                return
            r[k], r[k + 1] = a, min(rnd(rng.uniform(0.05, 1.0) * (L[i] - a)), L[i] - a)
    elif r[1] == 2 and any(x[1] == 4 for x in LM):
        r = [r[0], 4, rnd(rng.uniform(-50, 50)), r[3]]  # a moment at the same point
    else:
        r = scale_row(r, rnd(rng.uniform(0.2, 3)))
    if r[1] in (3, 5) and len(r) in (5, 6) and r[-1] <= 0:
        return
    LM.append(r)


def add_held(rng, m, springs=True):
    """
    Prescribe displacements (often exactly zero) of elastically supported or free
    degrees of freedom.  A held spring may not carry a nodal load, so the loads of
    its neighbouring members are dropped.
    """
    n = len(m["L"])
    D = list(m.get("D") or [None] * (2 * n + 2))
    for k in range(2 * n + 2):
        p = 0.35 if m["R"][k] > 0 else 0.12
        if m["R"][k] < 0 or D[k] is not None or rng.random() > p:
            continue
        if m["R"][k] > 0 and not springs:
            continue
        if rng.random() < 0.5:
            D[k] = 0.0
        else:
            D[k] = rnd(rng.uniform(-0.02, 0.02) * (1.0 if k % 2 == 0 else 0.2))
        if m["R"][k] > 0:
            j = k // 2
            m["LM"] = [r for r in m["LM"] if int(r[0]) - 1 not in (j - 1, j)]
    if any(d is not None for d in D):
        m["D"] = D
    return m


# ------------------------------------------------------------ construction


def sec(cba, s):
    if s is None or isinstance(s, (int, float)):
        return s
    return cba.SectionEI([tuple(seg) if seg[0] != "poly" else tuple(seg) for seg in s])


def build(m, LM="model", how=0):
    """
    Construct a BeamAnalysis.  `how` selects one of several equivalent ways a user
    may supply the same model (lists, numpy arrays, scalars, incremental spans,
    incremental loads).
    """
    import pycba as cba

    rows = m["LM"] if LM == "model" else LM
    rows = [list(r) for r in rows] if rows is not None else None
    n = len(m["L"])
    EI = [sec(cba, s) for s in m["EI"]]
    kw = {}
    if m.get("GAv"):
        kw["GAv"] = [sec(cba, s) for s in m["GAv"]]
    if m.get("kf"):
        kw["kf"] = list(m["kf"])
    if m.get("D"):
        kw["D"] = list(m["D"])
    et = list(m["et"]) if m.get("et") else None
    L = list(m["L"])
    R = list(m["R"])
    scalar = all(isinstance(e, float) for e in EI) and len(set(EI)) == 1
    if how == 1:  # numpy inputs
        L = np.array(L)
        if all(isinstance(e, float) for e in EI):
            EI = np.array(EI)
        R = np.array(R)
        if et is not None:
            et = np.array(et)
    elif how == 2 and scalar:
        EI = float(EI[0])
    elif how == 3:  # incremental loads
        ba = cba.BeamAnalysis(L, EI, R, eletype=et, **kw)
        for r in rows or []:
            add_row(ba, r)
        return ba
    elif how == 4 and rows:
        ba = cba.BeamAnalysis(L, EI, R, eletype=et, **kw)
        ba.set_loads(rows)
        return ba
    return cba.BeamAnalysis(L, EI, R, LM=rows, eletype=et, **kw)


def add_row(ba, r):
    """one load-matrix row through the add_* interface"""
    t, s = r[1], r[0]
    if t == 1:
        ba.add_udl(s, r[2])
    elif t == 2:
        ba.add_pl(s, r[2], r[3])
    elif t == 3:
        ba.add_pudl(s, r[2], r[3], r[4])
    elif t == 4:
        ba.add_ml(s, r[2], r[3])
    elif t == 5:
        ba.add_trap(s, r[2], r[3], *(r[4:6]))
    elif t == 6:
        ba.add_ic(s, r[2] if len(r) == 3 else list(r[2:]))
    else:
        raise ValueError(t)


# ------------------------------------------------------------ load algebra


def scale_row(r, g):
    """one load-matrix row with its intensities multiplied by g"""
    r = list(r)
    if r[1] == 6:
        return r[:2] + [g * c for c in r[2:]]
    r[2] = g * r[2]
    if r[1] == 5:
        r[3] = g * r[3]
    return r


def load_total(r, L):
    """(vertical force down, first moment of it about the member's left end,
    applied couples anticlockwise) of one row on a member of length L"""
    t = r[1]
    if t == 1:
        return r[2] * L, r[2] * L * L / 2, 0.0
    if t == 2:
        return r[2], r[2] * r[3], 0.0
    if t == 3:
        c = min(r[4], L - r[3])
        return r[2] * c, r[2] * c * (r[3] + c / 2), 0.0
    if t == 4:
        return 0.0, 0.0, r[2]
    if t == 5:
        a, c = (r[4], r[5]) if len(r) > 4 else (0.0, L)
        w1, w2 = r[2], r[3]
        if a + c > L:
            w2 = w1 + (w2 - w1) * (L - a) / c
            c = L - a
        F = (w1 + w2) / 2 * c
        return F, F * a + c * c * (w1 / 6 + w2 / 3), 0.0
    if t == 6:
        return 0.0, 0.0, 0.0
    raise ValueError(t)


def load_scale(m, LM=None):
    """(force scale, moment scale) for absolute tolerances"""
    L = m["L"]
    F = M = 0.0
    for r in m["LM"] if LM is None else LM:
        Li = L[int(r[0]) - 1]
        t = r[1]
        if t == 2:
            F += abs(r[2])
            M += abs(r[2]) * Li
        elif t == 4:
            F += abs(r[2]) / Li
            M += abs(r[2])
        elif t == 6:
            pass
        else:
            w = max(abs(r[2]), abs(r[3]) if t == 5 else 0.0)
            F += w * Li
            M += w * Li * Li
    return F, M


def ei_scale(m):
    out = []
    for e in m["EI"]:
        if isinstance(e, (int, float)):
            out.append(float(e))
        else:
            out.append(float(np.max([np.max(np.abs(s[2])) for s in e])))
    return out


def ei_min(m):
    out = []
    for e in m["EI"]:
        if isinstance(e, (int, float)):
            out.append(float(e))
        else:
            out.append(float(np.min([np.min(np.abs(s[2])) for s in e])))
    return out


def scales(m, sol=None):
    """force / moment scales including the effect of imposed displacements and
    curvatures"""
    F, M = load_scale(m)
    emax = max(ei_scale(m))
    Lm = min(m["L"])
    for k, d in enumerate(m.get("D") or []):
        if d is not None:
            if k % 2 == 0:
                F += 12 * emax * abs(d) / Lm**3
                M += 6 * emax * abs(d) / Lm**2
            else:
                F += 6 * emax * abs(d) / Lm**2
                M += 4 * emax * abs(d) / Lm
    for r in m["LM"]:
        if r[1] == 6:
            L = m["L"][int(r[0]) - 1]
            k = sum(abs(c) * L**p for p, c in enumerate(r[2:]))
            F += emax * k / L * 3
            M += emax * k
    return F + 1e-9, M + 1e-9


def describe(m):
    """coarse class of the model, for the 'states seen' evidence"""
    n = len(m["L"])
    R = m["R"]
    t = []
    t.append(f"n{n}")
    if any(r > 0 for r in R):
        t.append("spring")
    if m.get("et") and any(e != 1 for e in m["et"]):
        t.append("rel" + "".join(str(e) for e in sorted(set(m["et"])) if e != 1))
    if m.get("D"):
        t.append("settle")
    if any(not isinstance(e, (int, float)) for e in m["EI"]):
        t.append("sec")
    if m.get("GAv"):
        t.append("gav")
    if m.get("kf"):
        t.append("kf")
    t.append("ld" + "".join(str(k) for k in sorted({int(r[1]) for r in m["LM"]})))
    return "-".join(t)
