"""
Independent reference solver ("oracle") for continuous beams.

Nothing here is derived from pycba's algorithm: instead of stiffness matrices,
fixed-end forces and flexibility integrals, every member is cut at its
load/section break points and the *initial-value problem*

    v' = th - V/GAv ,  th' = M/EI + kappa ,  M' = V ,  V' = -w - kf*v

is integrated from the (unknown) state at the start of each piece (multiple
shooting).  Continuity between pieces, node compatibility, releases, restraints,
springs and nodal equilibrium give one linear system for all the states.

Sign conventions (pycba's documented ones): v up +, rotation anticlockwise +,
loads w, P down +, couples anticlockwise +, M sagging +, V = dM/dx; reactions up
/ anticlockwise +.

A model is a plain JSON-able dict:
  L, EI, R, D(optional), et, GAv(optional), kf(optional), LM
EI / GAv entries are numbers or lists of section segments
  [seg_type, x, ei] or [seg_type, x, ei, degree].
"""
import numpy as np
from scipy.linalg import expm

_GX, _GW = np.polynomial.legendre.leggauss(20)
_GX = 0.5 * (_GX + 1.0)
_GW = 0.5 * _GW


class Prop:
    """A section property along a member: scalar or a list of segments."""

    def __init__(self, spec, L):
        self.L = L
        self.pieces = []  # (x0, x1, poly coeffs high->low)
        if isinstance(spec, (int, float)):
            self.const = float(spec)
            self.pieces.append((0.0, L, np.array([float(spec)])))
            return
        self.const = None
        for seg in spec:
            kind, x, ei = seg[0], [float(t) for t in seg[1]], seg[2]
            if kind == "const":
                self.pieces.append((x[0], x[-1], np.array([float(ei)])))
            elif kind in ("linear", "pwl"):
                for k in range(len(x) - 1):
                    m = (ei[k + 1] - ei[k]) / (x[k + 1] - x[k])
                    self.pieces.append((x[k], x[k + 1], np.array([m, ei[k] - m * x[k]])))
            elif kind == "poly":
                deg = seg[3] if len(seg) > 3 and seg[3] is not None else len(x) - 1
                self.pieces.append((x[0], x[-1], np.polyfit(x, ei, deg)))
            else:
                raise ValueError(kind)

    def breaks(self):
        return [p[0] for p in self.pieces] + [self.pieces[-1][1]]

    def at_piece(self, xm):
        """polynomial valid at the (interior) point xm"""
        for x0, x1, c in self.pieces:
            if x0 <= xm <= x1:
                return c
        return self.pieces[-1][2]


def member_loads(LM, i, L):
    """Loads of member i (0-based) -> (dist, points, moments, kappas)

    dist: (x0, x1, w0, w1);  overhang past the member end is clipped,
    as documented.
    """
    dist, pts, mts, kap = [], [], [], []
    for r in LM:
        if int(r[0]) - 1 != i:
            continue
        t = r[1]
        if t == 1:
            dist.append((0.0, L, r[2], r[2]))
        elif t == 2:
            if r[3] <= L:
                pts.append((r[3], r[2]))
        elif t == 3:
            x0, x1 = r[3], min(r[3] + r[4], L)
            if x1 > x0:
                dist.append((x0, x1, r[2], r[2]))
        elif t == 4:
            if r[3] <= L:
                mts.append((r[3], r[2]))
        elif t == 5:
            if len(r) > 4:
                a, c = r[4], r[5]
            else:
                a, c = 0.0, L
            x0, x1 = a, a + c
            w0, w1 = r[2], r[3]
            if x1 > L:
                w1 = w0 + (w1 - w0) * (L - x0) / (x1 - x0)
                x1 = L
            if x1 > x0:
                dist.append((x0, x1, w0, w1))
        elif t == 6:
            kap.append([float(k) for k in r[2:]])
        else:
            raise ValueError(t)
    return dist, pts, mts, kap


class _Piece:
    __slots__ = ("x0", "x1", "EI", "GA", "kf", "w0", "dw", "kap", "T", "p", "jM", "jV")

    def advance(self, h):
        """transfer (T, p) over [x0, x0+h]"""
        if self.kf:
            EI = float(np.polyval(self.EI, 0.0))
            iGA = 0.0 if self.GA is None else 1.0 / float(np.polyval(self.GA, 0.0))
            # state v,th,M,V,1,xi   (xi = local coordinate)
            A = np.zeros((6, 6))
            A[0, 1] = 1.0
            A[0, 3] = -iGA
            A[1, 2] = 1.0 / EI
            A[2, 3] = 1.0
            A[3, 0] = -self.kf
            A[3, 4] = -self.w0
            A[3, 5] = -self.dw
            A[5, 4] = 1.0
            k = self.kap
            if k is not None and len(k):
                # constant / linear curvature only
                k0 = k[0] + (k[1] * self.x0 if len(k) > 1 else 0.0)
                A[1, 4] += k0
                if len(k) > 1:
                    A[1, 5] += k[1]
            E = expm(A * h)
            return E[:4, :4], E[:4, 4]
        # no foundation: M and V are polynomials, th and v by Gauss quadrature
        xi = _GX * h
        wq = _GW * h
        x = self.x0 + xi
        f = 1.0 / np.polyval(self.EI, x)
        g = np.zeros_like(x) if self.GA is None else 1.0 / np.polyval(self.GA, x)
        Vp = -(self.w0 * xi + 0.5 * self.dw * xi**2)
        Mp = -(0.5 * self.w0 * xi**2 + self.dw * xi**3 / 6.0)
        kp = np.zeros_like(x)
        if self.kap is not None:
            kp = np.polyval(self.kap[::-1], x)
        T = np.eye(4)
        p = np.zeros(4)
        # M(h), V(h)
        T[2, 3] = h
        p[3] = -(self.w0 * h + 0.5 * self.dw * h * h)
        p[2] = -(0.5 * self.w0 * h * h + self.dw * h**3 / 6.0)
        T[1, 2] = wq @ f
        T[1, 3] = wq @ (f * xi)
        p[1] = wq @ (f * Mp + kp)
        lev = h - xi
        T[0, 1] = h
        T[0, 2] = wq @ (lev * f)
        T[0, 3] = wq @ (lev * f * xi) - wq @ g
        p[0] = wq @ (lev * (f * Mp + kp)) - wq @ (g * Vp)
        return T, p


class Solution:
    def __init__(self, model, sub=1):
        self.m = model
        L = [float(x) for x in model["L"]]
        n = len(L)
        R = [float(r) for r in model["R"]]
        D = model.get("D") or [None] * (2 * n + 2)
        et = model.get("et") or [1] * n
        GAv = model.get("GAv") or [None] * n
        kf = model.get("kf") or [None] * n
        self.n, self.L, self.R, self.D, self.et = n, L, R, D, et
        self.xs = np.concatenate([[0.0], np.cumsum(L)])
        self.mem = []
        for i in range(n):
            ei = Prop(model["EI"][i], L[i])
            ga = None if GAv[i] is None else Prop(GAv[i], L[i])
            dist, pts, mts, kap = member_loads(model["LM"], i, L[i])
            bps = {0.0, L[i]}
            for p in (ei, ga):
                if p is not None:
                    bps.update(b for b in p.breaks())
            for d in dist:
                bps.update(d[:2])
            for q in pts + mts:
                bps.add(q[0])
            bps = sorted(b for b in bps if 0.0 <= b <= L[i])
            # merge breaks that coincide up to rounding
            mg = [bps[0]]
            for b in bps[1:]:
                if b - mg[-1] > 1e-11 * L[i]:
                    mg.append(b)
            mg[-1] = L[i]
            mx = sub
            if kf[i]:
                b0 = (kf[i] / (4 * _minEI(ei))) ** 0.25
                hmax = min(0.7 / b0, L[i] / 4)
            elif ei.const is None or (ga is not None and ga.const is None):
                hmax = L[i] / 12
            else:
                hmax = L[i]
            hmax /= mx
            xs = [0.0]
            for a, b in zip(mg[:-1], mg[1:]):
                k = max(1, int(np.ceil((b - a) / hmax - 1e-9)))
                xs += [a + (b - a) * (j + 1) / k for j in range(k)]
            nk = max((len(k) for k in kap), default=0)
            kt = np.zeros(nk) if nk else None
            for k in kap:
                kt[: len(k)] += k
            pcs = []
            for a, b in zip(xs[:-1], xs[1:]):
                pc = _Piece()
                pc.x0, pc.x1 = a, b
                xm = 0.5 * (a + b)
                pc.EI = ei.at_piece(xm)
                pc.GA = None if ga is None else ga.at_piece(xm)
                pc.kf = kf[i]
                pc.kap = kt
                w0 = dw = 0.0
                for x0, x1, u0, u1 in dist:
                    if x0 <= xm <= x1:
                        s = (u1 - u0) / (x1 - x0)
                        w0 += u0 + s * (a - x0)
                        dw += s
                pc.w0, pc.dw = w0, dw
                pc.T, pc.p = pc.advance(b - a)
                pc.jM = pc.jV = 0.0  # jumps applied at the START of the piece
                pcs.append(pc)
            tol = 1e-10 * L[i]
            self_end = [0.0, 0.0]  # jumps at the very end of the member
            for x, P in pts:
                if abs(x - L[i]) <= tol:
                    self_end[1] -= P
                else:
                    k = min(range(len(pcs)), key=lambda j: abs(pcs[j].x0 - x))
                    pcs[k].jV -= P
            for x, m in mts:
                if abs(x - L[i]) <= tol:
                    self_end[0] -= m
                else:
                    k = min(range(len(pcs)), key=lambda j: abs(pcs[j].x0 - x))
                    pcs[k].jM -= m
            self.mem.append((pcs, self_end, pts, mts))
        self._solve()

    def _solve(self):
        n, R, D, et = self.n, self.R, self.D, self.et
        off, N = [], 0
        for pcs, *_ in self.mem:
            off.append(N)
            N += 4 * len(pcs)
        nd = N  # node unknowns
        N += 2 * (n + 1)
        # scaling
        Lc = max(self.L)
        EIc = max(_pmax(p.EI, p.x0, p.x1) for pcs, *_ in self.mem for p in pcs)
        S = np.array([Lc, 1.0, EIc / Lc, EIc / Lc**2])  # state = S * scaled
        A = np.zeros((N, N))
        b = np.zeros(N)
        row = 0
        Tm, Pm = [], []
        for pcs, *_ in self.mem:
            Tm.append([(p.T * S[None, :]) / S[:, None] for p in pcs])
            Pm.append([p.p / S for p in pcs])
        I4 = np.eye(4)

        def jump(p):
            return np.array([0, 0, p.jM, p.jV]) / S

        # piece continuity: s_{k+1}(before jump) = T_k (s_k + j_k) + p_k
        for i, (pcs, *_r) in enumerate(self.mem):
            for k in range(len(pcs) - 1):
                c = off[i] + 4 * k
                A[row : row + 4, c + 4 : c + 8] = I4
                A[row : row + 4, c : c + 4] -= Tm[i][k]
                b[row : row + 4] = Tm[i][k] @ jump(pcs[k]) + Pm[i][k]
                row += 4
        # member-end descriptors: start = s_0 ; end = T(s+j)+p + end jump
        ends = []
        for i, (pcs, ej, *_r) in enumerate(self.mem):
            c0 = off[i]
            cl = off[i] + 4 * (len(pcs) - 1)
            vec = Tm[i][-1] @ jump(pcs[-1]) + Pm[i][-1]
            vec = vec + np.array([0, 0, ej[0], ej[1]]) / S
            ends.append((c0, cl, Tm[i][-1], vec))
        for i in range(n):
            c0, cl, T, vec = ends[i]
            jl, jr = nd + 2 * i, nd + 2 * (i + 1)
            relL = et[i] in (3, 4)
            relR = et[i] in (2, 4)
            # start
            A[row, c0] = 1
            A[row, jl] = -1
            row += 1
            if relL:
                A[row, c0 + 2] = 1
            else:
                A[row, c0 + 1] = 1
                A[row, jl + 1] = -1
            row += 1
            # end
            A[row, cl : cl + 4] = T[0]
            A[row, jr] = -1
            b[row] = -vec[0]
            row += 1
            if relR:
                A[row, cl : cl + 4] = T[2]
                b[row] = -vec[2]
            else:
                A[row, cl : cl + 4] = T[1]
                A[row, jr + 1] = -1
                b[row] = -vec[1]
            row += 1
        # nodes.  Vertical: V_s - V_e = F_j (support force, up).
        # moment: M_s - M_e = -Mr_j (support couple, ccw)
        self._eq = []
        for j in range(n + 1):
            for d in range(2):
                coef = np.zeros(N)
                const = 0.0
                q = 3 if d == 0 else 2
                if j < n:
                    coef[ends[j][0] + q] += 1
                if j > 0:
                    c0, cl, T, vec = ends[j - 1]
                    coef[cl : cl + 4] -= T[q]
                    const -= vec[q]
                # sgn*(coef@u+const) * S[q] = support force
                sgn = 1.0 if d == 0 else -1.0
                self._eq.append((sgn, coef, const, S[q]))
                k = nd + 2 * j + d
                r, dp = R[2 * j + d], D[2 * j + d]
                sd = S[d]
                if r < 0 or dp is not None:
                    A[row, k] = 1
                    b[row] = (0.0 if dp is None else dp) / sd
                else:
                    # sgn*S[q]*(coef@u+const) = -r * sd * u_k
                    A[row] = coef
                    A[row, k] += sgn * r * sd / S[q]
                    b[row] = -const
                row += 1
        assert row == N
        self.cond = None
        rs = np.abs(A).max(axis=1)
        A2 = A / rs[:, None]
        b2 = b / rs
        u = np.linalg.solve(A2, b2)
        u = u + np.linalg.solve(A2, b2 - A2 @ u)  # one step of refinement
        self.u, self.S, self.off, self.nd = u, S, off, nd
        self.nodes = np.array([u[nd + k] * S[k % 2] for k in range(2 * (n + 1))])
        self.react = np.array(
            [sg * s * (cf @ u + c) for sg, cf, c, s in self._eq]
        )  # support force per DOF (zero at free DOFs)

    # ------------------------------------------------------------------
    def state(self, i, x, side="R"):
        """(v, th, M, V) at local x of member i; side selects the limit."""
        pcs, ej, pts, mts = self.mem[i]
        L = self.L[i]
        tol = 1e-10 * L
        if x >= L - tol:
            k, h = len(pcs) - 1, pcs[-1].x1 - pcs[-1].x0
        else:
            k = 0
            for kk, p in enumerate(pcs):
                if x >= p.x0 - tol:
                    k = kk
            h = max(0.0, x - pcs[k].x0)
            if abs(h) <= tol:
                if side == "L":
                    if k == 0:
                        s = self.u[self.off[i] : self.off[i] + 4] * self.S
                        return s
                    k -= 1
                    h = pcs[k].x1 - pcs[k].x0
                else:
                    h = 0.0
        c = self.off[i] + 4 * k
        s = self.u[c : c + 4] * self.S + np.array([0, 0, pcs[k].jM, pcs[k].jV])
        full = abs(h - (pcs[k].x1 - pcs[k].x0)) <= tol
        if h > 0:
            T, p = (pcs[k].T, pcs[k].p) if full else pcs[k].advance(h)
            s = T @ s + p
        if x >= L - tol and side == "R":
            s = s + np.array([0, 0, ej[0], ej[1]])
        return s

    def states(self, i, xs, side="R"):
        return np.array([self.state(i, float(x), side) for x in xs])


def _minEI(p):
    return min(float(np.min(np.polyval(c, np.linspace(a, b, 5)))) for a, b, c in p.pieces)


def _pmax(c, a, b):
    return float(np.max(np.abs(np.polyval(c, np.array([a, 0.5 * (a + b), b])))))


def solve(model, sub=1):
    return Solution(model, sub)
