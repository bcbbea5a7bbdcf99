From 12480822fbf387f54bf0ca258a07759065c9046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 01/63] fix: release both end moments of a pinned-pinned member
 from the end shears

---
 src/pycba/beam.py | 8 ++++----
 src/pycba/load.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 062f631..e800a7d 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -852,9 +852,9 @@ class Beam:
             # correction is ``(Ma + Mb)/L`` applied to the fixed-fixed CNL),
             # so the constant-EI limit is reproduced.
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF so
@@ -1607,9 +1607,9 @@ class Beam:
         if eType == 4:
             # Pinned-pinned: release both end moments (mirror _ref_nonprismatic).
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF using
diff --git a/src/pycba/load.py b/src/pycba/load.py
index 68e7929..6056cb9 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -116,9 +116,9 @@ class Load:
             ref[2] = -fm * cnl.Ma
             ref[3] = 0.5 * cnl.Ma
         elif eType == 4:  # keep only vertical, remove moments
-            ref[0] = -(cnl.Ma + cnl.Mb) / L
+            ref[0] = (cnl.Ma + cnl.Mb) / L
             ref[1] = 1.0 * cnl.Ma
-            ref[2] = (cnl.Ma + cnl.Mb) / L
+            ref[2] = -(cnl.Ma + cnl.Mb) / L
             ref[3] = 1.0 * cnl.Mb
         else:
             # no nothing if it is FF
-- 
2.43.0


From f14a1535d88ddc9ab84643dba3c4915e983f262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 02/63] fix: ignore the overhang of a partial UDL in the member
 results too

---
 src/pycba/load.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pycba/load.py b/src/pycba/load.py
index 6056cb9..e44a4a2 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -333,6 +333,10 @@ class LoadPUDL(Load):
         self.a = a
         self.c = c
 
+    def _cover(self, L: float) -> float:
+        """Loaded length actually on the span (any overhang is ignored)."""
+        return min(self.c, max(L - self.a, 0.0))
+
     def get_cnl(self, L, eType) -> LoadCNL:
         """
         Returns the Consistent Nodal Loads for a span of length L of element eType
@@ -351,16 +355,8 @@ class LoadPUDL(Load):
         """
 
         a = self.a
-        c = self.c
+        c = self._cover(L)  # actual cover on span (zero if off the span)
         w = self.w
-        # Check if on span, if not, return zeros
-        if self.a > L:
-            return [0.0] * 4
-        # Actual cover on span
-        d = L - (a + c)
-        # If cover hangs off span, adjust it
-        if d < 0:
-            c += d
         # More useful vars
         s = a + c / 2
         t = L - s
@@ -398,7 +394,7 @@ class LoadPUDL(Load):
         res.x = x
 
         a = self.a
-        c = self.c
+        c = self._cover(L)
         w = self.w
         b = c + a
 
-- 
2.43.0


From 6df82f06976f221a0d994a541b3996de6cd6f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 03/63] fix: query the evaluation stations, not the diagram
 closure, in point queries

---
 src/pycba/load_cases.py |  5 +++--
 src/pycba/results.py    | 23 +++++++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index c30c5ed..76fb143 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -10,7 +10,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from .beam import Beam
 from .analysis import BeamAnalysis
-from .results import Envelopes
+from .results import Envelopes, station_index
 from .load import LoadMatrix, factor_LM
 
 
@@ -1045,7 +1045,8 @@ def _response_at(x: np.ndarray, B: np.ndarray, x_target: float) -> np.ndarray:
             f"[{x.min()}, {x.max()}]."
         )
 
-    unique_x, unique_index = np.unique(x, return_index=True)
+    unique_index = station_index(x)
+    unique_x = x[unique_index]
     unique_B = B[:, unique_index]
     return np.array([np.interp(x_target, unique_x, row) for row in unique_B])
 
diff --git a/src/pycba/results.py b/src/pycba/results.py
index cba6398..8c1a058 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -28,6 +28,23 @@ def _shear_point_offset(L: float) -> float:
     return _SHEAR_POINT_REL_OFFSET * L
 
 
+def station_index(x: np.ndarray) -> np.ndarray:
+    """
+    Indices of the distinct evaluation stations in a beam station array.
+
+    Each member's stations are padded with a duplicated end station at which the
+    load effects are *closed* to the baseline, and adjacent members repeat the
+    coordinate of their shared node (to within rounding).  One station is kept
+    per coordinate: the left-hand evaluation station, and the first evaluation
+    station (not the closure) at the left end of the beam.
+    """
+    x = np.asarray(x, dtype=float)
+    tol = 1e-12 * max(1.0, float(np.max(np.abs(x))))
+    first = np.flatnonzero(np.concatenate([[True], np.diff(x) > tol]))
+    last = np.concatenate([first[1:], [len(x)]]) - 1
+    return np.concatenate([last[:1], first[1:]])
+
+
 class BeamResults:
     """
     BeamResults Class for processing and containing the results for each member
@@ -315,7 +332,8 @@ class BeamResults:
             load) the left-hand value is returned.
         """
         res = self.results
-        ux, uidx = np.unique(res.x, return_index=True)
+        uidx = station_index(res.x)
+        ux = res.x[uidx]
         out: Dict[str, float] = {}
         for a in attrs:
             vals = np.asarray(getattr(res, a))
@@ -784,7 +802,8 @@ class Envelopes:
     def _unique_x(self) -> Tuple[np.ndarray, np.ndarray]:
         """Return the de-duplicated station coordinates and their indices."""
 
-        return np.unique(self.x, return_index=True)
+        index = station_index(self.x)
+        return self.x[index], index
 
     def at(
         self,
-- 
2.43.0


From b3ce7930e2fc1ef4259dc038a3348e72f5d81049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 04/63] fix: keep the Winkler foundation when building
 load-case models

---
 src/pycba/load_cases.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 76fb143..daaf590 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -868,6 +868,7 @@ def build_pycba_model(
         eletype=list(beam.mbr_eletype),
         D=list(beam.prescribed_displacements),
         GAv=list(getattr(beam, "mbr_GAv", [])) or None,
+        kf=list(getattr(beam, "mbr_kf", [])) or None,
     )
 
 
-- 
2.43.0


From 2d393368f1c9bc9b1d81ec82a8d708f0d7a89d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 05/63] fix: recomputing influence lines restarts the load
 positions

---
 src/pycba/inf_lines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index c1c061d..a033073 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -67,6 +67,7 @@ class InfluenceLines:
         None.
         """
         self.vResults = []  # reset
+        self.pos = []
 
         if step is None:
             step = self.L / 100
-- 
2.43.0


From f5c7090dd8fd08195cca5b6c43559b71976c96a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 06/63] fix: do not lose the last influence-line load to
 rounding

---
 src/pycba/inf_lines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index a033073..708d054 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -77,6 +77,8 @@ class InfluenceLines:
         for i in range(npts):
             # load position
             pos = i * step
+            if np.isclose(pos, self.L, rtol=1e-9, atol=0.0):
+                pos = self.L  # i * step may overshoot the beam by rounding
             self.pos.append(pos)
             # locate load on span
             ispan, pos_in_span = self.ba.beam.get_local_span_coords(pos)
-- 
2.43.0


From 588ad851854f52c54779cec08361cb7cb07e320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 07/63] fix: reaction influence lines for beams with elastic
 supports

---
 src/pycba/inf_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index 708d054..da3568e 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -130,7 +130,7 @@ class InfluenceLines:
         # Get vector of the node locations
         node_locations = np.cumsum(np.insert(self.ba.beam.mbr_lengths, 0, 0))
         # Link the supported DOF to the index in the BeamAnalysis reactions vector
-        idx_mask = np.zeros_like(self.ba._beam.restraints)
+        idx_mask = np.zeros(len(self.ba._beam.restraints), dtype=int)
         idx_mask[np.where(np.array(self.ba._beam.restraints) == -1)] = np.arange(
             self.ba.beam.no_fixed_restraints
         )
-- 
2.43.0


From cbdedfbb095892dc3d84a9c7915a3b0821e770c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 08/63] fix: integrate the primary end rotations of
 non-prismatic members between the load's own discontinuities

---
 src/pycba/beam.py | 126 +++++++++++++++++++++++++---------------------
 1 file changed, 70 insertions(+), 56 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index e800a7d..7360b62 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -3,9 +3,8 @@ PyCBA - Beam Class definition
 """
 from typing import Optional, Sequence, Union
 import numpy as np
-from scipy import integrate
 from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC
-from .types import MemberType
+from .types import MemberType, MemberResults
 from .section import SectionEI
 from .utils import supports_to_R, SupportType
 
@@ -801,28 +800,16 @@ class Beam:
         # curvature kappa_imp(x) is the primary curvature instead.
         #
         # The integral is split at the section breakpoints (segment joins and
-        # pwl kinks) so that any EI discontinuity / kink is honoured exactly;
-        # within each piece a fine Simpson grid captures the (possibly
-        # non-polynomial, e.g. point-load-kinked) moment diagram.  For a single
-        # constant segment this reproduces the prismatic get_ref.
-        bps = EI.breakpoints
-        edges = np.unique(np.concatenate([bps, [0.0, L]]))
-        edges = edges[(edges >= -1e-12) & (edges <= L + 1e-12)]
-        edges[0], edges[-1] = 0.0, L
-        theta0 = np.zeros(2)
-        for a, b in zip(edges[:-1], edges[1:]):
-            if b <= a:
-                continue
-            n = 2001
-            xx = np.linspace(a, b, n)
-            M = load.get_mbr_results(xx, L).M
-            curv = M / EI(xx)
-            if isinstance(load, LoadIC):
-                curv = curv + load.kappa_imp(xx)
-            mi = 1.0 - xx / L
-            mj = -xx / L
-            theta0[0] += integrate.simpson(mi * curv, x=xx)
-            theta0[1] += integrate.simpson(mj * curv, x=xx)
+        # pwl kinks) so that any EI discontinuity / kink is honoured exactly,
+        # and at the load's own discontinuities.  For a constant EI this
+        # reproduces the prismatic get_ref.
+        xx, ww, mr = self._primary_quadrature(load, L, EI)
+        curv = mr.M / EI(xx)
+        if isinstance(load, LoadIC):
+            curv = curv + load.kappa_imp(xx)
+        theta0 = np.array(
+            [np.sum(ww * (1.0 - xx / L) * curv), np.sum(ww * (-xx / L) * curv)]
+        )
 
         # Fixed-end moments (PyCBA nodal-moment sign convention)
         Kth = self.k_theta(EI, L)
@@ -1093,6 +1080,51 @@ class Beam:
             ws.append(0.5 * (b - a) * wi)
         return np.concatenate(xs), np.concatenate(ws)
 
+    @staticmethod
+    def _primary_quadrature(load, L: float, *sections):
+        """
+        Quadrature for the primary (simply-supported) end-rotation integrals.
+
+        The span is split at every section breakpoint and at the load's own
+        discontinuities, with Gauss-Legendre nodes strictly inside each piece,
+        so the section steps, the load kinks and the closure of the load's
+        diagrams at the stations' ends do not enter the integrals.
+
+        Parameters
+        ----------
+        load : pycba.load.Load
+            The load object.
+        L : float
+            The length of the member.
+        *sections : float or SectionEI
+            The member properties whose breakpoints split the integral.
+
+        Returns
+        -------
+        x, w : np.ndarray
+            The nodes and weights on ``[0, L]``.
+        res : pycba.types.MemberResults
+            The load's simply-supported results at the nodes.
+        """
+        edges = [0.0, L]
+        for section in sections:
+            if isinstance(section, SectionEI):
+                edges.extend(section.breakpoints)
+        start = getattr(load, "a", None)
+        if start is not None:
+            cover = getattr(load, "c", getattr(load, "_c", None))
+            edges.extend([start, start + (cover or 0.0)])
+        edges = np.unique(np.clip(edges, 0.0, L))
+
+        xi, wi = np.polynomial.legendre.leggauss(32)
+        h = 0.5 * np.diff(edges)[:, None]
+        x = (edges[:-1, None] + h * (xi + 1.0)).ravel()
+        w = (h * wi).ravel()
+        res = load.get_mbr_results(np.concatenate([[0.0], x, [L]]), L)
+        return x, w, MemberResults(
+            vals=tuple(getattr(res, k)[1:-1] for k in ("x", "M", "V", "R", "D"))
+        )
+
     @staticmethod
     def _flexibility(EI: SectionEI, L: float) -> np.ndarray:
         """
@@ -1494,38 +1526,20 @@ class Beam:
         np.ndarray, shape (2,)
             The primary end rotations ``[theta_0a, theta_0b]``.
         """
-        bps = []
-        if isinstance(EI, SectionEI):
-            bps += list(EI.breakpoints)
-        if isinstance(GAv, SectionEI):
-            bps += list(GAv.breakpoints)
-        if bps:
-            edges = np.unique(np.concatenate([[0.0, L], bps]))
-            edges = edges[(edges >= -1e-12) & (edges <= L + 1e-12)]
-            edges[0], edges[-1] = 0.0, L
-        else:
-            edges = np.array([0.0, L])
-
-        theta0 = np.zeros(2)
-        for a, b in zip(edges[:-1], edges[1:]):
-            if b <= a:
-                continue
-            n = 2001
-            xx = np.linspace(a, b, n)
-            mr = load.get_mbr_results(xx, L)
-            EIx = EI(xx) if isinstance(EI, SectionEI) else EI
-            curv = mr.M / EIx
-            if isinstance(load, LoadIC):
-                curv = curv + load.kappa_imp(xx)
-            GAvx = GAv(xx) if isinstance(GAv, SectionEI) else GAv
-            gamma = mr.V / GAvx
-            mi = 1.0 - xx / L
-            mj = -xx / L
-            vi = -1.0 / L  # unit-moment shear (constant), same for both ends
-            shear = integrate.simpson(vi * gamma, x=xx)
-            theta0[0] += integrate.simpson(mi * curv, x=xx) + shear
-            theta0[1] += integrate.simpson(mj * curv, x=xx) + shear
-        return theta0
+        xx, ww, mr = self._primary_quadrature(load, L, EI, GAv)
+        EIx = EI(xx) if isinstance(EI, SectionEI) else EI
+        curv = mr.M / EIx
+        if isinstance(load, LoadIC):
+            curv = curv + load.kappa_imp(xx)
+        GAvx = GAv(xx) if isinstance(GAv, SectionEI) else GAv
+        vi = -1.0 / L  # unit-moment shear (constant), same for both ends
+        shear = np.sum(ww * vi * mr.V / GAvx)
+        return np.array(
+            [
+                np.sum(ww * (1.0 - xx / L) * curv) + shear,
+                np.sum(ww * (-xx / L) * curv) + shear,
+            ]
+        )
 
     def _ref_timoshenko(
         self,
-- 
2.43.0


From b074973e338f25718a21d4aa2177435b3a626152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 09/63] fix: shear-flexible fixed-end moments of concentrated
 moments

---
 src/pycba/beam.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 7360b62..6b86b19 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -3,7 +3,7 @@ PyCBA - Beam Class definition
 """
 from typing import Optional, Sequence, Union
 import numpy as np
-from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC
+from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC, LoadML
 from .types import MemberType, MemberResults
 from .section import SectionEI
 from .utils import supports_to_R, SupportType
@@ -1590,7 +1590,13 @@ class Beam:
             Released end force vector ``[Va, Ma, Vb, Mb]``.
         """
         eType = int(np.asarray(eType).item())
-        prismatic = not isinstance(EI, SectionEI) and not isinstance(GAv, SectionEI)
+        # The closed form assumes the transverse load alone shears the simple
+        # span (its shears integrate to zero), which a moment load breaks.
+        prismatic = not (
+            isinstance(EI, SectionEI)
+            or isinstance(GAv, SectionEI)
+            or isinstance(load, LoadML)
+        )
         cnl = load.get_cnl(L, 1)  # fixed-fixed Euler-Bernoulli CNL
 
         if prismatic:
-- 
2.43.0


From 54fc34140e34333eae34630e773ed1fde239c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 10/63] fix: target coordinate at the beam end in load-case
 combinations

---
 src/pycba/load_cases.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index daaf590..92e60d7 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -1040,7 +1040,9 @@ def _response_at(x: np.ndarray, B: np.ndarray, x_target: float) -> np.ndarray:
         raise ValueError("x must be a 1D station array.")
     if B.ndim != 2 or B.shape[1] != x.shape[0]:
         raise ValueError("B must have shape (n_load_cases, len(x)).")
-    if x_target < x.min() or x_target > x.max():
+    # The last station can fall short of the beam end by rounding
+    tol = 1e-9 * max(1.0, float(np.max(np.abs(x))))
+    if x_target < x.min() - tol or x_target > x.max() + tol:
         raise ValueError(
             f"Target coordinate {x_target} lies outside the analysis range "
             f"[{x.min()}, {x.max()}]."
-- 
2.43.0


From c91de5f9f8ee88e251aa64ec862d3d0fe90b9675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 11/63] fix: no diagram closure inside a foundation member's
 results

---
 src/pycba/foundation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pycba/foundation.py b/src/pycba/foundation.py
index 99ae12e..0730a3c 100644
--- a/src/pycba/foundation.py
+++ b/src/pycba/foundation.py
@@ -102,9 +102,16 @@ def _eb_member_values(L, EI, f, d, loads, npts) -> MemberResults:
 
 
 def _concat_results(res_list: List[MemberResults]) -> MemberResults:
-    """Concatenate per-sub-element results into a single member result."""
+    """
+    Concatenate per-sub-element results into a single member result.  Only the
+    member's own ends keep the padding that closes the diagrams.
+    """
+    last = len(res_list) - 1
+    keep = [
+        slice(0 if i == 0 else 1, None if i == last else -1) for i in range(last + 1)
+    ]
     arrays = [
-        np.concatenate([getattr(r, a) for r in res_list])
+        np.concatenate([getattr(r, a)[s] for r, s in zip(res_list, keep)])
         for a in ("x", "M", "V", "R", "D")
     ]
     return MemberResults(vals=tuple(arrays))
-- 
2.43.0


From 4e01b7ec2fad8501807f59e274fbe829e321a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 12/63] fix: a merged envelope's dropped reaction history stays
 dropped

---
 src/pycba/results.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index 8c1a058..c502004 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -454,6 +454,8 @@ class Envelopes:
         self.Rmax, self.Rmin = self._get_envelope_R()
         self.Rmaxval = self.Rmax.max(axis=1)
         self.Rminval = self.Rmin.min(axis=1)
+        # Set once envelopes with other numbers of analyses have been merged in
+        self._history_dropped = False
 
     def _get_envelopes_VM(
         self,
@@ -565,6 +567,7 @@ class Envelopes:
             A :class:`pycba.results.Envelopes` object of zero-valued envelopes.
         """
         zero_env = deepcopy(env)
+        zero_env._history_dropped = False
         zero_env.Vmax = np.zeros(env.npts)
         zero_env.Vmin = np.zeros(env.npts)
         zero_env.Mmax = np.zeros(env.npts)
@@ -667,6 +670,14 @@ class Envelopes:
             )
         return cls([beam_results])
 
+    def _keeps_history(self, env: Envelopes) -> bool:
+        """
+        Whether the reaction histories of both envelopes are still those of the
+        same number of analyses, and so can be merged.
+        """
+        dropped = self._history_dropped or env._history_dropped
+        return self.nres == env.nres and not dropped
+
     def augment(self, env: Envelopes):
         """
         Augments this set of envelopes with another compatible set, making this the
@@ -717,11 +728,12 @@ class Envelopes:
         self.Rmaxval = np.maximum(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.minimum(self.Rminval, env.Rminval)
 
-        if self.nres == env.nres:
+        if self._keeps_history(env):
             self.Rmax = np.maximum(self.Rmax, env.Rmax)
             self.Rmin = np.minimum(self.Rmin, env.Rmin)
         else:
             # Ensure no misleading results returned
+            self._history_dropped = True
             self.Rmax = np.zeros((self.nsup, self.nres))
             self.Rmin = np.zeros((self.nsup, self.nres))
 
@@ -763,11 +775,12 @@ class Envelopes:
         self.Rmaxval = np.add(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.add(self.Rminval, env.Rminval)
 
-        if self.nres == env.nres:
+        if self._keeps_history(env):
             self.Rmax = np.add(self.Rmax, env.Rmax)
             self.Rmin = np.add(self.Rmin, env.Rmin)
         else:
             # Ensure no misleading results returned
+            self._history_dropped = True
             self.Rmax = np.zeros((self.nsup, self.nres))
             self.Rmin = np.zeros((self.nsup, self.nres))
 
-- 
2.43.0


From e6ae068c94ffd4706a8622d4dd99463f5db69a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 13/63] fix: vehicle trains with one spacing, coincident axles
 or reversed vehicles

---
 src/pycba/vehicle.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index f0796cd..6ff0bd8 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -194,6 +194,9 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
 
     """
 
+    spacings = np.atleast_1d(np.asarray(spacings, dtype=float))
+    if len(spacings) == 1:
+        spacings = np.repeat(spacings, len(vehicles) - 1)
     if len(vehicles) - 1 != len(spacings):
         raise ValueError("Inconsistent vehicle and spacing counts")
 
@@ -203,12 +206,12 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
     new_vehicle_axles = np.array([])
     new_vehicle_spaces = np.array([])
 
-    # loop through each vehicle
-    for veh in vehicles:
-        new_vehicle_axles = np.append(new_vehicle_axles, veh.axw)
-        new_vehicle_spaces = np.append(new_vehicle_spaces, np.insert(veh.axs, 0, 0))
-
-    new_vehicle_spaces[new_vehicle_spaces == 0] = np.insert(spacings, 0, 0)
+    # loop through each vehicle, in its current direction of travel
+    for gap, veh in zip(np.insert(spacings, 0, 0.0), vehicles):
+        order = np.argsort(veh.axle_coords, kind="stable")
+        spaces = np.diff(veh.axle_coords[order])
+        new_vehicle_axles = np.append(new_vehicle_axles, veh.axw[order])
+        new_vehicle_spaces = np.append(new_vehicle_spaces, np.insert(spaces, 0, gap))
 
     return Vehicle(new_vehicle_spaces[1:], new_vehicle_axles)
 
-- 
2.43.0


From a49aa0adf7b03c1451933149dcb8538543c4817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 14/63] fix: tri-axle group weights of the ABAG semi-trailer

---
 src/pycba/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index 6ff0bd8..7c0b129 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -281,7 +281,7 @@ class VehicleLibrary:
         ]
 
         abag_semitrailer_aw = (
-            np.array([6, 17 / 2, 17 / 2, 22.5 / 2, 22.5 / 2, 22.5 / 3]) * 9.81
+            np.array([6, 17 / 2, 17 / 2, 22.5 / 3, 22.5 / 3, 22.5 / 3]) * 9.81
         )  # t to kN
 
         abag_semitrailer_as = [
-- 
2.43.0


From 8a866adfa45207773a8b7e268c5f0956b62f1ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 15/63] fix: include the Winkler foundation in the modal
 analysis

---
 src/pycba/modal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycba/modal.py b/src/pycba/modal.py
index 5b0593a..0a733f3 100644
--- a/src/pycba/modal.py
+++ b/src/pycba/modal.py
@@ -21,6 +21,7 @@ from __future__ import annotations
 from typing import Optional, Union, Sequence
 import numpy as np
 from scipy.linalg import eigh
+from .foundation import _k_found
 from .section import SectionEI
 
 
@@ -244,6 +245,8 @@ def solve_modal(beam, mass, n_modes: int = 10, nseg: int = 12) -> ModalResults:
         Li = beam.mbr_lengths[i]
         h = Li / nseg
         ke = _k_ebeam(EIi, h)
+        if beam.mbr_kf[i] is not None:
+            ke = ke + _k_found(float(beam.mbr_kf[i]), h)
         me = _m_consistent(mass_list[i], h)
         base = i * nseg
         for s in range(nseg):
-- 
2.43.0


From ba0609375405fd0a07360ae906efd7ab72983e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 16/63] fix: plastic mechanism test counted hinged joints, not
 mechanisms

---
 src/pycba/nonlinear.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d7feb32..5b5deec 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -866,10 +866,12 @@ class NonlinearBeamAnalysis:
 
         Builds a test stiffness matrix with *R* = 0 at both element ends
         of every clustered hinge location.  If this matrix is rank-deficient
-        the structure has become a mechanism.
+        the structure has become a mechanism.  The rotation of a hinged joint,
+        which both its elements have released, is not a mechanism and is given
+        a nominal stiffness; the restrained degrees of freedom are left out.
         """
         reps = self._cluster_hinges(hinged_nodes)
-        if len(reps) < 2:
+        if not reps:
             return False
         R_test = np.ones((self.n_elem, 2))
         for j in reps:
@@ -878,8 +880,10 @@ class NonlinearBeamAnalysis:
             if j < self.n_elem:
                 R_test[j, 0] = 0.0
         K_test = self._assemble_from_elem_R(R_test)
-        self._apply_bc_inplace(K_test)
-        return np.linalg.matrix_rank(K_test, tol=1e-6) < self.n_dof
+        for j in reps:
+            K_test[2 * j + 1, 2 * j + 1] += np.max(np.abs(np.diag(K_test)))
+        free = np.setdiff1d(np.arange(self.n_dof), self.bc_dofs)
+        return np.linalg.matrix_rank(K_test[np.ix_(free, free)]) < len(free)
 
     # ---- Static incremental analysis ----
 
-- 
2.43.0


From 96ae916514ad848bc554150cee3784f58a745686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 17/63] fix: the weaker span governs the plastic moment at an
 interior support

---
 src/pycba/nonlinear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 5b5deec..b754a7f 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -637,8 +637,14 @@ class NonlinearBeamAnalysis:
 
         # Per-element / per-node properties
         self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
+        # (the weaker of the two spans governs at the node they share)
         self.node_Mp = self.span_Mp[self.node_to_span]
         self.node_My = self.span_My[self.node_to_span]
+        for i in range(1, self.n_spans):
+            if self.span_Mp[i] < self.span_Mp[i - 1]:
+                mn = int(np.argmin(np.abs(self.node_coords - self.support_coords[i])))
+                self.node_Mp[mn] = self.span_Mp[i]
+                self.node_My[mn] = self.span_My[i]
         self.node_gamma_y = self.node_My / self.node_Mp
 
         # ---- Precompute element stiffness matrices (n_elem, 4, 4) ----
-- 
2.43.0


From ff5e45b0d397f619cf9ffb733d119d7e62799205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 18/63] fix: honour spring supports in the nonlinear analysis

---
 src/pycba/nonlinear.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index b754a7f..720859e 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -560,7 +560,8 @@ class NonlinearBeamAnalysis:
     EI : float or array_like
         Flexural rigidity (kNm²), scalar or per-span.
     R : array_like
-        Restraint vector in pycba convention (``-1`` = fixed, ``0`` = free).
+        Restraint vector in pycba convention (``-1`` = fixed, ``0`` = free,
+        positive = spring stiffness).
     Mp : float or array_like
         Plastic moment capacity (kNm), scalar or per-span.
     My : float or array_like, optional
@@ -635,6 +636,14 @@ class NonlinearBeamAnalysis:
         self.n_dof = 2 * self.n_nodes
         self.support_coords = np.concatenate(([0.0], np.cumsum(self.span_L)))
 
+        # Elastic spring supports, as (global dof, stiffness)
+        self.springs = []
+        for i, x in enumerate(self.support_coords):
+            mn = int(np.argmin(np.abs(self.node_coords - x)))
+            for j in range(2):
+                if self.span_R[2 * i + j] > 0:
+                    self.springs.append((2 * mn + j, float(self.span_R[2 * i + j])))
+
         # Per-element / per-node properties
         self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
         # (the weaker of the two spans governs at the node they share)
@@ -672,6 +681,12 @@ class NonlinearBeamAnalysis:
         for i in range(self.n_elem):
             d = 2 * i
             K[d : d + 4, d : d + 4] += self._ke_all[i]
+        return self._add_springs(K)
+
+    def _add_springs(self, K: np.ndarray) -> np.ndarray:
+        """Add the elastic spring supports to K (modifies and returns K)."""
+        for dof, ks in self.springs:
+            K[dof, dof] += ks
         return K
 
     def _assemble_from_elem_R(self, R_elem: np.ndarray) -> np.ndarray:
@@ -690,7 +705,7 @@ class NonlinearBeamAnalysis:
                 k = R1 * self._ke_all[i] + (R2 - R1) * self._k1_all[i]
             d = 2 * i
             K[d : d + 4, d : d + 4] += k
-        return K
+        return self._add_springs(K)
 
     def _apply_bc_inplace(self, K: np.ndarray) -> np.ndarray:
         """Apply BCs to K (modifies and returns K)."""
-- 
2.43.0


From 01c01b9ff9a46af89622b042484a60306971da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 19/63] fix: traffic loads left on the bridge were counted
 again by the next analysis

---
 src/pycba/bridge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 3d00c78..93e956b 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -254,6 +254,8 @@ class BridgeAnalysis:
                 raise ValueError("Bridge analysis did not succeed")
         finally:
             self.ba.shear_points = None
+            # Leave only the bridge's own loads on it for any later analysis
+            self.ba.set_loads(self.static_LM)
 
         if plotflag:
             self.plot_static(pos)
@@ -438,6 +440,8 @@ class BridgeAnalysis:
                 self.vResults.append(self.ba.beam_results)
         finally:
             self.ba.shear_points = None
+            # Leave only the bridge's own loads on it for any later analysis
+            self.ba.set_loads(self.static_LM)
 
         env = Envelopes(self.vResults)
 
@@ -586,6 +590,8 @@ class BridgeAnalysis:
                 self.vResults.append(self.ba.beam_results)
         finally:
             self.ba.shear_points = None
+            # Leave only the bridge's own loads on it for any later analysis
+            self.ba.set_loads(self.static_LM)
 
         env = Envelopes(self.vResults)
 
-- 
2.43.0


From 72e389b1b874c5ad12bcc425bf3b65ee7f1cff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 20/63] fix: do not append to the caller's load matrix

---
 src/pycba/beam.py   |  4 ++--
 src/pycba/bridge.py | 16 ++++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 6b86b19..282c237 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -149,7 +149,7 @@ class Beam:
             else:
                 self._prescribed_displacements = [None] * len(R)
         if LM is not None:
-            self.LM = LM
+            self.LM = list(LM)
 
     @staticmethod
     def _broadcast_GAv(GAv, n_spans: int) -> list:
@@ -301,7 +301,7 @@ class Beam:
         None
 
         """
-        self.LM = LM
+        self.LM = list(LM)
         self.no_loads = len(self.LM)
 
     def add_load(self, load: LoadType):
diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 93e956b..27a59ba 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -254,14 +254,20 @@ class BridgeAnalysis:
                 raise ValueError("Bridge analysis did not succeed")
         finally:
             self.ba.shear_points = None
-            # Leave only the bridge's own loads on it for any later analysis
-            self.ba.set_loads(self.static_LM)
+            self._restore_loads()
 
         if plotflag:
             self.plot_static(pos)
 
         return self.ba.beam_results
 
+    def _restore_loads(self):
+        """
+        Leave only the bridge's own loads on it for any later analysis.
+        """
+        self.ba.set_loads(self.static_LM)
+        self.static_LM = self.ba.beam.loads
+
     def _apply_shear_points(self, shear_points, dv):
         """
         Resolve and arm shear-point sections on the underlying beam analysis.
@@ -440,8 +446,7 @@ class BridgeAnalysis:
                 self.vResults.append(self.ba.beam_results)
         finally:
             self.ba.shear_points = None
-            # Leave only the bridge's own loads on it for any later analysis
-            self.ba.set_loads(self.static_LM)
+            self._restore_loads()
 
         env = Envelopes(self.vResults)
 
@@ -590,8 +595,7 @@ class BridgeAnalysis:
                 self.vResults.append(self.ba.beam_results)
         finally:
             self.ba.shear_points = None
-            # Leave only the bridge's own loads on it for any later analysis
-            self.ba.set_loads(self.static_LM)
+            self._restore_loads()
 
         env = Envelopes(self.vResults)
 
-- 
2.43.0


From 682b996e8d4d708f7f4cb9ab6459afefa2fd183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 21/63] fix: the stability check depended on the units of
 length

---
 src/pycba/analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index addedb1..15314a2 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -549,7 +549,11 @@ class BeamAnalysis:
         if not free:
             return  # fully constrained: nothing to solve, trivially stable
 
-        kff = ksysU[np.ix_(free, free)]
+        # Translational and rotational stiffnesses carry different units, so
+        # balance the two kinds of DOF: the verdict must not depend on the units.
+        diag = np.abs(np.diag(ksysU))
+        scale = np.sqrt([diag[i % 2 :: 2].max() or 1.0 for i in free])
+        kff = ksysU[np.ix_(free, free)] / np.outer(scale, scale)
         ev = np.abs(np.linalg.eigvalsh(kff))
         ev_max = ev.max()
         if ev_max == 0.0 or (ev.min() / ev_max) < self._STABILITY_RCOND:
-- 
2.43.0


From df0985742736d8086765c43303e2ec25dcbcca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 22/63] fix: a grid station on a shear point hid one of its
 shear limits

---
 src/pycba/bridge.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 27a59ba..25f7d1c 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -6,7 +6,7 @@ from typing import Optional, Union, Dict, List
 import numpy as np
 import matplotlib.pyplot as plt
 from .analysis import BeamAnalysis
-from .results import Envelopes, BeamResults
+from .results import Envelopes, BeamResults, _shear_point_offset
 from .vehicle import Vehicle
 from .load import add_LM
 
@@ -715,8 +715,11 @@ class BridgeAnalysis:
             support_xs = _vertical_support_xs(self.ba.beam)
             sp_block = {}
             for xg in self.shear_points_x:
-                left = np.nonzero(env.x < xg)[0]
-                right = np.nonzero(env.x > xg)[0]
+                # (a grid station may coincide with the section to rounding)
+                ispan, _ = self.ba.beam.get_local_span_coords(xg)
+                tol = 0.5 * _shear_point_offset(self.ba.beam.mbr_lengths[ispan])
+                left = np.nonzero(env.x < xg - tol)[0]
+                right = np.nonzero(env.x > xg + tol)[0]
                 if len(left) == 0 or len(right) == 0:
                     continue
                 il = left[np.argmax(env.x[left])]
-- 
2.43.0


From 499945d42a0623fdea02a879b22df6e0dbef183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 23/63] fix: shear points at a support read stations away from
 it

---
 src/pycba/bridge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 25f7d1c..dd676a5 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -713,6 +713,7 @@ class BridgeAnalysis:
         # supports (at x = 0 and x = L) are identifiable in the results.
         if len(self.shear_points_x) > 0:
             support_xs = _vertical_support_xs(self.ba.beam)
+            node_x = np.cumsum(np.insert(self.ba.beam.mbr_lengths, 0, 0.0))
             sp_block = {}
             for xg in self.shear_points_x:
                 # (a grid station may coincide with the section to rounding)
@@ -724,6 +725,10 @@ class BridgeAnalysis:
                     continue
                 il = left[np.argmax(env.x[left])]
                 ir = right[np.argmin(env.x[right])]
+                if np.any(np.isclose(node_x, xg, rtol=0.0, atol=2.0 * tol)):
+                    # No pair at a node: the ends of the adjoining members are
+                    # the two sides of the section.
+                    il, ir = il + 1, ir - 1
                 entry = {
                     "Vmax": max(env.Vmax[il], env.Vmax[ir]),
                     "Vmin": min(env.Vmin[il], env.Vmin[ir]),
-- 
2.43.0


From 7ea7050e7bb2f2803a0e9ca19e7c484850ced8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 24/63] fix: scaling a vehicle's axles changed the vehicle
 library

---
 src/pycba/vehicle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index 7c0b129..c32d230 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -39,8 +39,8 @@ class Vehicle:
         None.
 
         """
-        self.axs = np.asarray(axle_spacings)
-        self.axw = np.asarray(axle_weights)
+        self.axs = np.array(axle_spacings)
+        self.axw = np.array(axle_weights)
 
         if len(self.axs) + 1 != len(self.axw):
             raise ValueError("Inconsistent axle spacing and weight counts")
-- 
2.43.0


From dd96f53d534053d669303b211056ddca54e52411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 25/63] fix: the reversed copy of a vehicle already in reverse

---
 src/pycba/vehicle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index c32d230..64811c2 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -72,6 +72,8 @@ class Vehicle:
         """
         if in_place:
             self.axle_coords = +self.L - self.axle_coords
+        elif self.axle_coords[0] > self.axle_coords[-1]:  # already in reverse
+            return Vehicle(self.axs, self.axw)
         else:
             return Vehicle(np.copy(self.axs[::-1]), np.copy(self.axw[::-1]))
 
-- 
2.43.0


From 825520d777d3d84c31c631b18475d9b466faede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 26/63] fix: first element of a span took the previous span's
 stiffness in the nonlinear analysis

---
 src/pycba/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 720859e..30cca9d 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -645,7 +645,7 @@ class NonlinearBeamAnalysis:
                     self.springs.append((2 * mn + j, float(self.span_R[2 * i + j])))
 
         # Per-element / per-node properties
-        self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
+        self.elem_EI = self.span_EI[self.node_to_span[1:]]
         # (the weaker of the two spans governs at the node they share)
         self.node_Mp = self.span_Mp[self.node_to_span]
         self.node_My = self.span_My[self.node_to_span]
-- 
2.43.0


From 89635eb756237f122f1d3d107ca47d1bd41490cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 27/63] fix: hinges of opposite sign close together hid a
 plastic mechanism

---
 src/pycba/nonlinear.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 30cca9d..7625ba0 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -862,27 +862,36 @@ class NonlinearBeamAnalysis:
 
     # ---- Mechanism test ----
 
-    def _cluster_hinges(self, hinged_nodes, tol=0.0):
+    def _cluster_hinges(self, hinged_nodes, moments, tol=0.0):
         """Cluster nearby hinged nodes into representative locations.
 
         Because the mesh may produce multiple hinged nodes at nearly the
         same physical location, this groups them within *tol* (default
-        2 * min element length) and returns one representative per cluster.
+        2 * min element length) and returns one representative per cluster,
+        the most highly stressed.  A sagging and a hogging hinge are never the
+        same hinge, however close.
         """
         if not hinged_nodes:
             return []
         if tol <= 0.0:
             tol = 2.0 * float(self.elem_L.min())
+        sign = np.sign(moments)
+        sign[0] = -sign[0]  # (an end moment at the start of its element)
         sn = sorted(hinged_nodes)
         clusters = [[sn[0]]]
         for n in sn[1:]:
-            if self.node_coords[n] - self.node_coords[clusters[-1][-1]] <= tol:
+            prev = clusters[-1][-1]
+            if (
+                self.node_coords[n] - self.node_coords[prev] <= tol
+                and sign[n] == sign[prev]
+            ):
                 clusters[-1].append(n)
             else:
                 clusters.append([n])
-        return [c[len(c) // 2] for c in clusters]
+        gamma = np.abs(moments) / self.node_Mp
+        return [max(c, key=lambda n: gamma[n]) for c in clusters]
 
-    def _is_mechanism(self, hinged_nodes):
+    def _is_mechanism(self, hinged_nodes, moments):
         """Test whether the current hinge pattern forms a collapse mechanism.
 
         Builds a test stiffness matrix with *R* = 0 at both element ends
@@ -891,7 +900,7 @@ class NonlinearBeamAnalysis:
         which both its elements have released, is not a mechanism and is given
         a nominal stiffness; the restrained degrees of freedom are left out.
         """
-        reps = self._cluster_hinges(hinged_nodes)
+        reps = self._cluster_hinges(hinged_nodes, moments)
         if not reps:
             return False
         R_test = np.ones((self.n_elem, 2))
@@ -976,7 +985,7 @@ class NonlinearBeamAnalysis:
                 moments, gamma_max, R_elem, yielded, hinged, hinge_events, lam
             )
 
-            if new_h and self._is_mechanism(hinged):
+            if new_h and self._is_mechanism(hinged, moments):
                 return NonlinearResult(
                     lam,
                     True,
@@ -1163,7 +1172,7 @@ class NonlinearBeamAnalysis:
                 nh = self._update_R(
                     moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
                 )
-                if nh and self._is_mechanism(hinged):
+                if nh and self._is_mechanism(hinged, moments):
                     return self._mr(
                         x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
                     )
-- 
2.43.0


From 824e9eaa40ba0ae837330830c0b637c972606c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 28/63] fix: the first position of a moving load was not
 checked for yielding

---
 src/pycba/nonlinear.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 7625ba0..a260a73 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -1169,13 +1169,13 @@ class NonlinearBeamAnalysis:
                         )
                     moments += self._extract_moments(u, R_elem)
 
-                nh = self._update_R(
-                    moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
+            nh = self._update_R(
+                moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
+            )
+            if nh and self._is_mechanism(hinged, moments):
+                return self._mr(
+                    x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
                 )
-                if nh and self._is_mechanism(hinged, moments):
-                    return self._mr(
-                        x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
-                    )
 
             F_prev = F_cur
             if record_every > 0 and i_pos % record_every == 0:
-- 
2.43.0


From 72729bdde926643f2bbeaf16536f35f458ea348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 29/63] fix: hinges formed part-way through a load movement
 were not tested for a mechanism

---
 src/pycba/nonlinear.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index a260a73..90e3c37 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -1107,6 +1107,7 @@ class NonlinearBeamAnalysis:
 
         for i_pos, x_front in enumerate(positions):
             F_cur = self._vehicle_force_vector(aw, ax_coords, x_front)
+            n_hinged = len(hinged)
 
             if i_pos == 0:
                 for _ in range(n_sub):
@@ -1169,10 +1170,10 @@ class NonlinearBeamAnalysis:
                         )
                     moments += self._extract_moments(u, R_elem)
 
-            nh = self._update_R(
+            self._update_R(
                 moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
             )
-            if nh and self._is_mechanism(hinged, moments):
+            if len(hinged) > n_hinged and self._is_mechanism(hinged, moments):
                 return self._mr(
                     x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
                 )
-- 
2.43.0


From 6a328831e274d66261a7023dfc92df0dc123c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 30/63] fix: a segment ending just short of a support was
 stretched to it

---
 src/pycba/load_cases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 92e60d7..0f3a1c8 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -1146,7 +1146,7 @@ def _make_segment_udl(
         a = overlap_start - span_start
         if np.isclose(a, 0.0, atol=tol):
             a = 0.0
-        if np.isclose(cover, span_length, atol=tol):
+        if np.isclose(cover, span_length, rtol=0.0, atol=tol):
             cover = span_length
 
         if a == 0.0 and cover == span_length:
-- 
2.43.0


From b32155d957af918a4ee0084ba7194653a16c0ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 31/63] fix: compound parabola with a kink at the right-hand
 point of contraflexure

---
 src/pycba/prestress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 79c5341..73c4b85 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -165,7 +165,7 @@ class CompoundParabola:
         centrelines respectively.
     c : float
         Low-point location measured from the left support centreline
-        (``b < c < L - a`` is required so the four pieces are well formed).
+        (``a < c < L - b`` is required so the four pieces are well formed).
     """
 
     e_left: float
@@ -192,7 +192,7 @@ class CompoundParabola:
         el, em, er = self.e_left, self.e_mid, self.e_right
         a1 = (a / c) * (em - el)
         a2 = (em - el) - a1
-        a4 = (b / d) * (em - er)
+        a4 = (b / (L - c)) * (em - er)
         a3 = (em - er) - a4
         # epp of each segment from sag over its half-span (sag a_i over length):
         # piece 1 [0,a] concave down, piece 2 [a,c] concave up,
-- 
2.43.0


From 18910453ce67ee95adc13d044ac8d25f6b39e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 32/63] fix: anchorage actions of a tendon which stops short of
 the beam's end

---
 src/pycba/prestress.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 73c4b85..210b2af 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -347,10 +347,7 @@ def equivalent_loads(
         raise ValueError(f"expected {n} force values, got {len(F)}")
 
     LM: LoadMatrix = []
-    first_e: Optional[float] = None
-    first_F = 0.0
-    last_e: Optional[float] = None
-    last_F = 0.0
+    anchors = []  # (node, span, a, F, e, e'), F negative at a right-hand anchorage
 
     for i, prof in enumerate(profiles):
         if prof is None:
@@ -382,28 +379,24 @@ def equivalent_loads(
                     LM.append([span, 2, P, s.x1])
             prev_end_slope = s.slope_end()
 
-        # remember tendon eccentricity AND slope at the two ends of the beam
-        if first_e is None:
-            first_e, first_F = segs[0].e1, Fi
-            first_slope = segs[0].slope_start()
-        last_e, last_F = segs[-1].e2, Fi
-        last_slope = segs[-1].slope_end()
+        # a tendon is anchored where it starts and where it stops: remember its
+        # eccentricity AND slope there
+        if i == 0 or profiles[i - 1] is None:
+            anchors.append((i, span, 0.0, Fi, segs[0].e1, segs[0].slope_start()))
+        if i == n - 1 or profiles[i + 1] is None:
+            anchors.append((i + 1, span, Li, -Fi, segs[-1].e2, segs[-1].slope_end()))
 
     # Anchorage actions  M = F e (couple) and V = F e' (vertical).  At the left
     # end +F e; at the right end -F e, so the moment pair is self-equilibrating
     # (a constant eccentricity gives the correct uniform -F e).  The vertical
     # anchorage force is reacted directly by any support there, so it is applied
-    # only at a free tip (where it is not absorbed).
-    left_free = R[0] == 0 and R[1] == 0
-    right_free = R[2 * n] == 0 and R[2 * n + 1] == 0
-    if first_e is not None and abs(first_e) > _TOL:
-        LM.append([1, 4, first_F * first_e, 0.0])
-    if last_e is not None and abs(last_e) > _TOL:
-        LM.append([n, 4, -last_F * last_e, L[-1]])
-    if left_free and abs(first_slope) > _TOL:
-        LM.append([1, 2, first_F * first_slope, 0.0])
-    if right_free and abs(last_slope) > _TOL:
-        LM.append([n, 2, -last_F * last_slope, L[-1]])
+    # only where there is none (where it is not absorbed).
+    for node, span, a, Fa, e, slope in anchors:
+        if abs(e) > _TOL:
+            LM.append([span, 4, Fa * e, a])
+    for node, span, a, Fa, e, slope in anchors:
+        if R[2 * node] == 0 and abs(slope) > _TOL:
+            LM.append([span, 2, Fa * slope, a])
 
     return LM
 
-- 
2.43.0


From cf8f887eef5dda6f15035b378817c7ad44cab170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 33/63] fix: tendons over joints without a support

---
 src/pycba/prestress.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 210b2af..86fee2e 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -355,13 +355,7 @@ def equivalent_loads(
         span = i + 1
         Li, Fi = L[i], F[i]
         # a span with a free end node is a cantilever (tendon anchored at the tip)
-        if R[2 * i] == 0 and R[2 * i + 1] == 0:
-            cant = "left"
-        elif R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
-            cant = "right"
-        else:
-            cant = None
-        segs = prof.segments(Li, cant)
+        segs = prof.segments(Li, _cantilever_side(R, i, n))
         # distributed loads from curvature; point loads from interior kinks
         prev_end_slope = None
         for k, s in enumerate(segs):
@@ -379,6 +373,13 @@ def equivalent_loads(
                     LM.append([span, 2, P, s.x1])
             prev_end_slope = s.slope_end()
 
+        # a kink at a joint without a support is not reacted there
+        if i > 0 and profiles[i - 1] is not None and R[2 * i] == 0:
+            P = Fi * segs[0].slope_start() - F[i - 1] * joint_slope
+            if abs(P) > _TOL * max(abs(Fi), abs(F[i - 1])):
+                LM.append([span, 2, P, 0.0])
+        joint_slope = segs[-1].slope_end()
+
         # a tendon is anchored where it starts and where it stops: remember its
         # eccentricity AND slope there
         if i == 0 or profiles[i - 1] is None:
@@ -410,9 +411,10 @@ def _eval_e(segs: List[_Seg], x: float) -> float:
 
 
 def _cantilever_side(R, i, n):
-    if R[2 * i] == 0 and R[2 * i + 1] == 0:
+    """The free end of a span at the end of the beam, if it has one."""
+    if i == 0 and R[0] == 0 and R[1] == 0:
         return "left"
-    if R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
+    if i == n - 1 and R[2 * n] == 0 and R[2 * n + 1] == 0:
         return "right"
     return None
 
-- 
2.43.0


From 7e6b06815ccc8618245e2fbb98cda962644070eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 34/63] fix: a Beam given without element types had no members

---
 src/pycba/beam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 282c237..aec74d0 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -119,7 +119,9 @@ class Beam:
                 raise ValueError("supports requires L to set the node count.")
             R = supports_to_R(supports, n_nodes=len(L) + 1)
 
-        if L is not None and eletype is not None:
+        if L is not None:
+            if eletype is None:
+                eletype = [MemberType.FF] * len(L)  # fixed-fixed by default
             # Normalise GAv / kf to one entry per span (None => off).
             GAv_list = self._broadcast_GAv(GAv, len(L))
             kf_list = self._broadcast_kf(kf, len(L))
-- 
2.43.0


From c70bbd05bfe59244a63f19168a9b4c11542fed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 35/63] fix: spans beyond the element types given were silently
 left out

---
 src/pycba/analysis.py | 4 ++--
 src/pycba/beam.py     | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index 15314a2..b888022 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -170,8 +170,8 @@ class BeamAnalysis:
         ------
         ValueError
             If both ``R`` and ``supports`` (or neither) are given, ``R`` and
-            ``D`` have different lengths, or ``EI`` is not scalar and its length
-            differs from ``len(L)``.
+            ``D`` have different lengths, or the length of ``eletype``, or of an
+            ``EI`` which is not scalar, differs from ``len(L)``.
         """
         self.npts = 100
         # Optional per-member "shear point" sections (0-based member index ->
diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index aec74d0..ac33312 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -122,6 +122,8 @@ class Beam:
         if L is not None:
             if eletype is None:
                 eletype = [MemberType.FF] * len(L)  # fixed-fixed by default
+            if len(eletype) != len(L):
+                raise ValueError("Define an element type for each span")
             # Normalise GAv / kf to one entry per span (None => off).
             GAv_list = self._broadcast_GAv(GAv, len(L))
             kf_list = self._broadcast_kf(kf, len(L))
-- 
2.43.0


From f8c5636f31286befe0fc094e065a1f03459d87e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 36/63] fix: a beam string not ending in a terminal lost its
 end spans

---
 src/pycba/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/utils.py b/src/pycba/utils.py
index ebe3a53..58aac8d 100644
--- a/src/pycba/utils.py
+++ b/src/pycba/utils.py
@@ -210,7 +210,8 @@ def parse_beam_string(
         float(beam_string[spans_str[i] : spans_str[i + 1] - 1])
         for i in range(len(spans_str) - 1)
     ]
-    if len(terminals) - 1 != len(L):
+    outside = re.split(r"[efhpr]", beam_string)
+    if outside[0].strip() or outside[-1].strip():
         raise ValueError("Inconsistent terminal count and span count")
 
     EI = 30 * 1e10 * np.ones(len(L)) * 1e-6  # kNm2 - arbitrary value
-- 
2.43.0


From 74511c35c5417bbf9ec9a416fc9d2f453c6b0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 37/63] fix: a step at a support was smeared over the next
 span's first interval

---
 src/pycba/load_cases.py |  7 ++---
 src/pycba/results.py    | 60 ++++++++++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 0f3a1c8..6eade69 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -10,7 +10,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from .beam import Beam
 from .analysis import BeamAnalysis
-from .results import Envelopes, station_index
+from .results import Envelopes, interpolate_station
 from .load import LoadMatrix, factor_LM
 
 
@@ -1048,10 +1048,7 @@ def _response_at(x: np.ndarray, B: np.ndarray, x_target: float) -> np.ndarray:
             f"[{x.min()}, {x.max()}]."
         )
 
-    unique_index = station_index(x)
-    unique_x = x[unique_index]
-    unique_B = B[:, unique_index]
-    return np.array([np.interp(x_target, unique_x, row) for row in unique_B])
+    return interpolate_station(x_target, x, B)
 
 
 def _make_target_combination(
diff --git a/src/pycba/results.py b/src/pycba/results.py
index c502004..b94231a 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -28,23 +28,57 @@ def _shear_point_offset(L: float) -> float:
     return _SHEAR_POINT_REL_OFFSET * L
 
 
-def station_index(x: np.ndarray) -> np.ndarray:
+def station_index(x: np.ndarray, right: bool = False) -> np.ndarray:
     """
     Indices of the distinct evaluation stations in a beam station array.
 
     Each member's stations are padded with a duplicated end station at which the
     load effects are *closed* to the baseline, and adjacent members repeat the
     coordinate of their shared node (to within rounding).  One station is kept
-    per coordinate: the left-hand evaluation station, and the first evaluation
-    station (not the closure) at the left end of the beam.
+    per coordinate: the left-hand evaluation station (or the right-hand one, if
+    ``right``), and the evaluation station (not the closure) at either end of the
+    beam.
     """
     x = np.asarray(x, dtype=float)
     tol = 1e-12 * max(1.0, float(np.max(np.abs(x))))
     first = np.flatnonzero(np.concatenate([[True], np.diff(x) > tol]))
     last = np.concatenate([first[1:], [len(x)]]) - 1
+    if right:
+        return np.concatenate([last[:-1], first[-1:]])
     return np.concatenate([last[:1], first[1:]])
 
 
+def interpolate_station(x: float, stations: np.ndarray, values: np.ndarray):
+    """
+    Linear interpolation of a station array at the beam coordinate ``x``.
+
+    Between two stations the value is that of the member they belong to, so a
+    step at a shared node stays at that node; at the node itself the left-hand
+    value is returned.  Beyond the ends of the beam the end value is returned.
+
+    Parameters
+    ----------
+    x : float
+        Global coordinate measured from the left end of the beam.
+    stations : np.ndarray
+        The beam station array.
+    values : np.ndarray
+        The values at the stations, along the last axis.
+    """
+    stations = np.asarray(stations, dtype=float)
+    values = np.asarray(values)
+    left, right = station_index(stations), station_index(stations, right=True)
+    ux = stations[left]
+    tol = 1e-12 * max(1.0, float(np.max(np.abs(ux))))
+    # first station at or beyond x
+    k = min(int(np.searchsorted(ux, float(x) - tol)), len(ux) - 1)
+    if k == 0 or x >= ux[k] - tol:
+        return values[..., left[k]]
+    t = (x - ux[k - 1]) / (ux[k] - ux[k - 1])
+    v0, v1 = values[..., right[k - 1]], values[..., left[k]]
+    return v0 + t * (v1 - v0)
+
+
 class BeamResults:
     """
     BeamResults Class for processing and containing the results for each member
@@ -329,15 +363,13 @@ class BeamResults:
             Each requested attribute mapped to its interpolated value at ``x``.
             The station array repeats span-boundary coordinates, so it is
             de-duplicated first; at a step in the shear (a support or point
-            load) the left-hand value is returned.
+            load) the left-hand value is returned, and elsewhere that of the
+            span which ``x`` lies in.
         """
         res = self.results
-        uidx = station_index(res.x)
-        ux = res.x[uidx]
         out: Dict[str, float] = {}
         for a in attrs:
-            vals = np.asarray(getattr(res, a))
-            out[a] = float(np.interp(float(x), ux, vals[uidx]))
+            out[a] = float(interpolate_station(x, res.x, getattr(res, a)))
         return out
 
     def deflection_curve(self):
@@ -812,12 +844,6 @@ class Envelopes:
 
         return Envelopes.combine([self, other], mode="sum")
 
-    def _unique_x(self) -> Tuple[np.ndarray, np.ndarray]:
-        """Return the de-duplicated station coordinates and their indices."""
-
-        index = station_index(self.x)
-        return self.x[index], index
-
     def at(
         self,
         x: float,
@@ -828,7 +854,7 @@ class Envelopes:
 
         The station array ``self.x`` repeats span-boundary coordinates (each span
         contributes its own start and end), so this method de-duplicates the
-        stations with :func:`numpy.unique` before interpolating. It replaces the
+        stations before interpolating within a span. It replaces the
         manual ``idx = (np.abs(env.x - x)).argmin()`` lookup.
 
         Parameters
@@ -846,11 +872,9 @@ class Envelopes:
             at ``x``.
         """
 
-        unique_x, unique_index = self._unique_x()
         out: Dict[str, float] = {}
         for attr in attrs:
-            values = np.asarray(getattr(self, attr))
-            out[attr] = float(np.interp(float(x), unique_x, values[unique_index]))
+            out[attr] = float(interpolate_station(x, self.x, getattr(self, attr)))
         return out
 
     def to_dataframe(self, attrs: Tuple[str, ...] = ("Mmax", "Mmin", "Vmax", "Vmin")):
-- 
2.43.0


From f39fbbf5fd841d4437c69aa5ff8c9f1cf73f7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 38/63] fix: the end stations reported a rotation not divided
 by the rigidity

---
 src/pycba/foundation.py | 2 ++
 src/pycba/results.py    | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/pycba/foundation.py b/src/pycba/foundation.py
index 0730a3c..505cfe2 100644
--- a/src/pycba/foundation.py
+++ b/src/pycba/foundation.py
@@ -98,6 +98,8 @@ def _eb_member_values(L, EI, f, d, loads, npts) -> MemberResults:
     D = integrate.cumulative_trapezoid(psi, dx=dx, initial=0) + d[0]
     res.R[1:-1] = psi
     res.D[1:-1] = D
+    res.R[[0, -1]] = 0.0
+    res.D[[0, -1]] = 0.0
     return res
 
 
diff --git a/src/pycba/results.py b/src/pycba/results.py
index b94231a..e87ab4b 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -341,6 +341,9 @@ class BeamResults:
 
         res.R[1:-1] = psi
         res.D[1:-1] = D
+        # The padding closes these diagrams to the baseline too
+        res.R[[0, -1]] = 0.0
+        res.D[[0, -1]] = 0.0
 
         return res
 
-- 
2.43.0


From f36b584aca2d9b3e097f44c5200af0e65b704feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 39/63] fix: plotting a static vehicle left its axles on the
 bridge

---
 src/pycba/bridge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index dd676a5..0893eb3 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -850,7 +850,10 @@ class BridgeAnalysis:
         fig = None
         if own_fig:
             self._check_objects()
-            self._single_analysis(pos)
+            try:
+                self._single_analysis(pos)
+            finally:
+                self._restore_loads()
             fig, axs = plt.subplots(
                 3,
                 1,
-- 
2.43.0


From 2f4efe4ed04ad2032cbe5192e815358f1c9ddaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 40/63] fix: static_vehicle lost its shear points when asked to
 plot

---
 src/pycba/bridge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 0893eb3..fab5d29 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -256,10 +256,11 @@ class BridgeAnalysis:
             self.ba.shear_points = None
             self._restore_loads()
 
+        results = self.ba.beam_results
         if plotflag:
-            self.plot_static(pos)
+            self.plot_static(pos)  # analyses the position again, for itself
 
-        return self.ba.beam_results
+        return results
 
     def _restore_loads(self):
         """
-- 
2.43.0


From ad2870d2412dba1abdddf8738872debe98c0cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 41/63] fix: a partial UDL was drawn over the next span where
 it overhangs its own

---
 src/pycba/render.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index cefdece..a715586 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -241,9 +241,11 @@ class BeamPlotter:
             if isinstance(ld, LoadUDL):
                 dist.append(DistLoad(ld.i_span, off, off + span_len, ld.w, ld.w))
             elif isinstance(ld, LoadPUDL):
-                dist.append(
-                    DistLoad(ld.i_span, off + ld.a, off + ld.a + ld.c, ld.w, ld.w)
-                )
+                c = ld._cover(span_len)  # an overhang beyond the span carries none
+                if c > 0:
+                    dist.append(
+                        DistLoad(ld.i_span, off + ld.a, off + ld.a + c, ld.w, ld.w)
+                    )
             elif isinstance(ld, LoadTrapez):
                 w1, w2, _dw, a, c = ld._resolve(span_len)
                 if c > 0:
-- 
2.43.0


From bc49ea64711a0a150d3a7b1a7941fb8c817fe9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 42/63] fix: schematic dimensions were in metres whatever the
 unit system

---
 src/pycba/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index a715586..d8bed02 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -850,7 +850,7 @@ class BeamPlotter:
             ax.text(
                 0.5 * (x0 + x1),
                 yd - 0.15 * sh,
-                f"{x1 - x0:g} m",
+                self._us._val(f"{x1 - x0:g}", self._us.length),
                 ha="center",
                 va="top",
                 color="0.35",
@@ -873,7 +873,7 @@ class BeamPlotter:
         ax.text(
             0.5 * (x0 + x1),
             yd - 0.12 * sh,
-            f"{x1 - x0:g} m",
+            self._us._val(f"{x1 - x0:g}", self._us.length),
             ha="center",
             va="top",
             color="0.45",
-- 
2.43.0


From dfe22224b9316145315da40441e27cfd1f592424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 43/63] fix: TikZ schematics showed an uplift as a downward
 line load

---
 src/pycba/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index d8bed02..143eac9 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1108,10 +1108,12 @@ class BeamPlotter:
                 du = f" {self._us.distributed}" if self._us.distributed else ""
                 lu = f"~{self._us.length}" if self._us.length else ""
                 for k, d in enumerate(self.dist_loads):
+                    # the line load is always drawn downward, so an uplift is
+                    # told by the sign of its value
                     if abs(d.w0 - d.w1) < 1e-9:
-                        lbl = f"${abs(d.w0):g}${du}"
+                        lbl = f"${d.w0:g}${du}"
                     else:
-                        lbl = f"${abs(d.w0):g}\\rightarrow{abs(d.w1):g}${du}"
+                        lbl = f"${d.w0:g}\\rightarrow{d.w1:g}${du}"
                     out.append(
                         f"\\notation{{5}}{{dl{k}a}}{{dl{k}b}}[{lbl}][0.5][above=8mm];"
                     )
-- 
2.43.0


From 43d180c865fac12a130e1635b8bcfe4e1a617001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 44/63] fix: node labels ran past Z into control characters

---
 src/pycba/render.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 143eac9..8cba4fd 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -383,7 +383,7 @@ class BeamPlotter:
                 ax.text(
                     s.x + (0.8 * sh if right else -0.8 * sh),
                     -0.55 * sh,
-                    chr(ord("A") + s.node),
+                    self._node_letter(s.node),
                     ha="left" if right else "right",
                     va="center",
                     fontsize=9,
@@ -969,7 +969,7 @@ class BeamPlotter:
                     if s.at_right_end
                     else "below left=1mm and 4mm"
                 )
-                letter = chr(ord("A") + s.node)
+                letter = self._node_letter(s.node)
                 lines.append(
                     f"\t\\notation{{1}}{{{nodes[s.node]}}}{{${letter}$}}[{pos}];"
                 )
@@ -1035,6 +1035,11 @@ class BeamPlotter:
     def _node_name(i: int) -> str:
         return chr(ord("a") + i) if i < 26 else f"p{i}"
 
+    @staticmethod
+    def _node_letter(i: int) -> str:
+        letter = chr(ord("A") + i % 26)
+        return letter if i < 26 else BeamPlotter._node_letter(i // 26 - 1) + letter
+
     def _support_tikz(self, s: Support, nodes: List[str]) -> str:
         n = nodes[s.node]
         if s.kind == PIN:
-- 
2.43.0


From 6a58ea4a8bffa855c91e0540cb3dad3ab7257afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 45/63] fix: envelopes of a beam on springs only could not be
 plotted

---
 src/pycba/bridge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index fab5d29..5110ee0 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -1219,7 +1219,7 @@ class BridgeAnalysis:
         # Reactions may be force or moment; show both unit labels.
         react_u = f" ({us.force}/{us.moment})" if us.force and us.moment else ""
         # Check if consistent envelope
-        if len(self.pos) == env.Rmax.shape[1]:
+        if nreactions > 0 and len(self.pos) == env.Rmax.shape[1]:
             axsRight = np.atleast_1d(subfigs[1].subplots(nreactions, 1, sharex=True))
             pos = np.asarray(self.pos)
             for i, ax in enumerate(axsRight):
@@ -1302,9 +1302,9 @@ class BridgeAnalysis:
 
         us = resolve(units)
         # Set of keys we want to confirm are present
-        check_keys = set(
-            ["x", "Mmax", "Mmin", "Vmax", "Vmin", "nsup", "Rmax0", "Rmin0"]
-        )
+        check_keys = set(["x", "Mmax", "Mmin", "Vmax", "Vmin", "nsup"])
+        if env_ratios.get("nsup", 1) > 0:
+            check_keys |= {"Rmax0", "Rmin0"}
         if not check_keys.issubset(env_ratios.keys()):
             raise ValueError(
                 "Dictionary argument does not contain sufficient ratios information"
-- 
2.43.0


From 2aede7c0ae737627e8002e580f954e6f12e111cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 46/63] fix: loads of unknown type were silently ignored

---
 src/pycba/load.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/load.py b/src/pycba/load.py
index e44a4a2..f3fe4a2 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -1112,6 +1112,8 @@ def parse_LM(LM: LoadMatrix) -> List[Load]:
             # [k0, k1, k2, ...] in increasing powers of x.
             kappa = load[2:]
             loads.append(LoadIC(span, kappa))
+        else:
+            raise ValueError(f"Unknown load type {ltype!r} in the load matrix")
     return loads
 
 
-- 
2.43.0


From 8eea325b2882ef39154b36ef22354a17ee0e5ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 47/63] fix: loads on members which do not exist were silently
 ignored

---
 src/pycba/beam.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index ac33312..f3e5be0 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -340,6 +340,12 @@ class Beam:
 
         """
         self._loads = parse_LM(self.LM)
+        for load in self._loads:
+            if not 0 <= load.i_span < self.no_spans:
+                raise ValueError(
+                    f"Load on member {load.i_span + 1} of a beam of "
+                    f"{self.no_spans} members"
+                )
         # Imposed-curvature loads need the member rigidity to evaluate their
         # fixed-end forces; supply it from the span definition.
         for load in self._loads:
-- 
2.43.0


From 79c433ee9a7ffc6a309960a3d692f7a5719497c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 48/63] fix: loads placed outside their member gave reactions
 out of balance

---
 src/pycba/beam.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index f3e5be0..b138458 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -346,6 +346,18 @@ class Beam:
                     f"Load on member {load.i_span + 1} of a beam of "
                     f"{self.no_spans} members"
                 )
+            L = self.mbr_lengths[load.i_span]
+            a = getattr(load, "a", 0.0)
+            if not -1e-6 * L <= a <= (1 + 1e-6) * L:
+                raise ValueError(
+                    f"Load at {a} from the left of member {load.i_span + 1}, "
+                    f"which is {L} long"
+                )
+            c = getattr(load, "c", None)
+            if c is not None and not c >= 0.0:
+                raise ValueError(
+                    f"Load over a length of {c} on member {load.i_span + 1}"
+                )
         # Imposed-curvature loads need the member rigidity to evaluate their
         # fixed-end forces; supply it from the span definition.
         for load in self._loads:
-- 
2.43.0


From 285b1a8f4854b94854f667051f8902db056b139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 49/63] fix: the nonlinear analysis ignored the loads it does
 not support

---
 src/pycba/nonlinear.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 90e3c37..4e5bbac 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -739,6 +739,22 @@ class NonlinearBeamAnalysis:
             i_span = int(ld[0]) - 1
             lt = int(ld[1])
             val = float(ld[2])
+            if not 0 <= i_span < self.n_spans:
+                raise ValueError(
+                    f"Load on span {i_span + 1} of a beam of {self.n_spans} spans"
+                )
+            if lt not in (1, 2):
+                raise ValueError(
+                    "NonlinearBeamAnalysis supports UDL (type 1) and point load "
+                    f"(type 2) entries only, not type {lt}"
+                )
+            if lt == 2 and not (
+                -1e-6 <= float(ld[3]) / self.span_L[i_span] <= 1 + 1e-6
+            ):
+                raise ValueError(
+                    f"Point load at {ld[3]} from the left of span {i_span + 1}, "
+                    f"which is {self.span_L[i_span]} long"
+                )
             if lt == 1:  # UDL
                 xs, xe = span_starts[i_span], span_starts[i_span + 1]
                 for ie in range(self.n_elem):
-- 
2.43.0


From ad7f6b571c0de626c39685e995ab482127e4b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 50/63] fix: inconsistent spans, capacities and restraints of
 the nonlinear analysis were accepted

---
 src/pycba/nonlinear.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 4e5bbac..05ece8c 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -627,6 +627,18 @@ class NonlinearBeamAnalysis:
         self.span_Mp = _as(Mp, self.n_spans)
         self.span_My = (self.span_Mp / 1.15) if My is None else _as(My, self.n_spans)
 
+        for name, values, n in (
+            ("EI", self.span_EI, self.n_spans),
+            ("Mp", self.span_Mp, self.n_spans),
+            ("My", self.span_My, self.n_spans),
+            ("R", self.span_R, 2 * (self.n_spans + 1)),
+        ):
+            if len(values) != n:
+                raise ValueError(
+                    f"{name} has {len(values)} entries; {n} are needed for "
+                    f"{self.n_spans} spans"
+                )
+
         # Build mesh
         self.node_coords, self.elem_L, self.bc_dofs, self.node_to_span = _build_mesh(
             self.span_L, self.span_R, mesh_size
-- 
2.43.0


From 4c3966ddf9f54a93e9b5c9290023edb8d57ee42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 51/63] fix: the nonlinear analysis accepted structures which
 are mechanisms from the start

---
 src/pycba/nonlinear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 05ece8c..1f92ce5 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -39,6 +39,7 @@ import matplotlib.pyplot as plt
 from dataclasses import dataclass, field
 from typing import Optional, Union
 
+from .analysis import BeamAnalysis
 from .section import SectionEI
 
 
@@ -639,6 +640,12 @@ class NonlinearBeamAnalysis:
                     f"{self.n_spans} spans"
                 )
 
+        # A mechanism before any hinge has formed is no beam to analyse
+        if not BeamAnalysis(self.span_L, self.span_EI, self.span_R).is_stable():
+            raise ValueError(
+                "Structure is geometrically unstable: check the restraints"
+            )
+
         # Build mesh
         self.node_coords, self.elem_L, self.bc_dofs, self.node_to_span = _build_mesh(
             self.span_L, self.span_R, mesh_size
-- 
2.43.0


From a33ac6881eaa810e76fc52c933048e3359a49b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 52/63] fix: rounding in a pinned-pinned member could hide a
 mechanism

---
 src/pycba/beam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index b138458..cffbb90 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -1307,6 +1307,9 @@ class Beam:
         np.ndarray, shape (4, 4)
             Condensed stiffness with released rows/columns zeroed.
         """
+        if len(released) == 2:
+            return np.zeros((4, 4))  # pinned-pinned: only rounding would remain
+
         kept = [i for i in range(4) if i not in released]
         Kkk = k[np.ix_(kept, kept)]
         Krr = k[np.ix_(released, released)]
-- 
2.43.0


From a7ae16697b33e5cbbb8daf5c6bb632233a21483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 53/63] fix: loads on members which do not exist:
 influence-line steps past the end

---
 src/pycba/inf_lines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index da3568e..56d4f09 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -84,6 +84,7 @@ class InfluenceLines:
             ispan, pos_in_span = self.ba.beam.get_local_span_coords(pos)
             if ispan == -1:
                 load_val = 0.0
+                ispan, pos_in_span = 0, 0.0
             # assemble and set load matrix
             self.ba.set_loads([[ispan + 1, 2, load_val, pos_in_span, 0]])
             # analyze
-- 
2.43.0


From add3973ab33d7aba11ec60ba8bdb2679f85bf74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 54/63] fix: trapezoidal loads of negative length were accepted

---
 src/pycba/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index cffbb90..69b9e6e 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -353,7 +353,7 @@ class Beam:
                     f"Load at {a} from the left of member {load.i_span + 1}, "
                     f"which is {L} long"
                 )
-            c = getattr(load, "c", None)
+            c = getattr(load, "c", getattr(load, "_c", None))
             if c is not None and not c >= 0.0:
                 raise ValueError(
                     f"Load over a length of {c} on member {load.i_span + 1}"
-- 
2.43.0


From ad5ff39c547d3c0db5d5814f52fac6875cbf6e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 55/63] fix: an unknown load effect gave the influence line of
 the moment

---
 src/pycba/inf_lines.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index 56d4f09..5a39d41 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -191,10 +191,13 @@ class InfluenceLines:
             for i, res in enumerate(self.vResults):
                 eta[i] = res.R[mt_sup_idx]
 
-        else:
+        elif load_effect.upper() == "M":
             for i, res in enumerate(self.vResults):
                 eta[i] = res.vRes[ispan].M[idx_in_span]
 
+        else:
+            raise ValueError(f"Unknown load effect {load_effect!r}: use V, M, R or MR")
+
         return (np.array(self.pos), eta)
 
     def plot_il(
-- 
2.43.0


From 5fdf03c3ceeb7cd753415a0e524c85feba105e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 56/63] fix: influence lines at points off the beam were those
 of its last span

---
 src/pycba/inf_lines.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index 5a39d41..56d2f16 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -141,7 +141,12 @@ class InfluenceLines:
         # forced to zero, so we must avoid them.
         ispan, _ = self.ba.beam.get_local_span_coords(poi)
         if ispan == -1:
-            ispan = self.ba.beam.no_spans - 1
+            if load_effect.upper() in ("V", "M") and not (
+                np.isclose(poi, 0.0, atol=1e-9 * self.L)
+                or np.isclose(poi, self.L, rtol=1e-9)
+            ):
+                raise ValueError(f"The point of interest {poi} is not on the beam")
+            ispan = 0 if poi < 0.0 else self.ba.beam.no_spans - 1
         span_x = self.vResults[0].vRes[ispan].x
         # Skip padding at indices 0 and -1; real data is at 1:-1
         idx_in_span = np.abs(span_x[1:-1] - poi).argmin() + 1
-- 
2.43.0


From 7f68266f9af01de397089db15e0b864991a21f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 57/63] fix: a polynomial rigidity could be negative between
 its samples

---
 src/pycba/section.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pycba/section.py b/src/pycba/section.py
index c2839b1..f5d2714 100644
--- a/src/pycba/section.py
+++ b/src/pycba/section.py
@@ -249,6 +249,7 @@ class SectionEI:
                 ys = np.asarray(ei(xs), dtype=float).ravel()
                 self._check_positive(ys)
                 coeffs = np.polyfit(xs, ys, deg)
+                self._check_positive_poly(coeffs, x0, x1)
                 new_pieces.append(_Piece(x0, x1, coeffs, degree=deg))
             else:
                 ei_arr = np.asarray(ei, dtype=float).ravel()
@@ -260,6 +261,7 @@ class SectionEI:
                 self._check_positive(ei_arr)
                 deg = (len(x) - 1) if degree is None else int(degree)
                 coeffs = np.polyfit(x, ei_arr, deg)
+                self._check_positive_poly(coeffs, x0, x1)
                 new_pieces.append(_Piece(x0, x1, coeffs, degree=deg))
 
         # Commit.  The first segment fixes the section start coordinate; every
@@ -287,6 +289,14 @@ class SectionEI:
         if np.any(np.asarray(values, dtype=float) <= 0.0):
             raise ValueError("EI values must be strictly positive")
 
+    @staticmethod
+    def _check_positive_poly(coeffs, x0: float, x1: float) -> None:
+        """A fitted polynomial may dip below zero between its samples."""
+        turns = np.roots(np.polyder(coeffs)) if len(coeffs) > 2 else np.array([])
+        turns = np.real(turns[np.abs(np.imag(turns)) < 1e-9 * (x1 - x0)])
+        xs = np.concatenate(([x0, x1], turns[(turns > x0) & (turns < x1)]))
+        SectionEI._check_positive(np.polyval(coeffs, xs))
+
     # ------------------------------------------------------------------
     #  Geometry / query
     # ------------------------------------------------------------------
-- 
2.43.0


From e60127017d8bc879d4d302ff888f157e16ba2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 58/63] fix: an envelope of merged traverses is drawn with its
 reaction extremes, not with the dropped histories

---
 src/pycba/bridge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 5110ee0..3f12ff1 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -1218,8 +1218,9 @@ class BridgeAnalysis:
 
         # Reactions may be force or moment; show both unit labels.
         react_u = f" ({us.force}/{us.moment})" if us.force and us.moment else ""
-        # Check if consistent envelope
-        if nreactions > 0 and len(self.pos) == env.Rmax.shape[1]:
+        # Check if consistent envelope which has kept its reaction histories
+        has_history = len(self.pos) == env.Rmax.shape[1] and not env._history_dropped
+        if nreactions > 0 and has_history:
             axsRight = np.atleast_1d(subfigs[1].subplots(nreactions, 1, sharex=True))
             pos = np.asarray(self.pos)
             for i, ax in enumerate(axsRight):
-- 
2.43.0


From a2ebd02ae14365cff0e46d3716fac1a3d2acbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:27 +0000
Subject: [PATCH 59/63] fix: a collapse mechanism is recognised whatever the
 unit of length

The rank of the released stiffness was taken with translations and rotations
in their own units; with lengths of the order of 1e6 the translations are
lost and collapse is declared at the first plastic hinge.
---
 src/pycba/nonlinear.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 1f92ce5..5e618b4 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -948,7 +948,11 @@ class NonlinearBeamAnalysis:
         for j in reps:
             K_test[2 * j + 1, 2 * j + 1] += np.max(np.abs(np.diag(K_test)))
         free = np.setdiff1d(np.arange(self.n_dof), self.bc_dofs)
-        return np.linalg.matrix_rank(K_test[np.ix_(free, free)]) < len(free)
+        K_test = K_test[np.ix_(free, free)]
+        # (translations and rotations to one scale, whatever the units of length)
+        d = np.sqrt(np.abs(np.diag(K_test)))
+        d[d == 0.0] = 1.0
+        return np.linalg.matrix_rank(K_test / np.outer(d, d)) < len(free)
 
     # ---- Static incremental analysis ----
 
-- 
2.43.0


From 6c8c5f031b18732a34a66e176dc60aec861feba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:46 +0000
Subject: [PATCH 60/63] fix: critical values report the sections of their own
 traverse

A single static position replaced the shear sections of the last traverse,
so that critical_values() then reported none, or other sections read from an
envelope which has no stations there.  An envelope sampled at other stations
than the current analysis is now refused, as documented.
---
 src/pycba/bridge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 3f12ff1..d880c09 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -246,6 +246,7 @@ class BridgeAnalysis:
             The `pycba.Beamresults` object containing the analysis results.
         """
         self._check_objects()
+        traverse_sections = self.shear_points_x  # those critical_values reports
         self._apply_shear_points(shear_points, dv)
 
         try:
@@ -254,6 +255,7 @@ class BridgeAnalysis:
                 raise ValueError("Bridge analysis did not succeed")
         finally:
             self.ba.shear_points = None
+            self.shear_points_x = traverse_sections
             self._restore_loads()
 
         results = self.ba.beam_results
@@ -666,8 +668,10 @@ class BridgeAnalysis:
             if np.isclose(res.results.V.min(), Vmin)
         ]
 
-        # Now check for any errors
-        if [] in indx.values():
+        # Now check for any errors (an analysis with other sections has other stations)
+        if [] in indx.values() or not np.array_equal(
+            env.x, self.vResults[0].results.x
+        ):
             raise ValueError("Envelope not from the current bridge analysis")
 
         # Good to proceed
-- 
2.43.0


From 2eb9e41971a7598fb49a2230cccd5b99cbbb3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:10 +0000
Subject: [PATCH 61/63] fix: NumPy scalars are taken as scalar member
 properties

A NumPy integer (or float32) EI, GAv, kf, Mp or mass was taken for one
entry per span and refused.
---
 src/pycba/beam.py      | 7 ++++---
 src/pycba/modal.py     | 5 +++--
 src/pycba/nonlinear.py | 3 ++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 69b9e6e..7226b99 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -1,6 +1,7 @@
 """
 PyCBA - Beam Class definition
 """
+from numbers import Real
 from typing import Optional, Sequence, Union
 import numpy as np
 from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC, LoadML
@@ -129,7 +130,7 @@ class Beam:
             kf_list = self._broadcast_kf(kf, len(L))
             # A single rigidity (scalar EI, or one SectionEI) applies to all
             # spans; otherwise one rigidity per span is required.
-            if isinstance(EI, (float, int, SectionEI)):
+            if isinstance(EI, (Real, SectionEI)):
                 for l, et, gav, k in zip(L, eletype, GAv_list, kf_list):
                     self.add_span(l, EI, et, gav, k)
             else:
@@ -167,7 +168,7 @@ class Beam:
         """
         if GAv is None:
             return [None] * n_spans
-        if isinstance(GAv, (float, int, SectionEI)):
+        if isinstance(GAv, (Real, SectionEI)):
             return [GAv] * n_spans
         GAv = list(GAv)
         if len(GAv) != n_spans:
@@ -185,7 +186,7 @@ class Beam:
         """
         if kf is None:
             return [None] * n_spans
-        if isinstance(kf, (float, int)):
+        if isinstance(kf, Real):
             return [kf] * n_spans
         kf = list(kf)
         if len(kf) != n_spans:
diff --git a/src/pycba/modal.py b/src/pycba/modal.py
index 0a733f3..33fd4f4 100644
--- a/src/pycba/modal.py
+++ b/src/pycba/modal.py
@@ -18,6 +18,7 @@ length.
 """
 
 from __future__ import annotations
+from numbers import Integral, Real
 from typing import Optional, Union, Sequence
 import numpy as np
 from scipy.linalg import eigh
@@ -120,7 +121,7 @@ class ModalResults:
         from .units import resolve
 
         us = resolve(units)
-        if isinstance(modes, int):
+        if isinstance(modes, Integral):
             modes = [modes]
         if ax is None:
             _, ax = plt.subplots(figsize=(9, 3.2))
@@ -193,7 +194,7 @@ class ModalResults:
 
 def _broadcast_mass(mass, n_spans: int) -> list:
     """Normalise the mass-per-length argument to one entry per span."""
-    if isinstance(mass, (float, int)):
+    if isinstance(mass, Real):
         return [float(mass)] * n_spans
     mass = list(mass)
     if len(mass) != n_spans:
diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 5e618b4..89552c2 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -37,6 +37,7 @@ from __future__ import annotations
 import numpy as np
 import matplotlib.pyplot as plt
 from dataclasses import dataclass, field
+from numbers import Real
 from typing import Optional, Union
 
 from .analysis import BeamAnalysis
@@ -621,7 +622,7 @@ class NonlinearBeamAnalysis:
 
         _as = (
             lambda v, n: np.full(n, float(v))
-            if isinstance(v, (int, float))
+            if isinstance(v, Real)
             else np.atleast_1d(np.asarray(v, dtype=float))
         )
         self.span_EI = _as(EI, self.n_spans)
-- 
2.43.0


From 8d124a2185614da5d494eda12f8f769c638866fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:27 +0000
Subject: [PATCH 62/63] fix: a point load at the end of the beam, to rounding,
 is not dropped

The nonlinear analysis accepts a position a rounding error beyond the
span but then left a load just off either end of the beam out of the
force vector.
---
 src/pycba/nonlinear.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 89552c2..95594b4 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -787,7 +787,10 @@ class NonlinearBeamAnalysis:
                     F[2 * ie] -= val * h / 2
                     F[2 * (ie + 1)] -= val * h / 2
             elif lt == 2:  # Point load
-                self._add_point_load(F, val, span_starts[i_span] + float(ld[3]))
+                # (one at the end of the beam, to rounding, is still on it)
+                x = span_starts[i_span] + float(ld[3])
+                x = min(max(x, 0.0), self.total_length)
+                self._add_point_load(F, val, x)
         return F
 
     def _add_point_load(self, F: np.ndarray, P: float, x: float):
-- 
2.43.0


From 944ee022a3fef0fa0020503a2ea6a4da141a7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:36 +0000
Subject: [PATCH 63/63] fix: a moving load at the end of the beam, to rounding,
 is not dropped

---
 src/pycba/nonlinear.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 95594b4..c5b0301 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -1075,10 +1075,12 @@ class NonlinearBeamAnalysis:
         pos : global coordinate of the first (leading) axle.
         """
         F = np.zeros(self.n_dof)
+        tol = 1e-9 * self.total_length
         for w, ac in zip(axle_weights, axle_coords):
             x = pos - ac  # axle_coords[0]=0, subsequent trail behind
-            if 0 <= x <= self.total_length:
-                self._add_point_load(F, w, x)
+            if -tol <= x <= self.total_length + tol:
+                # (an axle at an end of the beam, to rounding, is on it)
+                self._add_point_load(F, w, min(max(x, 0.0), self.total_length))
         return F
 
     # ---- Moving load analysis ----
-- 
2.43.0

