From 73daa5eda060d56d29e865211e320194b68c5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 01/30] fix: let scalar valued user termination events be used
 with one state methods

The Thwaites separation event returned a one element array, so solve_ivp
failed as soon as a user event that returns a float was added.
---
 ibl/ibl_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4033a83..2acb896 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -194,7 +194,8 @@ class TermEvent(ABC):
         float
             Value that is zero when the solver should stop.
         """
-        return self._call_impl(x, np.asarray(f))
+        # solve_ivp needs a scalar even when built from one element arrays
+        return float(np.asarray(self._call_impl(x, np.asarray(f))).item())
 
     @abstractmethod
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 01ace3c974091d4893935cbbefeaab0c1fb1b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 02/30] fix: do not keep user termination events after the
 solve they were given to

solve() appended them to the list that the method itself owns.
---
 ibl/ibl_method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 2acb896..adc4575 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -556,8 +556,8 @@ class IBLMethod(ABC):
         else:
             atol = atol_set
 
-        # setup the ODE solver
-        kill_events = self._kill_events
+        # setup the ODE solver, user events only apply to this solution
+        kill_events = list(self._kill_events)
 
         if isinstance(term_event, list):
             kill_events += term_event
-- 
2.43.0


From 92161066234619e127d0555eed79edb4f9a0d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 03/30] fix: report the terminal event as the reason for ending
 the integration

A non-terminal event that had also occurred was reported instead when it
was earlier in the list.
---
 ibl/ibl_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index adc4575..7375303 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -586,7 +586,8 @@ class IBLMethod(ABC):
             elif rtn.status == 1:
                 message = "Event not found."
                 for i, xe in enumerate(rtn.t_events):
-                    if xe.shape[0] > 0:
+                    # non-terminal events might have also occurred
+                    if kill_events[i].terminal and xe.shape[0] > 0:
                         x_end = xe[0]
                         f_end = rtn.sol(x_end)
                         status, message = kill_events[i].event_info()
-- 
2.43.0


From 06a485c7f0ca136cfeb5745194d35e7554d33f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 04/30] fix: clamp both ends of the data fit range when lambda
 spans both

---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index ce12a2b..2b6515b 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -544,7 +544,7 @@ class _ThwaitesFunctions:
             lam_local[lam_local < lam_min] = lam_min
 #            raise ValueError("Cannot pass value less than {} into this "
 #                             "function: {}".format(lam_min, lam))
-        elif (lam_local > lam_max).any():
+        if (lam_local > lam_max).any():
             lam_local[lam_local > lam_max] = lam_max
 #            raise ValueError("Cannot pass value greater than {} into this "
 #                             "function: {}".format(lam_max, lam))
-- 
2.43.0


From b3bc12d17760355dbe88cad57ab1eed8bf77eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 05/30] fix: reject second derivative of edge velocity that is
 not callable

---
 ibl/ibl_method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 7375303..1d4b361 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -464,9 +464,9 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(du_e):
+                    if not callable(d2u_e):
                         raise ValueError("Must pass in callable object for "
-                                         "first derivative if callable u_e "
+                                         "second derivative if callable u_e "
                                          "given")
 
                     self._d2u_e = d2u_e
-- 
2.43.0


From 3320ba40aa800752478fad3c1d4cd29f3b1d8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 06/30] fix: raise ValueError for edge velocities that cannot
 be used

A scalar edge velocity without a usable derivative raised TypeError, as did
NumPy scalars that do not derive from float.
---
 ibl/ibl_method.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 1d4b361..4f1844e 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -470,9 +470,9 @@ class IBLMethod(ABC):
                                          "given")
 
                     self._d2u_e = d2u_e
-        elif isinstance(u_e, (int, float)):
+        elif isinstance(u_e, (int, float, np.integer, np.floating)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-            if len(du_e) == 2:
+            if hasattr(du_e, "__len__") and len(du_e) == 2:
                 x_pts = np.asarray(du_e[0])
                 du_e_pts = np.asarray(du_e[1])
                 pchip = PchipInterpolator(x_pts, du_e_pts)
@@ -487,7 +487,7 @@ class IBLMethod(ABC):
                                  + "initialize velocity derivative")
         else:
             # if is 2-tuple then assume x, U_e pairs to build spline
-            if len(u_e) == 2:
+            if hasattr(u_e, "__len__") and len(u_e) == 2:
                 x_pts = np.asarray(u_e[0])
                 u_e_pts = np.asarray(u_e[1])
                 npts = x_pts.shape[0]
-- 
2.43.0


From 69198ff39f2b4b42b2e91f2ab1727291c194f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 07/30] fix: find where Thwaites' method separates for all data
 fits

The shear function is clamped to the range of the data fit, so it never
changed sign for the Spline, White, and Drela fits. Separation was reported
at the end of whichever step went past it, or not at all for Drela. Flow that
has separated at the start is now reported there for every fit.
---
 ibl/ibl_method.py      |  6 ++++++
 ibl/thwaites_method.py | 22 +++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4f1844e..2d1c134 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -171,8 +171,12 @@ class TermEvent(ABC):
     ----------
     terminal : bool
         True if event should terminate integration
+    x_start : float | None
+        Location that the current integration started from
     """
 
+    x_start: Optional[float] = None
+
     def __init__(self) -> None:
         # This is needed by ivp_solver to know that the event means that the
         # integration should terminate
@@ -563,6 +567,8 @@ class IBLMethod(ABC):
             kill_events += term_event
         elif term_event is not None:
             kill_events.append(term_event)
+        for event in kill_events:
+            event.x_start = x0
 
         rtn = solve_ivp(fun=self._ode_impl, t_span=[x0, x_end], y0=y0,
                         method="RK45", dense_output=True, events=kill_events,
diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 2b6515b..0848804 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -159,7 +159,8 @@ class ThwaitesMethod(IBLMethod):
                 raise ValueError("Need to pass a 2-tuple for fit functions")
 
         self._set_kill_event(_ThwaitesSeparationEvent(self._calc_lambda,
-                                                      self._model.shear))
+                                                      self._model.shear,
+                                                      self._model.range()[0]))
 
     @override
     def v_e(self, x: InputParam) -> npt.NDArray:
@@ -707,17 +708,22 @@ class _ThwaitesSeparationEvent(TermEvent):
     # ----------
     #    _calc_lam: Callable that can calculate lambda.
     #    _S_fun: Callable that can calculate the shear function.
-    def __init__(self, calc_lam: Callable, shear_fun: Callable) -> None:
+    #    _lam_min: Smallest lambda that the shear function is fit to.
+    def __init__(self, calc_lam: Callable, shear_fun: Callable,
+                 lam_min: float) -> None:
         super().__init__()
         self._calc_lam = calc_lam
         self._shear_fun = shear_fun
+        self._lam_min = lam_min
 
     @override
     def _call_impl(self, x: float, f: npt.NDArray) -> float:
         """
         Help determine if Thwaites method integrator should terminate.
 
-        This will terminate once the shear function goes negative.
+        This will terminate once the shear function goes negative or lambda
+        goes below the range of the data fit. The shear function is constant
+        below that range, so on its own it would not change sign there.
 
         Parameters
         ----------
@@ -730,9 +736,15 @@ class _ThwaitesSeparationEvent(TermEvent):
         Returns
         -------
         float
-            Current value of the shear function.
+            Current value of the shear function, or how far lambda is into the
+            range of the data fit when that is smaller.
         """
-        return self._shear_fun(self._calc_lam(x, f))
+        lam = self._calc_lam(x, f)
+        margin = np.minimum(self._shear_fun(lam), lam - self._lam_min)
+        if x == self.x_start:
+            # already separated flow does not have a sign change to be found
+            margin = np.maximum(margin, 0)
+        return margin
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 1b77b49151b905635dbb0b0905be3d52e2fb776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 08/30] fix: report flow separated at start of Head's method as
 separated there

It was reported where the displacement shape factor came back down to the
critical value, or not at all.
---
 ibl/head_method.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index ea12662..0b3e61c 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -470,7 +470,11 @@ class _HeadSeparationEvent(TermEvent):
             Current value of the difference between the critical displacement
             shape factor and the current displacement shape factor.
         """
-        return self._shape_d_crit - f[1]
+        margin = self._shape_d_crit - f[1]
+        if x == self.x_start:
+            # already separated flow does not have a sign change to be found
+            margin = max(margin, 0)
+        return margin
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 82728d17272418d10cb89349abd6f4f02830850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 09/30] fix: leave edge velocity values untouched in Head's
 method

Values from user's edge velocity function were clamped in place, and scalar
locations could not be used in tau_w.
---
 ibl/head_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 0b3e61c..d290713 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -219,7 +219,7 @@ class HeadMethod(IBLMethod):
 
         delta_m = self._solution(x)[0]
         shape_d = self._solution(x)[1]
-        u_e = self.u_e(x)
+        u_e = np.array(self.u_e(x), dtype=float)
         u_e[np.abs(u_e) < 0.001] = 0.001
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
@@ -286,6 +286,7 @@ class HeadMethod(IBLMethod):
         if isinstance(u_e, float):
             u_e = max(u_e, 0.001)
         else:
+            u_e = np.array(u_e, dtype=float)
             u_e[np.abs(u_e) < 0.001] = 0.001
         du_e = self.du_e(x)
         re_delta_m = u_e*delta_m/self._nu
-- 
2.43.0


From 604df9cfbcbc2f0f3a0f667c3c15ac5d76935e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 10/30] fix: read XFoil dump that has a station at the
 stagnation point

The same station was shared between the upper and lower surfaces, so its arc
length was offset twice.
---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 2d8eb60..bc75fc8 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -200,7 +200,7 @@ class XFoilReader:
         # find stagnation point
         if self._upper[0].u_e_rel == 0:
             stag_s = self._upper[0].s
-            self._lower.insert(0, self._upper[0])
+            self._lower.insert(0, copy.copy(self._upper[0]))
         else:
             # interpolate properties
             up = self._upper[0]
-- 
2.43.0


From 0de466c36faf57d26a5ffd1ec1741d7056679388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 11/30] fix: set filename of XFoil reader once file has been
 read

---
 ibl/reference/_xfoil_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index bc75fc8..5d7089c 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -226,6 +226,8 @@ class XFoilReader:
             for w in self._wake:
                 w.s -= s_offset
 
+        self._filename = filename
+
     def upper_count(self) -> int:
         """
         Return number of points on the upper surface of airofil.
-- 
2.43.0


From 0ba08a9031001ece11cb015a324f3af2b80ada7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 12/30] fix: raise ValueError for Stanford Olympics case
 without data

It raised IndexError, and the previous case number was kept.
---
 ibl/reference/_stanford_1968.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 8655e50..4e425e0 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -109,15 +109,17 @@ class StanfordOlympics1968:
             When case file to be read contains invalid data.
         """
         # reset everything
+        self._case = ""
         self._nu_ref = np.inf
         self._smooth_vel = None
         self._station = []
 
         if case == "":
-            self._case = ""
             return
 
         case_data = self._get_case_data(case_id=case)
+        if not case_data:
+            raise ValueError(f"No data available for case {case}")
 
         # extract case info
         case_parts = [x.rstrip().lstrip() for x in case_data[0][0].split("=")]
-- 
2.43.0


From 6a836e979d17af8333bee0794bdc83abd04755f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 13/30] fix: find Falkner-Skan solution where the search
 diverged or was mirrored

For wedge angle parameters between about -0.063 and -0.045 the secant search
went to a negative maximum similarity coordinate and either converged to the
mirrored solution (negative thicknesses) or did not converge, and right above
-0.0634 it went to coordinates in the hundreds. The search now fails when it
leaves the range of sensible coordinates and is tried again from another
starting point. Searches that stayed in range give the same results.
---
 ibl/analytic/_analytic_2d_base.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 8fe4579..b761051 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -462,7 +462,16 @@ class Analytic2dSimilarityIncompressible(ABC):
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
-        self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
+        # the search for the parameters can diverge from some starting points
+        eta_inf_guesses = [1.0, 2.0]
+        while True:
+            try:
+                self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf,
+                                         eta_inf_guess=eta_inf_guesses.pop(0))
+                break
+            except ValueError:
+                if not eta_inf_guesses:
+                    raise
 
         # calculate the invariant thickness now that have solution
         self._eta_d = float(self.eta_inf-self.f(self.eta_inf))
@@ -484,7 +493,8 @@ class Analytic2dSimilarityIncompressible(ABC):
         self._eta_s = sol.root
 
     def _calculate_solution(self, fw_pp: Optional[float],
-                            eta_inf: Optional[float]) -> None:
+                            eta_inf: Optional[float],
+                            eta_inf_guess: float = 1.0) -> None:
         """
         Set the initial condition for the ODE being solved.
 
@@ -498,6 +508,8 @@ class Analytic2dSimilarityIncompressible(ABC):
             Second derivative condition for the ODE.
         eta_inf : float | None
             Maximum similarity coordinate.
+        eta_inf_guess : float
+            Where to start looking for the maximum similarity coordinate.
 
         Raises
         ------
@@ -512,7 +524,7 @@ class Analytic2dSimilarityIncompressible(ABC):
         if (eta_inf is None) or (fw_pp is None):
             # setup eta_inf solution process
             if eta_inf is None:
-                eta_inf_prev = 1.0
+                eta_inf_prev = eta_inf_guess
             else:
                 eta_inf_prev = eta_inf
 
@@ -524,6 +536,7 @@ class Analytic2dSimilarityIncompressible(ABC):
 
             j_max = 100
             i_max = 100
+            eta_inf_max = 20.0  # well beyond any attached solution
             eta_inf_tol = 1e-8
             fw_pp_tol = 1e-8
 
@@ -626,7 +639,14 @@ class Analytic2dSimilarityIncompressible(ABC):
                     f2_prev = f2_curr
                     eta_inf_prev = eta_inf_curr
                     eta_inf_curr = eta_inf_prev + delta_eta_inf
+                    if not 0 < eta_inf_curr < eta_inf_max:
+                        raise ValueError("Search for maximum similarity "
+                                         + "coordinate diverged: "
+                                         + f"{eta_inf_curr}")
                 j = j + 1
+            if fw_pp_curr <= 0:
+                raise ValueError("Search for solution initial condition "
+                                 + f"diverged: {fw_pp_curr}")
         else:
             eta_inf_curr = eta_inf
             fw_pp_curr = fw_pp
-- 
2.43.0


From c9fe5349afa9206486ddd9fa6ed4162d14d76a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 14/30] fix: keep previous edge velocity when new one is
 rejected

The edge velocity was replaced before its derivatives were checked, so the
velocity and derivatives no longer belonged together after the ValueError.
---
 ibl/ibl_method.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 2d1c134..22b685c 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -421,14 +421,21 @@ class IBLMethod(ABC):
 
         # check if U_e is callable
         if callable(u_e):
+            # check everything before changing anything
+            if du_e is None and d2u_e is not None:
+                raise ValueError("Can only pass second derivative if "
+                                 + "first derivative was specified")
+            if du_e is not None and not callable(du_e):
+                raise ValueError("Must pass in callable object for first "
+                                 "derivative if callable u_e given")
+            if d2u_e is not None and not callable(d2u_e):
+                raise ValueError("Must pass in callable object for second "
+                                 "derivative if callable u_e given")
+
             self._u_e = u_e
 
             # if dU_edx not provided then use finite differences
             if du_e is None:
-                if d2u_e is not None:
-                    raise ValueError("Can only pass second derivative if "
-                                     + "first derivative was specified")
-
                 # if U_e has derivative method then use it
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
@@ -449,9 +456,6 @@ class IBLMethod(ABC):
                     self._du_e = du_e_fun
                     self._d2u_e = d2u_e_fun
             else:
-                if not callable(du_e):
-                    raise ValueError("Must pass in callable object for first "
-                                     "derivative if callable u_e given")
                 self._du_e = du_e
 
                 # if d2U_edx2 not provied then use finite difference
@@ -468,11 +472,6 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(d2u_e):
-                        raise ValueError("Must pass in callable object for "
-                                         "second derivative if callable u_e "
-                                         "given")
-
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float, np.integer, np.floating)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-- 
2.43.0


From 5be5971c9f5863d8a63d533977ec3e335ee7a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 15/30] fix: refuse edge velocity pairs that are not vectors
 with ValueError

---
 ibl/ibl_method.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 22b685c..20aa7ae 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -478,6 +478,14 @@ class IBLMethod(ABC):
             if hasattr(du_e, "__len__") and len(du_e) == 2:
                 x_pts = np.asarray(du_e[0])
                 du_e_pts = np.asarray(du_e[1])
+                # check to make sure have two vectors suitable for building
+                #   splines
+                if x_pts.ndim != 1:
+                    raise ValueError("First element of du_e 2-tuple must be "
+                                     + "1D vector of distances")
+                if du_e_pts.ndim != 1:
+                    raise ValueError("Second element of du_e 2-tuple must be "
+                                     + "1D vector of velocity derivatives")
                 pchip = PchipInterpolator(x_pts, du_e_pts)
                 self._du_e = pchip
                 pchipa = pchip.antiderivative()
@@ -493,7 +501,6 @@ class IBLMethod(ABC):
             if hasattr(u_e, "__len__") and len(u_e) == 2:
                 x_pts = np.asarray(u_e[0])
                 u_e_pts = np.asarray(u_e[1])
-                npts = x_pts.shape[0]
                 # check to make sure have two vectors of same length suitable
                 #   for building splines
                 if x_pts.ndim != 1:
@@ -502,6 +509,7 @@ class IBLMethod(ABC):
                 if u_e_pts.ndim != 1:
                     raise ValueError("Second element of u_e 2-tuple must be "
                                      + "1D vector of Velocities")
+                npts = x_pts.shape[0]
                 if npts != u_e_pts.shape[0]:
                     raise ValueError("Vectors in u_e 2-tuple must be of same "
                                      + "length")
-- 
2.43.0


From a4793b93199a95d7a8b66b66757d22f355370888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:40 +0000
Subject: [PATCH 16/30] fix: evaluate data fits of Thwaites' method at integer
 lambda

---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 0848804..8ba62e2 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -539,7 +539,7 @@ class _ThwaitesFunctions:
 
     def _check_range(self, lam: InputParam) -> InputParam:
         lam_min, lam_max = self.range()
-        lam_local = np.array(lam)
+        lam_local = np.array(lam, dtype=float)
 
         if (lam_local < lam_min).any():
             lam_local[lam_local < lam_min] = lam_min
-- 
2.43.0


From f43b07288b40db1ee6524e2480771782dac20cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 17/30] fix: keep similarity solution when new parameters are
 refused

Parameters that were refused, or for which there is no solution, left the
wedge parameter or part of the thicknesses of the new case behind.
---
 ibl/analytic/_analytic_2d_base.py | 28 ++++++++++++++++++++++++++++
 ibl/analytic/_falkner_skan.py     |  7 ++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index b761051..02d7744 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -462,6 +462,34 @@ class Analytic2dSimilarityIncompressible(ABC):
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
+        # leave the present solution in place if a new one cannot be found
+        previous = (self._f, self._eta_inf, self._eta_d, self._eta_m,
+                    self._eta_k, self._eta_s)
+        try:
+            self._find_solution(eta_inf=eta_inf, fw_pp=fw_pp)
+        except ValueError:
+            (self._f, self._eta_inf, self._eta_d, self._eta_m, self._eta_k,
+             self._eta_s) = previous
+            raise
+
+    def _find_solution(self, eta_inf: Optional[float],
+                       fw_pp: Optional[float]) -> None:
+        """
+        Find the solution and the terms calculated from it.
+
+        Parameters
+        ----------
+        eta_inf : Optional[float]
+            Maximum similarity coordinate or None if it is to be solved for.
+        fw_pp : Optional[float]
+            Initial condition used for ODE solution or None if it is to be
+            solved for.
+
+        Raises
+        ------
+        ValueError
+            If solution could not be found.
+        """
         # the search for the parameters can diverge from some starting points
         eta_inf_guesses = [1.0, 2.0]
         while True:
diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 071b198..85e0d08 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -91,9 +91,14 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         if (beta < -0.19884) or (beta > 2):
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
+        beta_prev = self._beta
         self._beta = beta
 
-        self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        try:
+            self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        except ValueError:
+            self._beta = beta_prev
+            raise
 
     def reset_m(self, m: float, eta_inf: Optional[float] = None,
                 fw_pp: Optional[float] = None) -> None:
-- 
2.43.0


From 8c3168e0e3424da078ee765d8ef09e218d93065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 18/30] fix: raise ValueError for every m out of range

m of -1 raised ZeroDivisionError, negative infinity was not refused.
---
 ibl/analytic/_falkner_skan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 85e0d08..f4d6dd2 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -126,6 +126,10 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         ValueError
             If invalid value is passed in.
         """
+        if m <= -1:
+            # has no corresponding beta or one from the other end of the range
+            raise ValueError(f"Invalid edge velocity profile parameter: {m}")
+
         if m == np.inf:
             beta = 2.0
         else:
-- 
2.43.0


From 192615e391c05c5992caf6245e6ad92bdfee2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:06 +0000
Subject: [PATCH 19/30] fix: interpolate chord location of stagnation point off
 the leading edge

The location was interpolated as if the leading edge always was between the
two stations next to the stagnation point. At incidence both are on the same
side of it and the result was not even between their chord locations.
---
 ibl/reference/_xfoil_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 5d7089c..02827b5 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -208,6 +208,10 @@ class XFoilReader:
             du = up.u_e_rel + lo.u_e_rel
             frac = up.u_e_rel/du
             stag_pt = self._interpolate_aifoil_data(up, lo, frac)
+            if (any(a.x < up.x for a in self._upper[1:2])
+                    or any(a.x < lo.x for a in self._lower[1:2])):
+                # leading edge is not between the points
+                stag_pt.x = frac*lo.x + (1-frac)*up.x
 
             stag_s = stag_pt.s
             self._upper.insert(0, stag_pt)
-- 
2.43.0


From d9d876a93a5e358e2538eee25515dd6d6d5c8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 20/30] fix: refuse negative profile values in Stanford station
 data

The documented ranges of y, y+, y/CD, U/UI, U+ and UDEF were enforced by
the setters only, not when the profile is read.
---
 ibl/reference/_stanford_1968_station.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index f1ceaf9..aeb1700 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -712,6 +712,10 @@ class StanfordOlympics1968StationData:
                                  + f"({(self.u_e-u)/self.u_star}) "
                                  + f"for defect velocity sample {i}")
 
+            # check range of values
+            if min(yplus, uplus, y, u, ycd, udef) < 0:
+                raise ValueError(f"Negative value in station {i} data: {st}")
+
             # set values
             self.y_plus[i] = yplus
             self.u_plus[i] = uplus
-- 
2.43.0


From 6ebb4928f23405a177846dc18b0ee25495bdb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:00 +0000
Subject: [PATCH 21/30] fix: zero viscosity in Stanford station summary is a
 ValueError

It was a ZeroDivisionError from the Reynolds number check.
---
 ibl/reference/_stanford_1968_station.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index aeb1700..180e68b 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -588,6 +588,10 @@ class StanfordOlympics1968StationData:
             enth = enth*INCH_PER_METER
             clth = clth*INCH_PER_METER
 
+        # check viscosity before it is used in the Reynolds numbers
+        if v <= 0:
+            raise ValueError(f"Invalid kinematic viscosity: {v}")
+
         # check duplicate values
         if np.abs(x-self.x) >= 2e-3:
             raise ValueError(f"station summary data ({x}) does not match "
-- 
2.43.0


From 2e55cc996e697bcc56579be964d107fb2feeab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 22/30] fix: refuse Stanford summary data with negative skin
 friction

The wall shear velocity, documented as positive, was silently nan.
---
 ibl/reference/_stanford_1968_station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index 180e68b..fd4d177 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -286,7 +286,7 @@ class StanfordOlympics1968StationData:
 
     @u_star.setter
     def u_star(self, u_star: float) -> None:
-        if u_star <= 0:
+        if not u_star > 0:
             raise ValueError(f"Invalid wall shear velocity: {u_star}")
         self._u_star = u_star
 
-- 
2.43.0


From 95bf951a208eb6d6d0cd80cbbc14c7901775340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:15 +0000
Subject: [PATCH 23/30] fix: Head's initial shape factor no longer depends on
 setting order

Set before the initial momentum thickness it was lost, and a later change
of the momentum thickness altered it.
---
 ibl/head_method.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index d290713..41198e4 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -34,6 +34,9 @@ class HeadMethod(IBLMethod):
                          ic=ManualCondition(delta_d=np.inf, delta_m=np.inf,
                                             delta_k=0))
 
+        # shape factor to use once the momentum thickness is known
+        self._initial_shape_d = np.inf
+
         self.set_shape_d_critical(shape_d_crit)
 
     @property
@@ -48,7 +51,13 @@ class HeadMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
-        cast(ManualCondition, self._ic).del_m = delta_m0
+        # the shape factor is not affected by the thickness
+        shape_d = self.initial_shape_d
+        ic = cast(ManualCondition, self._ic)
+        ic.del_m = delta_m0
+        self._initial_shape_d = shape_d
+        if np.isfinite(shape_d):
+            ic.del_d = shape_d*delta_m0
 
     @property
     def initial_shape_d(self) -> float:
@@ -56,12 +65,15 @@ class HeadMethod(IBLMethod):
         Dispacement thickness at start of integration.
         Must be greater than zero
         """
+        if isinstance(self._ic, ManualCondition) and np.isinf(self._ic.del_m):
+            return self._initial_shape_d
         return self._ic.shape_d()
 
     @initial_shape_d.setter
     def initial_shape_d(self, shape_d: float) -> None:
         if shape_d <= 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
+        self._initial_shape_d = shape_d
         cast(ManualCondition, self._ic).del_d = shape_d*self.initial_delta_m
 
     def set_shape_d_critical(self, shape_d_crit: float) -> None:
-- 
2.43.0


From dac729d80f5ed8c16b8a7f2c3fb61080e6aefeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:23 +0000
Subject: [PATCH 24/30] fix: refuse derivatives that tabulated edge velocities
 would ignore

Derivatives given along with a table of edge velocities, and a second
derivative given along with a table of first derivatives, were silently
ignored although the documentation says they are used.
---
 ibl/ibl_method.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 20aa7ae..f0463c7 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -474,6 +474,10 @@ class IBLMethod(ABC):
                 else:
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float, np.integer, np.floating)):
+            if d2u_e is not None:
+                raise ValueError("Cannot pass second derivative if first "
+                                 "derivative is a 2-tuple")
+
             # if is 2-tuple then assume x, dU_edx pairs to build spline
             if hasattr(du_e, "__len__") and len(du_e) == 2:
                 x_pts = np.asarray(du_e[0])
@@ -497,6 +501,10 @@ class IBLMethod(ABC):
                 raise ValueError(f"Don't know how to use {du_e} to "
                                  + "initialize velocity derivative")
         else:
+            if du_e is not None or d2u_e is not None:
+                raise ValueError("Cannot pass derivatives unless u_e is "
+                                 "callable or a scalar")
+
             # if is 2-tuple then assume x, U_e pairs to build spline
             if hasattr(u_e, "__len__") and len(u_e) == 2:
                 x_pts = np.asarray(u_e[0])
-- 
2.43.0


From ce1d3d73eba5edac34876a10ab5afb3a63722119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:26 +0000
Subject: [PATCH 25/30] fix: leave no stations of a refused XFoil dump behind

A dump with a malformed row left the stations before that row in the
reader, next to default metadata and an empty file name.
---
 ibl/reference/_xfoil_reader.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 02827b5..f603adc 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -178,6 +178,25 @@ class XFoilReader:
         if filename == "":
             return
 
+        try:
+            self._load_dump(filename)
+        except Exception:
+            # leave nothing of the refused dump behind
+            self._upper = []
+            self._lower = []
+            self._wake = []
+            raise
+        self._filename = filename
+
+    def _load_dump(self, filename: str) -> None:
+        """
+        Load the airfoil and wake data from dump file.
+
+        Parameters
+        ----------
+        filename : str
+            Name of file containing data.
+        """
         # get rows from file
         airfoil_data, wake_data = self._get_dump_data(filename)
 
@@ -230,8 +249,6 @@ class XFoilReader:
             for w in self._wake:
                 w.s -= s_offset
 
-        self._filename = filename
-
     def upper_count(self) -> int:
         """
         Return number of points on the upper surface of airofil.
-- 
2.43.0


From 43604da18259d20f91703de237d9de77d10488ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:44 +0000
Subject: [PATCH 26/30] fix: refuse XFoil dumps without a stagnation point

A dump cut off before the velocity changes sign was loaded with its last
row as the lower surface, with negative edge velocities there. An empty
file now raises ValueError as well instead of IndexError.
---
 ibl/reference/_xfoil_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index f603adc..18cb1ee 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -208,6 +208,8 @@ class XFoilReader:
                 idx_lower = idx
                 break
             self._upper.insert(0, new_pt)
+        if idx_lower < 1:
+            raise ValueError(f"No stagnation point in {filename}")
 
         # extract the lower aifoil data
         self._lower = [XFoilAirfoilData(x) for x in airfoil_data[idx_lower:]]
@@ -816,6 +818,8 @@ class XFoilReader:
         wake: List[str] = []
         with open(filename, "r", encoding="utf8") as f:
             buff = f.readlines()
+        if not buff:
+            raise ValueError(f"No data in {filename}")
 
         # find the wake index (if exists)
         wake_idx = -1
-- 
2.43.0


From 262b1b296342073c85c9552594a8010605f6b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:29 +0000
Subject: [PATCH 27/30] fix: keep Stanford station and smoothed velocity when
 reset is refused

Data that were refused left a mixture of the new and the reset values
behind, uninitialised ones among them.
---
 ibl/reference/_stanford_1968_station.py | 31 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index fd4d177..8c3ae72 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -448,9 +448,16 @@ class StanfordOlympics1968StationData:
         ValueError
             If invalid data is used.
         """
-        self._reset_summary_data(si_unit=si_unit, summary_data=summ_data)
-        self._reset_station_summary(si_unit=si_unit, station_summary=stat_summ)
-        self._reset_station_data(si_unit=si_unit, station_data=stat_data)
+        # leave the present data in place if the new data is refused
+        previous = dict(self.__dict__)
+        try:
+            self._reset_summary_data(si_unit=si_unit, summary_data=summ_data)
+            self._reset_station_summary(si_unit=si_unit,
+                                        station_summary=stat_summ)
+            self._reset_station_data(si_unit=si_unit, station_data=stat_data)
+        except ValueError:
+            self.__dict__.update(previous)
+            raise
 
     def sample_count(self) -> int:
         """
@@ -790,11 +797,11 @@ class StanfordOlympics1968SmoothVel:
         ValueError
             If invalid data is used.
         """
-        # reset values
+        # leave the present values in place if the new data is refused
         n_vals = len(data)
-        self._x = np.empty(n_vals)
-        self._u_e = np.empty(n_vals)
-        self._du_e = np.empty(n_vals)
+        x_new = np.empty(n_vals)
+        u_e_new = np.empty(n_vals)
+        du_e_new = np.empty(n_vals)
 
         # unpack values from string
         for i, st in enumerate(data):
@@ -810,6 +817,10 @@ class StanfordOlympics1968SmoothVel:
                 ui = ui*FOOT_PER_METER
 
             # set values
-            self.x[i] = x
-            self.u_e[i] = ui
-            self.du_e[i] = dui
+            x_new[i] = x
+            u_e_new[i] = ui
+            du_e_new[i] = dui
+
+        self._x = x_new
+        self._u_e = u_e_new
+        self._du_e = du_e_new
-- 
2.43.0


From 4baa1b47229980662bcbda9a034dc356b6fc2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 28/30] fix: keep XFoil station when new row is refused

A row with an inadmissible value left the station with some values of the
new row and infinity for the others.
---
 ibl/reference/_xfoil_data.py | 44 ++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/ibl/reference/_xfoil_data.py b/ibl/reference/_xfoil_data.py
index 3971ee9..0974353 100644
--- a/ibl/reference/_xfoil_data.py
+++ b/ibl/reference/_xfoil_data.py
@@ -216,6 +216,28 @@ class XFoilAirfoilData:
         """
         Reset the data to new values.
 
+        Parameters
+        ----------
+        data : str
+            String containing new data at point, empty string resets values.
+
+        Raises
+        ------
+        ValueError
+            If invalid data is used.
+        """
+        # leave the present data in place if the new data is refused
+        previous = dict(self.__dict__)
+        try:
+            self._read(data)
+        except ValueError:
+            self.__dict__.update(previous)
+            raise
+
+    def _read(self, data: str) -> None:
+        """
+        Set the values to those in the row.
+
         Parameters
         ----------
         data : str
@@ -391,6 +413,28 @@ class XFoilWakeData:
         """
         Reset the data to new values.
 
+        Parameters
+        ----------
+        data : str
+            String containing new data at point, empty string resets values.
+
+        Raises
+        ------
+        ValueError
+            If invalid data is used.
+        """
+        # leave the present data in place if the new data is refused
+        previous = dict(self.__dict__)
+        try:
+            self._read(data)
+        except ValueError:
+            self.__dict__.update(previous)
+            raise
+
+    def _read(self, data: str) -> None:
+        """
+        Set the values to those in the row.
+
         Parameters
         ----------
         data : str
-- 
2.43.0


From 7434f64541843ae131d381a675120358728f474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:55 +0000
Subject: [PATCH 29/30] fix: continue similarity solution as uniform flow
 beyond outer edge

The interpolant of the ODE solution was extrapolated past the outer edge,
so that the velocity drifted away from the edge velocity there (by more
than half at ten times the distance of the edge from the wall).
---
 ibl/analytic/_analytic_2d_base.py | 33 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 02d7744..c231575 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -148,10 +148,7 @@ class Analytic2dSimilarityIncompressible(ABC):
         numpy.ndarray
             Non-dimensional stream function values.
         """
-        if self._f is None:
-            raise ValueError("ODE solution not set.")
-
-        return self._f(eta)[0]
+        return self._solution(eta)[0]
 
     def f_p(self, eta: InputParam) -> InputParam:
         """
@@ -167,10 +164,7 @@ class Analytic2dSimilarityIncompressible(ABC):
         numpy.ndarray
             Non-dimensional velocity values.
         """
-        if self._f is None:
-            raise ValueError("ODE solution not set.")
-
-        return self._f(eta)[1]
+        return self._solution(eta)[1]
 
     def f_pp(self, eta: InputParam) -> InputParam:
         """
@@ -186,10 +180,31 @@ class Analytic2dSimilarityIncompressible(ABC):
         numpy.ndarray
             Derivative of the non-dimensional velocity values.
         """
+        return self._solution(eta)[2]
+
+    def _solution(self, eta: InputParam) -> Tuple[InputParam, InputParam,
+                                                  InputParam]:
+        """
+        Return the solution, continued as uniform flow beyond outer edge.
+
+        Parameters
+        ----------
+        eta : numpy.ndarray
+            Similarity coordinates to calculate the solution.
+
+        Returns
+        -------
+        Tuple[numpy.ndarray, numpy.ndarray, numpy.ndarray]
+            Non-dimensional stream function and its first two derivatives.
+        """
         if self._f is None:
             raise ValueError("ODE solution not set.")
 
-        return self._f(eta)[2]
+        # the ODE solution is only meaningful up to the outer edge
+        eta = np.asarray(eta)
+        f, f_p, f_pp = self._f(np.minimum(eta, self.eta_inf))
+        beyond = np.maximum(eta - self.eta_inf, 0)
+        return f + f_p*beyond, f_p, f_pp*(beyond <= 0)
 
     def u_e(self, x: InputParam) -> InputParam:
         """
-- 
2.43.0


From d39eaa27da397aca1d570cdf2ae8a3833dbc1179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:18 +0000
Subject: [PATCH 30/30] fix: initial values set on a method replace any
 condition in force

They were stored on the condition and ignored when it was not a manual
one, so that another thickness was reported and used than was set.
---
 ibl/head_method.py     | 18 +++++++++++++-----
 ibl/thwaites_method.py |  7 +++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 41198e4..6f67e89 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -5,7 +5,7 @@ This module contains the necessary classes and data for the implementation of
 Head's two equation integral boundary layer method.
 """
 
-from typing import Tuple, cast, Optional, Any
+from typing import Tuple, Optional, Any
 from typing_extensions import override
 
 import numpy as np
@@ -53,11 +53,14 @@ class HeadMethod(IBLMethod):
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
         # the shape factor is not affected by the thickness
         shape_d = self.initial_shape_d
-        ic = cast(ManualCondition, self._ic)
-        ic.del_m = delta_m0
+        if not isinstance(self._ic, ManualCondition):
+            # the value given replaces the one the condition would give
+            self._ic = ManualCondition(delta_d=np.inf, delta_m=np.inf,
+                                       delta_k=0)
+        self._ic.del_m = delta_m0
         self._initial_shape_d = shape_d
         if np.isfinite(shape_d):
-            ic.del_d = shape_d*delta_m0
+            self._ic.del_d = shape_d*delta_m0
 
     @property
     def initial_shape_d(self) -> float:
@@ -73,8 +76,13 @@ class HeadMethod(IBLMethod):
     def initial_shape_d(self, shape_d: float) -> None:
         if shape_d <= 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
+        delta_m0 = self.initial_delta_m
+        if not isinstance(self._ic, ManualCondition):
+            # the value given replaces the one the condition would give
+            self._ic = ManualCondition(delta_d=np.inf, delta_m=delta_m0,
+                                       delta_k=0)
         self._initial_shape_d = shape_d
-        cast(ManualCondition, self._ic).del_d = shape_d*self.initial_delta_m
+        self._ic.del_d = shape_d*delta_m0
 
     def set_shape_d_critical(self, shape_d_crit: float) -> None:
         """
diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 8ba62e2..a46dccd 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -12,7 +12,7 @@ assumption and provides slightly better results in all cases tested.
 # pylint: disable=too-many-branches
 
 from abc import abstractmethod
-from typing import Tuple, cast, Union, Callable, Optional, Any
+from typing import Tuple, Union, Callable, Optional, Any
 from typing_extensions import override
 
 import numpy as np
@@ -76,7 +76,10 @@ class ThwaitesMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
-        cast(ManualCondition, self._ic).del_m = delta_m0
+        if not isinstance(self._ic, ManualCondition):
+            # the value given replaces the one the condition would give
+            self._ic = ManualCondition(delta_d=0, delta_m=np.inf, delta_k=0)
+        self._ic.del_m = delta_m0
 
     def set_data_fits(self, data_fits: _DataFits) -> None:
         """
-- 
2.43.0

