From 727606c176ffa380c6eb5c52f3df55164c6a31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 01/14] fix: give every solver its own default configuration

The SolverConfig()/ETDConfig() default arguments were evaluated once, so all
solvers built without an explicit configuration shared one mutable object and
changing a tolerance on one changed it on the others.
---
 rkstiff/etd.py      | 12 ++++++------
 rkstiff/etd34.py    | 12 ++++++------
 rkstiff/etd35.py    | 12 ++++++------
 rkstiff/etd4.py     |  4 ++--
 rkstiff/etd5.py     |  6 +++---
 rkstiff/if34.py     |  4 ++--
 rkstiff/if45dp.py   |  4 ++--
 rkstiff/solveras.py | 12 ++++++------
 8 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index 584a02e..c220b64 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -37,7 +37,7 @@ ETD methods are particularly efficient when
 :math:`\mathcal{N}(\mathbf{U})` evolves on a slower time scale than the linear component :math:`\mathcal{L}\mathbf{U}`.
 """
 
-from typing import Union, Literal, Callable
+from typing import Union, Literal, Callable, Optional
 import numpy as np
 from .solvercs import BaseSolverCS
 from .solveras import SolverConfig, BaseSolverAS
@@ -217,12 +217,12 @@ class ETDAS(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, config, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
 
 
@@ -270,9 +270,9 @@ class ETDCS(BaseSolverCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 4a25323..3904374 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -17,7 +17,7 @@ third-order error estimation for adaptive step control.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -509,8 +509,8 @@ class ETD34(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -545,12 +545,12 @@ class ETD34(ETDAS):
         """
         super().__init__(lin_op, nl_func, config=config, etd_config=etd_config, loglevel=loglevel)
         if self._diag:
-            self._method = _Etd34Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd34Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd34Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd34Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd34NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd34NonDiagonal(lin_op, nl_func, self.etd_config)
         self.__n1_init = False
         self._accept = False
 
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index d821272..56f0b8f 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -61,7 +61,7 @@ local error estimates derived from the third-order embedding.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -785,8 +785,8 @@ class ETD35(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -820,12 +820,12 @@ class ETD35(ETDAS):
             loglevel=loglevel,
         )
         if self._diag:
-            self._method = _Etd35Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd35Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd35Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd35Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd35NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd35NonDiagonal(lin_op, nl_func, self.etd_config)
         self._stages_init = False
         self._accept = False
 
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index a49b6e3..d38db61 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -25,7 +25,7 @@ Journal of Computational Physics, 203(1), 72–88.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -346,7 +346,7 @@ class ETD4(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         r"""
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 3255557..de847af 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -28,7 +28,7 @@ Whalen, P., Brio, M., & Moloney, J.V. (2015).
 Journal of Computational Physics, 280, 579–601.
 """
 
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -536,7 +536,7 @@ class ETD5(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
@@ -555,7 +555,7 @@ class ETD5(ETDCS):
             Supports both real and complex values.
         nl_func : Callable[[np.ndarray], np.ndarray]
             Nonlinear function that maps the solution vector to its nonlinear contribution.
-        etd_config : ETDConfig, default=ETDConfig()
+        etd_config : ETDConfig, optional
             Configuration object containing modecutoff, contour_points, contour_radius.
         loglevel : Union[str, int], default="WARNING"
             Logging level.
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 535dbbe..cb43c65 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -39,7 +39,7 @@ J. Comput. Phys. **280**, 579-601 (2015).
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .solveras import SolverConfig, BaseSolverAS
@@ -290,7 +290,7 @@ class IF34(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 0750437..6255b83 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -1,6 +1,6 @@
 """Integrating factor adaptive step solver of 5th order with 4rd order embedding."""
 
-from typing import Callable, Literal, Union
+from typing import Callable, Literal, Optional, Union
 import numpy as np
 from .solveras import SolverConfig, BaseSolverAS
 
@@ -48,7 +48,7 @@ class IF45DP(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 25062ef..8f62b9f 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -263,19 +263,19 @@ class BaseSolverAS(BaseSolver):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """Initialize an adaptive-step solver with validated configuration."""
         super().__init__(lin_op, nl_func, loglevel)
-        self.config = config
+        self.config = SolverConfig() if config is None else config
 
         self.logger.debug(
             "Adaptive configuration: epsilon=%s, incr_f=%s, decr_f=%s, safety_f=%s",
-            config.epsilon,
-            config.incr_f,
-            config.decr_f,
-            config.safety_f,
+            self.config.epsilon,
+            self.config.incr_f,
+            self.config.decr_f,
+            self.config.safety_f,
         )
 
         self.__t0, self.__tf, self.__tc = 0, 0, 0
-- 
2.43.0


From c19c58e1edd3ade7e3d5ed06f0c292b7c39a903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 02/14] fix: report progress as a fraction of the interval
 being integrated

100 * t / tf divides by zero when tf == 0 (every 100th step, at any log level)
and is not the completed fraction when t0 != 0.
---
 rkstiff/solveras.py | 2 +-
 rkstiff/solvercs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 8f62b9f..4a27320 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -631,7 +631,7 @@ class BaseSolverAS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 160007d..ff655ff 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -265,7 +265,7 @@ class BaseSolverCS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
-- 
2.43.0


From 747251d35e44a67e68fde5f63fe707fb3ad57994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 03/14] fix: take exactly the requested number of constant
 steps

Accumulating t += h and comparing with tf took an extra step beyond tf whenever
the rounded sum fell short (t0=0, tf=1, h=0.1 ended at t=1.1 after 11 steps),
refused a step equal to the whole interval up to rounding (t0=0.1, tf=0.3,
h=0.2), and never ended for h=0.
---
 rkstiff/solvercs.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index ff655ff..fbdebd4 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -226,7 +226,7 @@ class BaseSolverCS(BaseSolver):
         Raises
         ------
         ValueError
-            If ``h`` exceeds the total time span ``tf - t0``.
+            If ``h`` is not positive or exceeds the total time span ``tf - t0``.
 
         Notes
         -----
@@ -238,7 +238,7 @@ class BaseSolverCS(BaseSolver):
         >>> solver = ETD4(lin_op, nl_func)
         >>> u_final = solver.evolve(u0, t0=0.0, tf=10.0, h=0.05)
         >>> len(solver.t)
-        200
+        201
         """
         self.reset()
         self.logger.info("Starting constant-step evolution from t=%s to t=%s", t0, tf)
@@ -249,16 +249,22 @@ class BaseSolverCS(BaseSolver):
             self.u.append(u)
 
         # Ensure step size is valid
-        if self.__tc + h > self.__tf:
+        if not h > 0.0:
+            raise ValueError("Step size h must be positive.")
+        # Steps needed to reach tf; an interval that is a whole number of steps up to
+        # floating-point rounding must not pick up (or be refused for) an extra one.
+        span = (tf - t0) / h
+        roundoff = 1e-10 * max(span, 1.0)
+        if span < 1.0 - roundoff:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
 
         self.logger.debug("Step size h=%s, store_freq=%s", h, store_freq)
 
         step_count = 0
-        while self.__tc < self.__tf:
+        while step_count < span - roundoff:
             u = self.step(u, h)
-            self.__tc += h
             step_count += 1
+            self.__tc = t0 + step_count * h
 
             if step_count % 100 == 0:
                 self.logger.info(
-- 
2.43.0


From 6a814022ba0162d55660ab638b91eba3de145702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 04/14] fix: accept adaptive steps whose error estimate is
 exactly zero

A zero error estimate gave s = inf (or nan for a zero state), which was treated
as a failed step, so purely linear problems and the zero solution ended in
MinimumStepReached, and so could the last rounding-sized step of any run.
Zero-length steps are still refused.
---
 rkstiff/solveras.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 4a27320..a96347f 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -387,8 +387,8 @@ class BaseSolverAS(BaseSolver):
             s = self._compute_s(unew, err)
             self.logger.debug("Computed s=%s for h=%s", s, h)
 
-            # If s is less than 1, inf, or nan, reject step and reduce step size
-            if np.isinf(s) or np.isnan(s) or s < 1.0:
+            # If s is less than 1, inf, or nan (or the step has no length), reject step and reduce step size
+            if np.isinf(s) or np.isnan(s) or s < 1.0 or h == 0:
                 h = self._reject_step_size(s, h)
             # If s is bigger than 1 accept h and the step
             else:
@@ -449,9 +449,13 @@ class BaseSolverAS(BaseSolver):
         """
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
-        idx = magu / magu.max() > self.config.adapt_cutoff
+        umax = magu.max()
+        idx = magu / umax > self.config.adapt_cutoff if umax != 0 else np.ones(magu.shape, dtype=bool)
+        errnorm = np.linalg.norm(err[idx])
+        if errnorm == 0 and np.isfinite(umax):
+            return self.MAX_S  # no error at all (e.g. a purely linear problem)
         tol = self.config.epsilon * np.linalg.norm(u[idx])
-        s = self.config.safety_f * np.power(tol / np.linalg.norm(err[idx]), 1.0 / self._q())
+        s = self.config.safety_f * np.power(tol / errnorm, 1.0 / self._q())
         return s
 
     def _reject_step_size(self, s: float, h: float) -> float:
-- 
2.43.0


From d636b59ac99bb00618c1144f8f259b24c276f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 05/14] fix: return the diagonalized solvers' error estimate in
 the caller's basis

The state was transformed back from the eigenbasis but the error estimate was
not, so step control compared a physical-space state, and its cutoff mask, with
an error vector in (arbitrarily ordered) eigenvector coordinates.
---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 rkstiff/if34.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 3904374..675788c 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -301,7 +301,7 @@ class _Etd34Diagonalized(_Etd34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = self._a54 * (self._NL4 - self._NL5)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd34NonDiagonal:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 56f0b8f..10e8d23 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -492,7 +492,7 @@ class _Etd35Diagonalized(_Etd35Diagonal):
             + self._a76 * self._NL6
         )
         self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd35NonDiagonal:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index cb43c65..e8d6fbb 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -193,7 +193,7 @@ class _If34Diagonalized(_If34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = h * (self._NL4 - self._NL5) / 6.0
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 # ======================================================================
-- 
2.43.0


From 3bc749e98acf83f0b35abfb1372e709b53f258a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 06/14] fix: always return n points from the Fourier grids

np.arange(a, b, dx) includes b, giving n + 1 points, when a + n*dx rounds below
b (n=14 on [-3, -0.9]).
---
 rkstiff/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index bdeb596..5401b0e 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -80,7 +80,7 @@ def construct_x_kx_rfft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[n
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)
     return x, kx
 
@@ -126,7 +126,7 @@ def construct_x_kx_fft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[np
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.fftfreq(n, d=dx)
     return x, kx
 
-- 
2.43.0


From 4e49fca28d8831ab78b7d5586fa8b3acc2dac12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 07/14] fix: reject NaN in SolverConfig and ETDConfig

The range checks were written so that NaN passed every one of them; a NaN
tolerance or cutoff then makes every adaptive step fail.
---
 rkstiff/etd.py      |  4 ++--
 rkstiff/solveras.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index c220b64..d11b578 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -96,7 +96,7 @@ class ETDConfig:
 
     @modecutoff.setter
     def modecutoff(self, value: float) -> None:
-        if (value > 1.0) or (value <= 0):
+        if not 0 < value <= 1.0:
             raise ValueError(f"modecutoff must be between 0.0 and 1.0 but is {value}")
         self._modecutoff = value
 
@@ -126,7 +126,7 @@ class ETDConfig:
 
     @contour_radius.setter
     def contour_radius(self, value: float) -> None:
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"contour_radius must greater than 0 but is {value}")
         self._contour_radius = value
 
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index a96347f..2b08e5e 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -104,7 +104,7 @@ class SolverConfig:
     @epsilon.setter
     def epsilon(self, value: float) -> None:
         """Set relative error tolerance, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"epsilon must be positive but is {value}")
         self._epsilon = float(value)
 
@@ -116,7 +116,7 @@ class SolverConfig:
     @incr_f.setter
     def incr_f(self, value: float) -> None:
         """Set increment factor, must be greater than 1.0."""
-        if value <= 1.0:
+        if not value > 1.0:
             raise ValueError(f"incr_f must be > 1.0 but is {value}")
         self._incr_f = float(value)
 
@@ -128,7 +128,7 @@ class SolverConfig:
     @decr_f.setter
     def decr_f(self, value: float) -> None:
         """Set decrement factor, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"decr_f must be < 1.0 but is {value}")
         self._decr_f = float(value)
 
@@ -140,7 +140,7 @@ class SolverConfig:
     @safety_f.setter
     def safety_f(self, value: float) -> None:
         """Set safety factor, must be ≤ 1.0."""
-        if value > 1.0:
+        if not value <= 1.0:
             raise ValueError(f"safety_f must be <= 1.0 but is {value}")
         self._safety_f = float(value)
 
@@ -152,7 +152,7 @@ class SolverConfig:
     @adapt_cutoff.setter
     def adapt_cutoff(self, value: float) -> None:
         """Set adaptivity cutoff, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"adapt_cutoff must be < 1.0 but is {value}")
         self._adapt_cutoff = float(value)
 
@@ -164,7 +164,7 @@ class SolverConfig:
     @minh.setter
     def minh(self, value: float) -> None:
         """Set minimum step size, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"minh must be positive but is {value}")
         self._minh = float(value)
 
-- 
2.43.0


From cfcfa79dadc63a829e89359e5ab6ca3565a99308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 08/14] fix: mark coefficients as cached for h only once they
 are computed

If computing the coefficients failed (for example a singular contour point, or an
interrupt), a retry with the same h took the stale or zero coefficients for
valid and returned a wrong step without any error.
---
 rkstiff/etd34.py  | 3 ++-
 rkstiff/etd35.py  | 3 ++-
 rkstiff/etd4.py   | 3 ++-
 rkstiff/etd5.py   | 3 ++-
 rkstiff/if34.py   | 3 ++-
 rkstiff/if4.py    | 3 ++-
 rkstiff/if45dp.py | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 675788c..faec224 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -582,8 +582,9 @@ class ETD34(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 10e8d23..b5a5677 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -850,8 +850,9 @@ class ETD35(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD35 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index d38db61..f9ff8c3 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -395,8 +395,9 @@ class ETD4(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index de847af..54ec566 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -615,8 +615,9 @@ class ETD5(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD5 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index e8d6fbb..2502523 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -314,8 +314,9 @@ class IF34(BaseSolverAS):
     def _update_coeffs(self, h: float) -> None:
         """Recompute coefficients if step size changed."""
         if h != self._h_coeff:
-            self._h_coeff = h
+            self._h_coeff = None  # invalid until the update completes
             self._method.update_coeffs(h)
+            self._h_coeff = h
             self.logger.debug("IF34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index 56d86e4..e28ba7c 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -262,8 +262,9 @@ class IF4(BaseSolverCS):
         """Update exponential coefficients if step size :math:`h` changes."""
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("IF4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 6255b83..8c31006 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -200,7 +200,7 @@ class IF45DP(BaseSolverAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # invalid until the update completes
         z = h * self.lin_op
         self._EL15 = np.exp(z / 5)
         self._EL310 = np.exp(3 * z / 10)
@@ -235,6 +235,7 @@ class IF45DP(BaseSolverAS):
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
+        self._h_coeff = h
         self.logger.debug("IF45 coefficients updated for step size h=%s", h)
 
     def _q(self) -> int:
-- 
2.43.0


From 4ac254412f15791bcdc6cf99cc89b8e0b419b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 09/14] fix: evaluate the psi functions of full matrices of any
 size correctly

The Cauchy integral over a circle of radius contour_radius around zero is only
valid if it encloses the spectrum of h*L. For any stiffer matrix operator the
four ETD solvers silently used psi ~ 0, i.e. dropped the nonlinear term
(ETD4 with L=diag(-5,-20), h=0.2 differed from the 1D operator by 6%). Scale
the matrix into the contour and double the result back.
---
 rkstiff/etd.py   | 59 +++++++++++++++++++++++++++++++++++++++++++++++-
 rkstiff/etd34.py | 19 +++-------------
 rkstiff/etd35.py | 28 ++++-------------------
 rkstiff/etd4.py  | 19 +++-------------
 rkstiff/etd5.py  | 28 ++++-------------------
 5 files changed, 74 insertions(+), 79 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index d11b578..ded2c5c 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -28,6 +28,7 @@ Contents
 --------
 - :class:`ETDConfig` - configuration for contour integration and cutoff settings.
 - :func:`psi1`, :func:`psi2`, :func:`psi3` - exponential helper functions.
+- :func:`psi_matrices` - the same functions of a full matrix.
 - :class:`ETDAS` - adaptive-step ETD solver.
 - :class:`ETDCS` - constant-step ETD solver.
 
@@ -37,8 +38,9 @@ ETD methods are particularly efficient when
 :math:`\mathcal{N}(\mathbf{U})` evolves on a slower time scale than the linear component :math:`\mathcal{L}\mathbf{U}`.
 """
 
-from typing import Union, Literal, Callable, Optional
+from typing import Union, Literal, Callable, Optional, Tuple
 import numpy as np
+from scipy.linalg import expm
 from .solvercs import BaseSolverCS
 from .solveras import SolverConfig, BaseSolverAS
 
@@ -182,6 +184,61 @@ def psi3(z: np.ndarray) -> np.ndarray:
     return 6 * (np.exp(z) - 1 - z - z**2 / 2) / z**3
 
 
+def psi_matrices(z: np.ndarray, etd_config: ETDConfig) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
+    r"""
+    Compute :math:`\psi_1, \psi_2, \psi_3` of a square matrix.
+
+    The contour integral (circle of radius ``contour_radius`` centered at zero)
+    only represents :math:`\psi_r(z)` if it encloses the spectrum of ``z``.
+    Larger matrices are halved until they lie well inside the contour, and the
+    result is doubled back with
+
+    .. math::
+
+        \psi_1(2z) = \tfrac{1}{2} (e^z + 1) \psi_1(z), \quad
+        \psi_2(2z) = \tfrac{1}{2} (\psi_1(z)^2 + \psi_2(z)), \quad
+        \psi_3(2z) = \tfrac{1}{8} (3 \psi_1(z) \psi_2(z) + 3 \psi_2(z) + 2 \psi_3(z)).
+
+    Parameters
+    ----------
+    z : np.ndarray
+        Square matrix (step size times linear operator).
+    etd_config : ETDConfig
+        ETD configuration (contour radius and number of contour points).
+
+    Returns
+    -------
+    tuple of np.ndarray
+        :math:`\psi_1(z), \psi_2(z), \psi_3(z)`.
+    """
+    npts, radius = etd_config.contour_points, etd_config.contour_radius
+    halvings = 0
+    norm = np.linalg.norm(z, 1)
+    while np.isfinite(norm) and norm > radius / 4:
+        norm /= 2
+        halvings += 1
+    z = z / 2.0**halvings
+
+    eye = np.eye(*z.shape)
+    p1, p2, p3 = [np.zeros(shape=z.shape, dtype=np.complex128) for _ in range(3)]
+    for point in radius * np.exp(2j * np.pi * np.arange(0.5, npts) / npts):
+        Q = point * np.linalg.inv(point * eye - z) / npts
+        p1 += psi1(point) * Q
+        p2 += psi2(point) * Q
+        p3 += psi3(point) * Q
+
+    if halvings > 0:
+        ez = expm(z)
+        for _ in range(halvings):
+            p1, p2, p3 = (
+                (ez + eye).dot(p1) / 2,
+                (p1.dot(p1) + p2) / 2,
+                (3 * p1.dot(p2) + 3 * p2 + 2 * p3) / 8,
+            )
+            ez = ez.dot(ez)
+    return p1, p2, p3
+
+
 class ETDAS(BaseSolverAS):
     r"""
     Adaptive-step Exponential Time-Differencing (ETD) Runge–Kutta solver.
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index faec224..512a65f 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -20,7 +20,7 @@ import logging
 from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
-from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
+from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, psi_matrices, SolverConfig
 
 
 class _Etd34Diagonal:  # pylint: disable=too-few-public-methods
@@ -366,21 +366,8 @@ class _Etd34NonDiagonal:
         self._EL = expm(z)
         self._EL2 = expm(z / 2)
 
-        contour_points = self.etd_config.contour_radius * np.exp(
-            2j * np.pi * np.arange(0.5, self.etd_config.contour_points) / self.etd_config.contour_points
-        )
-
-        psi1_12, psi2_12, psi1_1, psi2_1, psi3_1 = [
-            np.zeros(shape=self.lin_op.shape, dtype=np.complex128) for _ in range(5)
-        ]
-        for point in contour_points:
-            Q = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z)
-            Q2 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z / 2)
-            psi1_12 += point * psi1(point) * Q2 / self.etd_config.contour_points
-            psi2_12 += point * psi2(point) * Q2 / self.etd_config.contour_points
-            psi1_1 += point * psi1(point) * Q / self.etd_config.contour_points
-            psi2_1 += point * psi2(point) * Q / self.etd_config.contour_points
-            psi3_1 += point * psi3(point) * Q / self.etd_config.contour_points
+        psi1_12, psi2_12, _ = psi_matrices(z / 2, self.etd_config)
+        psi1_1, psi2_1, psi3_1 = psi_matrices(z, self.etd_config)
 
         self._a21 = 0.5 * h * psi1_12
         self._a31 = 0.5 * h * (psi1_12 - psi2_12)
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index b5a5677..2846978 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -64,7 +64,7 @@ import logging
 from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
-from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
+from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, psi_matrices, SolverConfig
 
 
 class _Etd35Diagonal:
@@ -616,28 +616,10 @@ class _Etd35NonDiagonal:
         self._EL = expm(z)
 
         # Use contour integral evaluation for psi etd functions
-        contour_points = self.etd_config.contour_radius * np.exp(
-            2j * np.pi * np.arange(0.5, self.etd_config.contour_points) / self.etd_config.contour_points
-        )
-        psi1_14, psi2_14, psi1_12, psi2_12, psi1_34, psi2_34 = [
-            np.zeros(shape=self.lin_op.shape, dtype=np.complex128) for _ in range(6)
-        ]
-        psi1_1, psi2_1, psi3_1 = [np.zeros(shape=self.lin_op.shape, dtype=np.complex128) for _ in range(3)]
-
-        for point in contour_points:
-            Q14 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z / 4.0)
-            Q12 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z / 2.0)
-            Q34 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - 3 * z / 4.0)
-            Q = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z)
-            psi1_14 += point * psi1(point) * Q14 / self.etd_config.contour_points
-            psi2_14 += point * psi2(point) * Q14 / self.etd_config.contour_points
-            psi1_12 += point * psi1(point) * Q12 / self.etd_config.contour_points
-            psi2_12 += point * psi2(point) * Q12 / self.etd_config.contour_points
-            psi1_34 += point * psi1(point) * Q34 / self.etd_config.contour_points
-            psi2_34 += point * psi2(point) * Q34 / self.etd_config.contour_points
-            psi1_1 += point * psi1(point) * Q / self.etd_config.contour_points
-            psi2_1 += point * psi2(point) * Q / self.etd_config.contour_points
-            psi3_1 += point * psi3(point) * Q / self.etd_config.contour_points
+        psi1_14, psi2_14, _ = psi_matrices(z / 4.0, self.etd_config)
+        psi1_12, psi2_12, _ = psi_matrices(z / 2.0, self.etd_config)
+        psi1_34, psi2_34, _ = psi_matrices(3 * z / 4.0, self.etd_config)
+        psi1_1, psi2_1, psi3_1 = psi_matrices(z, self.etd_config)
 
         self._a21 = h * psi1_14 / 4.0
         self._a31 = h * (psi1_14 - psi2_14 / 2.0) / 4.0
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index f9ff8c3..4cb593f 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -28,7 +28,7 @@ import logging
 from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
-from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
+from .etd import ETDCS, ETDConfig, psi1, psi2, psi3, psi_matrices
 
 
 class _Etd4Diagonal:  # pylint: disable=too-few-public-methods
@@ -245,21 +245,8 @@ class _Etd4NonDiagonal:  # pylint: disable=too-few-public-methods
         self._EL = expm(z)
         self._EL2 = expm(z / 2)
 
-        contour_points = self.etd_config.contour_radius * np.exp(
-            2j * np.pi * np.arange(0.5, self.etd_config.contour_points) / self.etd_config.contour_points
-        )
-
-        psi1_12, psi2_12, psi1_1, psi2_1, psi3_1 = [
-            np.zeros(shape=self.lin_op.shape, dtype=np.complex128) for _ in range(5)
-        ]
-        for point in contour_points:
-            Q = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z)
-            Q2 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z / 2)
-            psi1_12 += point * psi1(point) * Q2 / self.etd_config.contour_points
-            psi2_12 += point * psi2(point) * Q2 / self.etd_config.contour_points
-            psi1_1 += point * psi1(point) * Q / self.etd_config.contour_points
-            psi2_1 += point * psi2(point) * Q / self.etd_config.contour_points
-            psi3_1 += point * psi3(point) * Q / self.etd_config.contour_points
+        psi1_12, psi2_12, _ = psi_matrices(z / 2, self.etd_config)
+        psi1_1, psi2_1, psi3_1 = psi_matrices(z, self.etd_config)
 
         self._a21 = 0.5 * h * psi1_12
         self._a31 = 0.5 * h * (psi1_12 - psi2_12)
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 54ec566..a492256 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -31,7 +31,7 @@ Journal of Computational Physics, 280, 579–601.
 from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
-from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
+from .etd import ETDCS, ETDConfig, psi1, psi2, psi3, psi_matrices
 
 
 class _Etd5Diagonal:  # pylint: disable=too-few-public-methods
@@ -378,28 +378,10 @@ class _Etd5NonDiagonal:  # pylint: disable=too-few-public-methods
         self._EL = expm(z)
 
         # Use contour integral evaluation for psi etd functions
-        contour_points = self.etd_config.contour_radius * np.exp(
-            2j * np.pi * np.arange(0.5, self.etd_config.contour_points) / self.etd_config.contour_points
-        )
-        psi1_14, psi2_14, psi1_12, psi2_12, psi1_34, psi2_34 = [
-            np.zeros(shape=self.lin_op.shape, dtype=np.complex128) for _ in range(6)
-        ]
-        psi1_1, psi2_1, psi3_1 = [np.zeros(shape=self.lin_op.shape, dtype=np.complex128) for _ in range(3)]
-
-        for point in contour_points:
-            Q14 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z / 4.0)
-            Q12 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z / 2.0)
-            Q34 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - 3 * z / 4.0)
-            Q = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z)
-            psi1_14 += point * psi1(point) * Q14 / self.etd_config.contour_points
-            psi2_14 += point * psi2(point) * Q14 / self.etd_config.contour_points
-            psi1_12 += point * psi1(point) * Q12 / self.etd_config.contour_points
-            psi2_12 += point * psi2(point) * Q12 / self.etd_config.contour_points
-            psi1_34 += point * psi1(point) * Q34 / self.etd_config.contour_points
-            psi2_34 += point * psi2(point) * Q34 / self.etd_config.contour_points
-            psi1_1 += point * psi1(point) * Q / self.etd_config.contour_points
-            psi2_1 += point * psi2(point) * Q / self.etd_config.contour_points
-            psi3_1 += point * psi3(point) * Q / self.etd_config.contour_points
+        psi1_14, psi2_14, _ = psi_matrices(z / 4.0, self.etd_config)
+        psi1_12, psi2_12, _ = psi_matrices(z / 2.0, self.etd_config)
+        psi1_34, psi2_34, _ = psi_matrices(3 * z / 4.0, self.etd_config)
+        psi1_1, psi2_1, psi3_1 = psi_matrices(z, self.etd_config)
 
         self._a21 = h * psi1_14 / 4.0
         self._a31 = h * (psi1_14 - psi2_14 / 2.0) / 4.0
-- 
2.43.0


From 6f43d296184b38ca224153c376b683d7f6962f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 10/14] fix: never accept a candidate containing inf, whatever
 adapt_cutoff is

---
 rkstiff/solveras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 2b08e5e..094c8c4 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -450,9 +450,11 @@ class BaseSolverAS(BaseSolver):
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
         umax = magu.max()
+        if not np.isfinite(umax):
+            return np.nan  # inf or nan in the candidate solution: never acceptable
         idx = magu / umax > self.config.adapt_cutoff if umax != 0 else np.ones(magu.shape, dtype=bool)
         errnorm = np.linalg.norm(err[idx])
-        if errnorm == 0 and np.isfinite(umax):
+        if errnorm == 0:
             return self.MAX_S  # no error at all (e.g. a purely linear problem)
         tol = self.config.epsilon * np.linalg.norm(u[idx])
         s = self.config.safety_f * np.power(tol / errnorm, 1.0 / self._q())
-- 
2.43.0


From d09eee6900380ed02feece6f12978b1cf3c5a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 11/14] fix: use the Dormand-Prince weight 71/1920 in the
 IF45DP error estimate

---
 rkstiff/if45dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 8c31006..c603a7a 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -231,7 +231,7 @@ class IF45DP(BaseSolverAS):
         self._a76 = 11 * h / 84.0
         self._r1 = h * 71 * self._EL / 57600.0
         self._r3 = -71 * h * EL710 / 16695.0
-        self._r4 = 17 * h * self._EL15 / 1920.0
+        self._r4 = 71 * h * self._EL15 / 1920.0
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
-- 
2.43.0


From d131b01f61b5ea34990aec1465dab3d05ebe0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 12/14] fix: stop when the adaptive step can no longer advance
 time

---
 rkstiff/solveras.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 094c8c4..ac111bb 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -629,6 +629,10 @@ class BaseSolverAS(BaseSolver):
         step_count = 0
         while self.__tc < self.__tf:
             u, h, h_suggest = self.step(u, h)
+            if self.__tc + h == self.__tc and h_suggest <= h:
+                failure_str = "Solver failed: adaptive step size is too small to advance time"
+                self.logger.error(failure_str)
+                raise self.MinimumStepReached(failure_str)
             self.__tc += h
             step_count += 1
 
-- 
2.43.0


From 52abcd4b0d0489df6a578e8166a89f8bb9e3299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 13/14] fix: reject a NaN radius for Hankel grids and
 transforms

---
 rkstiff/grids.py      | 2 +-
 rkstiff/transforms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index 5401b0e..614c43a 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -254,7 +254,7 @@ def construct_r_kr_hankel(nr: int, rmax: float) -> Tuple[np.ndarray, np.ndarray,
     """
     if nr < 4:
         raise ValueError("nr must be ≥ 4.")
-    if rmax <= 0:
+    if not rmax > 0:  # also refuses NaN
         raise ValueError("rmax must be positive.")
 
     bessel_zeros = sp.jn_zeros(0, nr + 1)
diff --git a/rkstiff/transforms.py b/rkstiff/transforms.py
index 11949c6..d2bb619 100644
--- a/rkstiff/transforms.py
+++ b/rkstiff/transforms.py
@@ -167,7 +167,7 @@ class HankelTransform:
     @rmax.setter
     def rmax(self, rmax: float):
         """Set maximum radial extent and recompute Hankel transform grid."""
-        if rmax <= 0:
+        if not rmax > 0:  # also refuses NaN
             raise ValueError("rmax must be positive.")
         self._setnr_setrmax(self._nr, rmax)
 
-- 
2.43.0


From 9f959872a91543fe0c7d63c185a6587f358f4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 14/14] fix: recompute the ETD coefficients when the contour
 settings change

The coefficients were cached by step size only, so settings assigned between
two steps of the same size (or during a constant-step evolve) had no effect.
---
 rkstiff/etd.py   | 6 ++++++
 rkstiff/etd34.py | 4 ++++
 rkstiff/etd35.py | 4 ++++
 rkstiff/etd4.py  | 4 ++++
 rkstiff/etd5.py  | 4 ++++
 5 files changed, 22 insertions(+)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index ded2c5c..641f257 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -132,6 +132,10 @@ class ETDConfig:
             raise ValueError(f"contour_radius must greater than 0 but is {value}")
         self._contour_radius = value
 
+    def settings(self) -> Tuple[float, int, float]:
+        """Current values, which coefficients computed with this configuration depend on."""
+        return self._modecutoff, self._contour_points, self._contour_radius
+
 
 def psi1(z: np.ndarray) -> np.ndarray:
     r"""
@@ -281,6 +285,7 @@ class ETDAS(BaseSolverAS):
         super().__init__(lin_op, nl_func, config, loglevel=loglevel)
         self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
+        self._settings_coeff = None
 
 
 class ETDCS(BaseSolverCS):
@@ -333,3 +338,4 @@ class ETDCS(BaseSolverCS):
         super().__init__(lin_op, nl_func, loglevel=loglevel)
         self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
+        self._settings_coeff = None
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 512a65f..a62bc0c 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -567,11 +567,15 @@ class ETD34(ETDAS):
         The coefficient update is skipped if the time step h has not changed
         since the last update.
         """
+        settings = self.etd_config.settings()
+        if settings != self._settings_coeff:
+            self._h_coeff = None  # computed under other contour settings
         if h == self._h_coeff:
             return
         self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
         self._h_coeff = h
+        self._settings_coeff = settings
         self.logger.debug("ETD34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 2846978..c00b5d8 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -830,11 +830,15 @@ class ETD35(ETDAS):
         h : float
             Time step size.
         """
+        settings = self.etd_config.settings()
+        if settings != self._settings_coeff:
+            self._h_coeff = None  # computed under other contour settings
         if h == self._h_coeff:
             return
         self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
         self._h_coeff = h
+        self._settings_coeff = settings
         self.logger.debug("ETD35 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index 4cb593f..4c2e5ea 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -380,11 +380,15 @@ class ETD4(ETDCS):
         h : float
             Time step size. Must be positive.
         """
+        settings = self.etd_config.settings()
+        if settings != self._settings_coeff:
+            self._h_coeff = None  # computed under other contour settings
         if h == self._h_coeff:
             return
         self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
         self._h_coeff = h
+        self._settings_coeff = settings
         self.logger.debug("ETD4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index a492256..538d34a 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -595,11 +595,15 @@ class ETD5(ETDCS):
         - The coefficients include matrix exponentials exp(h*L/4), exp(h*L/2),
           exp(3h*L/4), exp(h*L) and psi functions psi1, psi2, psi3 evaluated at various fractional steps.
         """
+        settings = self.etd_config.settings()
+        if settings != self._settings_coeff:
+            self._h_coeff = None  # computed under other contour settings
         if h == self._h_coeff:
             return
         self._h_coeff = None  # invalid until the update completes
         self._method.update_coeffs(h)
         self._h_coeff = h
+        self._settings_coeff = settings
         self.logger.debug("ETD5 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
-- 
2.43.0

