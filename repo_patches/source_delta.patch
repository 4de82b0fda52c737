From a4246de4fe691a40d6713b44afdcb8c563cd68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 01/31] fix: use absolute characteristic speeds in the scalar
 wave speed

---
 finite_volume/scalar/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/scalar/core.py b/finite_volume/scalar/core.py
index f7aa1b3..5b94624 100644
--- a/finite_volume/scalar/core.py
+++ b/finite_volume/scalar/core.py
@@ -22,7 +22,7 @@ class WaveSpeed:
 
     def __call__(self, value_left, value_right) -> Tuple:
         wave_speed = np.maximum(
-            self._flux_prime(value_left), self._flux_prime(value_right)
+            np.abs(self._flux_prime(value_left)), np.abs(self._flux_prime(value_right))
         )
 
         return -wave_speed, wave_speed
-- 
2.43.0


From 4a8b13b76e2557dfacffacf0d3ccfc76cafb0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 02/31] fix: accept initial_time in RungeKutta8 so that cg runs
 with degree three and more

---
 core/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index 278bbf5..57c2bee 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -130,9 +130,9 @@ class RungeKutta8(ExplicitRungeKuttaMethod):
     """
 
     def __init__(
-        self, right_hand_side: Callable[[float, T], T], initial_value: T, start_time=0
+        self, right_hand_side: Callable[[float, T], T], initial_value: T, initial_time=0.0
     ):
-        super().__init__(right_hand_side, initial_value, start_time)
+        super().__init__(right_hand_side, initial_value, initial_time)
         self._build_runge_kutta_matrix()
         self._build_weights()
         self._build_nodes()
-- 
2.43.0


From 4ae9c2027a29f4ef836cb70c25ce07bd167ac24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 03/31] fix: limit equal fluxes on both periodic boundary nodes
 in the scalar MCL scheme

---
 finite_volume/scalar/solver/mcl.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index 9abc814..addce39 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -1,4 +1,4 @@
-from typing import Tuple
+from typing import List, Set, Tuple
 
 import core
 import finite_volume
@@ -83,13 +83,34 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
         return self._local_maximum(dof_vector), self._local_minimum(dof_vector)
 
 
+class GhostCellNeighbourIndicesMapping(finite_volume.NeighbourIndicesMapping):
+    """Neighbours for cell values which are extended by a ghost cell on each
+    side. Note, for periodic boundaries the ghost cells are copies of the last
+    and the first cell respectively.
+
+    """
+
+    def __init__(self, mesh_size: int, periodic=False):
+        self._periodic_ghost_cells = periodic
+        super().__init__(mesh_size + 2)
+
+    def _build_neighbours(self) -> List[Set[int]]:
+        neighbour_indices = super()._build_neighbours()
+
+        if self._periodic_ghost_cells:
+            neighbour_indices[0] |= set([self._mesh_size - 3])
+            neighbour_indices[-1] |= set([2])
+
+        return neighbour_indices
+
+
 class MCLFluxGetter(finite_volume.FluxGetter):
     def __call__(
         self, benchmark: core.Benchmark, space: finite_volume.FiniteVolumeSpace
     ) -> finite_volume.NumericalFlux:
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
-        neighbours_mapping = finite_volume.NeighbourIndicesMapping(
-            len(space.mesh) + 2, benchmark.boundary_conditions == ("periodic",)
+        neighbours_mapping = GhostCellNeighbourIndicesMapping(
+            len(space.mesh), benchmark.boundary_conditions == ("periodic",)
         )
         return MCLFlux(riemann_solver, neighbours_mapping)
 
-- 
2.43.0


From 8a66ae2fcd8b598419e260e5a036c61cd2300cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 04/31] fix: make the energy stable flux entropy conservative
 and well-balanced

---
 .../shallow_water/solver/energy_stable.py     | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index adc92ee..bd9d804 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -11,17 +11,31 @@ import numpy as np
 
 class EnergyStableFlux(finite_volume.NumericalFlux):
     input_dimension = 2
-    _flux: swe.Flux
-    _average: np.ndarray
+    _gravitational_acceleration: float
 
     def __init__(self, gravitational_acceleration=None):
-        self._flux = swe.Flux(gravitational_acceleration)
+        self._gravitational_acceleration = (
+            gravitational_acceleration or defaults.GRAVITATIONAL_ACCELERATION
+        )
 
     def __call__(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray]:
-        self._average = swe.get_average(value_left, value_right)
-        flux = self._flux(self._average)
+        height_left, height_right = swe.get_heights(value_left, value_right)
+        height = swe.get_average(height_left, height_right)
+        height_square = swe.get_average(height_left**2, height_right**2)
+        velocity = swe.get_average(*swe.get_velocities(value_left, value_right))
+
+        if np.any(height < 0):
+            raise ValueError("Height is negative.")
+
+        flux = np.array(
+            [
+                height * velocity,
+                height * velocity**2
+                + self._gravitational_acceleration * height_square / 2,
+            ]
+        ).T
         return -flux, flux
 
 
-- 
2.43.0


From dcadaabbe071079e2f7e65c9d29bcdb3d78ac7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 05/31] fix: avoid division by zero in Riemann problems without
 waves

---
 core/riemann_solver.py                         | 18 +++++++++++++-----
 .../shallow_water/solver/low_order.py          |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/riemann_solver.py b/core/riemann_solver.py
index 09a0837..80cecba 100644
--- a/core/riemann_solver.py
+++ b/core/riemann_solver.py
@@ -1,5 +1,7 @@
 from typing import Any, Callable, Tuple
 
+import numpy as np
+
 FLUX = Callable
 WAVE_SPEED = Callable
 
@@ -28,11 +30,17 @@ class RiemannSolver:
             value_left, value_right
         )
 
-        factor = 1 / (self._wave_speed_right - self._wave_speed_left)
-        self.intermediate_state = factor * (
-            self._wave_speed_right * value_right
-            - self._wave_speed_left * value_left
-            - (self.flux_right - self.flux_left)
+        wave_speed_difference = self._wave_speed_right - self._wave_speed_left
+        no_waves = wave_speed_difference == 0
+        self.intermediate_state = np.where(
+            no_waves,
+            (value_left + value_right) / 2,
+            (
+                self._wave_speed_right * value_right
+                - self._wave_speed_left * value_left
+                - (self.flux_right - self.flux_left)
+            )
+            / np.where(no_waves, 1.0, wave_speed_difference),
         )
 
         return (
diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index f644df6..02f0b52 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -108,7 +108,7 @@ class LowOrderFlux(swe.NumericalFlux):
                 self._gravitational_acceleration
                 * height_average
                 * self._height_positivity_fix
-                / self._wave_speed
+                / np.where(self._wave_speed > 0, self._wave_speed, np.inf)
             )
 
 
-- 
2.43.0


From 98dfbd7ac5df4fe16036a7c844a7a6010e38b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 06/31] fix: keep the shallow water MCL scheme finite on dry
 states

---
 finite_volume/shallow_water/solver/mcl.py | 24 +++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index f824d8f..31bea44 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -15,6 +15,14 @@ from .central import CentralFluxGetter
 from .low_order import LowOrderFlux
 
 
+def divide(dividend: np.ndarray, divisor: np.ndarray) -> np.ndarray:
+    """Returns the quotient and zero where a divisor vanishes, which is the case
+    for dry states.
+
+    """
+    return dividend / np.where(divisor > 0, divisor, np.inf)
+
+
 class MCLFlux(LowOrderFlux):
     """Calculates flux by adding to a diffusive flux a limited antidiffusive
     flux, which can be specified independently.
@@ -115,7 +123,9 @@ class MCLFlux(LowOrderFlux):
         self,
         limited_height_flux: np.ndarray,
     ):
-        self._limited_height = self._height_HLL + limited_height_flux / self._wave_speed
+        self._limited_height = self._height_HLL + divide(
+            limited_height_flux, self._wave_speed
+        )
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -135,9 +145,10 @@ class MCLFlux(LowOrderFlux):
         return -limited_fq, limited_fq
 
     def _build_velocity_bar_state(self):
-        self._velocity_bar_state = (
-            self._modified_discharge_left + self._modified_discharge_right
-        ) / (self._modified_height_left + self._modified_height_right)
+        self._velocity_bar_state = divide(
+            self._modified_discharge_left + self._modified_discharge_right,
+            self._modified_height_left + self._modified_height_right,
+        )
 
     def _get_antidiffusive_velocity_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -180,8 +191,9 @@ class MCLFlux(LowOrderFlux):
 
         self._replace_nans(hl, hr, vl, vr, ql, qr)
 
-        velocity_maximum = core.maximum(vl, vr, ql / hl, qr / hr)
-        velocity_minimum = core.minimum(vl, vr, ql / hl, qr / hr)
+        ql_hl, qr_hr = divide(ql, hl), divide(qr, hr)
+        velocity_maximum = core.maximum(vl, vr, ql_hl, qr_hr)
+        velocity_minimum = core.minimum(vl, vr, ql_hl, qr_hr)
 
         return velocity_maximum, velocity_minimum
 
-- 
2.43.0


From 0d18a3088353d5cde1b015df526dfd3ddb3f9aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 07/31] fix: do not share the value of a discrete solution with
 its source

---
 core/discrete_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index fd2cd8c..4b64ece 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -23,7 +23,7 @@ class DiscreteSolution(Generic[T]):
         space=None,
     ):
         self._time = initial_time
-        self._value = initial_value
+        self._value = initial_value.copy()
         self._space = space
 
     @property
@@ -55,7 +55,7 @@ class DiscreteSolution(Generic[T]):
             raise ValueError("Solution is not finite.")
 
         self._time += time_step
-        self._value = value
+        self._value = value.copy()
 
     def set_value(self, value: np.ndarray, time=0.0):
         self.update(time - self._time, value)
-- 
2.43.0


From d6fe47f21761cfb4b68c2803d1fbeae68ec6d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 08/31] fix: do not reuse a flux approximation for a vector
 which has changed in place

---
 finite_element/flux_approximation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index d7434f1..2793fce 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -1,4 +1,4 @@
-from typing import Callable
+from typing import Callable, Optional
 
 import numpy as np
 
@@ -19,15 +19,15 @@ class FluxApproximation:
 
     _flux: Callable[[np.ndarray], np.ndarray]
     _flux_approximation: np.ndarray
-    _last_dof_vector = np.empty(1)
+    _last_dof_vector: Optional[np.ndarray] = None
 
     def __init__(self, flux: Callable[[np.ndarray], np.ndarray]):
         self._flux = flux
 
     def __call__(self, dof_vector: np.ndarray) -> np.ndarray:
-        if (dof_vector != self._last_dof_vector).any():
-            self._flux_approximation = self._flux(dof_vector)
-            self._last_dof_vector = dof_vector
+        if not np.array_equal(dof_vector, self._last_dof_vector):
+            self._last_dof_vector = dof_vector.copy()
+            self._flux_approximation = self._flux(self._last_dof_vector)
 
         return self._flux_approximation
 
-- 
2.43.0


From 4366abee4a616be8357cd58f126aaed2df3fe6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 09/31] fix: drop the factorization of a system matrix whose
 values have changed

---
 core/system.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/system.py b/core/system.py
index e2205d0..3e7a6d1 100644
--- a/core/system.py
+++ b/core/system.py
@@ -53,7 +53,7 @@ class SystemMatrix:
     def __init__(self, dimension: int):
         self.dimension = dimension
 
-        self._inverse_function = lambda vector: spsolve(self._csr_values, vector)
+        self._reset_inverse()
         self._lil_values = lil_matrix((dimension, dimension))
 
     def __call__(self) -> spmatrix:
@@ -65,6 +65,10 @@ class SystemMatrix:
     def set_values(self, values: np.ndarray):
         self._csr_values = csr_matrix(values)
         self._lil_values = lil_matrix(values)
+        self._reset_inverse()
+
+    def _reset_inverse(self):
+        self._inverse_function = lambda vector: spsolve(self._csr_values, vector)
 
     def build_inverse(self):
         self._inverse = splu(self._csr_values.tocsc())
@@ -76,6 +80,7 @@ class SystemMatrix:
 
     def update_csr_values(self):
         self._csr_values = csr_matrix(self._lil_values)
+        self._reset_inverse()
 
     def __getitem__(self, key):
         return self._lil_values[key]
-- 
2.43.0


From 715a1e539e94c91504c97510b07e51f8c60f5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 10/31] fix: respect the end time option of generate-data

---
 command/generate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index 3b9d4b6..31895c4 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -474,6 +474,8 @@ class GenerateDataParser(CalculateParser):
         self._build_directory(arguments)
         arguments.overwrite = not arguments.append
         arguments.benchmark = shallow_water.OscillationNoTopographyBenchmark()
+        if arguments.end_time:
+            arguments.benchmark.end_time = arguments.end_time
         self._build_solver(arguments)
         arguments.solver = arguments.solver[0]
 
-- 
2.43.0


From 397c47ba901b759bfd9a2dd5e297a60d299c7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 11/31] fix: write a header when generated data is appended to
 a missing file

---
 command/generate_data.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 31895c4..e67344f 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -376,12 +376,15 @@ class GenerateData(Command):
         benchmark_data: pd.DataFrame,
         overwrite: bool,
     ):
-        subgrid_flux_data.to_csv(
-            self._subgrid_flux_path, mode="w" if overwrite else "a", header=overwrite
-        )
-        benchmark_data.to_csv(
-            self._benchmark_path, mode="w" if overwrite else "a", header=overwrite
-        )
+        for data, path in [
+            (subgrid_flux_data, self._subgrid_flux_path),
+            (benchmark_data, self._benchmark_path),
+        ]:
+            data.to_csv(
+                path,
+                mode="w" if overwrite else "a",
+                header=overwrite or not os.path.isfile(path),
+            )
 
 
 class GenerateDataParser(CalculateParser):
-- 
2.43.0


From 6de28fb319cbcfd76ea4ea697a88cc92439d18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 12/31] fix: load and save subgrid flux data in the data
 analysis commands

---
 command/analyze_curvature.py | 15 ++++++++++++---
 command/analyze_data.py      |  6 ++++--
 command/delete_curvature.py  |  7 +++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/command/analyze_curvature.py b/command/analyze_curvature.py
index b7224c6..0e2b8a2 100644
--- a/command/analyze_curvature.py
+++ b/command/analyze_curvature.py
@@ -1,7 +1,6 @@
 import argparse
 from typing import Any
 
-import core
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -101,8 +100,18 @@ class PlotCurvatureAgainstSubgridFlux(Command):
         self._save = save
 
     def execute(self):
-        df_llf = core.load_data("data/reduced-llf/data.csv")
-        df_es1 = core.load_data("data/reduced-es1/data.csv")
+        df_llf = pd.read_csv(
+            "data/reduced-llf/data.csv",
+            header=[0, 1],
+            skipinitialspace=True,
+            index_col=0,
+        )
+        df_es1 = pd.read_csv(
+            "data/reduced-es1/data.csv",
+            header=[0, 1],
+            skipinitialspace=True,
+            index_col=0,
+        )
 
         curvature = Curvature(2.0)
         curvature_llf = curvature.transform(df_llf.values[:, :8])
diff --git a/command/analyze_data.py b/command/analyze_data.py
index 372f111..86905ba 100644
--- a/command/analyze_data.py
+++ b/command/analyze_data.py
@@ -1,8 +1,8 @@
 import argparse
 from typing import Any, List, Tuple
 
-import core
 import matplotlib.pyplot as plt
+import pandas as pd
 
 from .command import Command, CommandParser
 
@@ -17,7 +17,9 @@ class AnalyzeData(Command):
 
     def execute(self):
         for data_path in self._data_paths:
-            data = core.load_data(data_path)
+            data = pd.read_csv(
+                data_path, header=[0, 1], skipinitialspace=True, index_col=0
+            )
             print(data_path.upper())
             print("-" * len(data_path))
             print(data.describe())
diff --git a/command/delete_curvature.py b/command/delete_curvature.py
index 4a44002..bb911fe 100644
--- a/command/delete_curvature.py
+++ b/command/delete_curvature.py
@@ -2,6 +2,7 @@ import argparse
 from typing import Any
 
 import core
+import pandas as pd
 from finite_volume.shallow_water.solver.reduced_model import Curvature
 
 from .command import Command, CommandParser
@@ -29,7 +30,9 @@ class DeleteCurvature(Command):
         self._curvature_discharge_threshold = curvature_discharge_threshold or 0.5
 
     def execute(self):
-        df = core.load_data(self._data_path)
+        df = pd.read_csv(
+            self._data_path, header=[0, 1], skipinitialspace=True, index_col=0
+        )
         curvature = Curvature(step_length=self._step_length).transform(
             df.values[:, :8]
         )[:, 8:]
@@ -39,7 +42,7 @@ class DeleteCurvature(Command):
             & (curvature[:, 1] < self._curvature_discharge_threshold)
         ]
 
-        core.save_data(df, self._target_path)
+        df.to_csv(self._target_path)
 
 
 class DeleteCurvatureParser(CommandParser):
-- 
2.43.0


From b914365c49d53807bf1c494eae68cf08b147a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 13/31] fix: do not start a new solver at a name, short or flux
 which equals a solver key

---
 core/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/solver.py b/core/solver.py
index 1be643b..c85d3ef 100644
--- a/core/solver.py
+++ b/core/solver.py
@@ -191,6 +191,7 @@ class SolverParser(argparse.ArgumentParser):
 
 class SolverAction(argparse.Action):
     solver_parsers: Dict
+    _options_followed_by_any_word = ["+f", "++flux", "+n", "++name", "+s", "++short"]
 
     def __call__(
         self,
@@ -213,7 +214,7 @@ class SolverAction(argparse.Action):
             if (
                 i > 0
                 and value in self.solver_parsers.keys()
-                and values[i - 1] not in ["+f"]
+                and values[i - 1] not in self._options_followed_by_any_word
             ):
                 slice_index = i
                 break
-- 
2.43.0


From be5e4a9d1d27324f0de491aae6bd1f701af3e16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 14/31] fix: accept a given bathymetry array in the shallow
 water flux getters

---
 finite_volume/shallow_water/numerical_flux.py       | 7 ++++---
 finite_volume/shallow_water/solver/energy_stable.py | 7 ++++---
 finite_volume/shallow_water/solver/lax_wendroff.py  | 7 ++++---
 finite_volume/shallow_water/solver/low_order.py     | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/finite_volume/shallow_water/numerical_flux.py b/finite_volume/shallow_water/numerical_flux.py
index 27e3206..acae6b3 100644
--- a/finite_volume/shallow_water/numerical_flux.py
+++ b/finite_volume/shallow_water/numerical_flux.py
@@ -75,9 +75,10 @@ class FluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         numerical_flux = self._get_flux(benchmark)
 
         return NumericalFlux(
diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index bd9d804..d465edd 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -152,9 +152,10 @@ class FirstOrderDiffusiveEnergyStableFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         return FirstOrderDiffusiveEnergyStableFlux(
             benchmark.gravitational_acceleration, bathymetry
         )
diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index bd2ec34..4dbbaba 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -47,9 +47,10 @@ class LaxWendroffFluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         numerical_flux = LaxWendroffFlux(
             space.mesh.step_length, benchmark.gravitational_acceleration
         )
diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index 02f0b52..a00ae7b 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -119,9 +119,10 @@ class LowOrderFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
 
         return LowOrderFlux(
             benchmark.gravitational_acceleration,
-- 
2.43.0


From 4388f6cca1a0139ac14937046daef1352b1d78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 15/31] fix: consider the bathymetry source term of reduced
 fluxes only once

---
 .../shallow_water/solver/reduced_model.py         | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index a63293a..e29fd2f 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,19 +190,10 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
-        numerical_flux = self._flux_getter(benchmark, space)
-        numerical_flux = finite_volume.CorrectedNumericalFlux(
-            numerical_flux, self._subgrid_flux
-        )
+        # the given flux already takes the bathymetry into account
+        numerical_flux = self._flux_getter(benchmark, space, bathymetry)
 
-        return swe.NumericalFlux(
-            numerical_flux,
-            benchmark.gravitational_acceleration,
-            bathymetry=bathymetry,
-        )
+        return finite_volume.CorrectedNumericalFlux(numerical_flux, self._subgrid_flux)
 
 
 class ReducedSolverParser(finite_volume.SolverParser):
-- 
2.43.0


From bdd074f7e9371c0b47f30a6e363bbf33dd952187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 16/31] fix: offer the polynomial degree option for the finite
 element solvers

---
 finite_element/scalar/solver/cg.py     | 1 +
 finite_element/scalar/solver/cg_low.py | 1 +
 finite_element/scalar/solver/mcl.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/finite_element/scalar/solver/cg.py b/finite_element/scalar/solver/cg.py
index 9633ca7..d583ef0 100644
--- a/finite_element/scalar/solver/cg.py
+++ b/finite_element/scalar/solver/cg.py
@@ -91,6 +91,7 @@ class CGParser(finite_element.SolverParser):
     solver = ContinuousGalerkinSolver
 
     def _add_arguments(self):
+        super()._add_arguments()
         self.add_argument(
             "++exact-flux", action="store_true", help="Calculate flux matrices exactly."
         )
diff --git a/finite_element/scalar/solver/cg_low.py b/finite_element/scalar/solver/cg_low.py
index 1e7c2b1..7fdd4fd 100644
--- a/finite_element/scalar/solver/cg_low.py
+++ b/finite_element/scalar/solver/cg_low.py
@@ -130,5 +130,6 @@ class CGLowParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
diff --git a/finite_element/scalar/solver/mcl.py b/finite_element/scalar/solver/mcl.py
index af2d562..65411f9 100644
--- a/finite_element/scalar/solver/mcl.py
+++ b/finite_element/scalar/solver/mcl.py
@@ -164,5 +164,6 @@ class MCLParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
-- 
2.43.0


From ee4234b91071705271829bbea3bd15414fabfc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 17/31] fix: save plots of an error evolution series, one set
 of figures per benchmark

---
 command/error_evolution.py | 2 +-
 command/plot.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 5367268..2dbcc28 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -259,7 +259,7 @@ class GenerateShallowWaterErrorEvolutionSeries(Command):
 
         if self._save_plot:
             plotter = ShallowWaterPlotter(
-                benchmark, show=False, save=f"{self._directory}/plot_{index}.png"
+                benchmark, show=False, save_plot=f"{self._directory}/plot_{index}.png"
             )
             Plot(
                 benchmark, solver, plotter, solver_executed=True, write_warnings=False
diff --git a/command/plot.py b/command/plot.py
index 48ee71d..5b9dd09 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -87,7 +87,7 @@ class Plotter(ABC, Generic[T]):
         ...
 
     def _show_plots(self):
-        plt.show() if self._show else plt.close()
+        plt.show() if self._show else plt.close("all")
 
     def __repr__(self) -> str:
         return self.__class__.__name__
-- 
2.43.0


From cea3a984c26b771a61407120d7f30b33413ce7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 18/31] fix: do not change the default benchmark when an end
 time is given

---
 command/calculate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/calculate.py b/command/calculate.py
index 1a74d33..69a7b18 100644
--- a/command/calculate.py
+++ b/command/calculate.py
@@ -1,4 +1,5 @@
 import argparse
+from copy import copy
 from typing import Any, Callable, Dict, List, Sequence
 
 import core
@@ -194,6 +195,7 @@ class CalculateParser(CommandParser):
 
     def _adjust_end_time(self, arguments):
         if arguments.end_time:
+            arguments.benchmark = copy(arguments.benchmark)
             arguments.benchmark.end_time = arguments.end_time
         del arguments.end_time
 
-- 
2.43.0


From 7ed8a43eb787213e8ca48b74b01fe6d0bec439cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 19/31] fix: update the time step of finite element solvers
 when they are reinitialized

---
 core/time_stepping.py    | 9 +++++++++
 finite_element/solver.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/core/time_stepping.py b/core/time_stepping.py
index 17cf134..b195366 100644
--- a/core/time_stepping.py
+++ b/core/time_stepping.py
@@ -50,6 +50,7 @@ class TimeStepGenerator:
     _time_step: float = np.nan
     _cfl_number: float
     _adaptive: bool
+    _time_step_function: Callable[[], float]
     _get_time_step: Callable[[], float]
 
     def __init__(
@@ -60,6 +61,7 @@ class TimeStepGenerator:
     ):
         self._adaptive = adaptive
         self._cfl_number = cfl_number
+        self._time_step_function = time_step_function
 
         if adaptive:
             self._get_time_step = lambda: time_step_function() * self._cfl_number
@@ -71,6 +73,10 @@ class TimeStepGenerator:
     def adaptive(self) -> bool:
         return self._adaptive
 
+    def reinitialize(self):
+        if not self._adaptive:
+            self._time_step = self._time_step_function()
+
     def __call__(self) -> float:
         return self._get_time_step()
 
@@ -133,6 +139,9 @@ class TimeStepping:
             )
             return time_steps_number
 
+    def reinitialize(self):
+        self._time_step_generator.reinitialize()
+
     def _build_time_step(self) -> float:
         time_step = min(self._time_step_generator(), self._end_time - self.time)
 
diff --git a/finite_element/solver.py b/finite_element/solver.py
index 5722cb4..f775b3a 100644
--- a/finite_element/solver.py
+++ b/finite_element/solver.py
@@ -12,6 +12,7 @@ class Solver(core.Solver):
         )
         self.solution.set_value(initial_data.value, initial_data.time)
         self._ode_solver.reinitialize(initial_data.value, initial_data.time)
+        self._time_stepping.reinitialize()
 
 
 class SolverParser(core.SolverParser):
-- 
2.43.0


From dd05051984aa54db44c48ef693ffaeed52a5eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 20/31] fix: es1 took the entropy step between wrong values
 unless left and right values are neighbouring cells

---
 finite_volume/shallow_water/solver/energy_stable.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index d465edd..dfbf845 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -74,11 +74,7 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_diffusion(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> np.ndarray:
-        entropy = self._entropy(
-            finite_volume.get_dof_vector(value_left, value_right),
-            bathymetry=self._bathymetry,
-        )
-        entropy_step = self._get_entropy_step(entropy)
+        entropy_step = self._get_entropy_step(value_left, value_right)
 
         diffusion_matrix = self._get_diffusion_matrix(value_left, value_right)
 
@@ -133,8 +129,11 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
         )
         return np.moveaxis(Lambda, -1, 0)
 
-    def _get_entropy_step(self, entropy: np.ndarray) -> np.ndarray:
-        entropy_step = np.diff(entropy, axis=0)
+    def _get_entropy_step(
+        self, value_left: np.ndarray, value_right: np.ndarray
+    ) -> np.ndarray:
+        entropy_step = self._entropy(value_right) - self._entropy(value_left)
+        entropy_step[:, 0] += self._gravitational_acceleration * self._bathymetry_step
         return entropy_step[..., None]
 
 
-- 
2.43.0


From 16981f06fda04bf0371092b1f0193fc61404e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 21/31] fix: seed the untrained network of a resumed training
 without stored parameters

---
 command/train_network.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/command/train_network.py b/command/train_network.py
index b327069..cd460ea 100644
--- a/command/train_network.py
+++ b/command/train_network.py
@@ -13,6 +13,14 @@ from finite_volume.shallow_water.solver import NETWORK_TYPES, ReducedNetwork
 from .command import Command, CommandParser
 
 
+def set_seed(seed: int):
+    torch.manual_seed(seed)
+    torch.cuda.manual_seed(seed)
+    torch.cuda.manual_seed_all(seed)
+    np.random.seed(seed)
+    random.seed(seed)
+
+
 class TrainNetwork(Command):
     _network: ReducedNetwork
     _epochs: int
@@ -36,14 +44,7 @@ class TrainNetwork(Command):
         self._confirm = confirm
 
         if seed is not None:
-            self._set_seed(seed)
-
-    def _set_seed(self, seed: int):
-        torch.manual_seed(seed)
-        torch.cuda.manual_seed(seed)
-        torch.cuda.manual_seed_all(seed)
-        np.random.seed(seed)
-        random.seed(seed)
+            set_seed(seed)
 
     def execute(self):
         df = pd.read_csv(
@@ -184,6 +185,10 @@ class TrainNetworkParser(CommandParser):
         )
 
     def postprocess(self, arguments):
+        if arguments.seed is not None:
+            # an untrained network is initialized if nothing could be loaded
+            set_seed(arguments.seed)
+
         arguments.network = NETWORK_TYPES[arguments.network](warm_start=True)
         self._load_network(arguments)
         arguments.network.set_params(**self._get_network_parameters(arguments))
-- 
2.43.0


From 031cd597351f7f2ee7529122072aa5bbac8e13c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 22/31] fix: plot data of solvers with the same short name
 overwrote each other

---
 command/plot.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/command/plot.py b/command/plot.py
index 5b9dd09..5072988 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -2,7 +2,7 @@ import argparse
 import os
 import pickle
 from abc import ABC, abstractmethod
-from typing import Any, Callable, Generic, List, Optional, TypeVar
+from typing import Any, Callable, Dict, Generic, List, Optional, TypeVar
 
 import core
 import defaults
@@ -21,6 +21,23 @@ class NothingToPlotError(Exception):
     ...
 
 
+def get_line_data(axes: plt.Axes) -> Dict[str, Dict[str, np.ndarray]]:
+    """Returns the data of all lines by label. Repeated labels are numbered."""
+    results = dict()
+
+    for line in axes.get_lines():
+        label = key = line.get_label()
+        number = 1
+
+        while key in results:
+            number += 1
+            key = f"{label} ({number})"
+
+        results[key] = {"xdata": line.get_xdata(), "ydata": line.get_ydata()}
+
+    return results
+
+
 class Plotter(ABC, Generic[T]):
     _benchmark: core.Benchmark
     _grid: np.ndarray
@@ -134,16 +151,8 @@ class ScalarPlotter(Plotter[float]):
 
     def _save_results(self):
         if self._save_data:
-            results = dict()
-
-            for line in self._axes.get_lines():
-                results[line.get_label()] = {
-                    "xdata": line.get_xdata(),
-                    "ydata": line.get_ydata(),
-                }
-
             with open(self._save_data, "wb") as f:
-                pickle.dump(results, f)
+                pickle.dump(get_line_data(self._axes), f)
 
             tqdm.write(f"Plots data are saved in '{self._save_data}'.")
 
@@ -264,15 +273,8 @@ class ShallowWaterPlotter(Plotter[np.ndarray]):
             tqdm.write(f"Plots data are saved in '{base_name}_{{h,q,l}}{extension}'.")
 
     def _save_result(self, axes: ..., path: str):
-        results = dict()
-        for line in axes.get_lines():
-            results[line.get_label()] = {
-                "xdata": line.get_xdata(),
-                "ydata": line.get_ydata(),
-            }
-
         with open(path, "wb") as f:
-            pickle.dump(results, f)
+            pickle.dump(get_line_data(axes), f)
 
 
 class Plot(Command):
-- 
2.43.0


From 4a275665e5f5432f379a5de80e8b396e4a5a1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 23/31] fix: animations without exact solution ignored the
 number of time steps

---
 command/animate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/command/animate.py b/command/animate.py
index 094da6e..8c7e640 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -127,7 +127,9 @@ class Animator(ABC, Generic[T]):
             raise NothingToAnimateError
 
     def _setup(self):
-        self._temporal_grid = reduce(np.union1d, self._temporal_grids)
+        self._temporal_grid = reduce(
+            np.union1d, self._temporal_grids, self._temporal_grid
+        )
         self._adjust_values()
         self._adjust_axes()
         self._build_animation()
-- 
2.43.0


From 817240e1b23985fcfb37708371560482049283f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 24/31] fix: animate without solver raised a TypeError

---
 command/animate.py   | 2 +-
 command/calculate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 8c7e640..de4b51b 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -400,7 +400,7 @@ class Animate(Command):
         if isinstance(solver, core.Solver):
             self._solver = [solver]
         else:
-            self._solver = solver
+            self._solver = solver or []
 
     def execute(self):
         if not self._solver_executed:
diff --git a/command/calculate.py b/command/calculate.py
index 69a7b18..9c82188 100644
--- a/command/calculate.py
+++ b/command/calculate.py
@@ -214,5 +214,5 @@ class CalculateParser(CommandParser):
             arguments.solver = solver_list
 
     def _add_save_history_argument(self, arguments):
-        for solver_arguments in arguments.solver:
+        for solver_arguments in arguments.solver or []:
             solver_arguments.save_history = True
-- 
2.43.0


From 78d041f17afcc0ea2d7111eb1fdbfd6cbadfb1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 25/31] fix: averaging no error evolutions aborted all
 remaining parameter variations

---
 command/error_evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 2dbcc28..f9b2da4 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -293,6 +293,10 @@ class PlotShallowWaterAverageErrorEvolution(Command):
         self._save = save
 
     def execute(self):
+        if len(self._errors) == 0:
+            tqdm.write("WARNING: There are no errors to average.")
+            return
+
         time, errors = self._adjust_errors()
         mean = np.mean(errors, axis=0)
         error_max = np.max(errors, axis=0)
-- 
2.43.0


From 269f1d29c7293840a0eed1804f005ed6a057cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 26/31] fix: an antidiffusion parameter of zero is not replaced
 by the default

---
 finite_volume/shallow_water/solver/antidiffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/antidiffusion.py b/finite_volume/shallow_water/solver/antidiffusion.py
index 85c15dd..37db589 100644
--- a/finite_volume/shallow_water/solver/antidiffusion.py
+++ b/finite_volume/shallow_water/solver/antidiffusion.py
@@ -18,7 +18,7 @@ class LinearAntidiffusiveSolver(swe.Solver):
         flux_getter=None,
         **kwargs
     ) -> Dict:
-        self._gamma = gamma or defaults.ANTIDIFFUSION_GAMMA
+        self._gamma = defaults.ANTIDIFFUSION_GAMMA if gamma is None else gamma
         self._get_raw_flux = flux_getter or LaxFriedrichsFluxGetter()
 
         return super()._get_solver_args(benchmark, **kwargs)
-- 
2.43.0


From b99da425d842825ea894dbff8c0dc476d8340410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 27/31] fix: animations which start at time zero do not start
 earlier

---
 command/animate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/command/animate.py b/command/animate.py
index de4b51b..2597a1c 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -63,7 +63,9 @@ class Animator(ABC, Generic[T]):
             time_steps or defaults.TIME_STEPS,
         )
         self._save = save
-        self._start_time = start_time or self._benchmark.start_time
+        self._start_time = (
+            self._benchmark.start_time if start_time is None else start_time
+        )
         self._duration = duration or defaults.DURATION
         self._show = show
 
-- 
2.43.0


From 7c53a878fab7bf9ff541caf33318f80fdec30327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 28/31] fix: generated data uses the seed zero when it is asked
 for

---
 command/generate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index e67344f..8d66141 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -303,7 +303,7 @@ class GenerateData(Command):
         self._solver = solver
         self._solution_number = solution_number or defaults.SOLUTION_NUMBER
         self._get_benchmark = shallow_water.RandomBenchmarkGenerator(
-            seed=seed or defaults.SEED, end_time=end_time
+            seed=defaults.SEED if seed is None else seed, end_time=end_time
         )
         self._benchmark_df_builder = BenchparkParameterDataFrameBuilder()
         self._subgrid_flux_df_builder = self._get_subgrid_flux_data_frame_builder(
-- 
2.43.0


From 7113b0e4e08f9cb558e2299c4481698232b33852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 29/31] fix: curvature thresholds of zero are not replaced by
 the defaults

---
 command/delete_curvature.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/command/delete_curvature.py b/command/delete_curvature.py
index bb911fe..cd0a300 100644
--- a/command/delete_curvature.py
+++ b/command/delete_curvature.py
@@ -26,8 +26,16 @@ class DeleteCurvature(Command):
         self._data_path = data_path
         self._target_path = target_path
         self._step_length = step_length or 2.0
-        self._curvature_height_threshold = curvature_height_threshold or 0.25
-        self._curvature_discharge_threshold = curvature_discharge_threshold or 0.5
+        self._curvature_height_threshold = (
+            0.25
+            if curvature_height_threshold is None
+            else curvature_height_threshold
+        )
+        self._curvature_discharge_threshold = (
+            0.5
+            if curvature_discharge_threshold is None
+            else curvature_discharge_threshold
+        )
 
     def execute(self):
         df = pd.read_csv(
-- 
2.43.0


From bbd16ca087fc9e2c8d18393a52541dd6a0e3d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:02 +0000
Subject: [PATCH 30/31] fix: the finite volume time step passes the time to the
 boundary conditions

---
 finite_volume/time_stepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/time_stepping.py b/finite_volume/time_stepping.py
index 557a880..81e082b 100644
--- a/finite_volume/time_stepping.py
+++ b/finite_volume/time_stepping.py
@@ -20,7 +20,7 @@ class OptimalTimeStep:
 
     def __call__(self, time: float, dof_vector: np.ndarray) -> float:
         self._riemann_solver.solve(
-            *self._boundary_conditions.get_node_neighbours(dof_vector)
+            *self._boundary_conditions.get_node_neighbours(dof_vector, time=time)
         )
 
         return self._step_length / np.max(
-- 
2.43.0


From ce036f831512d8347b363a0d14f6e95d096f91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:48 +0000
Subject: [PATCH 31/31] fix: saved animations last as long as requested, also
 with few frames

---
 command/animate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 2597a1c..8c9d0c8 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -81,8 +81,8 @@ class Animator(ABC, Generic[T]):
         return np.where(self._temporal_grid >= self._start_time)[0][0]
 
     @property
-    def frames_per_second(self) -> int:
-        return int((len(self._temporal_grid) - self.start_index) / self._duration)
+    def frames_per_second(self) -> float:
+        return (len(self._temporal_grid) - self.start_index) / self._duration
 
     def set_suptitle(self, suptitle: str):
         self._figure.suptitle(
-- 
2.43.0

