From 9471b644bee49f6ba2037d957ef01d729597d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 01/55] fix: keep exported temporaries alive while their ids
 are used to detect stored objects

---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 783a523..709b974 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -107,6 +107,8 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         serialized[id(obj)] = hdf5_group
 
         data = obj.to_hdf5()
+        # the exported objects may be temporaries whose id must not be reused while serialized is in use
+        serialized.setdefault('#keep_alive', []).append(data)
         for key, value in data.items():
             _to_hdf5(hdf5_group, key, value, serialized)
         return
-- 
2.43.0


From b767ad4af5eb387becdb12534d2103ee35dabf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 02/55] fix: restore strings as str instead of the
 representation of their bytes

---
 qtune/storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 709b974..adaeff4 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -249,12 +249,14 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
 
             if hdf5_obj.attrs['#type'] == 'Series':
                 idx = hdf5_obj.attrs['index']
-                result = pd.Series(data=np.asarray(hdf5_obj), index=idx)
+                is_str = h5py.check_string_dtype(hdf5_obj.dtype) is not None
+                data = hdf5_obj.asstr()[...] if is_str else np.asarray(hdf5_obj)
+                result = pd.Series(data=data, index=idx)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'str':
-                result = str(np.asarray(hdf5_obj))
+                result = hdf5_obj.asstr()[()]
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From 2aaefe9b925dbdadc144ae5082f81390b694b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 03/55] fix: keep parameters without desired value invariant in
 the Newton step

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index f32e986..cc04fab 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -229,7 +229,8 @@ class NewtonSolver(Solver):
         # our jacobian is sufficiently accurate
         # nan targets are replaced with the current values
 
-        required_diff = self.target.desired.add(-1 * self._current_values, fill_value=0).fillna(0)
+        required_diff = self.target.desired.fillna(self._current_values).add(-1 * self._current_values,
+                                                                             fill_value=0).fillna(0)
 
         jacobian = self.jacobian[self._current_position.index]
 
-- 
2.43.0


From 10b47c718bf88274d5672143e3a3abf82525451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 04/55] fix: update last voltages and estimator positions on
 restart

---
 qtune/gradient.py        | 3 ++-
 qtune/parameter_tuner.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a699a6a..5b5c587 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -44,7 +44,8 @@ class GradientEstimator(metaclass=HDF5Serializable):
 
     @current_position.setter
     def current_position(self, new_positions: pd.Series):
-        index_intersection = new_positions.index.intersection(self.current_position)
+        index_intersection = new_positions.index.intersection(self.current_position.index)
+        self._current_position = self._current_position.copy()
         self._current_position[index_intersection] = new_positions[index_intersection]
 
     def change_position(self, new_position: pd.Series):
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fb394b9..e0fc842 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -107,7 +107,8 @@ class ParameterTuner(metaclass=HDF5Serializable):
         if self.last_voltages is None or self.last_voltages.empty:
             self._last_voltage = new_voltages
         else:
-            index_intersection = self.last_voltages.index.intersection(new_voltages)
+            index_intersection = self.last_voltages.index.intersection(new_voltages.index)
+            self._last_voltage = self._last_voltage.copy()
             self._last_voltage[index_intersection] = new_voltages[index_intersection]
 
     @property
-- 
2.43.0


From cfbf5656ade9303bc4337070ecd6d01d6ae70ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 05/55] fix: allow to reload a finite differences estimator
 with stored measurements

---
 qtune/gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 5b5c587..435835a 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -115,8 +115,8 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         self._covariance = covariance
 
         if stored_measurements is not None:
-            for measurement in stored_measurements:
-                pd.testing.assert_index_equal(measurement.index, epsilon.index)
+            for position, *_ in stored_measurements:
+                pd.testing.assert_index_equal(position.index, self._current_position.index)
         self._stored_measurements = stored_measurements or []
 
         # only for debugging purposes
-- 
2.43.0


From 1dcef032c9ff6cafa33f34156caeaeee3bd3bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 06/55] fix: let the self initializing kalman estimator create
 its kalman estimator

---
 qtune/gradient.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 435835a..3ad3775 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -394,7 +394,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
         finite_differences_estimator = FiniteDifferencesGradientEstimator(current_position=current_position,
                                                                           epsilon=epsilon,
                                                                           symmetric=symmetric)
-        kalman_arguments = dict(maximum_covariance=maximum_covariance)
+        kalman_arguments = dict(maximum_covariance=maximum_covariance, epsilon=epsilon)
 
         return cls(finite_difference_estimator=finite_differences_estimator,
                    kalman_arguments=kalman_arguments)
@@ -447,12 +447,12 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
             kalman_gradient = KalmanGradient(n_pos_dim=initial_estimate.size,
                                              n_values=1,
                                              initial_gradient=initial_estimate,
-                                             initial_covariance_matrix=self.finite_difference_estimator.covariance()
-                                             **self._kalman_gradient_arguments)
+                                             initial_covariance_matrix=self.finite_difference_estimator.covariance(),
+                                             **(self._kalman_gradient_arguments or {}))
             self._kalman_estimator = KalmanGradientEstimator(kalman_gradient=kalman_gradient,
                                                              current_position=position[initial_estimate.index],
                                                              current_value=value,
-                                                             **self._kalman_arguments)
+                                                             **(self._kalman_arguments or {}))
 
     def to_hdf5(self):
         return dict(finite_difference_estimator=self._finite_difference_estimator,
-- 
2.43.0


From a187aa44f5e765b81887370d2cedca88377eb685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 07/55] fix: restart both estimators of the self initializing
 kalman estimator

---
 qtune/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 3ad3775..569f826 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -454,6 +454,11 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
                                                              current_value=value,
                                                              **(self._kalman_arguments or {}))
 
+    def restart(self, new_position):
+        self._finite_difference_estimator.restart(new_position)
+        if self.kalman_estimator:
+            self.kalman_estimator.restart(new_position)
+
     def to_hdf5(self):
         return dict(finite_difference_estimator=self._finite_difference_estimator,
                     kalman_estimator=self._kalman_estimator,
-- 
2.43.0


From da6a663526eae1a9f7fd41f0dc424fedd406d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 08/55] fix: make the default cost function of the
 NelderMeadSolver serializable

---
 qtune/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index cc04fab..245ae8c 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -285,7 +285,7 @@ class NelderMeadSolver(Solver):
                  current_values: pd.Series,
                  reflected_point: Optional[Tuple[pd.Series, pd.Series]] = None,
                  shrunk_points: Optional[Sequence[Tuple[pd.Series, pd.Series]]] = None,
-                 cost_function: Callable = lambda v: np.sum(v * v),
+                 cost_function: Optional[Callable] = None,
                  state='built_up'):
         """
 
@@ -345,7 +345,7 @@ class NelderMeadSolver(Solver):
         if self._cost_function:
             return self._cost_function(values)
         else:
-            np.sum(values * values)
+            return np.sum(values * values)
 
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
-- 
2.43.0


From 6e78b6536e6a838a056e96a8bdd88a0c249f53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 09/55] fix: export the NelderMeadSolver state such that the
 constructor accepts it

---
 qtune/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 245ae8c..cfef7f9 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -502,7 +502,7 @@ class NelderMeadSolver(Solver):
                     reflected_point=self._reflected_point,
                     shrunk_points=self._shrunk_points,
                     cost_function=self._cost_function,
-                    state=str(self._state))
+                    state=self._state.value)
 
 
 class ForwardingSolver(Solver):
-- 
2.43.0


From 7704d4f4c2708d7a6a94eb26c8fe384c7204032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 10/55] fix: accept tuned parameters in suggest_next_position
 of every solver

---
 qtune/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index cfef7f9..2ea902e 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -370,7 +370,7 @@ class NelderMeadSolver(Solver):
         self._simplex = self._get_sorted_simplex()
         self._simplex.pop()
 
-    def suggest_next_position(self) -> pd.Series:
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
         worst_position = positions[-1]
 
@@ -528,7 +528,7 @@ class ForwardingSolver(Solver):
             next_position = next_position[self._current_position.index]
         self._next_position = next_position
 
-    def suggest_next_position(self, tuned_parameters) -> pd.Series:
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         return self._next_position
 
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
-- 
2.43.0


From e5be48be48057d29b228fbbec12dd37c38932ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 11/55] fix: allow to restart the NelderMeadSolver and to
 change its target

---
 qtune/solver.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 2ea902e..9dd43c0 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -88,6 +88,7 @@ class Solver(metaclass=HDF5Serializable):
     @current_position.setter
     def current_position(self, new_position: pd.Series):
         labels = self._current_position.index.intersection(new_position.index)
+        self._current_position = self._current_position.copy()
         self._current_position[labels] = new_position[labels]
 
     @property
@@ -328,10 +329,6 @@ class NelderMeadSolver(Solver):
                    current_values=current_values,
                    simplex=simplex)
 
-    @property
-    def target(self):
-        return self._target
-
     @property
     def simplex(self) -> Deque[Tuple[pd.Series, pd.Series]]:
         """Sorted chronologically if state=built_up otherwise sorted by cost"""
@@ -350,10 +347,6 @@ class NelderMeadSolver(Solver):
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
 
-    @property
-    def current_position(self) -> pd.Series:
-        return self._current_position
-
     @property
     def current_values(self) -> pd.Series:
         return self._current_values
-- 
2.43.0


From ae45921002a5ffac9c979770a14afb613e13c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 12/55] fix: start a new iteration after expansion, contraction
 and shrinking of the simplex

---
 qtune/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index 9dd43c0..cd292d8 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -443,6 +443,7 @@ class NelderMeadSolver(Solver):
                 self._insert_into_simplex(position, values)
             else:
                 self._insert_into_simplex(reflected_pos, reflected_val)
+            self._state = self.State.start_iteration
 
         elif self._state == self.State.contract_outside:
             reflected_pos, reflected_val = self._reflected_point
@@ -451,6 +452,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < reflection_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -461,6 +463,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < worst_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -472,6 +475,7 @@ class NelderMeadSolver(Solver):
                 for shrink_point in self._shrunk_points:
                     self._insert_into_simplex(*shrink_point)
                 self._shrunk_points = []
+                self._state = self.State.start_iteration
 
         else:
             # we just got a point without requesting it
-- 
2.43.0


From 2c5baced17f277c27b99d60f2a62a1aab941ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 13/55] fix: do not descale the values of the caller in the
 ForwardingSolver

---
 qtune/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index cd292d8..c91c062 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -540,6 +540,7 @@ class ForwardingSolver(Solver):
             position[position.index.intersection(self.current_position.index)]
         self._next_position[position.index.intersection(self._next_position.index)] = \
             position[position.index.intersection(self.current_position.index)]
+        values, variances = values.copy(), variances.copy()
         self.descale_values(values, variances)
         new_position_names = self._values_to_position[
             values.index.intersection(self._values_to_position.index)].dropna()
-- 
2.43.0


From a1e07af935e838ac4734be7d9472bf6cb427253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 14/55] fix: make the state of the ForwardingSolver a property
 like in the base class

---
 qtune/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index c91c062..814acc7 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -546,6 +546,7 @@ class ForwardingSolver(Solver):
             values.index.intersection(self._values_to_position.index)].dropna()
         self._next_position[new_position_names] = values[new_position_names.index]
 
+    @property
     def state(self):
         return pd.Series()
 
-- 
2.43.0


From aa9f768cf0bece4713b0044dbfe93e42e2db9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 15/55] fix: match variances to gradient estimators by
 parameter name

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 814acc7..90a1f56 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -247,7 +247,8 @@ class NewtonSolver(Solver):
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
         for estimator, value, value_index, variance in zip(self._gradient_estimators,
                                                            values[self._current_values.index],
-                                                           self._current_values.index, variances):
+                                                           self._current_values.index,
+                                                           variances[self._current_values.index]):
             if not math.isnan(self.target.desired[value_index]):
                 estimator.update(position, value, variance, is_new_position=True)
         self._current_position = position[self._current_position.index]
-- 
2.43.0


From f75f8d217f1ea894166df06cb6a988a8c794f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 16/55] fix: use empty data instead of the class for unknown
 gradients in the history

---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c074e76..e091329 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -560,11 +560,11 @@ def extract_gradients_from_hierarchy(tuning_hierarchy) -> (Dict[str, pd.Series],
         if isinstance(tuner.solver, qtune.solver.NewtonSolver):
             for i, grad_est in enumerate(tuner.solver.gradient_estimators):
                 if grad_est.estimate() is None:
-                    gradients[tuner.solver.target.index[i]] = pd.Series
+                    gradients[tuner.solver.target.index[i]] = pd.Series()
                 else:
                     gradients[tuner.solver.target.index[i]] = grad_est.estimate()
                 if grad_est.covariance() is None:
-                    covariances[tuner.solver.target.index[i]] = pd.Series
+                    covariances[tuner.solver.target.index[i]] = pd.DataFrame()
                 else:
                     covariances[tuner.solver.target.index[i]] = grad_est.covariance()
     return gradients, covariances
-- 
2.43.0


From db8d037fb57f69f0bbd78665145c280f7da044a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 17/55] fix: read gradients and covariances only from the
 columns of the requested parameter

---
 qtune/history.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index e091329..4b06c92 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -209,8 +209,8 @@ class History:
         :param parameter_name: Parameter of the gradient of interest.
         :return: Gradient history.
         """
-        regex = re.compile(self._gradient_name.format(parameter_name=parameter_name,
-                                                      gate_name=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
+                                                            gate_name=r'([^#]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -219,13 +219,13 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: Gradient covariance history.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'([\w\s\d]+)',
-                                                                 gate_name_2=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'([^#]+)',
+                                                                       gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
 
-        return pd.DataFrame(df, columns=pd.MultiIndex.from_tuples(map(regex.findall, df.columns)))
+        return df.set_axis(pd.MultiIndex.from_tuples([regex.findall(name)[0] for name in df.columns]), axis='columns')
 
     def get_gradient_variances(self, parameter_name) -> pd.DataFrame:
         """
@@ -233,9 +233,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: History of the diagonal of the covariance matrix.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'(?P<gatename>[\w\s\d]+)',
-                                                                 gate_name_2=r'(?P=gatename)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'(?P<gatename>[^#]+)',
+                                                                       gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
     def read_autotuner_to_data_frame(self, autotuner: qtune.autotuner.Autotuner, start: int = 0,
-- 
2.43.0


From 28a7bf16758175ba9be5e1ea1f0653bba02d083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 18/55] fix: keep rows, paths and evaluator data of the history
 aligned for rows without evaluation

---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 4b06c92..b8260cb 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -251,7 +251,7 @@ class History:
             end = len(autotuner.tuning_hierarchy)
         elif end == 0:
             voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy)
-            return pd.DataFrame(dict(voltages), index=[0, ])
+            return pd.DataFrame(dict(voltages, tuner_index=autotuner.current_tuner_index), index=[0, ], dtype=float)
 
         if self._data_frame.empty:
             voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy)
@@ -581,7 +581,7 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
     if end is None:
         end = len(autotuner.tuning_hierarchy)
     relevant_tuner = autotuner.tuning_hierarchy[int(start):end]
-    evaluator_data = pd.DataFrame()
+    evaluator_data = pd.DataFrame(index=[0, ])
     for par_tuner in relevant_tuner:
         if isinstance(par_tuner, qtune.parameter_tuner.SensingDotTuner):
             relevant_evaluators = par_tuner.cheap_evaluators
-- 
2.43.0


From 0b3d266a248ce9dd94f164860bf3f36d28ead05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 19/55] fix: return the data read by read_files

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index b8260cb..e76fcc9 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -116,7 +116,7 @@ def read_files(file_or_files, reserved=None):
 
                 data.append((entry, entry_data))
 
-    return data.sort(key=operator.itemgetter(0))
+    return sorted(data, key=operator.itemgetter(0))
 
 
 class History:
-- 
2.43.0


From ae61b3ba8b4ee08fda60719023b1cf2d9495f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 20/55] fix: skip all unknown evaluators without changing the
 list of the caller

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index e76fcc9..fcfa3a8 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -420,7 +420,7 @@ class History:
         for name in evaluator_names:
             if name not in self._evaluator_data.columns:
                 self.logger.warning(name + ' is not in the evaluation data.')
-                evaluator_names.remove(name)
+        evaluator_names = [name for name in evaluator_names if name in self._evaluator_data.columns]
 
         if end is None:
             end = start + 1
-- 
2.43.0


From 00812ab13ca3a22ea550c2afe1e9cb91d915bd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 21/55] fix: let SensingDot1D process its raw data

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 008e6d9..87c596b 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -642,7 +642,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.polynomial.poly1d(coef[::-1])
+        polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
@@ -652,7 +652,7 @@ class SensingDot1D(Evaluator):
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
-        self.current_signal = derivative_approximation[0.5 * self.measurements[0].options['N_points']]
+        self.current_signal = derivative_approximation[len(raw_x_data) // 2]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
 
-- 
2.43.0


From d1d80654f9d4be45315d070fff5cc7924c2ac0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 22/55] fix: store the flank of the sensing dot evaluators

---
 qtune/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 87c596b..bc8064d 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -594,7 +594,7 @@ class SensingDot1D(Evaluator):
                  optimal_signal=None,
                  optimal_position=None,
                  name='SensingDot1D',
-                 rising_flank=Optional[bool]):
+                 rising_flank: Optional[bool]=None):
         self._sweeping_gate = sweeping_gate
         self.current_signal = current_signal
         self.optimal_signal = optimal_signal
@@ -661,7 +661,8 @@ class SensingDot1D(Evaluator):
                     sweeping_gate=self._sweeping_gate,
                     current_signal=self.current_signal,
                     optimal_signal=self.optimal_signal,
-                    optimal_position=self.optimal_position)
+                    optimal_position=self.optimal_position,
+                    rising_flank=self._rising_flank)
 
 
 class SensingDot2D(Evaluator):
@@ -765,7 +766,8 @@ class SensingDot2D(Evaluator):
         return dict(super().to_hdf5(),
                     sweeping_gates=self._sweeping_gates,
                     scan_range=self._scan_range,
-                    new_voltages=self._new_voltages)
+                    new_voltages=self._new_voltages,
+                    rising_flank=self._rising_flank)
 
 
 class AveragingEvaluator(Evaluator):
-- 
2.43.0


From 4378087e803a490922490742149c8f23fa4c22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 23/55] fix: forget finished evaluations on restart and on
 changes of the targets

---
 qtune/autotuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index cfed351..b0e6841 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -216,6 +216,7 @@ class Autotuner(metaclass=HDF5Serializable):
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
 
     def __getstate__(self):
@@ -294,6 +295,7 @@ class Autotuner(metaclass=HDF5Serializable):
         """ Reads new voltages and communicates them to the member classes. This function can be called when the
         experiment has been configured manually."""
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
         current_voltages = self._experiment.read_gate_voltages()
         for par_tuner in self.tuning_hierarchy:
-- 
2.43.0


From 2436724a5c141b0ce45b1379dc2818209b98b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 24/55] fix: restore shifted gates if the measurement of a lead
 transition fails

---
 qtune/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index bc8064d..7730716 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -539,9 +539,11 @@ class LeadTransition(Evaluator):
         raw_data = []
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
-            self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
-            raw_data.append(self.experiment.measure(measurement))
-            self.experiment.set_gate_voltages(current_gate_voltages)
+            try:
+                self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
+                raw_data.append(self.experiment.measure(measurement))
+            finally:
+                self.experiment.set_gate_voltages(current_gate_voltages)
         transition_positions, error = self.process_raw_data(raw_data=raw_data)
 
         # TODO: this should be obsolete
-- 
2.43.0


From b7e54fc9838ae65eb2975f46851ca61d1dcc2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 25/55] fix: store the actual transition width of the
 LeadTransition

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 7730716..6e86408 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -576,7 +576,7 @@ class LeadTransition(Evaluator):
                     transition_positions=self.transition_positions,
                     shifting_gates=self._shifting_gates,
                     charge_diagram_width=self._charge_diagram_width,
-                    transition_width=.2e-3)
+                    transition_width=self.transition_width)
 
 
 class SensingDot1D(Evaluator):
-- 
2.43.0


From 8b89d8869f08d92d8da6df8c70510e759f298835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 26/55] fix: drop queued steps as soon as the remaining step
 fits into the maximal step size

---
 qtune/parameter_tuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index e0fc842..59005dd 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -273,6 +273,8 @@ class SubsetTuner(ParameterTuner):
                 self._number_queued_steps = min(number_of_steps, self._maximal_step_number)
             self._number_queued_steps -= 1
             step *= self._maximal_step_size / np.linalg.norm(step)
+        else:
+            self._number_queued_steps = 0
 
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
-- 
2.43.0


From 4c6b5ba7d184674245706ca11ffca967f7c8fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 27/55] fix: allow parameters without target which no evaluator
 measures

---
 qtune/parameter_tuner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 59005dd..0419a21 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -162,7 +162,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
             parameter, variance = evaluator.evaluate()
             parameters.append(parameter)
             variances.append(variance)
-        return pd.concat(parameters)[self.parameters], pd.concat(variances)[self.parameters]
+        return pd.concat(parameters).reindex(self.parameters), pd.concat(variances).reindex(self.parameters)
 
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
-- 
2.43.0


From ca0a3cfcc5a26c164d828d8dbba456757f3ca5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 28/55] fix: store the recovery state of the SensingDotTuner

---
 qtune/parameter_tuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 0419a21..d0718ed 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -404,7 +404,9 @@ class SensingDotTuner(ParameterTuner):
                     expensive_evaluators=self._expensive_evaluators,
                     gates=self._tunable_gates,
                     solver=self.solver,
+                    tuned_voltages=self._tuned_voltages,
                     last_voltage=self._last_voltage,
                     last_parameter_values=self._last_parameter_values,
                     last_parameters_variances=self._last_parameters_variances,
+                    last_evaluation_failed=self._last_evaluation_failed,
                     cheap_evaluation_only=self.cheap_evaluation_only)
-- 
2.43.0


From db0c209fa6ad8921896a19ff5a237b652c6356b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 29/55] fix: do not forward failed expensive evaluations to the
 solver

---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index d0718ed..6fba8f7 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -367,6 +367,10 @@ class SensingDotTuner(ParameterTuner):
                 self._last_parameter_values[current_parameter.index] = current_parameter[current_parameter.index]
                 self._last_parameters_variances[current_parameter.index] = variances[current_parameter.index]
 
+                if current_parameter.isnull().values.any():
+                    self._last_evaluation_failed = True
+                    return False
+
             self.solver.update_after_step(voltages, current_parameter, variances)
             return False
         else:
-- 
2.43.0


From e160ca9940fd7623598e93794ac22178bd9278d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 30/55] fix: store the sample rate of the
 LeadTunnelTimePrefitVersion

---
 qtune/evaluator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 6e86408..1b96841 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -199,6 +199,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
+                    sample_rate=self.sample_rate,
                     evaluation_arguments=self.evaluation_arguments)
 
 
-- 
2.43.0


From 6e9e6b7c9c7089238adc3f9104da4781fe1c2592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 31/55] fix: report failed lead tunnel time fits as nan like
 the other fitting evaluators

---
 qtune/evaluator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 1b96841..7e086f4 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -154,7 +154,12 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         self._raw_y_data = []
         self._raw_x_data = []
         raw_data = self.experiment.measure(self.measurements[0])
-        self._fit_results, residual = self.process_raw_data(raw_data)
+        try:
+            self._fit_results, residual = self.process_raw_data(raw_data)
+        except RuntimeError:
+            self.logger.error('The following evaluator could not fit its data:' + str(self))
+            self._fit_results = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                              'offset'])
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
@@ -257,7 +262,13 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
 
     def evaluate(self) -> (pd.Series, pd.Series):
         raw_data = self.experiment.measure(self.measurements[0])
-        fitresult, residual = self.process_raw_data(raw_data)
+        try:
+            fitresult, residual = self.process_raw_data(raw_data)
+        except RuntimeError:
+            self.logger.error('The following evaluator could not fit its data:' + str(self))
+            fitresult = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                      'offset', 'slope', 'offset_linear', 'length_lin_fall', 'slope_1',
+                                                      'offset_linear_1', 'length_lin_rise'])
         self._fit_results = fitresult
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
-- 
2.43.0


From 7d6a4a7c26d393898449c088a92663410edc7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 32/55] fix: do not wait for the queue of a writer whose worker
 may have died

---
 qtune/storage.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index adaeff4..a658117 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -351,7 +351,6 @@ class AsynchronousHDF5Writer:
         """Stop writing and join thread."""
         if self._worker.is_alive():
             self._queue.put(None)
-            self._queue.join()
 
         elif self._queue.qsize():
             warnings.warn("Storage queue contains data but the writer worker is already dead.")
-- 
2.43.0


From 5dce554d1423fb978bf7cf01197f6a9b4888c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 33/55] fix: do not overwrite the data of the caller in
 find_lead_transition

---
 qtune/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/util.py b/qtune/util.py
index a46e05d..5becad2 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -74,7 +74,7 @@ def find_lead_transition(data: np.ndarray, center: float, scan_range: float, npo
     if len(data.shape) == 2:
         y = np.mean(data, 0)
     elif len(data.shape) == 1:
-        y = data
+        y = data.copy()
     else:
         print('data must be a one or two dimensional array!')
         return np.nan
-- 
2.43.0


From 472e8ede23dcae701a367544455a7460b97faef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 34/55] fix: read the version from the repository of qtune
 instead of the working directory

---
 qtune/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index 5becad2..167508a 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -303,8 +303,8 @@ def get_git_info():
 
         try:
             commit_time = int(subprocess.check_output(['git', 'show', '-s', '--format=%ct', 'HEAD'],
-                                                      timeout=3).strip().decode('ascii'))
-            commit_hash = subprocess.check_output(['git', 'rev-parse', 'HEAD'], timeout=3).strip().decode('ascii')
+                                                      cwd=git_root, timeout=3).strip().decode('ascii'))
+            commit_hash = subprocess.check_output(['git', 'rev-parse', 'HEAD'], cwd=git_root, timeout=3).strip().decode('ascii')
             return commit_time, commit_hash
         except (FileNotFoundError, subprocess.CalledProcessError, subprocess.TimeoutExpired):
             pass
-- 
2.43.0


From 2d5aa6a106e9edbd2e7f44d1820c91779b07c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 35/55] fix: log through the logger and not through its name in
 the GUI

---
 qtune/gui.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 41ac735..71dc341 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -684,13 +684,13 @@ class GUI(QtWidgets.QMainWindow):
 
     def _join_worker(self):
         if self._thread.is_alive():
-            self._logger.info('Joining thread')
+            self.logger.info('Joining thread')
         self._stop = True
         self._thread.join()
 
     def restart_thread(self):
         self._join_worker()
-        self._logger.info('Restarting thread')
+        self.logger.info('Restarting thread')
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -707,7 +707,7 @@ class GUI(QtWidgets.QMainWindow):
                     try:
 
                         if self.auto_tuner.is_tuning_complete():
-                            self._logger.info('Tuning completed')
+                            self.logger.info('Tuning completed')
                             self.pause()
                         else:
                             self.auto_tuner.iterate()
@@ -718,10 +718,10 @@ class GUI(QtWidgets.QMainWindow):
                             self._update_plots.emit()
 
                     except Exception:
-                        self._logger.exception('Error during auto tuner iteration: Pausing...')
+                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
                 else:
-                    self._logger.error('No Autotuner: Pausing...')
+                    self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
                 self._stepped = False
@@ -731,14 +731,14 @@ class GUI(QtWidgets.QMainWindow):
 
     def start(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
         elif self._continuous:
-            self._logger.info('Already started')
+            self.logger.info('Already started')
 
         else:
-            self._logger.info('Starting worker thread')
+            self.logger.info('Starting worker thread')
 
         self._continuous = True
         self._start_btn.setEnabled(False)
@@ -747,19 +747,19 @@ class GUI(QtWidgets.QMainWindow):
 
     def step(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
-        self._logger.info('Order worker to do one step')
+        self.logger.info('Order worker to do one step')
         self._stepped = True
 
     def pause(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread already dead')
+            self.logger.warning('Worker thread already dead')
         elif self._continuous:
-            self._logger.info('Pausing worker thread')
+            self.logger.info('Pausing worker thread')
         elif not self._stepped:
-            self._logger.info('Already paused')
+            self.logger.info('Already paused')
 
         self._continuous = False
         self._stepped = False
-- 
2.43.0


From 9376d60f1d3f1392eb82ab229691daad2373656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 36/55] fix: let the GUI worker stop in continuous mode

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 71dc341..25a7d46 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -702,7 +702,7 @@ class GUI(QtWidgets.QMainWindow):
             while not (self._stop or self._continuous or self._stepped):
                 time.sleep(0.05)
 
-            while self._continuous or self._stepped and not self._stop:
+            while (self._continuous or self._stepped) and not self._stop:
                 if self.auto_tuner:
                     try:
 
-- 
2.43.0


From cd2d5875dc755f3deaa92d8de901617230347824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 37/55] fix: replace functions which were removed from numpy

---
 qtune/sm.py          | 2 +-
 qtune/sm_tune_qqd.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index c7cfa07..6e468c1 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -148,7 +148,7 @@ class SpecialMeasureMatlab:
 
             return self.engine.transpose(casted)
         elif isinstance(obj, np.generic):
-            return float(np.asscalar(obj))
+            return float(obj.item())
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 5f5329f..55c31b8 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -98,7 +98,7 @@ class SMTuneQQD(Experiment):
 
         return self.read_gate_voltages()  # set_qqd_gate_voltages
 
-    def tune(self, measurement_name, index: np.int, **kwargs) -> pd.Series:
+    def tune(self, measurement_name, index: int, **kwargs) -> pd.Series:
         # Tune wrapper using the MATLAB syntax
 
         # data ---  args        <<<< contains struct arrays!
@@ -120,9 +120,9 @@ class SMTuneQQD(Experiment):
             vals = list(options.values())
             name_value_pairs = [x for t in zip(keys, vals) for x in t]
 
-            data_view = tune_view(measurement_name, *([np.float(index)] + name_value_pairs))
+            data_view = tune_view(measurement_name, *([float(index)] + name_value_pairs))
         else:
-            data_view = tune_view(measurement_name, np.float(index))
+            data_view = tune_view(measurement_name, float(index))
 
         return pd.Series({'data': data_view})
 
-- 
2.43.0


From 2ca1ac790fb54097bf176b65ffbd550cda11546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 38/55] fix: convert tuples for MATLAB to tuples

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index 6e468c1..4d0a4d2 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -152,7 +152,7 @@ class SpecialMeasureMatlab:
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-            return (self.to_matlab(x) for x in obj)
+            return tuple(self.to_matlab(x) for x in obj)
         elif isinstance(obj, Dict):
             return {x: self.to_matlab(obj[x]) for x in obj}
         elif isinstance(obj, Set):
-- 
2.43.0


From 2366843f35aa56d15335b1dd12306352669bc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 39/55] fix: let the annotation of the MatlabEvaluator refer to
 an existing name

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index 4d0a4d2..39b50d9 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -225,7 +225,7 @@ class LegacyDQDRefactored(BasicDQD):
 
 
 class MatlabEvaluator(Evaluator):
-    def __init__(self, experiment: qtune.sm.LegacyDQDRefactored, **kwargs):
+    def __init__(self, experiment: LegacyDQDRefactored, **kwargs):
         super().__init__(experiment, **kwargs)
 
     def evaluate(self):
-- 
2.43.0


From 7f48ffe10fc544bacf137e19cd6a03dbbbf8846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 40/55] fix: initialize name and options of the QQDMeasurement

---
 qtune/sm_tune_qqd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 55c31b8..e272c62 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -36,6 +36,7 @@ class QQDMeasurement(Measurement):
     """
 
     def __init__(self, name, **kwargs):
+        super().__init__(name, **kwargs)
         self.data = None
 
     def to_hdf5(self):
-- 
2.43.0


From fcae02fa4493958675b5e4cad9a4e57dc800f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 41/55] fix: do not reject every position in QQDResp by default

---
 qtune/sm_tune_qqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index e272c62..3858360 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -467,7 +467,7 @@ class QQDResp(Evaluator):
         else:
             self._min_position = pd.Series(index=self.parameters, data=min_position)
         if max_position is None:
-            self._max_position = pd.Series(index=self.parameters, data=-np.inf)
+            self._max_position = pd.Series(index=self.parameters, data=np.inf)
         elif isinstance(max_position, pd.Series):
             self._max_position = max_position
         else:
-- 
2.43.0


From ab42182ce6713b2ffd1ab44bdb7bd5f83ee3c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 42/55] fix: use the slice which is transformed to a MATLAB
 index

---
 qtune/mat2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index 9124f58..f0449ba 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -94,7 +94,7 @@ def _transform_slice(python_slice):
     
     if python_slice.start is None:
         start = '1' if step > 0 else 'end'
-    elif idx.start < 0:
+    elif python_slice.start < 0:
         start = '(end - %d)' % abs(python_slice.start)
     else:
         start = str(python_slice.start + 1 if step > 0 else python_slice.start)
-- 
2.43.0


From 6e83c38fbe2c363090fa02c231e8b8dd54708ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 43/55] fix: do not import the removed ChargeDiagram in
 kalman_heuristics

---
 qtune/kalman_heuristics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qtune/kalman_heuristics.py b/qtune/kalman_heuristics.py
index a47feaf..d694eab 100644
--- a/qtune/kalman_heuristics.py
+++ b/qtune/kalman_heuristics.py
@@ -14,12 +14,11 @@
 
 # @email: julian.teske@rwth-aachen.de
 
-from qtune.sm import ChargeDiagram
 import numpy as np
 import pickle
 
 
-def save_pickle_charge_diagram_histogram_position_gradient(ch_diag: ChargeDiagram, n_noise=30, n_cov=30, savetofile=True,
+def save_pickle_charge_diagram_histogram_position_gradient(ch_diag, n_noise=30, n_cov=30, savetofile=True,
                                                     filename=r'Y:\GaAs\Autotune\Data\UsingPython\heuristics_kalman\NoiseCov.pickle'):
     position_histo = np.zeros((n_noise, 2))
     grad_histo = np.zeros((n_cov, 2, 2))
-- 
2.43.0


From 0d6ed8d9d4c4882f79c9c504124f71079c15ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 44/55] fix: restore an array that is stored once as one object

Arrays are written once and referenced afterwards like series and tables, but
the reader did not remember them and returned a separate copy per reference.
---
 qtune/storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index a658117..7e683a7 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -269,6 +269,7 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
         if isinstance(result, h5py.Reference):
             return _from_hdf5(root, result, deserialized)
         else:
+            deserialized[hdf5_obj.id] = result
             return result
 
     else:
-- 
2.43.0


From cb180f55a5428c9d73077d363195f3eb50649ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 45/55] fix: measurements and gate_voltage_names are properties
 in every experiment

---
 qtune/basic_dqd.py   | 2 ++
 qtune/sm_tune_qqd.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 6ab8e3e..39f2314 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -81,9 +81,11 @@ class TestExperiment(Experiment):
     def simulator_dict(self):
         return self._simulator_dict
 
+    @property
     def measurements(self):
         return self._measurements
 
+    @property
     def gate_voltage_names(self):
         return self._gate_voltages.index
 
diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 3858360..c9773b0 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -77,9 +77,11 @@ class SMTuneQQD(Experiment):
         # are _n_dqds and _n_sensors used anywhere?
         # The specification of sensor gates is meant to be done implicitly by the use of the parameter tuner. Julian
 
+    @property
     def measurements(self) -> Tuple[Measurement, ...]:
         return tuple(self._measurements.values())
 
+    @property
     def gate_voltage_names(self) -> Tuple:
         return tuple(sorted(self._matlab.engine.qtune.read_qqd_gate_voltages().keys()))  # Why call MATLAB engine here?
 
-- 
2.43.0


From f65554baf68c0958b6a25a01134a5099514564dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 46/55] fix: plot the fit of LeadTunnelTimeByLeadScan with the
 function that was fitted

---
 qtune/history.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index fcfa3a8..1a6ccb6 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -628,8 +628,12 @@ def plot_lead_time(ax, evaluator_hdf5: dict, **_):
         axi = ax
     if isinstance(axi, List) or isinstance(axi, Tuple) or isinstance(axi, np.ndarray):
         axi = axi[0]
+    fit_function = qtune.evaluator.func_lead_times_v1
+    if evaluator_hdf5['fit_results'] is not None and 'slope' in evaluator_hdf5['fit_results']:
+        # LeadTunnelTimeByLeadScan, the prefit version has no linear sections
+        fit_function = qtune.evaluator.func_lead_times_v2
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
-                                 fit_function=qtune.evaluator.func_lead_times_v1,
+                                 fit_function=fit_function,
                                  function_args=evaluator_hdf5['fit_results'],
                                  initial_arguments=evaluator_hdf5['initial_fit_arguments'], ax=axi)
     axi.legend(['Data', 'Fit', 'Initial_parameters'])
-- 
2.43.0


From e9d394a7b324b7cfa43d9fa29e026b520801cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 47/55] fix: title the panels of a lead transition with the
 parameters they show

plot_transition took the titles from evaluator.parameters, whose default
order differs from the order of the transition positions: the panel with the
position of RFB was titled position_RFA.
---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 1a6ccb6..341e79c 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -645,7 +645,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
                                                 x_data=evaluator_hdf5['raw_x_data'][i],
                                                 marking_position=evaluator_hdf5['transition_positions'][i],
                                                 ax=axi)
-        axi.set_title(evaluator_hdf5['parameters'][i])
+        axi.set_title(evaluator_hdf5['transition_positions'].index[i])
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-- 
2.43.0


From edce4d1ac6125aff76f053da30c6b7063eef81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 48/55] fix: draw evaluator data and gradients on single axes
 and arrays of axes

Figure.subplots returns a bare Axes for one row and an array otherwise, the
GUI reuses a list: plot_load_time, plot_2dim_sensing_dot_scan and
plot_gradients failed for the first, plot_1dim_sensing_dot_scan for the
second.
---
 qtune/history.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 341e79c..21b9fb6 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -520,6 +520,7 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
     else:
         grad_fig, grad_ax = None, axes
 
+    grad_ax = np.ravel(grad_ax)  # a single Axes instance for a single gradient
     for ax, (parameter_name, gradient) in zip(grad_ax, gradients.items()):
         if parameter_name in gradient_std:
             gradient.plot(ax=ax, yerr=gradient_std[parameter_name].applymap(np.sqrt))
@@ -600,6 +601,7 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
 
 
 def plot_load_time(ax, evaluator_hdf5, **_):
+    ax = np.ravel(ax)
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
                                  fit_function=qtune.evaluator.func_load_time,
                                  function_args=evaluator_hdf5['fit_results'],
@@ -640,7 +642,7 @@ def plot_lead_time(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_transition(ax, evaluator_hdf5: dict, **_):
-    for i, axi in enumerate(ax):
+    for i, axi in enumerate(np.ravel(ax)):
         qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'][i],
                                                 x_data=evaluator_hdf5['raw_x_data'][i],
                                                 marking_position=evaluator_hdf5['transition_positions'][i],
@@ -649,8 +651,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-    if isinstance(ax, Tuple) or isinstance(ax, List):
-        ax = ax[0]
+    ax = np.ravel(ax)[0]
     qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'],
                                             x_data=evaluator_hdf5['raw_x_data'],
                                             marking_position=evaluator_hdf5['optimal_position'],
@@ -658,6 +659,7 @@ def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_2dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
+    ax = np.ravel(ax)
     qtune.util.plot_raw_data_2_dim_marks(y_data=evaluator_hdf5['raw_y_data'],
                                          x_data=evaluator_hdf5['raw_x_data'],
                                          ax=ax[0],
-- 
2.43.0


From 10e5572254b1551ed612f764e56931ba30777ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 49/55] fix: plot the data of averaging evaluators

AveragingEvaluator stores the evaluator and not its measurements, on which
History.plot_evaluator_data relied.
---
 qtune/history.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 21b9fb6..20c4de5 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -430,7 +430,7 @@ class History:
             if i not in self._evaluator_data.index:
                 raise RuntimeError('These indices are not in the aquired data!')
             number_measurements = [
-                len(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator]['measurements'])
+                number_of_measurements(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator])
                 for evaluator in evaluator_names
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
@@ -600,6 +600,13 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
     return evaluator_data
 
 
+def number_of_measurements(evaluator_hdf5) -> int:
+    if 'measurements' in evaluator_hdf5:
+        return len(evaluator_hdf5['measurements'])
+    # an AveragingEvaluator
+    return len(evaluator_hdf5['evaluator'].measurements)
+
+
 def plot_load_time(ax, evaluator_hdf5, **_):
     ax = np.ravel(ax)
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
-- 
2.43.0


From fd75c4d188e090278ffda8481685b35b40e0f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 50/55] fix: plot parameters that have no entry in
 parameter_information

The parameters of the lead tunnel time evaluators and all user defined ones
raised a KeyError in plot_parameters and plot_gradients.
---
 qtune/history.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 20c4de5..535f9b8 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -99,6 +99,12 @@ parameter_information = {
 }
 
 
+def get_parameter_information(parameter_name: str) -> Dict[str, str]:
+    return parameter_information.get(parameter_name, {"entity_unit": parameter_name,
+                                                      "name": parameter_name,
+                                                      "gradient_unit": "Gradient " + parameter_name})
+
+
 def read_files(file_or_files, reserved=None):
     if isinstance(file_or_files, str):
         files = [file_or_files]
@@ -503,8 +509,8 @@ def plot_parameters(parameter_data_frame: pd.DataFrame,
     parameter_ax = parameter_data_frame.plot(subplots=True, yerr=parameter_std,
                                              ax=parameter_ax, sharex=True, legend=False)
     for ax, par_name in zip(parameter_ax, parameter_data_frame.columns):
-        ax.set_ylabel(parameter_information[par_name]["entity_unit"])
-        ax.set_title(parameter_information[par_name]["name"])
+        ax.set_ylabel(get_parameter_information(par_name)["entity_unit"])
+        ax.set_title(get_parameter_information(par_name)["name"])
     parameter_ax[-1].set_xlabel("Measurement Number")
     return parameter_fig, parameter_ax
 
@@ -528,7 +534,7 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         else:
             gradient.plot(ax=ax)
 
-        ax.set_ylabel(parameter_information[parameter_name]["gradient_unit"])
+        ax.set_ylabel(get_parameter_information(parameter_name)["gradient_unit"])
     grad_ax[0].set_title("Response Matrix")
     grad_ax[-1].set_xlabel("Measurement Number")
     return grad_fig, grad_ax
-- 
2.43.0


From 68ecfdd0b5e8b7ec71d99931449eee80b7b046da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 51/55] fix: an Autotuner without tuning hierarchy can be
 created, as the signature promises

---
 qtune/autotuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index b0e6841..1cd2416 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -64,8 +64,8 @@ class Autotuner(metaclass=HDF5Serializable):
         :param append_time_to_path: True if the current time is to be appended to the saving path.
         """
         self._experiment = experiment
-        self._tuning_hierarchy = tuning_hierarchy
-        for par_tuner in tuning_hierarchy:
+        self._tuning_hierarchy = [] if tuning_hierarchy is None else tuning_hierarchy
+        for par_tuner in self._tuning_hierarchy:
             if par_tuner.last_voltages is None:
                 par_tuner._last_voltage = self._experiment.read_gate_voltages()
         self._current_tuner_index = current_tuner_index
-- 
2.43.0


From 11ba57a2e72fea2ac5de2a61544570739d17686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 52/55] fix: plot_evaluator_data draws all evaluators when no
 names are given

---
 qtune/history.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/history.py b/qtune/history.py
index 535f9b8..e66b830 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -423,6 +423,8 @@ class History:
         :param evaluator_names: Names of the evaluator to be plotted.
         :return: Figure, Axes
         """
+        if evaluator_names is None:
+            evaluator_names = self.evaluator_names
         for name in evaluator_names:
             if name not in self._evaluator_data.columns:
                 self.logger.warning(name + ' is not in the evaluation data.')
-- 
2.43.0


From 7e79f2302c5bb0e6ddc263054691f9fd6c7b4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 53/55] fix: LeadTransition reads each position off the axis of
 its own line scan

---
 qtune/evaluator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 7e086f4..a20c925 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -568,15 +568,15 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, gate in zip(raw_data, self._shifting_gates):
+        for data, measurement, gate in zip(raw_data, self._measurements, self._shifting_gates):
+            options = measurement.options
             if len(data.shape) == 2:
                 data = data.mean(0)
             transition_pos = \
-                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / self.measurements[0].options["range"] *
-                                                          self.measurements[0].options["N_points"]))
-            x_data = np.linspace(start=self._measurements[0].options['center'] - self.measurements[0].options['range'],
-                                 stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
-                                 num=self.measurements[0].options['N_points'])
+                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / options["range"] * options["N_points"]))
+            x_data = np.linspace(start=options['center'] - options['range'],
+                                 stop=options['center'] + options['range'],
+                                 num=options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
             self.transition_positions["position_" + gate] = x_data[transition_pos]
-- 
2.43.0


From 219b84dbef28e8b19110c8da5d91fb07da29dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 54/55] fix: LeadTransition reports each position under the
 parameter it declares for it, not under the gate shifted aside

---
 qtune/evaluator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index a20c925..c3331ec 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -568,7 +568,7 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, measurement, gate in zip(raw_data, self._measurements, self._shifting_gates):
+        for data, measurement, parameter in zip(raw_data, self._measurements, self.parameters):
             options = measurement.options
             if len(data.shape) == 2:
                 data = data.mean(0)
@@ -579,8 +579,8 @@ class LeadTransition(Evaluator):
                                  num=options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
-            self.transition_positions["position_" + gate] = x_data[transition_pos]
-            error["position_" + gate] = .01e-3**2
+            self.transition_positions[parameter] = x_data[transition_pos]
+            error[parameter] = .01e-3**2
         return self.transition_positions, error
 
     def to_hdf5(self):
-- 
2.43.0


From c5c4c34f9c3bc357ff614382500ca3c7f1c09d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:17 +0000
Subject: [PATCH 55/55] fix: Autotuner.ready_to_tune accepts gradient
 estimators without position in a SubsetTuner

---
 qtune/autotuner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index 1cd2416..e8bce67 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -194,10 +194,12 @@ class Autotuner(metaclass=HDF5Serializable):
                             naming_coherent = False
 
                     if isinstance(par_tuner, SubsetTuner):
-                        if not set(par_tuner.tunable_gates).issubset(set(gradient_estimator.current_position.index)):
+                        known_gates = all_gates
+                        if gradient_estimator.current_position is not None:
+                            known_gates = set(gradient_estimator.current_position.index)
+                        if not set(par_tuner.tunable_gates).issubset(known_gates):
                             self.logger.error("The following gates")
-                            self.logger.error(set(par_tuner.tunable_gates) -
-                                              set(gradient_estimator.current_position.index))
+                            self.logger.error(set(par_tuner.tunable_gates) - known_gates)
                             self.logger.error("are to be tuned by the SubsetTuner number " + str(tuner_number) +
                                               " but they do not appear in the current positions of its gradient"
                                               "estimator")
-- 
2.43.0

