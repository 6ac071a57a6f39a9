From 7972006ac86a620145a2f2ca6194899d33dc1a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 01/40] fix: compare time_initial when deciding whether
 checkpoints can be reused

Checkpoints created for one initial time were used for a reverse-mode product at
another initial time if all other inputs were the same.
---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 38285d6..7cafc62 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -828,6 +828,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.independent_inputs,
                 temporary_integration_state.discretization_state.independent_inputs,
             )
+            and np.array_equal(
+                self._cached_input.final_time,
+                temporary_integration_state.discretization_state.final_time,
+            )
         ):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
-- 
2.43.0


From 0895dd9d16131bd6a6844cbcfd9261345cc7b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 02/40] fix: do not reuse checkpoints of interrupted compute or
 reverse runs

An exception during compute or during a reverse-mode product left incomplete
checkpoints behind that were regarded as valid for the following product.
---
 src/rkopenmdao/runge_kutta_integrator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 7cafc62..2b11668 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -438,11 +438,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
+        # only complete checkpoints are usable, so remember the inputs at the end
+        self._cached_input = None
         self._compute_preparation_phase(inputs, self._time_integration_state)
+        new_cached_input = deepcopy(self._time_integration_state.discretization_state)
         self._checkpointer.create_checkpointer()
         self._time_integration_state.set(
             self._checkpointer.iterate_forward(self._time_integration_state)
         )
+        self._cached_input = new_cached_input
         self._from_numpy_array_time_integration(
             self._time_integration_state.discretization_state.final_state, outputs
         )
@@ -462,7 +466,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             inputs, integration_state.discretization_state.independent_inputs
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        self._cached_input = deepcopy(integration_state.discretization_state)
 
         self._reset_error_control(integration_state)
         integration_state.discretization_state.linearization_points.fill(0.0)
@@ -772,6 +775,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             integration_state_perturbations,
         )
+        # using the checkpoints invalidates the checkpointer in general, also if the
+        # reverse iteration does not run to its end
+        self._cached_input = None
         self._time_integration_state_perturbations.set(
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
@@ -788,9 +794,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             "time_initial"
         ] += integration_state_perturbations.discretization_state.final_time[0]
 
-        # using the checkpoints invalidates the checkpointer in general
-        self._cached_input = None
-
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
-- 
2.43.0


From ec5726f7b54ad7631ca8fdfe997177643ddb478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 03/40] fix: keep forward-mode products from changing the state
 used by checkpointing

A forward-mode product at other inputs between compute and a reverse-mode product
changed the results of the latter when using the PyrevolveCheckpointer.
---
 src/rkopenmdao/runge_kutta_integrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 2b11668..0b1812d 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -663,15 +663,17 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             print(
                 "\n" + "=" * 24 + " fwd-mode jacvec product starts " + "=" * 24 + "\n\n"
             )
+        # The checkpointer may still need the original after a previous compute
+        integration_state = deepcopy(self._time_integration_state)
         self._compute_jacvec_fwd_preparation_phase(
             inputs,
             d_inputs,
-            self._time_integration_state,
+            integration_state,
             self._time_integration_state_perturbations,
         )
         self._time_integration_state_perturbations.set(
             self._compute_jacvec_fwd_run_steps(
-                self._time_integration_state, self._time_integration_state_perturbations
+                integration_state, self._time_integration_state_perturbations
             )
         )
         self._from_numpy_array_time_integration(
-- 
2.43.0


From 0578b911f8e952c696bad0dc307cfddfa3b8a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 04/40] fix: shift step size history also for fixed step sizes

The result of np.roll was discarded.
---
 src/rkopenmdao/runge_kutta_integrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 0b1812d..8185b28 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -633,7 +633,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
         else:
             time_integration_state.discretization_state.set(temp_discretization_state)
-            np.roll(time_integration_state.step_size_history, 1)
+            time_integration_state.step_size_history[:] = np.roll(
+                time_integration_state.step_size_history, 1
+            )
             time_integration_state.step_size_history[0] = (
                 time_integration_state.step_size_suggestion[0]
             )
-- 
2.43.0


From edd22435e465851724157ab17c22b91d46fb8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 05/40] fix: restore time integration states from the dicts
 created from them

from_dict failed on every dict created by to_dict, lost the data of embedded schemes,
and the step size was not part of the dicts at all.
---
 .../runge_kutta_discretization_state.py             |  7 +++++--
 src/rkopenmdao/time_integration_state.py            | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index f9ed9ee..6047cc5 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -124,6 +124,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         time_step_dict["independent_input"] = self.independent_inputs
         time_step_dict["final_independent_output"] = self.final_independent_outputs
         time_step_dict["final_time"] = self.final_time
+        time_step_dict["step_size"] = self.step_size
         time_step_dict["linearization_points"] = self.linearization_points
 
         return time_step_dict
@@ -133,7 +134,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         number_of_stages = len(state_dict["linearization_points"])
         state = cls(
             ode_state_size=state_dict["final_state"].size,
-            independent_input_size=state_dict["independent_input"],
+            independent_input_size=state_dict["independent_input"].size,
             independent_output_size=state_dict["stage_0"]["independent_output"].size,
             number_of_stages=number_of_stages,
             linearization_point_size=state_dict["linearization_points"].shape[1],
@@ -151,6 +152,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         state.independent_inputs = state_dict["independent_input"]
         state.final_independent_outputs = state_dict["final_independent_output"]
         state.final_time = state_dict["final_time"]
+        state.step_size = state_dict["step_size"]
         state.linearization_points = state_dict["linearization_points"]
         return state
 
@@ -225,5 +227,6 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
     @classmethod
     def from_dict(cls, state_dict: dict):
         state = super().from_dict(state_dict)
-        state.embedded_state = state_dict["embedded_dict"]
+        state.embedded_state = state_dict["embedded_state"]
         state.error_estimate = state_dict["error_estimate"]
+        return state
diff --git a/src/rkopenmdao/time_integration_state.py b/src/rkopenmdao/time_integration_state.py
index 0f57e60..efd881a 100644
--- a/src/rkopenmdao/time_integration_state.py
+++ b/src/rkopenmdao/time_integration_state.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 import numpy as np
 
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
+    EmbeddedRungeKuttaDiscretizationState,
     RungeKuttaDiscretizationState,
 )
 
@@ -81,11 +82,15 @@ class TimeIntegrationState:
         state_dict: dict
             Dictionary from which a time integration state is created.
         """
+        discretization_dict = time_state_dict["discretization_state"]
+        discretization_state_type = (
+            EmbeddedRungeKuttaDiscretizationState
+            if "embedded_state" in discretization_dict
+            else RungeKuttaDiscretizationState
+        )
         return cls(
-            RungeKuttaDiscretizationState.from_dict(
-                time_state_dict["discretization_state"]
-            ),
-            time_state_dict["step_size_suggestion"][0],
+            discretization_state_type.from_dict(discretization_dict),
+            time_state_dict["step_size_suggestion"],
             time_state_dict["step_size_history"],
             time_state_dict["error_history"],
         )
-- 
2.43.0


From b96bfe1166da31740a800ba52a1aedec919de213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 06/40] fix: copy embedded state and error estimate when
 setting embedded states

Callbacks and checkpoints only ever saw zeros for them.
---
 .../time_discretization/runge_kutta_discretization_state.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index 6047cc5..a84c71a 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -218,6 +218,11 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
         self.embedded_state = np.zeros_like(self.start_state)
         self.error_estimate = np.zeros_like(self.start_state)
 
+    def set(self, other: EmbeddedRungeKuttaDiscretizationState):
+        super().set(other)
+        self.embedded_state[:] = other.embedded_state[:]
+        self.error_estimate[:] = other.error_estimate[:]
+
     def to_dict(self) -> dict:
         time_step_dict = super().to_dict()
         time_step_dict["embedded_state"] = self.embedded_state
-- 
2.43.0


From 43fe2d2e122095731b2ee9a2de9f31564b5b6c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 07/40] fix: number forward steps of the PyrevolveCheckpointer
 starting from one

Callbacks were told step k-1 for step k, in contrast to the other checkpointers and
to the reverse mode.
---
 .../runge_kutta_integrator_pyrevolve_classes.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
index 4cade07..687c73c 100644
--- a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
+++ b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
@@ -169,7 +169,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         # PyRevolve only ever uses t_start and t_end as arguments, but the interface is
         # how it is.
         """
-        Does forward (primal) integration from step `t_start` + 1 to `t_end` + 1.
+        Does forward (primal) integration from step `t_start` + 2 to `t_end` + 1.
 
         Parameters
         ----------
@@ -178,7 +178,8 @@ class RungeKuttaForwardOperator(pr.Operator):
         t_end: int
             Last integration time step shifted by one.
         """
-        for step in range(kwargs["t_start"] + 1, kwargs["t_end"] + 1):
+        # PyRevolve time 0 is the state after the first step of the time integration.
+        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
             # TODO?: Add iteration to fwd_op
             self.time_integration_state.set(
                 self.fwd_operation(step, self.time_integration_state)
-- 
2.43.0


From 7cc9efedcd01bac00780fc146b453cf67d8bc68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 08/40] fix: do not write into the revolver options provided by
 the user

Two integrators using the same options object used each others states.
---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 344d818..e927fc9 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -61,6 +61,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def __post_init__(self):
         """Sets up all permanent data derived from initialization arguments."""
+        # The options may be shared with other checkpointers
+        self.revolver_options = dict(self.revolver_options)
         self._first_complete_state = deepcopy(self.state)
         checkpoint = RungeKuttaCheckpoint(self.state)
 
-- 
2.43.0


From 3c23a32922f899ce0db3177f0d5540def33f2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 09/40] fix: support one and two time steps with the
 PyrevolveCheckpointer

pyRevolve fails on zero remaining steps (ZeroDivisionError), and crashed the whole
process when asked to choose the number of checkpoints for one remaining step.
---
 .../pyrevolve_checkpointer.py                 | 37 ++++++++++---------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index e927fc9..87acf31 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -92,9 +92,9 @@ class PyrevolveCheckpointer(CheckpointInterface):
         self.revolver_options["checkpoint"] = checkpoint
         self.revolver_options["n_timesteps"] = num_steps - 1
 
-        if "n_checkpoints" not in self.revolver_options:
+        if self.revolver_options.get("n_checkpoints") is None:
             if self.revolver_type not in ["MultiLevel", "Base"]:
-                self.revolver_options["n_checkpoints"] = 1 if num_steps == 1 else None
+                self.revolver_options["n_checkpoints"] = 1 if num_steps <= 2 else None
 
         self.revolver_options["fwd_operator"] = RungeKuttaForwardOperator(
             self.state,
@@ -109,7 +109,10 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def create_checkpointer(self):
         """Creates the actual revolver object used for checkpointing by Pyrevolve."""
-        self._revolver = self._revolver_class_type(**self.revolver_options)
+        # The first step is always done outside of the revolver, which can't deal with
+        # there being nothing left.
+        if self.revolver_options["n_timesteps"] > 0:
+            self._revolver = self._revolver_class_type(**self.revolver_options)
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
@@ -162,14 +165,14 @@ class PyrevolveCheckpointer(CheckpointInterface):
         final_state: TimeIntegrationState
             The resulting state after completing all time steps.
         """
-        self._revolver.fwd_operator.time_integration_state.set(initial_state)
-        self._revolver.fwd_operator.apply(t_start=-1, t_end=0)
-        self._first_complete_state.set(
-            self._revolver.fwd_operator.time_integration_state
-        )
-        self.state.set(self._revolver.fwd_operator.time_integration_state)
-        self._revolver.apply_forward()
-        return self._revolver.fwd_operator.time_integration_state
+        fwd_operator = self.revolver_options["fwd_operator"]
+        fwd_operator.time_integration_state.set(initial_state)
+        fwd_operator.apply(t_start=-1, t_end=0)
+        self._first_complete_state.set(fwd_operator.time_integration_state)
+        self.state.set(fwd_operator.time_integration_state)
+        if self._revolver is not None:
+            self._revolver.apply_forward()
+        return fwd_operator.time_integration_state
 
     def iterate_reverse(
         self, final_state_perturbation: TimeIntegrationState
@@ -190,9 +193,9 @@ class PyrevolveCheckpointer(CheckpointInterface):
             steps.
         """
         self.state_perturbation.set(final_state_perturbation)
-        self._revolver.apply_reverse()
-        self._revolver.rev_operator.time_integration_state.set(
-            self._first_complete_state
-        )
-        self._revolver.rev_operator.apply(t_start=-1, t_end=0)
-        return self._revolver.rev_operator.time_integration_state_perturbations
+        rev_operator = self.revolver_options["rev_operator"]
+        if self._revolver is not None:
+            self._revolver.apply_reverse()
+        rev_operator.time_integration_state.set(self._first_complete_state)
+        rev_operator.apply(t_start=-1, t_end=0)
+        return rev_operator.time_integration_state_perturbations
-- 
2.43.0


From 66b900c3ced15c497352224de672414dccaacd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:26 +0000
Subject: [PATCH 10/40] fix: let the HDF5 callback cope with recomputed steps

Checkpointing recomputes steps for the reverse mode, for which the groups and datasets
already exist.
---
 src/rkopenmdao/file_writer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 2a4ee28..32bad80 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -80,12 +80,12 @@ class OpenMDAOHDF5Callback(Callback):
             iter_strs.append(f"{iteration}")
         with h5py.File(self.filename, mode=mode, driver="mpio", comm=self.comm) as hf:
             for iter_str in iter_strs:
-                hf.create_group(iter_str)
-                hf[iter_str].create_dataset("time", shape=(1,), dtype=np.float64)
+                hf.require_group(iter_str)
+                hf[iter_str].require_dataset("time", shape=(1,), dtype=np.float64)
                 for (
                     quantity
                 ) in ode.time_integration_metadata.time_integration_quantity_list:
-                    hf[iter_str].create_dataset(
+                    hf[iter_str].require_dataset(
                         quantity.name,
                         shape=quantity.array_metadata.global_shape,
                         dtype=np.float64,
@@ -94,7 +94,7 @@ class OpenMDAOHDF5Callback(Callback):
                     time_integration_state.discretization_state,
                     EmbeddedRungeKuttaDiscretizationState,
                 ):
-                    hf[iter_str].create_dataset(
+                    hf[iter_str].require_dataset(
                         "error_measure",
                         shape=(1,),
                         dtype=np.float64,
-- 
2.43.0


From ec66e703f85aff25e79a1b214a4fe8854264633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:57 +0000
Subject: [PATCH 11/40] fix: accumulate into the derivative vectors provided by
 OpenMDAO

Overwriting them gave wrong total derivatives with solvers that apply the jacobian
including the identity part for the outputs, e.g. ScipyKrylov in forward mode.
---
 src/rkopenmdao/runge_kutta_integrator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 8185b28..9c6d6e6 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -502,7 +502,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 np_array[start:end] = om_vector[quantity.name].flatten()
 
     def _from_numpy_array_time_integration(
-        self, np_array: np.ndarray, om_vector: OMVector
+        self, np_array: np.ndarray, om_vector: OMVector, accumulate: bool = False
     ):
         if om_vector._kind == "input":
             name_suffix = "_initial"
@@ -513,9 +513,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            om_vector[quantity.name + name_suffix] = np_array[start:end].reshape(
-                quantity.array_metadata.shape
-            )
+            values = np_array[start:end].reshape(quantity.array_metadata.shape)
+            if accumulate:
+                om_vector[quantity.name + name_suffix] += values
+            else:
+                om_vector[quantity.name + name_suffix] = values
 
     def _from_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -530,7 +532,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] = np_array[start:end].reshape(
+                # only used for derivatives, which OpenMDAO wants to be accumulated
+                om_vector[quantity.name] += np_array[start:end].reshape(
                     quantity.array_metadata.shape
                 )
 
@@ -681,6 +684,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
+            accumulate=True,
         )
         d_outputs[
             "time_final"
@@ -789,6 +793,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
             d_inputs,
+            accumulate=True,
         )
         self._from_numpy_array_independent_input(
             integration_state_perturbations.discretization_state.independent_inputs,
-- 
2.43.0


From 3e923f878e6bd1ccd2ecb782e5d197e05fb8b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 12/40] fix: respect the scope of the derivative vectors
 provided by OpenMDAO

Values outside of the scope were used as perturbations, giving wrong total derivatives
e.g. for ScipyKrylov in forward mode on a group with inputs from outside.
---
 src/rkopenmdao/runge_kutta_integrator.py | 44 +++++++++++++++---------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 9c6d6e6..c222c23 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -482,7 +482,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            # Linear vectors contain values outside of their current scope
+            if quantity.name + name_suffix in om_vector:
+                np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            else:
+                np_array[start:end] = 0.0
 
     def _to_numpy_array_independent_inputs(
         self, om_vector: OMVector, np_array: np.ndarray
@@ -499,7 +503,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                np_array[start:end] = om_vector[quantity.name].flatten()
+                # Linear vectors contain values outside of their current scope
+                if quantity.name in om_vector:
+                    np_array[start:end] = om_vector[quantity.name].flatten()
+                else:
+                    np_array[start:end] = 0.0
 
     def _from_numpy_array_time_integration(
         self, np_array: np.ndarray, om_vector: OMVector, accumulate: bool = False
@@ -513,6 +521,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
+            if quantity.name + name_suffix not in om_vector:
+                continue
             values = np_array[start:end].reshape(quantity.array_metadata.shape)
             if accumulate:
                 om_vector[quantity.name + name_suffix] += values
@@ -532,6 +542,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
+                if quantity.name not in om_vector:
+                    continue
                 # only used for derivatives, which OpenMDAO wants to be accumulated
                 om_vector[quantity.name] += np_array[start:end].reshape(
                     quantity.array_metadata.shape
@@ -686,11 +698,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             accumulate=True,
         )
-        d_outputs[
-            "time_final"
-        ] += self._time_integration_state_perturbations.discretization_state.final_time[
-            0
-        ]
+        if "time_final" in d_outputs:
+            d_outputs["time_final"] += (
+                self._time_integration_state_perturbations.discretization_state
+            ).final_time[0]
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
@@ -717,9 +728,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        integration_state_perturbations.discretization_state.final_time[0] = d_inputs[
-            "time_initial"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_inputs["time_initial"][0] if "time_initial" in d_inputs else 0.0
+        )
         self._reset_error_control(integration_state)
 
     def _compute_jacvec_fwd_run_steps(
@@ -799,9 +810,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-        d_inputs[
-            "time_initial"
-        ] += integration_state_perturbations.discretization_state.final_time[0]
+        if "time_initial" in d_inputs:
+            d_inputs["time_initial"] += (
+                integration_state_perturbations.discretization_state.final_time[0]
+            )
 
         if self.comm.rank == 0:
             print(
@@ -856,9 +868,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state_perturbations.discretization_state.independent_inputs.fill(
             0.0
         )
-        integration_state_perturbations.discretization_state.final_time[0] = d_outputs[
-            "time_final"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_outputs["time_final"][0] if "time_final" in d_outputs else 0.0
+        )
 
     def _run_step_jacvec_rev(
         self,
-- 
2.43.0


From 4ea3c03d275a87e905d468838530158430318c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:43 +0000
Subject: [PATCH 13/40] fix: accept steps above tolerance only if they can't be
 reduced any further

A step was accepted irrespective of its error if it happened to be as long as the time
remaining after it, and a last step shorter than the lower bound was retried with the
same step size forever.
---
 src/rkopenmdao/error_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 3c7d1d7..7dbbb6b 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -188,9 +188,9 @@ class ErrorController:
             Suggested step size and acceptance of current time step.
         """
         success = False
+        # Steps can't be reduced below the lower bound, except for hitting the final time
         if (
-            np.abs(delta_t - self.config.lower_bound) < 1e-10
-            or np.abs(delta_t - remaining_time) < 1e-10
+            delta_t - self.config.lower_bound < 1e-10
             or error_measure <= self.config.tol
         ):
             success = True
-- 
2.43.0


From 889ae66f7c4426c8da81e1818d685868c6558d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:43 +0000
Subject: [PATCH 14/40] fix: count rejections of the outer error controller
 across retries

The counter was reset after each rejection, so max_iter never had an effect.
---
 src/rkopenmdao/error_controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 7dbbb6b..486da09 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -363,9 +363,11 @@ class ErrorControllerDecorator(ErrorController):
                             f"""Suggested delta T {status.step_size_suggestion} is 
                             larger than delta t {delta_t} on failure."""
                         )
-                self._outer_counter = 0
+                else:
+                    self._outer_counter = 0
                 return status
             except OuterErrorControllerError:
+                self._outer_counter = 0
                 return self._run(
                     error_measure=error_measure,
                     delta_t=delta_t,
-- 
2.43.0


From 292d950465128ad106b984b0a79eb31e4484be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:43 +0000
Subject: [PATCH 15/40] fix: reset error controllers at the start of a time
 integration

After an exception during a time integration, the next one started with the fallback
controller instead of the one it is supposed to start with.
---
 src/rkopenmdao/error_controller.py       | 9 +++++++++
 src/rkopenmdao/runge_kutta_integrator.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 486da09..072994f 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -110,6 +110,10 @@ class ErrorController:
         self._name = "Outermost " + name
         self._width = 0
 
+    def reset(self):
+        """Forgets everything about previous steps. To be called at the start of a time
+        integration."""
+
     def __call__(
         self,
         *,
@@ -335,6 +339,11 @@ class ErrorControllerDecorator(ErrorController):
         self._name = "Innermost " + name
         self._outer_counter = 0
 
+    def reset(self):
+        self.error_controller.reset()
+        self._is_not_inner = True
+        self._outer_counter = 0
+
     def __call__(
         self,
         *,
diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index c222c23..2577b3f 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -570,6 +570,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         return time_integration_state
 
     def _reset_error_control(self, integration_state: TimeIntegrationState):
+        self._error_controller.reset()
         integration_state.step_size_history.fill(0.0)
         integration_state.error_history.fill(self._error_controller.config.tol)
         integration_state.step_size_suggestion[0] = (
-- 
2.43.0


From 85f28ee1e5f6f481f9c48cb05bfafea7f89fcd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 16/40] fix: forget checkpointed inputs on repeated setup

---
 src/rkopenmdao/runge_kutta_integrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 2577b3f..5ca1ead 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -426,6 +426,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         )
 
     def _setup_checkpointing(self):
+        # there are no checkpoints yet, also if there were some before another setup
+        self._cached_input = None
         self._checkpointer = self.options["checkpointing_type"](
             termination_criterion=self._integration_config.termination_criterion,
             run_step_func=self._run_step,
-- 
2.43.0


From a2aabf4b29188c76147323b548ff0af7d725fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:09 +0000
Subject: [PATCH 17/40] fix: use the coefficients of the H0321 filter for
 h0_321

The exponent of the current error was the one of H321, contradicting the filter's
order condition gamma = -(alpha + beta) (cf. h_321_general).
---
 src/rkopenmdao/error_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controllers.py b/src/rkopenmdao/error_controllers.py
index 2c7e906..edd215e 100644
--- a/src/rkopenmdao/error_controllers.py
+++ b/src/rkopenmdao/error_controllers.py
@@ -346,7 +346,7 @@ def h0_321(
     name="H0_321",
     base: ErrorController = None,
 ):
-    alpha = 1 / (3 * p)
+    alpha = 5 / (4 * p)
     beta = -1 / (2 * p)
     gamma = -3 / (4 * p)
     a = 1 / 4
-- 
2.43.0


From 5f42d48fb04f791133f2dfd47d5fa39d56e7e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:55 +0000
Subject: [PATCH 18/40] fix: return to the outermost error controller after
 accepted steps

In chains of three or more controllers those in the middle stayed in fallback mode
after the innermost one accepted a step.
---
 src/rkopenmdao/error_controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 072994f..c72d87a 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -417,7 +417,10 @@ class ErrorControllerDecorator(ErrorController):
             error_history=error_history,
             step_size_history=step_size_history,
         )
-        if not status.acceptance:
+        if status.acceptance:
+            # the next step starts with the outermost error controller again
+            self.error_controller.reset()
+        else:
             self._is_not_inner = False
             if status.step_size_suggestion > delta_t and self._inner_most:
                 raise InnerErrorControllerError(
-- 
2.43.0


From d973bd408f6107c062f8cd11e693685ab0645ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:19 +0000
Subject: [PATCH 19/40] fix: pass the initial values of all quantities to the
 reference solution

---
 src/rkopenmdao/file_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 32bad80..6569630 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -220,11 +220,11 @@ def read_hdf5_file(
                     result[quantity][int(key)][row] = group[quantity][row]
 
                 if len(quantities) > 1:
-                    quan_result = [result[quantity][0]] * len(quantities)
+                    initial_values = [f["0"][name][...] for name in quantities]
                     error_data[quantity][int(key)] = np.abs(
                         solution(
                             time[int(key)],
-                            quan_result,
+                            initial_values,
                             time[0],
                         )[i]
                         - result[quantity][int(key)]
-- 
2.43.0


From a4f94772fddfe6e9a80a1f0eab605930010d51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:32 +0000
Subject: [PATCH 20/40] fix: compute norms of order minus infinity and of empty
 parts of quantities

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 208a0c3..14f355a 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -379,8 +379,9 @@ class OpenMDAOODE(DiscretizedODE):
 
     def compute_state_norm(self, state: DiscretizedODEResultState) -> float:
         stage_state = state.stage_state
-        non_distributed_intermediate = 0.0
-        distributed_intermediate = 0.0
+        neutral_element = np.inf if self._norm_order == -np.inf else 0.0
+        non_distributed_intermediate = neutral_element
+        distributed_intermediate = neutral_element
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if quantity.name not in self._norm_exclusions:
                 norm_intermediate = self._partial_norm_intermediate(
@@ -409,6 +410,8 @@ class OpenMDAOODE(DiscretizedODE):
     ) -> float:
         start = quantity.array_metadata.start_index
         end = quantity.array_metadata.end_index
+        if start == end:
+            return np.inf if order == -np.inf else 0.0
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
         return np.linalg.norm(state[start:end], order) ** exponent
 
-- 
2.43.0


From 2121516b76d7fbf433563ad18dba8e995b0da184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:51 +0000
Subject: [PATCH 21/40] fix: warn about stage times which are not the row sums
 of the Butcher matrix

---
 src/rkopenmdao/butcher_tableau.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/butcher_tableau.py b/src/rkopenmdao/butcher_tableau.py
index 057603e..20791a4 100644
--- a/src/rkopenmdao/butcher_tableau.py
+++ b/src/rkopenmdao/butcher_tableau.py
@@ -71,7 +71,8 @@ class ButcherTableau:
             self.butcher_time_stages = np.sum(self.butcher_matrix, 1)
         else:
             self.butcher_time_stages = butcher_time_stages
-            if np.all(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5:
+            row_sums = np.sum(self.butcher_matrix, 1)
+            if np.any(np.abs(row_sums - butcher_time_stages) > 1e-5):
                 warnings.warn(
                     "Spatial shift matrix (A) rows do not "
                     "sum up to the temporal shift vector (c) indices value"
-- 
2.43.0


From 2a1168716747894144fd2944bb1936b4e7845aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:05 +0000
Subject: [PATCH 22/40] fix: refuse fully implicit Butcher tableaux

---
 .../stage_ordered_runge_kutta_discretization.py          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py b/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
index 2faf35d..cb8806b 100644
--- a/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
+++ b/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
@@ -12,7 +12,7 @@ from rkopenmdao.discretized_ode.discretized_ode import (
     DiscretizedODEInputState,
     DiscretizedODEResultState,
 )
-
+from rkopenmdao.errors import SetupError
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
     RungeKuttaDiscretizationState,
     EmbeddedRungeKuttaDiscretizationState,
@@ -39,6 +39,13 @@ class StageOrderedRungeKuttaDiscretization(TimeDiscretizationSchemeInterface):
 
     butcher_tableau: ButcherTableau
 
+    def __post_init__(self):
+        if self.butcher_tableau.is_implicit():
+            raise SetupError(
+                f"{self.butcher_tableau.name} is neither explicit nor diagonally "
+                f"implicit, so its stages can't be computed one after another."
+            )
+
     def create_empty_discretization_state(
         self, ode: DiscretizedODE
     ) -> RungeKuttaDiscretizationState:
-- 
2.43.0


From 8f1daec845e69819fb03c942b26e212419668fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:12 +0000
Subject: [PATCH 23/40] fix: reject quantities that are not found or found
 several times

---
 src/rkopenmdao/metadata_extractor.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 1039eaf..cfbfb19 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -137,6 +137,7 @@ def extract_time_integration_metadata(
                 translation_metadata=TimeIntegrationTranslationMetadata(),
             )
         quantity_list.append(quantity)
+    _check_unique_quantities(quantity_list, time_integration_set)
     runge_kutta_metadata = TimeIntegrationMetadata(
         time_variable=_search_for_time_variable(stage_problem),
         time_integration_array_size=array_size,
@@ -145,6 +146,16 @@ def extract_time_integration_metadata(
     return runge_kutta_metadata
 
 
+def _check_unique_quantities(quantity_list: list[Quantity], quantity_names: set):
+    found_names = [quantity.name for quantity in quantity_list]
+    for name in sorted(quantity_names):
+        if found_names.count(name) != 1:
+            raise SetupError(
+                f"Expected exactly one variable for quantity {name}, but found "
+                f"{found_names.count(name)}."
+            )
+
+
 def _search_for_time_variable(stage_problem: om.Problem) -> str | None:
     local_quantities = stage_problem.model.get_io_metadata(
         iotypes="input",
@@ -332,6 +343,10 @@ def add_time_independent_input_metadata(
                 translation_metadata=TimeIndependentInputTranslationMetadata(),
             )
         runge_kutta_metadata.time_independent_input_quantity_list.append(quantity)
+    _check_unique_quantities(
+        runge_kutta_metadata.time_independent_input_quantity_list,
+        time_independent_input_set,
+    )
 
 
 def _extract_time_independent_quantity(
-- 
2.43.0


From 447c8b6e9695665a32233c93268d328967c13163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:13 +0000
Subject: [PATCH 24/40] fix: reject variables with several roles in the time
 integration

---
 src/rkopenmdao/metadata_extractor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index cfbfb19..fa90f33 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -231,6 +231,12 @@ def _extract_time_integration_quantity(
     found_accumulated_stage_var = 0
     translation_metadata = TimeIntegrationTranslationMetadata()
     for detailed_var, detailed_data in detailed_local_quantity.items():
+        roles = {"stage_output_var", "step_input_var", "accumulated_stage_var"}
+        if len(roles & set(detailed_data["tags"])) > 1:
+            raise SetupError(
+                f"For quantity {quantity_name}, variable {detailed_var} has more than "
+                f"one role."
+            )
         if "stage_output_var" in detailed_data["tags"]:
             found_stage_output_var += 1
             translation_metadata.stage_output_var = detailed_var
-- 
2.43.0


From 52260d950e0c805bec409885be8da6894b75aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:44 +0000
Subject: [PATCH 25/40] fix: reject input variables shared by several
 quantities or roles

---
 src/rkopenmdao/metadata_extractor.py | 31 ++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index fa90f33..36ee61c 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -112,6 +112,17 @@ def extract_time_integration_metadata(
     quantity_list = []
 
     time_integration_set = set(time_integration_quantity_list)
+    global_inputs = stage_problem.model.get_io_metadata(
+        iotypes="input",
+        metadata_keys=["tags"],
+        tags=time_integration_quantity_list,
+        get_remote=True,
+    )
+    for var, data in global_inputs.items():
+        if len(time_integration_set & set(data["tags"])) != 1:
+            raise SetupError(
+                f"Variable {var} has more than one time integration quantity tag."
+            )
     for var, data in global_quantities.items():
         tags = time_integration_set & set(data["tags"])
 
@@ -156,6 +167,18 @@ def _check_unique_quantities(quantity_list: list[Quantity], quantity_names: set)
             )
 
 
+def _check_single_role(var: str, tags: set):
+    roles = {
+        "stage_output_var",
+        "step_input_var",
+        "accumulated_stage_var",
+        "time_independent_input_var",
+        "time_variable",
+    } & set(tags)
+    if len(roles) > 1:
+        raise SetupError(f"Variable {var} has more than one role: {sorted(roles)}.")
+
+
 def _search_for_time_variable(stage_problem: om.Problem) -> str | None:
     local_quantities = stage_problem.model.get_io_metadata(
         iotypes="input",
@@ -231,12 +254,7 @@ def _extract_time_integration_quantity(
     found_accumulated_stage_var = 0
     translation_metadata = TimeIntegrationTranslationMetadata()
     for detailed_var, detailed_data in detailed_local_quantity.items():
-        roles = {"stage_output_var", "step_input_var", "accumulated_stage_var"}
-        if len(roles & set(detailed_data["tags"])) > 1:
-            raise SetupError(
-                f"For quantity {quantity_name}, variable {detailed_var} has more than "
-                f"one role."
-            )
+        _check_single_role(detailed_var, detailed_data["tags"])
         if "stage_output_var" in detailed_data["tags"]:
             found_stage_output_var += 1
             translation_metadata.stage_output_var = detailed_var
@@ -368,6 +386,7 @@ def _extract_time_independent_quantity(
     found_time_independent_input_var = 0
     translation_metadata = TimeIndependentInputTranslationMetadata()
     for detailed_var, detailed_data in detailed_local_quantity.items():
+        _check_single_role(detailed_var, detailed_data["tags"])
         if "time_independent_input_var" in detailed_data["tags"]:
             found_time_independent_input_var += 1
             translation_metadata.time_independent_input_var = detailed_var
-- 
2.43.0


From 04dd73275a61455adced99b159d4d2f9105a7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:39 +0000
Subject: [PATCH 26/40] fix: keep values that are not numbers in norms of
 infinite order

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 14f355a..6e1a9a6 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -418,10 +418,11 @@ class OpenMDAOODE(DiscretizedODE):
     def _add_to_intermediate(
         self, intermediate_value: float, added_value: float, order: float
     ) -> float:
+        # other than max and min, these propagate values that are not numbers
         if order == np.inf:
-            return max(intermediate_value, added_value)
+            return float(np.maximum(intermediate_value, added_value))
         elif order == -np.inf:
-            return min(intermediate_value, added_value)
+            return float(np.minimum(intermediate_value, added_value))
         else:
             return intermediate_value + added_value
 
-- 
2.43.0


From 30547c19350fc87b44fe29ca94138ba7ef541b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:12 +0000
Subject: [PATCH 27/40] fix: set up time-independent inputs without entries on
 a process

OpenMDAO returns empty parts of multi-dimensional inputs as flat arrays; give them
their shape as is done for the time integration quantities.
---
 src/rkopenmdao/runge_kutta_integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 5ca1ead..72f2018 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -350,7 +350,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 shape=quantity.array_metadata.shape,
                 val=time_stage_problem.get_val(
                     quantity.translation_metadata.time_independent_input_var
-                ),
+                ).reshape(quantity.array_metadata.shape),
                 distributed=quantity.array_metadata.distributed,
             )
 
-- 
2.43.0


From 598441687532c96573088dc77ae235a85a106154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:12 +0000
Subject: [PATCH 28/40] fix: set up time-independent inputs that are absent on
 a process

In a parallel group such an input has no variable on the other processes, so that its
value cannot be asked for there.
---
 src/rkopenmdao/runge_kutta_integrator.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 72f2018..b21f5e0 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -345,14 +345,22 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         for (
             quantity
         ) in self._ode.time_integration_metadata.time_independent_input_quantity_list:
-            self.add_input(
-                quantity.name,
-                shape=quantity.array_metadata.shape,
-                val=time_stage_problem.get_val(
-                    quantity.translation_metadata.time_independent_input_var
-                ).reshape(quantity.array_metadata.shape),
-                distributed=quantity.array_metadata.distributed,
-            )
+            if quantity.array_metadata.local:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    # See above for the reshape.
+                    val=time_stage_problem.get_val(
+                        quantity.translation_metadata.time_independent_input_var
+                    ).reshape(quantity.array_metadata.shape),
+                    distributed=quantity.array_metadata.distributed,
+                )
+            else:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    distributed=quantity.array_metadata.distributed,
+                )
 
     def _setup_wrt_and_of_vars(self):
         self._add_time_integration_derivative_info()
-- 
2.43.0


From d6843166f78f242d6553e853cf92a764ea09a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:41 +0000
Subject: [PATCH 29/40] fix: keep values that are not numbers in norms of
 infinite order across processes

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 6e1a9a6..cef6daf 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -429,10 +429,14 @@ class OpenMDAOODE(DiscretizedODE):
     def _allreduce_own_intermediate(
         self, intermediate_value: float, order: float
     ) -> float:
-        mpi_op = (
-            MPI.MAX if order == np.inf else MPI.MIN if order == -np.inf else MPI.SUM
-        )
-        return self._time_stage_problem.comm.allreduce(intermediate_value, mpi_op)
+        comm = self._time_stage_problem.comm
+        # MPI.MAX and MPI.MIN don't have to propagate values that are not numbers.
+        if order == np.inf:
+            return float(np.max(comm.allgather(intermediate_value)))
+        elif order == -np.inf:
+            return float(np.min(comm.allgather(intermediate_value)))
+        else:
+            return comm.allreduce(intermediate_value, MPI.SUM)
 
     def _normalize(self, norm_intermediate: float, order: float) -> float:
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else 1.0 / order
-- 
2.43.0


From 9692a58f25411dd607c9ff611ca756b40855fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:41 +0000
Subject: [PATCH 30/40] fix: count quantities held by several processes once in
 norms

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py |  3 +++
 src/rkopenmdao/metadata_extractor.py           | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index cef6daf..b857afa 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -387,6 +387,9 @@ class OpenMDAOODE(DiscretizedODE):
                 norm_intermediate = self._partial_norm_intermediate(
                     stage_state, quantity, self._norm_order
                 )
+                if quantity.array_metadata.duplicate:
+                    # Another process already accounts for it.
+                    continue
                 if quantity.array_metadata.distributed:
                     distributed_intermediate = self._add_to_intermediate(
                         distributed_intermediate, norm_intermediate, self._norm_order
diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 36ee61c..1d052c5 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -45,6 +45,7 @@ class ArrayMetadata:
     global_shape: tuple = (0,)
     local: bool = False
     distributed: bool = False
+    duplicate: bool = False
     start_index: int = 0
     end_index: int = 0
     global_start_index: int = 0
@@ -440,6 +441,17 @@ def add_distributivity_information(
             shape_matches_locally, MPI.LAND
         )
         quantity.array_metadata.distributed = not shapes_match_everywhere
+        # In parallel groups, several (but not all) processes can have the whole
+        # quantity. All of them but the first only have a copy.
+        has_whole_quantity = stage_problem.comm.allgather(
+            quantity.array_metadata.local and shape_matches_locally
+        )
+        rank = stage_problem.comm.rank
+        quantity.array_metadata.duplicate = (
+            quantity.array_metadata.distributed
+            and has_whole_quantity[rank]
+            and any(has_whole_quantity[:rank])
+        )
 
 
 # TODO: we will later want to differentiate the algebraic part of DAEs (to take
-- 
2.43.0


From 1aedb2f494ff11ab282b4c0f3259043d32e738bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:45 +0000
Subject: [PATCH 31/40] fix: reverse linear solve of the second component of
 Kaps' problem

---
 src/rkopenmdao/odes/kaps.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index dec5493..be98204 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -276,12 +276,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 -butcher_diagonal_element * delta_t * d_outputs["y_2"]
                 - d_outputs["y_2_stage"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
             d_residuals["y_2"] = (
@@ -289,12 +285,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 + d_outputs["y_2_stage"]
                 - d_outputs["y_2"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
 
-- 
2.43.0


From 736da4897ee0c321f73f76f398ca572b4dd0e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:45 +0000
Subject: [PATCH 32/40] fix: solution of Kaps' problem satisfies its initial
 conditions

---
 src/rkopenmdao/odes/kaps.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index be98204..e67a1a6 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -340,13 +340,14 @@ class KapsGroup(om.Group):
         Analytical solution to Kaps problem (using Homotopy Perturbation Method) to
         compare with the components above.
         """
+        elapsed = time - initial_time
         return np.array(
             [
-                initial_values[1] * np.exp(-2 * time)
-                + (initial_values[0] - initial_values[1] ** 2) * np.exp(-2 * time),
+                initial_values[1] ** 2 * np.exp(-2 * elapsed)
+                + (initial_values[0] - initial_values[1] ** 2) * np.exp(-2 * elapsed),
                 (initial_values[1] - initial_values[0] + initial_values[1] ** 2)
-                * np.exp(-time)
-                + initial_values[0] * np.exp(-2 * time)
-                - initial_values[1] ** 2 * np.exp(-2 * time),
+                * np.exp(-elapsed)
+                + initial_values[0] * np.exp(-2 * elapsed)
+                - initial_values[1] ** 2 * np.exp(-2 * elapsed),
             ]
         )
-- 
2.43.0


From 942c920abfa71b43d26cf41edfec083176c6b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:11 +0000
Subject: [PATCH 33/40] fix: Prothero-Robinson solution decays with the
 stiffness of the problem

---
 src/rkopenmdao/odes/prothero_robinson_ode.py | 5 +++--
 src/rkopenmdao/utils/problems.py             | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index dc0d05f..32d88d4 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -64,9 +64,10 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
         time: float,
         initial_values=get_initial_values(),
         initial_time=0.0,
+        lambda_=-1e2,
     ):
         """Analytical solution of the ODE"""
-        # x = phi(t) + Ce^t
+        # x = phi(t) + C * e^(lambda * (t - t_0)), C = x_0 - phi(t_0)
         return ProtheroRobinson.phi(time) + (
             initial_values - ProtheroRobinson.phi(initial_time)
-        ) / np.exp(initial_time) * np.exp(time)
+        ) * np.exp(lambda_ * (time - initial_time))
diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index d5ad166..b5fc63f 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -3,6 +3,7 @@
 import argparse
 from collections.abc import Callable
 from dataclasses import dataclass, field
+from functools import partial
 import os
 import pathlib
 from typing import Tuple, Union
@@ -215,7 +216,7 @@ def prothero_robinson_problem(_lambda: float = -1e2):
         stiffness_coef,
         folder_path,
         ProtheroRobinson,
-        ProtheroRobinson.solution,
+        partial(ProtheroRobinson.solution, lambda_=_lambda),
     )
 
 
-- 
2.43.0


From 40daab3d258e4baab2ebc921c1bdead851538dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:11 +0000
Subject: [PATCH 34/40] fix: derivatives of the Prothero-Robinson component

---
 src/rkopenmdao/odes/prothero_robinson_ode.py | 28 ++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index 32d88d4..ba497ce 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -54,6 +54,34 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
             + self.d_phi(stage_time)
         ) / (1 - lambda_ * _delta_t * self.om_data_exchange.stage_factor)
 
+    def compute_jacvec_product(
+        self,
+        inputs,
+        d_inputs,
+        d_outputs,
+        mode,
+        *_,
+        **__,
+    ):
+        _delta_t = self.om_data_exchange.step_size
+        stage_time = inputs["time"]
+        lambda_ = self.options["lambda_"]
+        denominator = 1 - lambda_ * _delta_t * self.om_data_exchange.stage_factor
+        # d_phi' = -phi
+        derivatives = {
+            "time": -(lambda_ * self.d_phi(stage_time) + self.phi(stage_time)),
+            "x": lambda_,
+            "acc_stages": lambda_ * _delta_t,
+        }
+        if "x_stage" not in d_outputs:
+            return
+        for name, derivative in derivatives.items():
+            if name in d_inputs:
+                if mode == "fwd":
+                    d_outputs["x_stage"] += derivative * d_inputs[name] / denominator
+                elif mode == "rev":
+                    d_inputs[name] += derivative * d_outputs["x_stage"] / denominator
+
     @staticmethod
     def get_initial_values():
         """Initial values for the ODE"""
-- 
2.43.0


From 08d8bd2b53f9766810fcdfcb2fd641e49c762d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:11 +0000
Subject: [PATCH 35/40] fix: linear ODE leaves variables outside of the
 linearized scope alone

---
 src/rkopenmdao/odes/simple_linear_ode.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/odes/simple_linear_ode.py b/src/rkopenmdao/odes/simple_linear_ode.py
index 0f586db..e8f03d4 100644
--- a/src/rkopenmdao/odes/simple_linear_ode.py
+++ b/src/rkopenmdao/odes/simple_linear_ode.py
@@ -40,12 +40,22 @@ class SimpleLinearODE(ExplicitUnsteadyComponent):
         delta_t = self.om_data_exchange.step_size
         butcher_diagonal_element = self.om_data_exchange.stage_factor
         factor = (1 + delta_t * butcher_diagonal_element) ** -1
+        if "y_stage" not in d_outputs:
+            return
         if mode == "fwd":
-            d_outputs["y_stage"] -= factor * d_inputs["y_old"]
-            d_outputs["y_stage"] -= delta_t * factor * d_inputs["y_accumulated_stages"]
+            if "y_old" in d_inputs:
+                d_outputs["y_stage"] -= factor * d_inputs["y_old"]
+            if "y_accumulated_stages" in d_inputs:
+                d_outputs["y_stage"] -= (
+                    delta_t * factor * d_inputs["y_accumulated_stages"]
+                )
         elif mode == "rev":
-            d_inputs["y_old"] -= factor * d_outputs["y_stage"]
-            d_inputs["y_accumulated_stages"] -= delta_t * factor * d_outputs["y_stage"]
+            if "y_old" in d_inputs:
+                d_inputs["y_old"] -= factor * d_outputs["y_stage"]
+            if "y_accumulated_stages" in d_inputs:
+                d_inputs["y_accumulated_stages"] -= (
+                    delta_t * factor * d_outputs["y_stage"]
+                )
 
     @staticmethod
     def simple_linear_solution(
-- 
2.43.0


From b0f75c166db744b5afd0b376510a614b179b5cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:11 +0000
Subject: [PATCH 36/40] fix: output files in the working directory need no
 directory to be created

---
 src/rkopenmdao/utils/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index b5fc63f..c6907e2 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -30,7 +30,7 @@ def generate_path(path: str):
     if path[-3::] == ".h5" or path[-4::] == ".png":
         idx = path.rfind("/")
         directory_path = path[: idx + 1]
-        if not os.path.exists(directory_path):
+        if directory_path and not os.path.exists(directory_path):
             os.makedirs(directory_path)
             print(f"The path to {directory_path} has been paved.")
     return path
-- 
2.43.0


From ff1d8dbfe4d6ccc8558c42622ddb9bb9116edb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 37/40] fix: results of different step sizes of a study are
 different files

---
 src/rkopenmdao/utils/problems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index c6907e2..2a98c6c 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -73,8 +73,10 @@ class Problem:
             name = butcher_name.replace(" ", "_").replace(",", "").lower()
             return name, self.folder_path / _type / f"{name}.h5"
         elif isinstance(_type, float):
+            # as many digits as necessary to tell different step sizes apart
+            step_size = np.format_float_scientific(_type, trim="-", exp_digits=2)
             name = (
-                f"data_{_type:.0E}_{butcher_name}".replace(" ", "_")
+                f"data_{step_size}_{butcher_name}".replace(" ", "_")
                 .replace(",", "")
                 .lower()
             )
-- 
2.43.0


From 905f72584b7cba9e5f7587239146261f4fb89832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 38/40] fix: products after one with values that are not finite
 are correct again

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index b857afa..ad2e0c0 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_residuals.asarray()[:] *= 0.0
+        d_residuals.asarray()[:] = 0.0
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -196,7 +196,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_outputs.asarray()[:] *= 0.0
+        d_outputs.asarray()[:] = 0.0
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From b036cc36cb3c1a5d7f31b9e4b3ba4abc5d3c5479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:26 +0000
Subject: [PATCH 39/40] fix: integer step sizes and tolerances don't make the
 adaptive control truncate

---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index b21f5e0..f9575a7 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -417,12 +417,12 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             self._runge_kutta_discretization.create_empty_discretization_state(
                 self._ode
             ),
-            np.array([self._integration_config.initial_step_size]),
+            np.array([self._integration_config.initial_step_size], dtype=float),
             # FIXME: The error controller should report how far back time steps and
             # error estimates need to be provided, currently this is hardcoded to two
             # for both.
             np.zeros(2),
-            np.full(2, self._error_controller.config.tol),
+            np.full(2, self._error_controller.config.tol, dtype=float),
         )
         self._time_integration_state_perturbations = TimeIntegrationState(
             self._runge_kutta_discretization.create_empty_discretization_state(
-- 
2.43.0


From ceafc3ff5888caad6e95554489855869585c346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:26 +0000
Subject: [PATCH 40/40] fix: the first step of an adaptive integration doesn't
 go beyond the end time

---
 src/rkopenmdao/runge_kutta_integrator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index f9575a7..22715c6 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -586,6 +586,14 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state.step_size_suggestion[0] = (
             self._integration_config.initial_step_size
         )
+        if self._integration_config.use_adaptive_time_stepping:
+            # as all others, the first step doesn't go beyond the end
+            integration_state.step_size_suggestion[0] = min(
+                integration_state.step_size_suggestion[0],
+                self._remaining_time_func(
+                    integration_state.discretization_state.final_time[0]
+                ),
+            )
 
     def _iterate_on_step(
         self, time_integration_state: TimeIntegrationState, i: int = 0
-- 
2.43.0

