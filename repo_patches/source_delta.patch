From 5bcdda8c618fad2627f4198046a0c6a0fe52d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 01/35] fix: support fewer than two time steps in
 PyrevolveCheckpointer

---
 .../pyrevolve_checkpointer.py                 | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 344d818..d102159 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -107,7 +107,10 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def create_checkpointer(self):
         """Creates the actual revolver object used for checkpointing by Pyrevolve."""
-        self._revolver = self._revolver_class_type(**self.revolver_options)
+        # The first step is done outside of the revolver. If it is the only one, there
+        # is nothing left to schedule, which pyRevolve doesn't support.
+        if self.revolver_options["n_timesteps"] > 0:
+            self._revolver = self._revolver_class_type(**self.revolver_options)
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
@@ -160,14 +163,15 @@ class PyrevolveCheckpointer(CheckpointInterface):
         final_state: TimeIntegrationState
             The resulting state after completing all time steps.
         """
-        self._revolver.fwd_operator.time_integration_state.set(initial_state)
-        self._revolver.fwd_operator.apply(t_start=-1, t_end=0)
-        self._first_complete_state.set(
-            self._revolver.fwd_operator.time_integration_state
-        )
-        self.state.set(self._revolver.fwd_operator.time_integration_state)
-        self._revolver.apply_forward()
-        return self._revolver.fwd_operator.time_integration_state
+        fwd_operator = self.revolver_options["fwd_operator"]
+        fwd_operator.time_integration_state.set(initial_state)
+        if self.termination_criterion.number_of_steps > 0:
+            fwd_operator.apply(t_start=-1, t_end=0)
+        self._first_complete_state.set(fwd_operator.time_integration_state)
+        self.state.set(fwd_operator.time_integration_state)
+        if self._revolver is not None:
+            self._revolver.apply_forward()
+        return fwd_operator.time_integration_state
 
     def iterate_reverse(
         self, final_state_perturbation: TimeIntegrationState
@@ -188,9 +192,10 @@ class PyrevolveCheckpointer(CheckpointInterface):
             steps.
         """
         self.state_perturbation.set(final_state_perturbation)
-        self._revolver.apply_reverse()
-        self._revolver.rev_operator.time_integration_state.set(
-            self._first_complete_state
-        )
-        self._revolver.rev_operator.apply(t_start=-1, t_end=0)
-        return self._revolver.rev_operator.time_integration_state_perturbations
+        if self._revolver is not None:
+            self._revolver.apply_reverse()
+        rev_operator = self.revolver_options["rev_operator"]
+        rev_operator.time_integration_state.set(self._first_complete_state)
+        if self.termination_criterion.number_of_steps > 0:
+            rev_operator.apply(t_start=-1, t_end=0)
+        return rev_operator.time_integration_state_perturbations
-- 
2.43.0


From cdbbe94f3597af2f5e0a59119f2d08bfed6592c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 02/35] fix: do not modify the revolver_options passed to
 PyrevolveCheckpointer

---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index d102159..3ef1352 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -74,6 +74,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
                 Termination criterion must be of type PredefinedNumberOfSteps.
                 """
             )
+        # Don't write into the dict passed by the user, it may be used multiple times.
+        self.revolver_options = dict(self.revolver_options)
         for key, value in self.revolver_options.items():
             if self.revolver_type == "MultiLevel" and key == "storage_list":
                 storage_list = []
-- 
2.43.0


From 03166fdbba8e3db9fd812bcc25043bb2dae884a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 03/35] fix: number forward steps with pyrevolve checkpointing
 from one

---
 .../runge_kutta_integrator_pyrevolve_classes.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
index 4cade07..7cb270e 100644
--- a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
+++ b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
@@ -169,7 +169,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         # PyRevolve only ever uses t_start and t_end as arguments, but the interface is
         # how it is.
         """
-        Does forward (primal) integration from step `t_start` + 1 to `t_end` + 1.
+        Does forward (primal) integration from step `t_start` + 2 to `t_end` + 1.
 
         Parameters
         ----------
@@ -178,7 +178,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         t_end: int
             Last integration time step shifted by one.
         """
-        for step in range(kwargs["t_start"] + 1, kwargs["t_end"] + 1):
+        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
             # TODO?: Add iteration to fwd_op
             self.time_integration_state.set(
                 self.fwd_operation(step, self.time_integration_state)
-- 
2.43.0


From d5095d23c265e84c35ec3f005f00388c4ca93bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 04/35] fix: use one checkpoint by default for two steps in
 PyrevolveCheckpointer

---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 3ef1352..07d0ac0 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -94,7 +94,7 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
         if "n_checkpoints" not in self.revolver_options:
             if self.revolver_type not in ["MultiLevel", "Base"]:
-                self.revolver_options["n_checkpoints"] = 1 if num_steps == 1 else None
+                self.revolver_options["n_checkpoints"] = 1 if num_steps <= 2 else None
 
         self.revolver_options["fwd_operator"] = RungeKuttaForwardOperator(
             self.state,
-- 
2.43.0


From a118bbe14e0b75a1c15916419947a405affc24b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:26 +0000
Subject: [PATCH 05/35] fix: copy embedded state and error estimate when
 setting a discretization state

---
 .../time_discretization/runge_kutta_discretization_state.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index f9ed9ee..5c7c40c 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -216,6 +216,11 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
         self.embedded_state = np.zeros_like(self.start_state)
         self.error_estimate = np.zeros_like(self.start_state)
 
+    def set(self, other: EmbeddedRungeKuttaDiscretizationState):
+        super().set(other)
+        self.embedded_state[:] = other.embedded_state[:]
+        self.error_estimate[:] = other.error_estimate[:]
+
     def to_dict(self) -> dict:
         time_step_dict = super().to_dict()
         time_step_dict["embedded_state"] = self.embedded_state
-- 
2.43.0


From d1c48f905314bda2b4df35b717be0ec4910900ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:26 +0000
Subject: [PATCH 06/35] fix: make states survive the round trip through to_dict
 and from_dict

---
 .../runge_kutta_discretization_state.py             |  7 +++++--
 src/rkopenmdao/time_integration_state.py            | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index 5c7c40c..a84c71a 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -124,6 +124,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         time_step_dict["independent_input"] = self.independent_inputs
         time_step_dict["final_independent_output"] = self.final_independent_outputs
         time_step_dict["final_time"] = self.final_time
+        time_step_dict["step_size"] = self.step_size
         time_step_dict["linearization_points"] = self.linearization_points
 
         return time_step_dict
@@ -133,7 +134,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         number_of_stages = len(state_dict["linearization_points"])
         state = cls(
             ode_state_size=state_dict["final_state"].size,
-            independent_input_size=state_dict["independent_input"],
+            independent_input_size=state_dict["independent_input"].size,
             independent_output_size=state_dict["stage_0"]["independent_output"].size,
             number_of_stages=number_of_stages,
             linearization_point_size=state_dict["linearization_points"].shape[1],
@@ -151,6 +152,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         state.independent_inputs = state_dict["independent_input"]
         state.final_independent_outputs = state_dict["final_independent_output"]
         state.final_time = state_dict["final_time"]
+        state.step_size = state_dict["step_size"]
         state.linearization_points = state_dict["linearization_points"]
         return state
 
@@ -230,5 +232,6 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
     @classmethod
     def from_dict(cls, state_dict: dict):
         state = super().from_dict(state_dict)
-        state.embedded_state = state_dict["embedded_dict"]
+        state.embedded_state = state_dict["embedded_state"]
         state.error_estimate = state_dict["error_estimate"]
+        return state
diff --git a/src/rkopenmdao/time_integration_state.py b/src/rkopenmdao/time_integration_state.py
index 0f57e60..f8c8662 100644
--- a/src/rkopenmdao/time_integration_state.py
+++ b/src/rkopenmdao/time_integration_state.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 import numpy as np
 
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
+    EmbeddedRungeKuttaDiscretizationState,
     RungeKuttaDiscretizationState,
 )
 
@@ -81,11 +82,15 @@ class TimeIntegrationState:
         state_dict: dict
             Dictionary from which a time integration state is created.
         """
+        discretization_state_dict = time_state_dict["discretization_state"]
+        discretization_state_class = (
+            EmbeddedRungeKuttaDiscretizationState
+            if "error_estimate" in discretization_state_dict
+            else RungeKuttaDiscretizationState
+        )
         return cls(
-            RungeKuttaDiscretizationState.from_dict(
-                time_state_dict["discretization_state"]
-            ),
-            time_state_dict["step_size_suggestion"][0],
+            discretization_state_class.from_dict(discretization_state_dict),
+            time_state_dict["step_size_suggestion"],
             time_state_dict["step_size_history"],
             time_state_dict["error_history"],
         )
-- 
2.43.0


From e08395be4eb5e5f6c31af0624abfa29f48f66595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 07/35] fix: take the initial time into account when reusing
 checkpoints

---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 38285d6..7cafc62 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -828,6 +828,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.independent_inputs,
                 temporary_integration_state.discretization_state.independent_inputs,
             )
+            and np.array_equal(
+                self._cached_input.final_time,
+                temporary_integration_state.discretization_state.final_time,
+            )
         ):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
-- 
2.43.0


From f6f039bce317c69fda199cfd492c37b436f0ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 08/35] fix: do not reuse checkpoints of a failed forward
 integration

---
 src/rkopenmdao/runge_kutta_integrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 7cafc62..caf523a 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -438,11 +438,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
+        # checkpoints can't be reused until all of them are created successfully
+        self._cached_input = None
         self._compute_preparation_phase(inputs, self._time_integration_state)
+        cached_input = deepcopy(self._time_integration_state.discretization_state)
         self._checkpointer.create_checkpointer()
         self._time_integration_state.set(
             self._checkpointer.iterate_forward(self._time_integration_state)
         )
+        self._cached_input = cached_input
         self._from_numpy_array_time_integration(
             self._time_integration_state.discretization_state.final_state, outputs
         )
@@ -462,7 +466,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             inputs, integration_state.discretization_state.independent_inputs
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        self._cached_input = deepcopy(integration_state.discretization_state)
 
         self._reset_error_control(integration_state)
         integration_state.discretization_state.linearization_points.fill(0.0)
-- 
2.43.0


From f0e169441f246faf64d7f596a302a3133d7fe176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 09/35] fix: do not reuse checkpoints after a forward mode
 product

---
 src/rkopenmdao/runge_kutta_integrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index caf523a..aadfd82 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -663,6 +663,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             print(
                 "\n" + "=" * 24 + " fwd-mode jacvec product starts " + "=" * 24 + "\n\n"
             )
+        # The checkpointer may rely on the time integration state overwritten here.
+        self._cached_input = None
         self._compute_jacvec_fwd_preparation_phase(
             inputs,
             d_inputs,
-- 
2.43.0


From 2ec755fdd422426d88206ab7e27c3ab2ff130bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 10/35] fix: do not reuse checkpoints of a failed reverse mode
 product

---
 src/rkopenmdao/runge_kutta_integrator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index aadfd82..ed1d4cc 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -777,6 +777,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             integration_state_perturbations,
         )
+        # using the checkpoints invalidates the checkpointer in general
+        self._cached_input = None
         self._time_integration_state_perturbations.set(
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
@@ -793,9 +795,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             "time_initial"
         ] += integration_state_perturbations.discretization_state.final_time[0]
 
-        # using the checkpoints invalidates the checkpointer in general
-        self._cached_input = None
-
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
-- 
2.43.0


From c6f4d270b10856389c8a61a1d28b651acea43722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:18 +0000
Subject: [PATCH 11/35] fix: do not reuse checkpoints from before a repeated
 setup

---
 src/rkopenmdao/runge_kutta_integrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index ed1d4cc..9c66729 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -426,6 +426,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         )
 
     def _setup_checkpointing(self):
+        # a new checkpointer doesn't hold the checkpoints of a previous setup
+        self._cached_input = None
         self._checkpointer = self.options["checkpointing_type"](
             termination_criterion=self._integration_config.termination_criterion,
             run_step_func=self._run_step,
-- 
2.43.0


From d8807f22b9fbb62c07e1a501075c67d96f524f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:39 +0000
Subject: [PATCH 12/35] fix: start every forward integration with empty multi
 level storages

---
 .../pyrevolve_checkpointer.py                 | 50 +++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 07d0ac0..475ff15 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -76,19 +76,6 @@ class PyrevolveCheckpointer(CheckpointInterface):
             )
         # Don't write into the dict passed by the user, it may be used multiple times.
         self.revolver_options = dict(self.revolver_options)
-        for key, value in self.revolver_options.items():
-            if self.revolver_type == "MultiLevel" and key == "storage_list":
-                storage_list = []
-                for storage_type, options in value.items():
-                    if storage_type == "Numpy":
-                        storage_list.append(pr.NumpyStorage(checkpoint.size, **options))
-                    elif storage_type == "Disk":
-                        storage_list.append(pr.DiskStorage(checkpoint.size, **options))
-                    elif storage_type == "Bytes":
-                        storage_list.append(pr.BytesStorage(checkpoint.size, **options))
-                self.revolver_options[key] = storage_list
-            else:
-                self.revolver_options[key] = value
         self.revolver_options["checkpoint"] = checkpoint
         self.revolver_options["n_timesteps"] = num_steps - 1
 
@@ -112,7 +99,42 @@ class PyrevolveCheckpointer(CheckpointInterface):
         # The first step is done outside of the revolver. If it is the only one, there
         # is nothing left to schedule, which pyRevolve doesn't support.
         if self.revolver_options["n_timesteps"] > 0:
-            self._revolver = self._revolver_class_type(**self.revolver_options)
+            self._revolver = None
+            options = dict(self.revolver_options)
+            if self.revolver_type == "MultiLevel" and "storage_list" in options:
+                # Storages may still contain checkpoints of a previous forward
+                # iteration, so each revolver gets its own ones.
+                options["storage_list"] = self._create_storage_list(
+                    options["storage_list"], options["checkpoint"].size
+                )
+            self._revolver = self._revolver_class_type(**options)
+
+    @staticmethod
+    def _create_storage_list(storages: dict, checkpoint_size: int) -> list:
+        """
+        Creates the storages requested for a multi level revolver.
+
+        Parameters
+        ----------
+        storages: dict
+            Type of the storages and the options for their creation.
+        checkpoint_size: int
+            Size of one checkpoint.
+
+        Returns
+        -------
+        storage_list: list
+            Newly created, empty storages.
+        """
+        storage_list = []
+        for storage_type, options in storages.items():
+            if storage_type == "Numpy":
+                storage_list.append(pr.NumpyStorage(checkpoint_size, **options))
+            elif storage_type == "Disk":
+                storage_list.append(pr.DiskStorage(checkpoint_size, **options))
+            elif storage_type == "Bytes":
+                storage_list.append(pr.BytesStorage(checkpoint_size, **options))
+        return storage_list
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
-- 
2.43.0


From 5608ee9dc5bc374d009219d29b12f6abd80a991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:43 +0000
Subject: [PATCH 13/35] fix: fail instead of retrying a rejected step with the
 same step size

---
 src/rkopenmdao/error_controller.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 3c7d1d7..a7efd54 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -148,10 +148,10 @@ class ErrorController:
             step_size_history=step_size_history,
         )
         if not status.acceptance:
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise OuterErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
-                    delta t {delta_t} on failure."""
+                    f"""Suggested delta T {status.step_size_suggestion} is not smaller 
+                    than delta t {delta_t} on failure."""
                 )
         return status
 
@@ -408,9 +408,9 @@ class ErrorControllerDecorator(ErrorController):
         )
         if not status.acceptance:
             self._is_not_inner = False
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise InnerErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
-                    delta t {delta_t} on failure."""
+                    f"""Suggested delta T {status.step_size_suggestion} is not smaller 
+                    than delta t {delta_t} on failure."""
                 )
         return status
-- 
2.43.0


From 11b6605b9baaab56c69eb4d52dc9a2cc7f190368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:44 +0000
Subject: [PATCH 14/35] fix: do not accept any error if a step is as long as
 the time remaining after it

---
 src/rkopenmdao/error_controller.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index a7efd54..2fd4a53 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -190,7 +190,6 @@ class ErrorController:
         success = False
         if (
             np.abs(delta_t - self.config.lower_bound) < 1e-10
-            or np.abs(delta_t - remaining_time) < 1e-10
             or error_measure <= self.config.tol
         ):
             success = True
-- 
2.43.0


From 19cc81f955a7bcb4782e0485122b13885aa2bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:44 +0000
Subject: [PATCH 15/35] fix: do not suggest zero or infinite step sizes after
 steps with an error of zero

---
 src/rkopenmdao/error_controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 2fd4a53..aba3197 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -242,8 +242,11 @@ class ErrorController:
         """
         delta_t_new = self.config.safety_factor * delta_t
         delta_t_new *= (self.config.tol / error_measure) ** self.alpha
-        delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
-        delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
+        # There is nothing to compare with after steps without an error.
+        if error_history[0] != 0.0:
+            delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
+        if error_history[1] != 0.0:
+            delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
         if step_size_history[0] != 0.0:
             delta_t_new *= (delta_t / step_size_history[0]) ** self.a
             if step_size_history[1] != 0.0:
-- 
2.43.0


From b2d62cc64e1b8bfbe117c0110b91ea9e3b6f013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:44 +0000
Subject: [PATCH 16/35] fix: use the decorating error controller after max_iter
 rejected steps

---
 src/rkopenmdao/error_controller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index aba3197..1f89924 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -355,7 +355,9 @@ class ErrorControllerDecorator(ErrorController):
                     error_history=error_history,
                     step_size_history=step_size_history,
                 )
-                if not status.acceptance:
+                if status.acceptance:
+                    self._outer_counter = 0
+                else:
                     self._outer_counter += 1
                     if not (
                         status.step_size_suggestion < delta_t
@@ -365,9 +367,9 @@ class ErrorControllerDecorator(ErrorController):
                             f"""Suggested delta T {status.step_size_suggestion} is 
                             larger than delta t {delta_t} on failure."""
                         )
-                self._outer_counter = 0
                 return status
             except OuterErrorControllerError:
+                self._outer_counter = 0
                 return self._run(
                     error_measure=error_measure,
                     delta_t=delta_t,
-- 
2.43.0


From c1c6b5cc8c689eebd05cbecdbf6d69ed07b8c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:44 +0000
Subject: [PATCH 17/35] fix: correct the first exponent of the H0_321 error
 controller

---
 src/rkopenmdao/error_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controllers.py b/src/rkopenmdao/error_controllers.py
index 2c7e906..edd215e 100644
--- a/src/rkopenmdao/error_controllers.py
+++ b/src/rkopenmdao/error_controllers.py
@@ -346,7 +346,7 @@ def h0_321(
     name="H0_321",
     base: ErrorController = None,
 ):
-    alpha = 1 / (3 * p)
+    alpha = 5 / (4 * p)
     beta = -1 / (2 * p)
     gamma = -3 / (4 * p)
     a = 1 / 4
-- 
2.43.0


From 24551e5439aa93fa3fe737b001f31ef3c89c6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:40 +0000
Subject: [PATCH 18/35] fix: start time integrations with a fresh error
 controller after a failed one

---
 src/rkopenmdao/error_controller.py       | 11 +++++++++++
 src/rkopenmdao/runge_kutta_integrator.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 1f89924..94797b9 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -110,6 +110,12 @@ class ErrorController:
         self._name = "Outermost " + name
         self._width = 0
 
+    def reset(self):
+        """
+        Discards all information of previous calls. To be called before the start of
+        a time integration.
+        """
+
     def __call__(
         self,
         *,
@@ -337,6 +343,11 @@ class ErrorControllerDecorator(ErrorController):
         self._name = "Innermost " + name
         self._outer_counter = 0
 
+    def reset(self):
+        self.error_controller.reset()
+        self._is_not_inner = True
+        self._outer_counter = 0
+
     def __call__(
         self,
         *,
diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 9c66729..1e0f52f 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -562,6 +562,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state.step_size_suggestion[0] = (
             self._integration_config.initial_step_size
         )
+        self._error_controller.reset()
 
     def _iterate_on_step(
         self, time_integration_state: TimeIntegrationState, i: int = 0
-- 
2.43.0


From 3d92023976f67c7ada1bfc4cda5ac58792455d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 19/35] fix: do not return zero for every norm of order -inf

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 208a0c3..abc38dd 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -379,8 +379,10 @@ class OpenMDAOODE(DiscretizedODE):
 
     def compute_state_norm(self, state: DiscretizedODEResultState) -> float:
         stage_state = state.stage_state
-        non_distributed_intermediate = 0.0
-        distributed_intermediate = 0.0
+        # Neutral value with respect to _add_to_intermediate
+        initial_intermediate = np.inf if self._norm_order == -np.inf else 0.0
+        non_distributed_intermediate = initial_intermediate
+        distributed_intermediate = initial_intermediate
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if quantity.name not in self._norm_exclusions:
                 norm_intermediate = self._partial_norm_intermediate(
-- 
2.43.0


From 16e18fa538101c993e5134eb6a78bbfbbbf5c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:41 +0000
Subject: [PATCH 20/35] fix: compute infinity norms if a process has no values
 of a quantity

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index abc38dd..8564f29 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -379,10 +379,8 @@ class OpenMDAOODE(DiscretizedODE):
 
     def compute_state_norm(self, state: DiscretizedODEResultState) -> float:
         stage_state = state.stage_state
-        # Neutral value with respect to _add_to_intermediate
-        initial_intermediate = np.inf if self._norm_order == -np.inf else 0.0
-        non_distributed_intermediate = initial_intermediate
-        distributed_intermediate = initial_intermediate
+        non_distributed_intermediate = self._empty_intermediate(self._norm_order)
+        distributed_intermediate = self._empty_intermediate(self._norm_order)
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if quantity.name not in self._norm_exclusions:
                 norm_intermediate = self._partial_norm_intermediate(
@@ -411,9 +409,15 @@ class OpenMDAOODE(DiscretizedODE):
     ) -> float:
         start = quantity.array_metadata.start_index
         end = quantity.array_metadata.end_index
+        if start == end:  # quantity without values on this process
+            return self._empty_intermediate(order)
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
         return np.linalg.norm(state[start:end], order) ** exponent
 
+    def _empty_intermediate(self, order: float) -> float:
+        # Neutral value with respect to _add_to_intermediate
+        return np.inf if order == -np.inf else 0.0
+
     def _add_to_intermediate(
         self, intermediate_value: float, added_value: float, order: float
     ) -> float:
-- 
2.43.0


From 8322b7755b3dfe6bf55dadc5b6b91c107d46276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 21/35] fix: warn about tableaux whose rows do not sum up to
 the time stages

---
 src/rkopenmdao/butcher_tableau.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/butcher_tableau.py b/src/rkopenmdao/butcher_tableau.py
index 057603e..ca228a4 100644
--- a/src/rkopenmdao/butcher_tableau.py
+++ b/src/rkopenmdao/butcher_tableau.py
@@ -71,7 +71,9 @@ class ButcherTableau:
             self.butcher_time_stages = np.sum(self.butcher_matrix, 1)
         else:
             self.butcher_time_stages = butcher_time_stages
-            if np.all(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5:
+            if np.any(
+                np.abs(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5
+            ):
                 warnings.warn(
                     "Spatial shift matrix (A) rows do not "
                     "sum up to the temporal shift vector (c) indices value"
-- 
2.43.0


From 3a07572313496ea137ab519eef2a117cbd92bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 22/35] fix: invert the transposed system in reverse mode of
 the Kaps component

---
 src/rkopenmdao/odes/kaps.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index dec5493..be98204 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -276,12 +276,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 -butcher_diagonal_element * delta_t * d_outputs["y_2"]
                 - d_outputs["y_2_stage"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
             d_residuals["y_2"] = (
@@ -289,12 +285,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 + d_outputs["y_2_stage"]
                 - d_outputs["y_2"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
 
-- 
2.43.0


From f4d198b918427d91e44ebad2523b781935493cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 23/35] fix: start the analytical solution of Kaps' problem at
 the initial values and time

---
 src/rkopenmdao/odes/kaps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index be98204..5b7bca4 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -340,9 +340,10 @@ class KapsGroup(om.Group):
         Analytical solution to Kaps problem (using Homotopy Perturbation Method) to
         compare with the components above.
         """
+        time = time - initial_time
         return np.array(
             [
-                initial_values[1] * np.exp(-2 * time)
+                initial_values[1] ** 2 * np.exp(-2 * time)
                 + (initial_values[0] - initial_values[1] ** 2) * np.exp(-2 * time),
                 (initial_values[1] - initial_values[0] + initial_values[1] ** 2)
                 * np.exp(-time)
-- 
2.43.0


From a36179a2f0b71816567ed01110243d94f53129ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 24/35] fix: use the coefficient of the ODE in the solution of
 the Prothero-Robinson problem

---
 src/rkopenmdao/odes/prothero_robinson_ode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index dc0d05f..c8c1235 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -64,9 +64,10 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
         time: float,
         initial_values=get_initial_values(),
         initial_time=0.0,
+        lambda_=-1e2,
     ):
         """Analytical solution of the ODE"""
-        # x = phi(t) + Ce^t
+        # x = phi(t) + Ce^(lambda * t)
         return ProtheroRobinson.phi(time) + (
             initial_values - ProtheroRobinson.phi(initial_time)
-        ) / np.exp(initial_time) * np.exp(time)
+        ) * np.exp(lambda_ * (time - initial_time))
-- 
2.43.0


From 08aa2a12238bd49a0e0476d09bcc95885996dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 25/35] fix: give the derivatives of the Prothero-Robinson
 component

---
 src/rkopenmdao/odes/prothero_robinson_ode.py | 27 ++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index c8c1235..c9456eb 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -54,6 +54,33 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
             + self.d_phi(stage_time)
         ) / (1 - lambda_ * _delta_t * self.om_data_exchange.stage_factor)
 
+    def compute_jacvec_product(
+        self,
+        inputs,
+        d_inputs,
+        d_outputs,
+        mode,
+        *_,
+        **__,
+    ):
+        _delta_t = self.om_data_exchange.step_size
+        stage_time = inputs["time"]
+        lambda_ = self.options["lambda_"]
+        factor = 1 / (1 - lambda_ * _delta_t * self.om_data_exchange.stage_factor)
+        partials = {
+            # the second derivative of phi is -phi
+            "time": -(lambda_ * self.d_phi(stage_time) + self.phi(stage_time)) * factor,
+            "x": lambda_ * factor,
+            "acc_stages": lambda_ * _delta_t * factor,
+        }
+        if "x_stage" in d_outputs:
+            for name, partial in partials.items():
+                if name in d_inputs:
+                    if mode == "fwd":
+                        d_outputs["x_stage"] += partial * d_inputs[name]
+                    elif mode == "rev":
+                        d_inputs[name] += partial * d_outputs["x_stage"]
+
     @staticmethod
     def get_initial_values():
         """Initial values for the ODE"""
-- 
2.43.0


From 3224bd65e6133a76ea4882de59e1f98b2727327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:43 +0000
Subject: [PATCH 26/35] fix: don't call the callbacks of compute for steps
 repeated in reverse mode

---
 src/rkopenmdao/runge_kutta_integrator.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 1e0f52f..87d3899 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -62,6 +62,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
     _checkpointer: CheckpointInterface | None
 
+    _recompute_steps: bool
+
     _compute_callbacks: list[Callback]
     _compute_jacvec_product_fwd_callbacks: list[Callback]
     _compute_jacvec_product_rev_callbacks: list[Callback]
@@ -86,6 +88,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
         self._checkpointer = None
 
+        self._recompute_steps = False
+
     def initialize(self):
         self.options.declare(
             "time_stage_problem",
@@ -539,7 +543,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def _run_step(
         self, step: int, time_integration_state: TimeIntegrationState
     ) -> TimeIntegrationState:
-        for callback in self._compute_callbacks:
+        # Steps the checkpointer repeats for the reverse mode were already seen by the
+        # callbacks.
+        callbacks = [] if self._recompute_steps else self._compute_callbacks
+        for callback in callbacks:
             callback.before_iteration(
                 step,
                 time_integration_state,
@@ -547,7 +554,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._runge_kutta_discretization,
             )
         time_integration_state.set(self._iterate_on_step(time_integration_state))
-        for callback in self._compute_callbacks:
+        for callback in callbacks:
             callback.after_iteration(
                 step,
                 time_integration_state,
@@ -782,9 +789,13 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         )
         # using the checkpoints invalidates the checkpointer in general
         self._cached_input = None
-        self._time_integration_state_perturbations.set(
-            self._checkpointer.iterate_reverse(integration_state_perturbations)
-        )
+        self._recompute_steps = True
+        try:
+            self._time_integration_state_perturbations.set(
+                self._checkpointer.iterate_reverse(integration_state_perturbations)
+            )
+        finally:
+            self._recompute_steps = False
 
         self._from_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
-- 
2.43.0


From d3e2186261496108fa6ac7a01f9801873d7a3b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:07 +0000
Subject: [PATCH 27/35] fix: use the sizes of inputs for the parts of
 distributed time independent inputs

---
 src/rkopenmdao/metadata_extractor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 1039eaf..a11e996 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -177,15 +177,16 @@ def _create_local_array_metadata(
     end_index: int,
     detailed_var: str,
     detailed_data: dict,
+    iotype: str,
 ) -> ArrayMetadata:
     if detailed_data["shape"] != detailed_data["global_shape"]:
         try:
-            sizes = stage_problem.model._var_sizes["output"][
+            sizes = stage_problem.model._var_sizes[iotype][
                 :,
                 stage_problem.model._var_allprocs_abs2idx[detailed_var],
             ]
         except KeyError:  # Have to deal with an older openMDAO version
-            sizes = stage_problem.model._var_sizes["nonlinear"]["output"][
+            sizes = stage_problem.model._var_sizes["nonlinear"][iotype][
                 :,
                 stage_problem.model._var_allprocs_abs2idx["nonlinear"][detailed_var],
             ]
@@ -232,6 +233,7 @@ def _extract_time_integration_quantity(
                 end_index=end_index,
                 detailed_var=detailed_var,
                 detailed_data=detailed_data,
+                iotype="output",
             )
         elif "step_input_var" in detailed_data["tags"]:
             found_step_input_var += 1
@@ -359,6 +361,7 @@ def _extract_time_independent_quantity(
                 end_index=end_index,
                 detailed_var=detailed_var,
                 detailed_data=detailed_data,
+                iotype="input",
             )
 
     if found_time_independent_input_var > 1:
-- 
2.43.0


From e0cd9224c61f1280229258421c21bacbb8c77a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:07 +0000
Subject: [PATCH 28/35] fix: pass the initial values of each quantity to the
 solution when reading files

---
 src/rkopenmdao/file_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 2a4ee28..65fb883 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -220,7 +220,7 @@ def read_hdf5_file(
                     result[quantity][int(key)][row] = group[quantity][row]
 
                 if len(quantities) > 1:
-                    quan_result = [result[quantity][0]] * len(quantities)
+                    quan_result = [f["0"][name][...] for name in quantities]
                     error_data[quantity][int(key)] = np.abs(
                         solution(
                             time[int(key)],
-- 
2.43.0


From a5cdcb8ffcae2acad7f09183d3f7b8a6bb826af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:37 +0000
Subject: [PATCH 29/35] fix: add to the vectors of OpenMDAO in jacvec products

---
 src/rkopenmdao/runge_kutta_integrator.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 87d3899..f343e82 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -508,7 +508,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 np_array[start:end] = om_vector[quantity.name].flatten()
 
     def _from_numpy_array_time_integration(
-        self, np_array: np.ndarray, om_vector: OMVector
+        self, np_array: np.ndarray, om_vector: OMVector, add: bool = False
     ):
         if om_vector._kind == "input":
             name_suffix = "_initial"
@@ -519,9 +519,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            om_vector[quantity.name + name_suffix] = np_array[start:end].reshape(
-                quantity.array_metadata.shape
-            )
+            value = np_array[start:end].reshape(quantity.array_metadata.shape)
+            if add:
+                om_vector[quantity.name + name_suffix] += value
+            else:
+                om_vector[quantity.name + name_suffix] = value
 
     def _from_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -536,7 +538,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] = np_array[start:end].reshape(
+                om_vector[quantity.name] += np_array[start:end].reshape(
                     quantity.array_metadata.shape
                 )
 
@@ -689,6 +691,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
+            add=True,
         )
         d_outputs[
             "time_final"
@@ -800,6 +803,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
             d_inputs,
+            add=True,
         )
         self._from_numpy_array_independent_input(
             integration_state_perturbations.discretization_state.independent_inputs,
-- 
2.43.0


From 18bccd45131f75d0924d73a52176142551436d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 30/35] fix: leave out variables out of scope in jacvec
 products

---
 src/rkopenmdao/runge_kutta_integrator.py | 54 ++++++++++++++----------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index f343e82..1482d09 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -488,7 +488,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            # variables out of the scope of a jacvec product count as zero
+            if quantity.name + name_suffix in om_vector:
+                np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            else:
+                np_array[start:end] = 0.0
 
     def _to_numpy_array_independent_inputs(
         self, om_vector: OMVector, np_array: np.ndarray
@@ -505,7 +509,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                np_array[start:end] = om_vector[quantity.name].flatten()
+                if quantity.name in om_vector:
+                    np_array[start:end] = om_vector[quantity.name].flatten()
+                else:
+                    np_array[start:end] = 0.0
 
     def _from_numpy_array_time_integration(
         self, np_array: np.ndarray, om_vector: OMVector, add: bool = False
@@ -520,10 +527,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
             value = np_array[start:end].reshape(quantity.array_metadata.shape)
-            if add:
-                om_vector[quantity.name + name_suffix] += value
-            else:
+            if not add:
                 om_vector[quantity.name + name_suffix] = value
+            elif quantity.name + name_suffix in om_vector:
+                om_vector[quantity.name + name_suffix] += value
 
     def _from_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -538,9 +545,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] += np_array[start:end].reshape(
-                    quantity.array_metadata.shape
-                )
+                if quantity.name in om_vector:
+                    om_vector[quantity.name] += np_array[start:end].reshape(
+                        quantity.array_metadata.shape
+                    )
 
     def _run_step(
         self, step: int, time_integration_state: TimeIntegrationState
@@ -693,11 +701,12 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             add=True,
         )
-        d_outputs[
-            "time_final"
-        ] += self._time_integration_state_perturbations.discretization_state.final_time[
-            0
-        ]
+        if "time_final" in d_outputs:
+            d_outputs[
+                "time_final"
+            ] += self._time_integration_state_perturbations.discretization_state.final_time[
+                0
+            ]
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
@@ -724,9 +733,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        integration_state_perturbations.discretization_state.final_time[0] = d_inputs[
-            "time_initial"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_inputs["time_initial"][0] if "time_initial" in d_inputs else 0.0
+        )
         self._reset_error_control(integration_state)
 
     def _compute_jacvec_fwd_run_steps(
@@ -809,9 +818,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-        d_inputs[
-            "time_initial"
-        ] += integration_state_perturbations.discretization_state.final_time[0]
+        if "time_initial" in d_inputs:
+            d_inputs[
+                "time_initial"
+            ] += integration_state_perturbations.discretization_state.final_time[0]
 
         if self.comm.rank == 0:
             print(
@@ -866,9 +876,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state_perturbations.discretization_state.independent_inputs.fill(
             0.0
         )
-        integration_state_perturbations.discretization_state.final_time[0] = d_outputs[
-            "time_final"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_outputs["time_final"][0] if "time_final" in d_outputs else 0.0
+        )
 
     def _run_step_jacvec_rev(
         self,
-- 
2.43.0


From 7dc3d4b502817d2fb3a63d506a05ecd8d9820c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:39 +0000
Subject: [PATCH 31/35] fix: leave out variables out of scope in products of
 the simple linear ODE

---
 src/rkopenmdao/odes/simple_linear_ode.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/odes/simple_linear_ode.py b/src/rkopenmdao/odes/simple_linear_ode.py
index 0f586db..0d77c52 100644
--- a/src/rkopenmdao/odes/simple_linear_ode.py
+++ b/src/rkopenmdao/odes/simple_linear_ode.py
@@ -40,12 +40,14 @@ class SimpleLinearODE(ExplicitUnsteadyComponent):
         delta_t = self.om_data_exchange.step_size
         butcher_diagonal_element = self.om_data_exchange.stage_factor
         factor = (1 + delta_t * butcher_diagonal_element) ** -1
-        if mode == "fwd":
-            d_outputs["y_stage"] -= factor * d_inputs["y_old"]
-            d_outputs["y_stage"] -= delta_t * factor * d_inputs["y_accumulated_stages"]
-        elif mode == "rev":
-            d_inputs["y_old"] -= factor * d_outputs["y_stage"]
-            d_inputs["y_accumulated_stages"] -= delta_t * factor * d_outputs["y_stage"]
+        partials = {"y_old": -factor, "y_accumulated_stages": -delta_t * factor}
+        if "y_stage" in d_outputs:
+            for name, partial in partials.items():
+                if name in d_inputs:
+                    if mode == "fwd":
+                        d_outputs["y_stage"] += partial * d_inputs[name]
+                    elif mode == "rev":
+                        d_inputs[name] += partial * d_outputs["y_stage"]
 
     @staticmethod
     def simple_linear_solution(
-- 
2.43.0


From 8ec3212e7803cb7f5ebccfce3115d93a76246b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:02 +0000
Subject: [PATCH 32/35] fix: clear invalid values of earlier calls from the
 linear vectors

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 8564f29..90dc154 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,9 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_residuals.asarray()[:] *= 0.0
+        # multiplying with zero would keep invalid values of earlier calls
+        d_outputs.set_val(0.0)
+        d_residuals.set_val(0.0)
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -196,7 +198,9 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_outputs.asarray()[:] *= 0.0
+        # multiplying with zero would keep invalid values of earlier calls
+        d_outputs.set_val(0.0)
+        d_residuals.set_val(0.0)
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From 43e5ad3c1511ec3c1b4349c9a4a4eca1b3dc7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 33/35] fix: reject quantities without their variables, ignore
 other variables with their tag

---
 src/rkopenmdao/metadata_extractor.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index a11e996..908d18c 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -122,6 +122,8 @@ def extract_time_integration_metadata(
                 f"Tags of {var} intersected with time integration quantities: "
                 f"{tags}."
             )
+        if "stage_output_var" not in data["tags"]:
+            continue
         quantity_name = tags.pop()
         if var in local_quantities:
             array_size, quantity = _extract_time_integration_quantity(
@@ -137,6 +139,13 @@ def extract_time_integration_metadata(
                 translation_metadata=TimeIntegrationTranslationMetadata(),
             )
         quantity_list.append(quantity)
+    found_quantities = {quantity.name for quantity in quantity_list}
+    for quantity_name in time_integration_quantity_list:
+        if quantity_name not in found_quantities:
+            raise SetupError(
+                f"For quantity {quantity_name}, there is no inner variable tagged with "
+                f"'stage_output_var'."
+            )
     runge_kutta_metadata = TimeIntegrationMetadata(
         time_variable=_search_for_time_variable(stage_problem),
         time_integration_array_size=array_size,
@@ -315,6 +324,8 @@ def add_time_independent_input_metadata(
                 f"forbidden. Tags of {var} intersected with time independent input "
                 f"quantities: {tags}."
             )
+        if "time_independent_input_var" not in data["tags"]:
+            continue
         quantity_name = tags.pop()
 
         if var in local_quantities:
@@ -334,6 +345,16 @@ def add_time_independent_input_metadata(
                 translation_metadata=TimeIndependentInputTranslationMetadata(),
             )
         runge_kutta_metadata.time_independent_input_quantity_list.append(quantity)
+    found_quantities = {
+        quantity.name
+        for quantity in runge_kutta_metadata.time_independent_input_quantity_list
+    }
+    for quantity_name in time_independent_input_quantity_list:
+        if quantity_name not in found_quantities:
+            raise SetupError(
+                f"For quantity {quantity_name}, there is no inner variable tagged with "
+                f"'time_independent_input_var'."
+            )
 
 
 def _extract_time_independent_quantity(
-- 
2.43.0


From 1ead9255f20a08b063cdb94249076af8d73760c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 34/35] fix: reject contradictory tags of variables

---
 src/rkopenmdao/metadata_extractor.py | 35 ++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 908d18c..418103f 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -91,6 +91,15 @@ class TimeIntegrationMetadata:
     )
 
 
+_INPUT_ROLES = {
+    "step_input_var",
+    "accumulated_stage_var",
+    "time_independent_input_var",
+    "time_variable",
+}
+_OUTPUT_ROLES = {"stage_output_var"}
+
+
 def extract_time_integration_metadata(
     stage_problem: om.Problem, time_integration_quantity_list: list
 ) -> TimeIntegrationMetadata:
@@ -146,6 +155,7 @@ def extract_time_integration_metadata(
                 f"For quantity {quantity_name}, there is no inner variable tagged with "
                 f"'stage_output_var'."
             )
+    _check_roles(stage_problem, time_integration_quantity_list)
     runge_kutta_metadata = TimeIntegrationMetadata(
         time_variable=_search_for_time_variable(stage_problem),
         time_integration_array_size=array_size,
@@ -154,6 +164,30 @@ def extract_time_integration_metadata(
     return runge_kutta_metadata
 
 
+def _check_roles(stage_problem: om.Problem, quantity_list: list) -> None:
+    """Raises an error if a variable with a role in the time integration has a further
+    role, a role for the other kind of variable, or belongs to several quantities."""
+    for iotype, roles in (("input", _INPUT_ROLES), ("output", _OUTPUT_ROLES)):
+        variables = stage_problem.model.get_io_metadata(
+            iotypes=iotype,
+            metadata_keys=["tags"],
+            tags=quantity_list,
+            get_remote=True,
+        )
+        for var, data in variables.items():
+            found_roles = set(data["tags"]) & (_INPUT_ROLES | _OUTPUT_ROLES)
+            if len(found_roles) > 1 or not found_roles <= roles:
+                raise SetupError(
+                    f"Variable {var} is an {iotype} and has the contradictory tag(s) "
+                    f"{found_roles}."
+                )
+            found_quantities = set(data["tags"]) & set(quantity_list)
+            if found_roles and len(found_quantities) > 1:
+                raise SetupError(
+                    f"Variable {var} belongs to several quantities: {found_quantities}."
+                )
+
+
 def _search_for_time_variable(stage_problem: om.Problem) -> str | None:
     local_quantities = stage_problem.model.get_io_metadata(
         iotypes="input",
@@ -355,6 +389,7 @@ def add_time_independent_input_metadata(
                 f"For quantity {quantity_name}, there is no inner variable tagged with "
                 f"'time_independent_input_var'."
             )
+    _check_roles(stage_problem, time_independent_input_quantity_list)
 
 
 def _extract_time_independent_quantity(
-- 
2.43.0


From e7a47e1fad942a17153c42034bde99464e4db6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:03 +0000
Subject: [PATCH 35/35] fix: reject quantities whose variables have different
 sizes

---
 src/rkopenmdao/metadata_extractor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 418103f..139d207 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -317,6 +317,17 @@ def _extract_time_integration_quantity(
 
     # We check that there is a stage_output_var, so array_metadata must exist
     # pylint: disable=possibly-used-before-assignment
+    for input_var in (
+        translation_metadata.step_input_var,
+        translation_metadata.accumulated_stage_var,
+    ):
+        if input_var is not None and np.prod(
+            detailed_local_quantity[input_var]["shape"]
+        ) != np.prod(array_metadata.shape):
+            raise SetupError(
+                f"For quantity {quantity_name}, the variables {input_var} and "
+                f"{translation_metadata.stage_output_var} have different sizes."
+            )
     quantity = TimeIntegrationQuantity(
         name=quantity_name,
         type="time_integration",
-- 
2.43.0

