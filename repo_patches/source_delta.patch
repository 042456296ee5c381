From 9d160b800a1b8169f7d1cf1752ee5f695daeee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 01/20] fix: keep the fractional part of a drift vector read
 from a proto

---
 putting_dune/microscope_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0930f2f..7095b45 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -812,7 +812,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
     num_atoms = len(proto_drift.jitter)
 
     jitter = np.empty((num_atoms, 2), dtype=np.float32)
-    drift = np.empty(2, dtype=np.int32)
+    drift = np.empty(2, dtype=np.float32)
 
     for i, atom in enumerate(proto_drift.jitter):
       jitter[i, 0] = atom.x
-- 
2.43.0


From 47b4211f4dc80719c3172ac5b2e865329ee2b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 02/20] fix: write a transition's label images whether or not
 images are present

---
 putting_dune/microscope_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 7095b45..d4d4070 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -701,12 +701,12 @@ class Transition(ProtoModel[putting_dune_pb2.Transition]):
 
     label_image_before = (
         tf.make_tensor_proto(self.label_image_before)
-        if self.image_before is not None
+        if self.label_image_before is not None
         else None
     )
     label_image_after = (
         tf.make_tensor_proto(self.label_image_after)
-        if self.image_after is not None
+        if self.label_image_after is not None
         else None
     )
 
-- 
2.43.0


From f1b12d038328617ca327530a1c22bd703080e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 03/20] fix: read an absent beam voltage or current from a
 proto as None

---
 putting_dune/microscope_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d4d4070..4b1c27f 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -215,7 +215,10 @@ class BeamControl(ProtoModel[putting_dune_pb2.BeamControl]):
     position = proto_point_to_shapely_point(control.position)
     dwell_time = dt.timedelta(seconds=control.dwell_time_seconds)
 
-    return cls(position, dwell_time, control.voltage_kv, control.current_na)
+    voltage_kv = control.voltage_kv if control.HasField('voltage_kv') else None
+    current_na = control.current_na if control.HasField('current_na') else None
+
+    return cls(position, dwell_time, voltage_kv, current_na)
 
   def to_proto(self) -> putting_dune_pb2.BeamControl:
     """Creates a proto from this object."""
-- 
2.43.0


From da79ad24deb87c84ed52582587c4db2102f69e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 04/20] fix: keep the label image when applying a drift to an
 observation

---
 putting_dune/microscope_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 4b1c27f..b6b26c7 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -806,6 +806,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
         controls=observation.controls,
         elapsed_time=observation.elapsed_time,
         image=observation.image,
+        label_image=observation.label_image,
     )
     return shifted_observation
 
-- 
2.43.0


From 718d45b449c0958c01f8ecc80ce91cd6aa596b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 05/20] fix: rotate the human prior's mean towards the neighbor
 it is computed for

---
 putting_dune/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 746c636..1d90afc 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,7 +220,7 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, -angle)
+      rotated_mean = geometry.rotate_coordinates(self.mean, angle)
       rate = single_silicon_prior_rates(
           relative_beam_position, rotated_mean, self.cov, self.max_rate
       )
-- 
2.43.0


From 2dd89f977652a3387caba2a72cff1589ba1980e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 06/20] fix: keep the beam voltage and current when the
 simulator applies a control

---
 putting_dune/simulator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/putting_dune/simulator.py b/putting_dune/simulator.py
index 26618ea..1025bde 100644
--- a/putting_dune/simulator.py
+++ b/putting_dune/simulator.py
@@ -134,11 +134,8 @@ class PuttingDuneSimulator:
     for control in controls:
       # Convert the control from the microscope frame to material frame.
       # TODO(joshgreaves): Control clipping to [0, 1]?
-      control_position = self._fov.microscope_frame_to_material_frame(
-          control.position
-      )
       control = microscope_utils.BeamControlMaterialFrame(
-          microscope_utils.BeamControl(control_position, control.dwell_time)
+          self._fov.microscope_frame_to_material_frame(control)
       )
 
       for observer in self._observers:
-- 
2.43.0


From 0da361bc2c463fda58b90dd726515d4af3f2ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 07/20] fix: the logger numbered an episode's record after the
 next episode

---
 putting_dune/microscope_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 69e07bb..a206654 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -225,8 +225,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> None:
     if self._episode_step > 0:
-      self._episode += 1
       self._episode_records.append(self._make_episode_record())
+      self._episode += 1
     if self._current_trajectory:
       self._trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
-- 
2.43.0


From cbb9cfc5c40f4801e0158cc8b9be134c75ac7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 08/20] fix: the logger failed when the agent asked for a
 rescan

---
 putting_dune/microscope_agent.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index a206654..c02913b 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -243,9 +243,15 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-        observation
-    )
+    try:
+      goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
+          observation
+      )
+    except graphene.SiliconNotFoundError:
+      # The agent asked for a rescan.
+      goal_return = goals.GoalReturn(
+          reward=0.0, is_terminal=False, is_truncated=False
+      )
     self._episode_step += 1
     self._episode_return += goal_return.reward
 
-- 
2.43.0


From 7b5cbdffa348e1121b5157088d48bad02779fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 09/20] fix: flushing the logger more than once repeated the
 current episode

---
 putting_dune/microscope_agent.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index c02913b..60fe05a 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -188,17 +188,20 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       self.flush()
 
   def flush(self) -> None:
+    # The episode may go on: leave the records kept so far as they are.
+    trajectories = list(self._trajectories)
+    episode_records = list(self._episode_records)
     if self._current_trajectory:
-      self._trajectories.append(
+      trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
       )
     if self._episode_step != 0:
-      self._episode_records.append(self._make_episode_record())
+      episode_records.append(self._make_episode_record())
 
     # Write the records
     pdio.write_records(
         self._logdir / 'trajectories.tfrecords',
-        self._trajectories,
+        trajectories,
     )
 
     # Write steps
@@ -216,7 +219,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
           fp, fieldnames=typing.get_type_hints(EpisodeRecord).keys()
       )
       writer.writeheader()
-      for record in self._episode_records:
+      for record in episode_records:
         writer.writerow(record)
 
   def reset(
-- 
2.43.0


From d15cf83060b97eadd95d5697510221c4ad8fe7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 10/20] fix: the logger evaluated the goal a second time for
 every step

---
 putting_dune/microscope_agent.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 60fe05a..4657220 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -47,6 +47,8 @@ class MicroscopeAgent:
     self.action_adapter = adapters_and_goal.action_adapter
     self.feature_constructor = adapters_and_goal.feature_constructor
     self.goal = adapters_and_goal.goal
+    # What the goal returned for the last step, or None after a rescan.
+    self.last_goal_return: goals.GoalReturn | None = None
     self._is_first_step = True
 
   def reset(
@@ -66,6 +68,7 @@ class MicroscopeAgent:
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     """Steps the agent."""
+    self.last_goal_return = None
     try:
       features = self.feature_constructor.get_features(observation, self.goal)
       goal_return = self.goal.calculate_reward_and_terminal(observation)
@@ -82,6 +85,7 @@ class MicroscopeAgent:
           )
       ]
 
+    self.last_goal_return = goal_return
     elapsed_seconds = observation.elapsed_time.total_seconds()
     discount = constants.GAMMA_PER_SECOND**elapsed_seconds
 
@@ -246,11 +250,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    try:
-      goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-          observation
-      )
-    except graphene.SiliconNotFoundError:
+    goal_return = self.__wrapped__.last_goal_return
+    if goal_return is None:
       # The agent asked for a rescan.
       goal_return = goals.GoalReturn(
           reward=0.0, is_terminal=False, is_truncated=False
-- 
2.43.0


From 05c3cbd81f88b26d62b9cc0ea25f7632f7296670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 11/20] fix: align_latest modified the initial shift it was
 given (its default included)

---
 putting_dune/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 2caa0e0..db60d73 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -145,7 +145,8 @@ def align_latest(
       offsets = offsets[sorted_distances[: int((1 - trim) * len(offsets))]]
 
     offset = offsets.mean(axis=0)
-    cumulative_drift += noise + offset
+    # Not in place: the initial shift belongs to the caller.
+    cumulative_drift = cumulative_drift + noise + offset
     drift_norm = np.linalg.norm(cumulative_drift)
     if drift_norm > max_shift:
       cumulative_drift = max_shift * cumulative_drift / drift_norm
-- 
2.43.0


From bc4883015e3ffefacbf3b51e526680a4fb63fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 12/20] fix: naive_merge modified the first of the arrays it
 was given

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index db60d73..28eabf4 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -802,7 +802,7 @@ def naive_merge(
       mapped to each merged point.
   """
   coordinates = [c for c in coordinates if c.shape[0]]
-  positions = coordinates[0]
+  positions = coordinates[0].copy()  # Modified below.
   counts = np.ones(coordinates[0].shape[:1])
 
   for m in coordinates[1:]:
-- 
2.43.0


From ada87c8ecd62d047fe1974b7542caf8c5212dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 13/20] fix: bootstrap_dataset failed when no sample was left
 for testing

---
 putting_dune/rate_learning/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index f5b457f..fc4ba2b 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -320,7 +320,7 @@ def bootstrap_dataset(data: Mapping[str, np.ndarray], rng: jnp.ndarray):
   )
   train_data = {k: a[indices] for k, a in data.items()}
   test_indices = set(range(original_length)) - set(np.array(indices))
-  test_indices = np.array(list(test_indices))
+  test_indices = np.array(list(test_indices), dtype=int)  # May be empty.
   test_data = {k: a[test_indices] for k, a in data.items()}
   return train_data, test_data
 
-- 
2.43.0


From 9a044f52fac68dbe93e04a5788519fb52ac4e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 14/20] fix: comparing two empty atomic grids raised an error

---
 putting_dune/microscope_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index b6b26c7..1289f6f 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -156,6 +156,8 @@ class AtomicGrid(ProtoModel[putting_dune_pb2.AtomicGrid]):
       return False
     if self.atomic_numbers.shape != other.atomic_numbers.shape:
       return False
+    if self.atomic_numbers.size == 0:
+      return True
 
     neighbor_distances, neighbor_indices = (
         neighbors.NearestNeighbors(n_neighbors=1)
-- 
2.43.0


From a193fcfaa395f7147118508d68e0e539d7f2cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 15/20] fix: generate_grid_mask failed for images that are not
 square

---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 12874d2..fbcd991 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -98,7 +98,7 @@ def generate_grid_mask(
   # We need to work with a grid in the material frame to work out distances
   # in angstroms.
   material_grid = fov.microscope_frame_to_material_frame(grid)
-  mask = np.zeros(image_dimensions, dtype=np.uint8)
+  mask = np.zeros((height, width), dtype=np.uint8)
 
   for pos, atomic_number in zip(
       material_grid.atom_positions, material_grid.atomic_numbers
-- 
2.43.0


From 58daf39ce2e2706a98e4701e3afda3a51dd0d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 16/20] fix: batched_loss_fn reported the total rate for every
 next state

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7bd6898..c1d185a 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -148,7 +148,7 @@ def batched_loss_fn(
       next_state_logprobs[jnp.arange(next_state.shape[0]), next_state - 1]
       * did_transition
   )
-  next_state_probs = jax.nn.softmax(predicted_rates[:, -1:], axis=-1)
+  next_state_probs = jax.nn.softmax(predicted_rates[:, :-1], axis=-1)
 
   losses = (
       next_state_loss * class_loss_weight + total_rate_loss * rate_loss_weight
-- 
2.43.0


From bbdadd4c8eeca911f45e22d2f0e99e633acda8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 17/20] fix: format_timedelta wrote 100 hundredths of a second

---
 putting_dune/plotting_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 8f9a1a1..3017e46 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -33,10 +33,9 @@ _SimulatorEventType = simulator_observers.SimulatorEventType
 
 
 def format_timedelta(delta: dt.timedelta) -> str:
-  total_seconds = delta.total_seconds()
-  minutes = int(total_seconds) // 60
-  seconds = int(total_seconds) % 60
-  remainder = round((total_seconds - int(total_seconds)) * 100)
+  total_hundredths = round(delta.total_seconds() * 100)
+  total_seconds, remainder = divmod(total_hundredths, 100)
+  minutes, seconds = divmod(total_seconds, 60)
   return f'{minutes:02d}:{seconds:02d}:{remainder:02d}'
 
 
-- 
2.43.0


From 3ccc420b870ee7c87e14ae2549f52ff4bc0b670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 18/20] fix: align_trajectories looked for files it could not
 read

---
 putting_dune/pipeline/align_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/align_trajectories.py b/putting_dune/pipeline/align_trajectories.py
index 5d681e4..4c215d1 100644
--- a/putting_dune/pipeline/align_trajectories.py
+++ b/putting_dune/pipeline/align_trajectories.py
@@ -94,7 +94,7 @@ def do_alignment(
 def main(args: Args) -> None:
   trajectories = []
   if args.source_path.is_dir():
-    files = list(args.source_path.glob('*.recordio'))
+    files = list(args.source_path.glob('*.tfrecords'))
   else:
     files = [args.source_path]
   for file in files:
-- 
2.43.0


From 5af14edd944f739be450ab0cb713a93ec1f789e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 19/20] fix: atoms in clean images were blurred by the other
 axis' width

The sigma of gaussian_filter is given per array axis, rows first, so the
blur along the rows has to follow the height of the field of view.
---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index fbcd991..0143105 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -158,7 +158,7 @@ def generate_clean_image(
   # For example, at 512 pixels with 20 angstrom FOV => sigma = 12
   # => sigma = 200 / FOV ~= image_size / (2 * FOV)
   # Empirically, this looks about right.
-  sigma = (image_size / (2.15 * fov_width), image_size / (2.15 * fov_height))
+  sigma = (image_size / (2.15 * fov_height), image_size / (2.15 * fov_width))
 
   image = ndimage.gaussian_filter(image, sigma, mode='constant')
 
-- 
2.43.0


From 5ee00d0211aa5d6ff4853d390446752b5a5abf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 20/20] fix: a transition with too few atoms stopped
 transitions_to_datapoints

scikit-learn refuses to look for more neighbors than there are atoms, so
such transitions raised an error instead of being counted and skipped.
---
 putting_dune/pipeline/train_rate_learner.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 081695a..c404a7c 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -353,6 +353,10 @@ def transitions_to_datapoints(
       wrong_number_of_silicons_count += 1
       continue
 
+    if len(grid_before.atom_positions) < 1 + 9:
+      wrong_number_of_neighbors_count += 1
+      continue
+
     # Get the neighbors of the grid before.
     _, neighbor_indices_before = (
         skneighbors.NearestNeighbors(
@@ -391,6 +395,10 @@ def transitions_to_datapoints(
       continue
 
     neighbor_positions_before = neighbor_positions_before[:4]
+    if len(grid_after.atom_positions) < 1 + 3:
+      wrong_number_of_next_step_neighbors_count += 1
+      continue
+
     # Get the neighbors of the grid after.
     _, neighbor_indices_after = (
         skneighbors.NearestNeighbors(
-- 
2.43.0

