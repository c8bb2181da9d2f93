From 37a3b3758965707e49a0a8640dc40c72334bdf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 01/55] fix: raise an error instead of entering the debugger in
 library code

---
 .../avoidance/rotational_avoider.py           |  7 +--
 .../dynamics/circular_dynamics.py             |  1 -
 .../dynamics/sequenced_dynamics.py            |  2 +-
 .../gmm_learner/direction_space.py            |  2 -
 nonlinear_avoidance/gmm_learner/graph.py      |  5 +-
 .../gmm_learner/learner/directional_gmm.py    | 11 ++--
 .../gmm_learner/learner/visualizer.py         |  1 -
 .../kmeans_learner/kmeans_motion_learner.py   |  8 +--
 .../multi_hull_and_obstacle.py                |  6 +-
 nonlinear_avoidance/multi_obstacle_avoider.py | 62 +++++++------------
 .../multiboundary_container.py                |  7 +--
 .../nonlinear_rotation_avoider.py             |  2 +-
 nonlinear_avoidance/vector_rotation.py        | 15 +++--
 13 files changed, 44 insertions(+), 85 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b0af7fb..5052f85 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -652,8 +652,7 @@ class RotationalAvoider(BaseAvoider):
         )
 
         if w_cp > 1:
-            # TODO: remove theck
-            breakpoint()
+            raise ValueError("Projection weight is larger than one.")
 
         angle_inv_conv_proj = (
             # (1 - w_cp) * points[:, 0] + (w_cp) * points[:, 1]
@@ -770,7 +769,6 @@ class RotationalAvoider(BaseAvoider):
         )
 
         if weight < 0 or weight > 1:
-            breakpoint()
             raise ValueError("Unexpected weight value... -> DEBUG")
 
         return dir_convergence
@@ -966,8 +964,7 @@ class RotationalAvoider(BaseAvoider):
         # rotation_power in [0, 1]
         rotation_power = (ref_radius / delta_angle) ** smooth_continuation_power
         if rotation_power < 1.0:
-            # Should never happen -> remove after debug
-            breakpoint()
+            raise ValueError("Unexpected rotation power.")
             # rotation_power = 1.0
 
         # print("weight", (1.0 / gamma_value) ** (rotation_power))
diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f702481..82930d4 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -78,7 +78,6 @@ class DynamicDynamics:
         self.position = (
             base_velocity * weight * self.time_step_of_base_movement + self.position
         )
-        breakpoint()
 
     def evaluate(self, position: Vector) -> Vector:
         """Updates the main_dynamics pose with as proposed in dynamics_of_base
diff --git a/nonlinear_avoidance/dynamics/sequenced_dynamics.py b/nonlinear_avoidance/dynamics/sequenced_dynamics.py
index 3bdbaa2..5638b40 100644
--- a/nonlinear_avoidance/dynamics/sequenced_dynamics.py
+++ b/nonlinear_avoidance/dynamics/sequenced_dynamics.py
@@ -36,5 +36,5 @@ def evaluate_dynamics_sequence(
     )
 
     if np.any(np.isnan(rotation.rotation_angles)):
-        breakpoint()  # TODO: remove after debugging
+        raise ValueError("Dynamics sequence contains nan-rotations.")
     return rotation
diff --git a/nonlinear_avoidance/gmm_learner/direction_space.py b/nonlinear_avoidance/gmm_learner/direction_space.py
index 67f5db0..330d873 100755
--- a/nonlinear_avoidance/gmm_learner/direction_space.py
+++ b/nonlinear_avoidance/gmm_learner/direction_space.py
@@ -48,8 +48,6 @@ def guassian_function(pos, gmm_mu, dir_mean, width=1, dx_pow=1, c_dx=1):
     vel_init = -pos
     deltaKappa_dir_new = velocity_reduction(dir_ref, vel_init)
 
-    breakpoint()
-
     # Function velocity in coordinate system
     dx = c_dx
     dy = -((delta_x / width) ** dx_pow)
diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index f92096d..b383091 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -177,7 +177,7 @@ class GraphGMM(MultiBoundaryContainer):
                 in_global_frame=True,
             )
         if local_attractor is None:
-            breakpoint()
+            raise ValueError("No local attractor found on the surface.")
 
         return local_attractor
 
@@ -314,8 +314,7 @@ class GraphGMM(MultiBoundaryContainer):
         while True:
             it_count += 1
             if it_count > 100:
-                # TODO: remove it_count (only for debugging purposes)
-                breakpoint()
+                raise RuntimeError("Not all gaussians could be assigned to the graph.")
             ind_assigned = self._get_assigned_elements()
             if len(ind_assigned) == self.n_gaussians:
                 break
diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index daea828..36e84ba 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -475,12 +475,9 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         for gg in range(self.n_gaussians):
             # Create function of this
             covariance = covariance_matrices[gg, :, :]
-            try:
-                fac = 1 / (
-                    (2 * pi) ** (dim_in * 0.5) * (np.linalg.det(covariance)) ** (0.5)
-                )
-            except:
-                breakpoint()
+            fac = 1 / (
+                (2 * pi) ** (dim_in * 0.5) * (np.linalg.det(covariance)) ** (0.5)
+            )
             dX = X - np.tile(mean[gg, :], (n_samples, 1))
 
             val_pow_fac = np.sum(
@@ -566,7 +563,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 )
 
         if np.sum(mu_yx - mu_yx_hat) > 1e-6:
-            breakpoint()
+            raise ValueError("Vectorized and looped conditional mean differ.")
         else:
             # TODO: remove when warning never shows up anymore
             warnings.warn("Remove looped multiplication, since is the same...")
diff --git a/nonlinear_avoidance/gmm_learner/learner/visualizer.py b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
index 0a9907e..197a26a 100755
--- a/nonlinear_avoidance/gmm_learner/learner/visualizer.py
+++ b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
@@ -39,7 +39,6 @@ def plot_obstacle_wall_environment(
         fig = None
 
     if x_lim is None or y_lim is None:
-        breakpoint()
         x_lim, y_lim = gmm_learner._Learner.get_xy_lim_plot()
 
     boundary_patch = np.array(
diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3cd8f88..4703790 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -269,7 +269,6 @@ class KMeansMotionLearner:
         # -> do the hierarchy
         # -> get direction, but has to be aligned with the superiors (!)
         # --> adapt the hieararchy if needed (!)
-        breakpoint()
 
         data = self.data.get_normalized_data()
         # TODO: check sequence
@@ -425,7 +424,7 @@ class KMeansMotionLearner:
             direction = self._graph.nodes[ind_node]["direction"]
 
         if len(preds := self.get_successors(ind_node)) != 1:
-            breakpoint()
+            raise ValueError(f"Node {ind_node} does not have a unique successor.")
 
         ind_parent = preds[0]
 
@@ -573,10 +572,7 @@ class KMeansMotionLearner:
             weights = self._predict_sequence_weights(position)
             indexes_relative = weights > 0
 
-        try:
-            indexes_absolute = np.arange(indexes_relative.shape[0])[indexes_relative]
-        except:
-            breakpoint()
+        indexes_absolute = np.arange(indexes_relative.shape[0])[indexes_relative]
 
         lyap_dirs = np.zeros((self.dimension, indexes_absolute.shape[0]))
         for i_rel, i_abs in enumerate(indexes_absolute):
diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 2246eed..731f63f 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -241,7 +241,6 @@ class MultiHullAndObstacle(Obstacle):
         dir_norm = LA.norm(mean_direction)
         if not dir_norm and np.min(mean_magnitude):
             # Direction is zero, but not initial one
-            breakpoint()
             raise ValueError("Zero direction value obtained.")
 
         mean_direction = mean_direction / dir_norm * mean_magnitude
@@ -316,10 +315,7 @@ class MultiHullAndObstacle(Obstacle):
                 entrances.append(ii)
                 targets.append(obs)
 
-        try:
-            ind_min = np.argmin(distances)
-        except:
-            breakpoint()
+        ind_min = np.argmin(distances)
 
         path = shortest_path(
             self._graph,
diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1abda8b..ad2c4e9 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -267,7 +267,7 @@ class MultiObstacleAvoider:
                 reference_functor = reference_dynamics.evaluate
 
             if initial_dynamics.attractor_position is None:
-                breakpoint()
+                raise ValueError("Stable initial dynamics need an attractor.")
 
             return ProjectedRotationDynamics(
                 attractor_position=initial_dynamics.attractor_position,
@@ -415,8 +415,7 @@ class MultiObstacleAvoider:
         )
 
         if np.any(np.isnan(position)) or np.any(np.isnan(slowed_velocity)):
-            breakpoint()
-        # breakpoint()
+            raise ValueError("Evaluation resulted in nan-values.")
         return slowed_velocity
 
     def compute_averaged_normal_and_gamma(
@@ -545,12 +544,9 @@ class MultiObstacleAvoider:
                     self.default_dynamics,
                 )
 
-            try:
-                continuous_sequence = self.vector_rotation_reduction(
-                    initial_sequence, trafo_pos_to_root, convergence_sequence, weight
-                )
-            except:
-                breakpoint()
+            continuous_sequence = self.vector_rotation_reduction(
+                initial_sequence, trafo_pos_to_root, convergence_sequence, weight
+            )
 
             self.conv_tree.add_sequence(
                 sequence=continuous_sequence,
@@ -597,7 +593,7 @@ class MultiObstacleAvoider:
                         )
                     )
                     if trafo_comp_to_parent is None:
-                        breakpoint()  # TODO: debugging -> remove
+                        raise ValueError("No rotation between component and parent.")
 
                     # TODO: this could be the vector directly...
                     self.conv_tree.add_node_orientation(
@@ -617,14 +613,11 @@ class MultiObstacleAvoider:
 
                 # Add convergence transformation to branch
                 node_id = (ii_tree, ii_com)
-                try:
-                    self.conv_tree.add_sequence(
-                        sequence=convergence_sequence,
-                        node_id=node_id,
-                        parent_id=pred_id,
-                    )
-                except:
-                    breakpoint()
+                self.conv_tree.add_sequence(
+                    sequence=convergence_sequence,
+                    node_id=node_id,
+                    parent_id=pred_id,
+                )
 
                 node_list.append(node_id)
                 weight_list.append(weight * tree_weight)
@@ -652,7 +645,7 @@ class MultiObstacleAvoider:
         )
 
         if np.any(np.isnan(weighted_sequence.basis_array)):
-            breakpoint()  # TODO: remove after DEBUG
+            raise ValueError("Convergence sequence contains nan.")
 
         return weighted_sequence
 
@@ -772,7 +765,7 @@ class MultiObstacleAvoider:
             tree_influence_weights[ii_tree] = np.sum(obstacle_weights)
 
             if np.isnan(np.sum(obstacle_weights)):
-                breakpoint()
+                raise ValueError("Obstacle weights contain nan.")
 
             # Normalize weights
             obstacle_weights = obstacle_weights[obstacle_weights > 0]
@@ -859,7 +852,7 @@ class MultiObstacleAvoider:
                 local_velocity = linearized_velocity
 
             if np.any(np.isnan(local_velocity)):
-                breakpoint()
+                raise ValueError("Local convergence velocity contains nan.")
 
             gamma_values, gamma_weights = self.compute_gamma_and_weights(
                 obstacle=obstacle, position=position, base_velocity=local_velocity
@@ -888,8 +881,6 @@ class MultiObstacleAvoider:
                 component_weights.append(np.array([0.0]))
 
             if np.sum(component_weights[-1]) > 1 + 1e-6:
-                breakpoint()
-                # TODO: remove when never called (for debugging only...)
                 raise ValueError("Unexpected weights...")
 
             obstacle_gammas[obs_idx] = np.min(gamma_values)
@@ -909,7 +900,7 @@ class MultiObstacleAvoider:
         )
 
         if np.any(np.isnan(weighted_sequence.get_end_vector())):
-            breakpoint()
+            raise ValueError("Avoidance sequence contains nan.")
 
         return weighted_sequence
 
@@ -960,7 +951,7 @@ class MultiObstacleAvoider:
 
         total_weights = gamma_weights / gamma_sum * rotation_weight
         if np.any(np.isnan(gamma_weights)):
-            breakpoint()
+            raise ValueError("Gamma weights contain nan.")
 
         return gamma_values, total_weights
 
@@ -1052,7 +1043,7 @@ class MultiObstacleAvoider:
             )
 
         if np.any(np.isnan(conv_radii)):
-            breakpoint()
+            raise ValueError("Convergence radiuses contain nan.")
 
         return conv_radii
 
@@ -1126,7 +1117,7 @@ class MultiObstacleAvoider:
             occlusion_weights[ii] = occlusion_gamma ** (1 / (1 - dot_prod))
 
         if np.any(np.isnan(occlusion_weights)):
-            breakpoint()
+            raise ValueError("Occlusion weights contain nan.")
         return occlusion_weights
 
     def compute_occlusion_weights(
@@ -1257,9 +1248,7 @@ class MultiObstacleAvoider:
             obs_parent: Obstacle_tree = obstacle_tree.get_component(new_id)
 
             if new_id is None:
-                # TODO: We should not reach this?! -> remove(?)
-                breakpoint()
-                break
+                raise ValueError("The obstacle-component is not connected to the root.")
 
             if len(parents_tree) > 10:
                 # TODO: remove this debug check
@@ -1276,10 +1265,8 @@ class MultiObstacleAvoider:
                 ref_point, ref_dir, in_global_frame=True
             )
             if intersection is None:
-                # TODO: This should probably never happen -> remove?
-                # but for now easier to debug / catch (other) errors early
-                breakpoint()
-                raise Exception()
+                # This should probably never happen
+                raise ValueError("No intersection with the parent-surface found.")
             surface_points.append(intersection)
 
             normal_directions.append(
@@ -1434,8 +1421,7 @@ class MultiObstacleAvoider:
         # print(f"tangent={tangent}")
 
         if np.any(np.isnan(tangent)):
-            # TODO: remove DEBUG check
-            breakpoint()
+            raise ValueError("Tangent contains nan.")
 
         # Iterate over all but last one
         for ii in reversed(range(len(parents_tree) - 1)):
@@ -1458,9 +1444,7 @@ class MultiObstacleAvoider:
             # breakpoint()
 
             if np.any(np.isnan(tangent)):
-                # print("New node", NodeKey(obs_idx, comp_id, parents_tree[ii]))
-                print(f"tangent={tangent}")
-                breakpoint()
+                raise ValueError("Tangent contains nan.")
 
     def get_normal_at_distance(
         self, obs: Obstacle, surface_point: np.ndarray, distance: float
diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0e0300b..43223aa 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -74,7 +74,6 @@ class MultiBoundaryContainer(RotationContainer):
 
     def __delitem__(self, key):
         super().append(value)
-        breakpoint()  # Test if it was executed correctly
         del self._children_list[key]
         self._parent_array = np.delete(self._parent_array, key)
 
@@ -254,15 +253,11 @@ class MultiBoundaryContainer(RotationContainer):
 
                 # print('weights final', weights[jj])
                 if weights[jj] > 1 or weights[jj] < 0:
-                    # DEBUG
-                    breakpoint()
-                    a = 0  # To not skip to beginning
+                    raise ValueError("Reference-weight is outside of [0, 1].")
 
             rel_reference_weight = np.max(weights)
 
             if rel_reference_weight > 1:
-                # TODO: remove aftr debugging..
-                breakpoint()
                 raise ValueError("Weight greater than 1...")
 
             self[ii_self].global_relative_reference_point = (
diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index b0186fa..498bcb8 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -77,7 +77,7 @@ class ConvergenceDynamicsWithoutSingularity:
     ) -> np.ndarray:
         velocity = self.initial_dynamics.evaluate(obstacle.global_reference_point)
         if np.any(np.isnan(velocity)):
-            breakpoint()
+            raise ValueError("Initial dynamics returned nan.")
         return velocity
 
     def evaluate_rotation_position_to_transform(
diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b84a461..4895ca9 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -595,7 +595,7 @@ class VectorRotationTree:
                 )
 
                 if np.any(np.isnan(self._graph.nodes[c_id]["orientation"].base)):
-                    breakpoint()
+                    raise ValueError("Node-orientation contains nan.")
 
                 # At which angle the rotation should be reduced to obtain a continuous behavior
                 if (
@@ -619,7 +619,7 @@ class VectorRotationTree:
                     ]
 
                 if np.any(np.isnan(self._graph.nodes[c_id]["part_direction"])):
-                    breakpoint()
+                    raise ValueError("Partial node-direction contains nan.")
 
     def reset_node_weights(self) -> None:
         for node_id in self._graph.nodes:
@@ -687,7 +687,7 @@ class VectorRotationTree:
         self.evaluate_all_orientations(sorted_list)
         for node in self._graph.nodes():
             if np.any(np.isnan(self._graph.nodes[node]["orientation"].base)):
-                breakpoint()
+                raise ValueError("Node-orientation contains nan.")
 
         for node_id in reversed(sorted_list):
             # Reverse update the weights
@@ -708,7 +708,7 @@ class VectorRotationTree:
             )
 
             if np.any(np.isnan(self._graph.nodes[node_id]["part_orientation"].base)):
-                breakpoint()
+                raise ValueError("Partial node-orientation contains nan.")
 
             if (
                 not self._graph.successors(node_id)
@@ -730,7 +730,7 @@ class VectorRotationTree:
                 continue
 
             if np.any(np.isnan(_succ_basis)):
-                breakpoint()
+                raise ValueError("Basis of successor contains nan.")
 
             # Make sure dimension is the first axes for future array restructuring
             succ_basis = np.swapaxes(_succ_basis, 0, 1)
@@ -752,8 +752,7 @@ class VectorRotationTree:
                 self._graph.nodes[succ]["part_orientation"].base = succ_basis[:, ii, :]
 
             if np.any(np.isnan(self._graph.nodes[succ]["part_orientation"].base)):
-                breakpoint()
-                aa = 0
+                raise ValueError("Partial node-orientation contains nan.")
 
     def evaluate_graph_summing(self, sorted_list) -> VectorRotationSequence:
         """Graph summing under assumption of shared-basis at each level.
@@ -867,7 +866,7 @@ class VectorRotationTree:
         )
 
         if np.any(np.isnan(vector_sequence.basis_array)):
-            breakpoint()  # TODO: remove debug
+            raise ValueError("Weighted rotation-sequence contains nan.")
 
         return vector_sequence
 
-- 
2.43.0


From 097fb08a5120d42d2793124c505043f9092f4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 02/55] fix: update of the human only skips bodies which are
 not tracked

---
 nonlinear_avoidance/multi_body_human.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 4ab2294..be38e2d 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -282,17 +282,18 @@ class MultiBodyObstacle:
             try:
                 idx_tree = indeces_optitrack_tree.index(idx_meas)
 
-            except:
+            except ValueError:
+                # The measured body is not part of the tree
                 pass
             else:
+                if self.position_filters[idx_tree] is None:
+                    continue
+
                 self.position_filters[idx_tree].run_once(new_object_poses[ii].position)
                 self.orientation_filters[idx_tree].run_once(
                     new_object_poses[ii].rotation
                 )
 
-                if self.position_filters[idx_tree] is None:
-                    continue
-
                 if transform_to_robot_frame and self.robot is not None:
                     filtered_poses[idx_tree] = ObjectPose(
                         position=self.robot.pose.transform_position_to_relative(
-- 
2.43.0


From 770918ad575158a0902ccc82f6b7f0072f15dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 03/55] fix: queries and constructors do not write into the
 arguments of the caller

---
 nonlinear_avoidance/dynamics/circular_dynamics.py      |  5 ++++-
 .../gmm_learner/learner/directional_gmm.py             |  2 +-
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py  | 10 ++++++----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 82930d4..96ebc8a 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -210,7 +210,10 @@ class SimpleCircularDynamics(DynamicalSystem):
                     np.zeros(dimension), Rotation.from_matrix(base_matrix)
                 )
             else:
-                pose.orientation = Rotation.from_matrix(base_matrix)
+                pose = ObjectPose(pose.position, Rotation.from_matrix(base_matrix))
+
+        if pose is None:
+            raise ValueError("Either the 'base_matrix' or the 'pose' has to be given.")
 
         super().__init__(
             pose=pose,
diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 36e84ba..5b668cf 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -115,7 +115,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             values = values / np.tile(self.scale_x[dims_ind], (n_samples, 1))
 
         if self.crop_vel is not None:
-            velocities = values[self.dim_space : self.dim_space * 2]
+            velocities = np.copy(values[self.dim_space : self.dim_space * 2])
             mag_vel = np.linalg.norm(velocities, axis=1)
             ind_large = mag_vel > self.crop_vel
 
diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index eb342c1..b5efca3 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -360,7 +360,7 @@ class KMeansObstacle(Obstacle):
             mean_dist = np.sum(weights * distances_surface)
             # Normal obstacle
             if mean_dist > 0:
-                mean_dist / self.radius + 1
+                return mean_dist / self.radius + 1
 
             else:
                 # Proportional inside
@@ -377,11 +377,12 @@ class KMeansObstacle(Obstacle):
         relative_position = position - self.center_position
         if not (position_norm := LA.norm(relative_position)):
             # Some direction (normed).
-            position[0] = 1
+            normal = np.zeros(self.dimension)
+            normal[0] = 1
             if self.is_boundary:
-                position = (-1) * position
+                normal = (-1) * normal
 
-            return position
+            return normal
 
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
@@ -550,6 +551,7 @@ class KMeansObstacle(Obstacle):
             direction = direction / dir_norm
         else:
             # Random value
+            direction = np.zeros(self.dimension)
             direction[0] = 1
 
         # Default guess: point is on the circle-surface
-- 
2.43.0


From 98591ac6de0b7cf1e6220ea84fad450c24f0b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:46 +0000
Subject: [PATCH 04/55] fix: rotation-tree edits are validated first, broken
 look-ups and inverse are repaired

---
 nonlinear_avoidance/vector_rotation.py | 48 +++++++++++++++-----------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 4895ca9..e64c4ad 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -200,7 +200,7 @@ class VectorRotationXd:
         rotation = copy.deepcopy(rotation)
         rotation.base = rotate_array(
             directions=rotation.base,
-            base=rotation.base,
+            base=self.base,
             rotation_angle=rot_factor * self.rotation_angle,
         )
         return rotation
@@ -305,7 +305,7 @@ class VectorRotationSequence:
 
     def append_from_direction(self, direction: Vector) -> None:
         rotation = VectorRotationXd.from_directions(
-            self.basis_array[:, -1, -1], direction
+            self.get_end_vector(), direction
         )
         self.append_from_base_and_angle(rotation.base, rotation.rotation_angle)
 
@@ -424,8 +424,8 @@ class VectorRotationTree:
         self.set_root_orientation(root_idx, vector_orientation)
 
     @property
-    def root(self) -> NodeType:
-        return self._graph.nodes(self._root_idx)
+    def root(self) -> dict:
+        return self._graph.nodes[self._root_idx]
 
     @property
     def dimension(self) -> int:
@@ -438,11 +438,11 @@ class VectorRotationTree:
 
     def get_parent(self, node_id: NodeType) -> NodeType:
         """Returns the (unique) parent."""
-        return self._graph.predecessors(node_id)[0]
+        return list(self._graph.predecessors(node_id))[0]
 
     def get_children(self, node_id: NodeType) -> list[NodeType]:
         """Returns all the children of an input node."""
-        return self._graph.successors(node_id)
+        return list(self._graph.successors(node_id))
 
     def add_node_orientation(
         self, node_id: NodeType, orientation: VectorRotationXd, parent_id: NodeType
@@ -459,23 +459,22 @@ class VectorRotationTree:
         child_id: Optional[NodeType] = None,
         level: Optional[int] = None,
     ) -> None:
-        if not (dir_norm := np.linalg.norm(direction)):
-            raise ValueError("Zero direction cannot be interpreted.")
-        direction = direction / dir_norm
+        if direction is not None:
+            if np.any(np.isnan(direction)):
+                raise ValueError("Faulty input.")
+
+            if not (dir_norm := np.linalg.norm(direction)):
+                raise ValueError("Zero direction cannot be interpreted.")
+            direction = direction / dir_norm
 
         if node_id in self.graph.nodes():
             raise ValueError(f"Node with id: {node_id} already exists.")
 
         if parent_id is not None:
-            self._graph.add_edge(
-                parent_id,
-                node_id,
-            )
             level = self._graph.nodes[parent_id]["level"] + 1
 
         elif child_id is not None:
-            self._graph.add_edge(node_id, child_id)
-            self.set_direction(direction, node_id)
+            level = self._graph.nodes[child_id]["level"] - 1
 
         elif level is None:
             raise ValueError(
@@ -493,8 +492,10 @@ class VectorRotationTree:
             orientation=None,
         )
 
-        if np.any(np.isnan(direction)):
-            raise ValueError("Faulty input.")
+        if parent_id is not None:
+            self._graph.add_edge(parent_id, node_id)
+        elif child_id is not None:
+            self._graph.add_edge(node_id, child_id)
 
         if direction is not None:
             self.set_direction(node_id, direction)
@@ -561,7 +562,7 @@ class VectorRotationTree:
         # Do better checks to accelerate
         successors = self.get_all_childs_children(node_id)
         for succ in successors:
-            succ["orientation"] = None
+            self._graph.nodes[succ]["orientation"] = None
 
     def evaluate_all_orientations(
         self, sorted_list: list[NodeType] = None, pi_margin: Optional[float] = None
@@ -765,6 +766,11 @@ class VectorRotationTree:
         # sequence_vectors = np.zeros((self.dimension, len(set(level_list))))
         vector_sequence = VectorRotationSequence.create_empty(dimension=self.dimension)
 
+        # Without any weighted node, the sequence remains at the root
+        root_base = self._graph.nodes[sorted_list[0]]["part_orientation"].base
+        shared_first_basis, averaged_direction = root_base[:, 0], root_base[:, 1]
+        new_angle = 0.0
+
         # Bottom up calculation - from lowest level to highest level
         # at each level, take the weighted average of all rotations
         for ll, level in enumerate(set(level_list)):
@@ -876,7 +882,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             self.root["orientation"].base[:, 0], rotated_dir
         )
@@ -893,7 +899,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             rotated_dir, self.root["orientation"].base[:, 0]
         )
@@ -914,4 +920,4 @@ class VectorRotationTree:
 
 def create_zero_vector_rotation(dimension: int) -> VectorRotationXd:
     """Creates a zero vector rotation object."""
-    return VectorRotationXd(base=np.eye((dimension, 2)), rotation_angle=0.0)
+    return VectorRotationXd(base=np.eye(dimension, 2), rotation_angle=0.0)
-- 
2.43.0


From 0b518cfc799f081c0d6706d429e889d3bdfb67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 05/55] fix: keep parent and child links of the graph handlers
 consistent

---
 nonlinear_avoidance/graph_handler.py | 29 +++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 834dac0..2c2375f 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -13,7 +13,7 @@ GraphType = np.ndarray
 
 
 # @dataclass(slots=True)
-@dataclass
+@dataclass(eq=False)  # Nodes are compared by identity (parent / children are cyclic)
 class GraphElement:
     """Hirarchy Element which Tracks the parent and children of current obstacle."""
 
@@ -28,10 +28,14 @@ class GraphElement:
         return len(self.children)
 
     def add_child(self, child):
+        if child.parent is not None:
+            child.parent.children.remove(child)
         self.children.append(child)
         child.parent = self
 
     def set_parent(self, parent):
+        if self.parent is not None:
+            self.parent.children.remove(self)
         self.parent = parent
         parent.children.append(self)
 
@@ -41,9 +45,11 @@ class GraphElement:
         # TODO: this requires updating of 'referenceID' etc.
         for child in self.children:
             child.parent = None
+        self.children = []
 
         if self.parent is not None:
             self.parent.children.remove(self)
+            self.parent = None
 
 
 @dataclass
@@ -61,12 +67,16 @@ class BasicGraphHandler:
         self._graph.append(self._root)
 
     def add_element_with_parent(self, child, parent):
-        self._graph.append(GraphElement(value=child, parent=parent))
+        element = GraphElement(value=child)
+        element.set_parent(parent)
+        self._graph.append(element)
 
     def delete_element(self, element):
         """Value should the reference to the to-be-deleted element."""
-        element.expel()
         self._graph.remove(element)
+        element.expel()
+        if self._root is element:
+            self._root = None
 
 
 class GraphHandler:
@@ -90,7 +100,7 @@ class GraphHandler:
 
     @property
     def roots(self):
-        return [ind_par for ind_par in self._parent_index if ind_par is None]
+        return [self._node_values[ii] for ii in self.get_root_indices()]
 
     def get_root_indices(self):
         return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]
@@ -111,11 +121,12 @@ class GraphHandler:
         return [self._node_values[ind] for ind in children_inds]
 
     def add_element_with_parent(self, value, parent_value):
+        ind_parent = self._node_values.index(parent_value)
+
         self._node_values.append(value)
         self._children_indices.append([])
 
         ind_node = len(self._node_values) - 1
-        ind_parent = self._node_values.index(parent_value)
 
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
@@ -125,6 +136,10 @@ class GraphHandler:
         ind_node = self._node_values.index(value)
         ind_parent = self._node_values.index(parent_value)
 
+        ind_old_parent = self._parent_index[ind_node]
+        if ind_old_parent is not None:
+            self._children_indices[ind_old_parent].remove(ind_node)
+
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
         self._parent_index[ind_node] = ind_parent
@@ -134,10 +149,10 @@ class GraphHandler:
 
         ii = 0
         while ii < len(node_indices):
-            node_indices += self.children_indices[node_indices[ii]]
+            node_indices += self._children_indices[node_indices[ii]]
             ii += 1
 
-        return self._node_values[node_indices]
+        return [self._node_values[ind] for ind in node_indices]
 
     def delete_element(self, element: GraphType):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 3634144b3d1347b177ff26dd13d72ccfcff24762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 06/55] fix: obstacle trees accept only valid roots and
 parents, and transform positions as positions

---
 nonlinear_avoidance/arch_obstacle.py          | 12 +++++++++---
 nonlinear_avoidance/multi_body_human.py       |  8 ++++++--
 nonlinear_avoidance/multi_ellipse_obstacle.py | 17 +++++++++++------
 nonlinear_avoidance/multi_obstacle.py         | 12 +++++++++---
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 60bb479..0e53bfe 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -105,7 +105,7 @@ class BlockArchObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True):
         if not in_global_frame:
-            position = self.pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -119,7 +119,7 @@ class BlockArchObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
@@ -143,6 +143,9 @@ class BlockArchObstacle:
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obstacle: Obstacle) -> None:
+        if self._obstacle_list:
+            raise ValueError("The root is already set.")
+
         self._local_poses.append(obstacle.pose)
         obstacle.pose = self.pose.transform_pose_from_relative(self._local_poses[-1])
 
@@ -157,6 +160,9 @@ class BlockArchObstacle:
         parent_ind: int,
     ) -> None:
         """Create and add an obstacle container in the local frame of reference."""
+        if parent_ind not in self._graph:
+            raise ValueError(f"No parent component with index {parent_ind}.")
+
         reference_position = np.array(reference_position)
         obstacle.set_reference_point(reference_position, in_global_frame=False)
 
@@ -181,7 +187,7 @@ class BlockArchObstacle:
     def update_obstacles(self, delta_time):
         # Update all positions of the moved obstacles
         for pose, obs in zip(self._local_poses, self._obstacle_list):
-            obs.shape = self.pose.transform_pose_from_relative(pose)
+            obs.pose = self.pose.transform_pose_from_relative(pose)
 
 
 def create_arch_obstacle(
diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index be38e2d..b3dc2c0 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -136,7 +136,7 @@ class MultiBodyObstacle:
 
     def get_obstacle_id_from_optitrackid(self, opt_id: int) -> int:
         return [
-            x for x, y in self._graph.nodes(data=True) if y["optitrack_id"] == opt_id
+            x for x, y in self._graph.nodes(data=True) if y["update_id"] == opt_id
         ][0]
 
     def get_name(self, idx: int) -> str:
@@ -171,6 +171,9 @@ class MultiBodyObstacle:
         name: str,
         update_id: Optional[int] = None,
     ):
+        if self._obstacle_list:
+            raise ValueError("The root is already set.")
+
         self._obstacle_list.append(obstacle)
         self._graph.add_node(
             self._id_counter,
@@ -221,10 +224,11 @@ class MultiBodyObstacle:
         parent_reference_position: npt.ArrayLike,
         update_id: Optional[int] = None,
     ):
+        parent_ind = self.get_obstacle_id_from_name(parent_name)
+
         reference_position = np.array(reference_position)
         obstacle.set_reference_point(reference_position, in_global_frame=False)
         self._obstacle_list.append(obstacle)
-        parent_ind = self.get_obstacle_id_from_name(parent_name)
 
         self._graph.add_node(
             self._id_counter,
diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 51df36a..1502b27 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -97,23 +97,28 @@ class MultiEllipseObstacle(Obstacle):
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obs_id: int):
-        if self._root_idx:
+        if self._root_idx is not None:
             raise NotImplementedError("Make sure to delete first.")
+        if self._parent_list[obs_id] is not None:
+            raise ValueError("The root cannot have a parent.")
         self._root_idx = obs_id
-        self._parent_list[obs_id] = -1
 
     def set_parent(self, obs_id: int, parent_id: int):
         # This should go automatically at run-time
-        if self._parent_list[obs_id]:
+        if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
-
-        self._parent_list[obs_id] = parent_id
-        self._children_list[parent_id].append(obs_id)
+        if obs_id == self._root_idx:
+            raise ValueError("The root cannot have a parent.")
 
         # Set reference point
         intersection = get_intersection_of_obstacles(
             self._obstacle_list[obs_id], self._obstacle_list[parent_id]
         )
+        if intersection is None:
+            raise ValueError("No intersection found.")
+
+        self._parent_list[obs_id] = parent_id
+        self._children_list[parent_id].append(obs_id)
 
         self._obstacle_list[obs_id].set_reference_point(
             intersection, in_global_frame=True
diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 2586075..31033ed 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -47,7 +47,7 @@ class MultiObstacle:
         if self.twist is None:
             return np.zeros(self.dimension)
         else:
-            return self.twist.linear_velocity
+            return self.twist.linear
 
     @linear_velocity.setter
     def linear_velocity(self, value: npt.ArrayLike) -> None:
@@ -90,7 +90,7 @@ class MultiObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -104,7 +104,7 @@ class MultiObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
@@ -131,6 +131,9 @@ class MultiObstacle:
         return self._obstacle_list[self._root_idx]
 
     def set_root(self, obstacle: Obstacle) -> int:
+        if self._obstacle_list:
+            raise ValueError("The root is already set.")
+
         self._local_poses.append(obstacle.pose)
         obstacle.pose = self._pose.transform_pose_from_relative(self._local_poses[-1])
 
@@ -149,6 +152,9 @@ class MultiObstacle:
     ) -> int:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
+        if parent_ind not in self._graph:
+            raise ValueError(f"No parent component with index {parent_ind}.")
+
         if reference_position is None:
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
-- 
2.43.0


From 9ac2fa04b6e347da7eec4ac26dc513fd4e1d719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 07/55] fix: intersection of two obstacles uses the type of the
 second obstacle

---
 nonlinear_avoidance/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 6dbafc7..979e2d8 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -58,7 +58,7 @@ def get_intersection_of_obstacles(
         obstacle1.create_shape()
         shape1 = obstacle1.shape
 
-    if isinstance(obstacle1, Ellipse) or isinstance(obstacle1, EllipseWithAxes):
+    if isinstance(obstacle2, Ellipse) or isinstance(obstacle2, EllipseWithAxes):
         shape2 = create_shapely_ellipse(obstacle2)
     else:
         obstacle2.create_shape()
-- 
2.43.0


From 431c6e712f5458d4238c8d5c2705224b84cf7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 08/55] fix: evaluation of the gaussian reads existing fields,
 derivative has the right factor

---
 nonlinear_avoidance/multivariant_gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index 33a15b5..da19ccd 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -44,20 +44,20 @@ class MultiVariantGaussian:
             return 0
 
     def evaluate(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
         return self._fraction_value * exp_value
 
     def evaluate_derivative(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
 
         return (
-            (-0.5 * self._precision_cholesky @ delta_dist)
+            (-1.0 * self._precision_cholesky @ delta_dist)
             * self._fraction_value
             * exp_value
         )
-- 
2.43.0


From 3d081e5548b428c6913ef5a9478b13f4031a64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 09/55] fix: obstacle containers keep their per-obstacle lists
 in step

---
 nonlinear_avoidance/multiboundary_container.py | 15 ++++++++++++---
 nonlinear_avoidance/rotation_container.py      | 10 +++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 43223aa..e83e324 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -73,12 +73,21 @@ class MultiBoundaryContainer(RotationContainer):
                 )
 
     def __delitem__(self, key):
-        super().append(value)
+        key = range(len(self._children_list))[key]  # Position from the start
+        super().__delitem__(key)
         del self._children_list[key]
         self._parent_array = np.delete(self._parent_array, key)
 
         del self._parent_intersection_point[key]
 
+        # Children of the deleted element turn into roots, higher indices move up
+        self._parent_array[self._parent_array == key] = -1
+        self._parent_array[self._parent_array > key] -= 1
+        self._children_list = [
+            [child - (child > key) for child in children if child != key]
+            for children in self._children_list
+        ]
+
     def is_collision_free(self, position):
         """Check if any of the (boundary)-obstacles is collision free"""
         for obs in self._obstacle_list:
@@ -161,7 +170,7 @@ class MultiBoundaryContainer(RotationContainer):
     def get_boundary_list(self):
         """Returns obstacle list containing all boundary-elements."""
         # TODO MAYBE: store boundaries in separate list (?)
-        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boubndary]
+        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boundary]
 
     def get_boundary_ind(self):
         """Returns indeces of the current container which are equivalent to obstacles."""
@@ -184,7 +193,7 @@ class MultiBoundaryContainer(RotationContainer):
 
     def update_convergence_direction(self, dynamical_system):
         """Set the convergence direction to the evaluated 'convergence' DS."""
-        for obs in self.n_obstacles:
+        for obs in self._obstacle_list:
             obs.get_convergence_direction(dynamical_system=dynamical_system)
 
     def update_relative_reference_point(self, position, gamma_margin_close_wall=1e-6):
diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 716d808..34e4540 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -22,6 +22,7 @@ from dynamic_obstacle_avoidance.containers import BaseContainer
 
 class RotationContainer(BaseContainer):
     def __init__(self, *args, **kwargs):
+        self._convergence_dynamics = []
         super().__init__(*args, **kwargs)
         self._convergence_dynamics = [None for ii in range(len(self))]
         self.convergence_radiuses: list[float] = []
@@ -32,11 +33,11 @@ class RotationContainer(BaseContainer):
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
-        super().__delitem__(self._obstacle_list[key])
-        del self._convergence_dynamics
+        super().__delitem__(key)
+        del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
-        super().__setitem__(self._obstacle_list[key])
+        super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
 
     def set_convergence_directions(
@@ -57,6 +58,9 @@ class RotationContainer(BaseContainer):
             ]
             return
 
+        if nonlinear_dynamics is None:
+            raise ValueError("Nonlinear or converging dynamics are needed.")
+
         if nonlinear_dynamics.attractor_position is None:
             # WARNING: non-knowlege about local topology leads to weird behavior (!)
             for it_obs in range(self.n_obstacles):
-- 
2.43.0


From 41a295f8bbd7d156de4ff57e97dfdd64ec35613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 10/55] fix: avoidance of nonlinear dynamics uses the matching
 obstacle and existing methods

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index 498bcb8..627554f 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -189,7 +189,12 @@ class SingularityConvergenceDynamics(BaseAvoider):
     #     return self._rotation_avoider.convergence_dynamics.evaluate(position)
 
     def avoid(self, position, initial_velocity):
-        convergence_velocity = self.evaluate_convergence_dynamics(position)
+        if not (initial_norm := LA.norm(initial_velocity)):
+            return initial_velocity
+
+        convergence_velocity = self.evaluate_weighted_dynamics(
+            position, initial_velocity / initial_norm
+        )
         return self._rotation_avoider.avoid(
             position=position,
             initial_velocity=initial_velocity,
@@ -385,7 +390,7 @@ class SingularityConvergenceDynamics(BaseAvoider):
             local_velocities[
                 :, ii
             ] = self.obstacle_convergence.evaluate_convergence_around_obstacle(
-                position, obstacle=self._rotation_avoider.obstacle_environment[ii]
+                position, obstacle=self._rotation_avoider.obstacle_environment[it_obs]
             )
 
             direction_tree.add_node(
-- 
2.43.0


From 68e27e654041d98a35c0cfc50ed7ce64ad6ae77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 11/55] fix: multi-hull obstacle returns velocities in the
 global frame and limited magnitude

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 731f63f..250fcb7 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -246,7 +246,7 @@ class MultiHullAndObstacle(Obstacle):
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
-            mean_direction = self.transform_global2relative_dir(mean_direction)
+            mean_direction = self.transform_relative2global_dir(mean_direction)
 
         return mean_direction
 
@@ -295,7 +295,7 @@ class MultiHullAndObstacle(Obstacle):
         else:
             linear_velocity = mean_direction / LA.norm(mean_direction) * vel_norm
 
-        return mean_direction
+        return linear_velocity
 
     def update_shortest_attractor_path_starting_from_outside(
         self, position: Vector
@@ -311,7 +311,7 @@ class MultiHullAndObstacle(Obstacle):
 
             path_dist = shortest_path_length(self._graph, source=ii, weight="distance")
             for obs in self.inner_obstacles:
-                distances.append(path_dist[ii] + dist_to_entrance)
+                distances.append(path_dist[obs] + dist_to_entrance)
                 entrances.append(ii)
                 targets.append(obs)
 
@@ -342,7 +342,7 @@ class MultiHullAndObstacle(Obstacle):
             if not self._graph.nodes[obs]["contains_attractor"]:
                 continue
 
-            closest_dist.append(path_dist)
+            closest_dist.append(path_dist[obs])
             closest_elems.append(obs)
 
         if self._attractor_is_outside:
@@ -502,6 +502,8 @@ class MultiHullAndObstacle(Obstacle):
             if self._graph.nodes[obs]["contains_attractor"]:
                 return self._graph.nodes[obs]["local_attractor"]
 
+        raise ValueError("No attractor is set.")
+
     def local_attractor_iterator(self):
         for obs in self.inner_obstacles:
             yield self._graph.nodes[obs]["local_attractor"]
-- 
2.43.0


From c9a4028f00ed6ac22ad905e1fa719c3a435b8cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 12/55] fix: deviated, constant and spiraling dynamics return
 fresh, defined velocities

---
 nonlinear_avoidance/dynamics/constant_value.py      |  2 +-
 nonlinear_avoidance/dynamics/deviation_dynamics.py  | 12 +++++++-----
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 12 ++++++------
 nonlinear_avoidance/dynamics/spiral_dynamics.py     |  6 +++---
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/constant_value.py b/nonlinear_avoidance/dynamics/constant_value.py
index 891de6c..9db3807 100644
--- a/nonlinear_avoidance/dynamics/constant_value.py
+++ b/nonlinear_avoidance/dynamics/constant_value.py
@@ -14,7 +14,7 @@ class ConstantValueWithSequence(Dynamics):
 
     def evaluate(self, *args, **kwargs):
         """Random input arguments, but always ouptuts same vector-field"""
-        return self.constant_velocity
+        return np.copy(self.constant_velocity)
 
     def evaluate_dynamics_sequence(self, position: np.ndarray):
         velocity = self.evaluate(position)
diff --git a/nonlinear_avoidance/dynamics/deviation_dynamics.py b/nonlinear_avoidance/dynamics/deviation_dynamics.py
index c3855d9..e62e001 100755
--- a/nonlinear_avoidance/dynamics/deviation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/deviation_dynamics.py
@@ -71,7 +71,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
             ]
         )
 
-        if np.any((ind_zero := gammas) <= 1):
+        if np.any(ind_zero := gammas <= 1):
             weights = ind_zero / np.sum(ind_zero)
             weight_sum = 1
 
@@ -81,8 +81,12 @@ class ObstacleRotatedDynamics(DynamicalSystem):
                 weights = weights / weight_sum
                 weight_sum = 1
 
+        zero_dynamics = np.zeros((self.dimension, len(self.obstacle_container)))
+        for ii, obs in enumerate(self.obstacle_container):
+            if gammas[ii]:
+                zero_dynamics[:, ii] = self.zero_dynamics.evaluate(obs.center_position)
+
         if update_center_dynamics:
-            zero_dynamics = np.zeros((self.dimension, len(self.obstacle_container)))
             for ii, obs in enumerate(self.obstacle_container):
                 if not gammas[ii]:
                     continue
@@ -91,7 +95,6 @@ class ObstacleRotatedDynamics(DynamicalSystem):
                 self.center_dynamics[:, ii] = self.initial_dynamics.evaluate(
                     obs.center_position
                 )
-                zero_dynamics[:, ii] = self.zero_dynamics.evaluate(obs.center_position)
                 # center_norms = LA.norm(center_dirs, axis=0)
                 # ind_nonzero = center_norms > 0
                 # center_dirs = center_dirs / np.tile(
@@ -141,7 +144,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
         weight = min(base0_norm, base1_norm) / self.velocity_scaling
         weight = min(weight, 1.0)
 
-        dot_prod_weight = np.dot(base1, base1) + 1
+        dot_prod_weight = np.dot(base0, base1) + 1
         dot_prod_weight = min(self.dotprod_factor * dot_prod_weight, 1.0)
         weight = weight * dot_prod_weight
 
@@ -156,5 +159,4 @@ class ObstacleRotatedDynamics(DynamicalSystem):
             weights=np.array([weight, (1 - weight)]),
             directions=np.vstack((rotated_velocity, initial_velocity)).T,
         )
-        # breakpoint()
         return rotated_velocity  #
diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index cd99398..02666ca 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -98,7 +98,7 @@ class DeviationOfConstantFlow(DirectionalSystem):
     def get_lyapunov_gradient_direction(self, position: Vector) -> Vector:
         """Returns the reference direction / gradient of the Lyapunov function.
         The value is normalize (!), since only the direction is relevant."""
-        return self.reference_velocity
+        return np.copy(self.reference_velocity)
 
     @property
     def dimension(self):
@@ -156,7 +156,7 @@ class DeviationOfConstantFlow(DirectionalSystem):
         return self.regressor.predict(position)
 
     def evaluate_convergence_velocity(self, position: Vector) -> Vector:
-        return self.reference_velocity
+        return np.copy(self.reference_velocity)
 
 
 class DeviationOfLinearDS(DirectionalSystem):
@@ -188,19 +188,19 @@ class DeviationOfLinearDS(DirectionalSystem):
 
         Current tuning is such that at dot_prod <= 0 -> distance is infinite"""
 
-        rel_dists = position - np.tile(self.attractor_position, (2, 1)).T
+        rel_dists = positions - np.tile(self.attractor_position, (2, 1)).T
         dist_norms = LA.norm(rel_dists, axis=0)
 
         if any(dist_norms == 0):
             return sys.float_info.max
 
-        rel_dists = dist_norms / np.tile(dist_norms, (dist_norms.shape[0], 1))
+        rel_dists = rel_dists / dist_norms
         dot_prod = np.dot(rel_dists[:, 0], rel_dists[:, 1])
 
         if dot_prod <= 0:
             return sys.float_info.max
 
-        return factor_dp * (1.0 / dot_prod - 1) + abs(rel_dists[0] - rel_dists[1])
+        return factor_dp * (1.0 / dot_prod - 1) + abs(dist_norms[0] - dist_norms[1])
 
 
 class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
@@ -321,7 +321,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         direction = self.attractor_position - position
 
         if dir_norm := LA.norm(direction):
-            dir_norm = direction / dir_norm * self.get_velocity_factor(dir_norm)
+            direction = direction / dir_norm * self.get_velocity_factor(dir_norm)
 
         return direction
 
diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index b81c618..0ab0145 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -49,7 +49,7 @@ class SpiralingDynamics3D:
         rotating_vel2d = self.circular_dynamics.evaluate(local_position[1:])
 
         rotating_velocity = np.hstack((0.0, rotating_vel2d))
-        rotating_velocity = self.pose.transform_position_from_relative(
+        rotating_velocity = self.pose.transform_direction_from_relative(
             rotating_velocity
         )
 
@@ -61,7 +61,7 @@ class SpiralingDynamics3D:
     def evaluate_convergence_around_obstacle(
         self, position: Vector, obstacle: Obstacle
     ) -> Vector:
-        return self.direction
+        return np.copy(self.direction)
 
 
 @dataclass
@@ -128,4 +128,4 @@ class SpiralingAttractorDynamics3D:
     def evaluate_convergence_around_obstacle(
         self, position: Vector, obstacle: Obstacle
     ) -> Vector:
-        return self.direction
+        return np.copy(self.direction)
-- 
2.43.0


From 16aca3249391579133ef5029a8a85d53d379ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 13/55] fix: rotational avoidance keeps the settings of the
 avoider and treats each obstacle separately

---
 .../avoidance/rotational_avoider.py           | 50 ++++++++++++-------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 5052f85..74afca9 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -281,15 +281,11 @@ class RotationalAvoider(BaseAvoider):
 
         if convergence_radius is None:
             convergence_radius = self.convergence_radius
-        else:
-            self.convergence_radius = convergence_radius
 
         if obstacle_list is None:
             if self.obstacle_environment is None:
                 raise ValueError("Need environment information.")
             obstacle_list = self.obstacle_environment
-        else:
-            self.obstacle_environment = obstacle_list
 
         n_obstacles = len(obstacle_list)
         if not n_obstacles:  # No obstacles in the environment
@@ -364,16 +360,17 @@ class RotationalAvoider(BaseAvoider):
 
             # Convergence direcctions can be local for certain obstacles
             # / convergence environments
-            if convergence_velocity is None:
-                if self.convergence_dynamics is None:
-                    convergence_velocity = obstacle_list.get_convergence_direction(
-                        position=position, it_obs=it_obs
-                    )
-                else:
-                    convergence_velocity = self.convergence_dynamics.evaluate(position)
+            if convergence_velocity is not None:
+                obstacle_convergence = convergence_velocity
+            elif self.convergence_dynamics is None:
+                obstacle_convergence = obstacle_list.get_convergence_direction(
+                    position=position, it_obs=it_obs
+                )
+            else:
+                obstacle_convergence = self.convergence_dynamics.evaluate(position)
 
             # if not (conv_vel_norm := LA.norm(convergence_velocity)):
-            if not LA.norm(convergence_velocity):
+            if not LA.norm(obstacle_convergence):
                 # Zero value
                 # base = DirectionBase(matrix=null_matrix)
                 base = null_matrix
@@ -390,7 +387,7 @@ class RotationalAvoider(BaseAvoider):
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
             rotated_directions[:, it] = self.directional_convergence_summing(
-                convergence_vector=convergence_velocity,
+                convergence_vector=obstacle_convergence,
                 reference_vector=reference_dir,
                 # weight=inv_gamma_weight[it],
                 gamma=gamma_array[it],
@@ -977,11 +974,15 @@ class RotationalAvoider(BaseAvoider):
         vector_reference: np.ndarray,
         vector_convergence: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> float:
         """
         dir_reference and dir_convergence are expected to be in the the direction-space, with respect
         to the negative of the normal
         """
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_reference = UnitDirection(base).from_vector(vector_reference).as_angle()
         dir_convergence = UnitDirection(base).from_vector(vector_convergence).as_angle()
 
@@ -992,11 +993,11 @@ class RotationalAvoider(BaseAvoider):
         if weight >= 1.0:
             return 1.0
 
-        if np.linalg.norm(dir_convergence) >= self.convergence_radius:
+        if np.linalg.norm(dir_convergence) >= convergence_radius:
             return weight
         # MAYBE: incorporate this in the tangent length(?)
         continuation_weight = np.linalg.norm(dir_convergence - dir_reference)
-        radius_factor = self.convergence_radius - np.linalg.norm(dir_reference)
+        radius_factor = convergence_radius - np.linalg.norm(dir_reference)
         radius_factor = min(radius_factor, np.pi * 0.5)
         continuation_weight = continuation_weight / radius_factor
 
@@ -1014,12 +1015,16 @@ class RotationalAvoider(BaseAvoider):
         vector_convergence: np.ndarray,
         vector_reference: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> np.ndarray:
         """Input and output are expected in the directional-space with respect to
         the negative normal."""
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_convergence = UnitDirection(base).from_vector(vector_convergence)
         if (
-            np.linalg.norm(dir_convergence.as_angle()) >= self.convergence_radius
+            np.linalg.norm(dir_convergence.as_angle()) >= convergence_radius
             and not self.tail_rotation
         ):
             return vector_convergence
@@ -1029,7 +1034,7 @@ class RotationalAvoider(BaseAvoider):
         dir_convergence_tangent = RotationalAvoider.get_tangent_convergence_direction(
             dir_convergence=dir_convergence.as_angle(),
             dir_reference=dir_reference.as_angle(),
-            convergence_radius=self.convergence_radius,
+            convergence_radius=convergence_radius,
         )
         # breakpoint()
         return UnitDirection(base).from_angle(dir_convergence_tangent).as_vector()
@@ -1082,14 +1087,21 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, convergence_vector, reference_vector, base
+            gamma=gamma,
+            vector_reference=reference_vector,
+            vector_convergence=convergence_vector,
+            base=base,
+            convergence_radius=convergence_radius,
         )
 
         if weight <= 0:
             return nonlinear_velocity
 
         vector_convergence_tangent = self.get_pseudo_tangent(
-            convergence_vector, reference_vector, base=base
+            convergence_vector,
+            reference_vector,
+            base=base,
+            convergence_radius=convergence_radius,
         )
 
         # This is now replacing the 'general_weighted_sum'
-- 
2.43.0


From 2bdc2b28aa16338a8c9c6c6c9b10d5d4dbb8d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 14/55] fix: circular dynamics return a fresh zero and always
 respect the maximum velocity

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 96ebc8a..13a15ca 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -175,7 +175,7 @@ class CircularRotationDynamics(DynamicalSystem):
 
     def evaluate(self, position):
         if not LA.norm(position):
-            return position
+            return np.zeros_like(position)
 
         local_position = self.base_matrix.T @ position
 
@@ -276,13 +276,12 @@ class SimpleCircularDynamics(DynamicalSystem):
         # Slow down towards the directional-singularity
         slow_down_distance = 1 / 3 * self.radius
         if pos_norm < slow_down_distance:
-            normalized_direction = (
-                normalized_direction
-                * (pos_norm / slow_down_distance)
-                * self.maximum_velocity
+            normalized_direction = normalized_direction * (
+                pos_norm / slow_down_distance
             )
 
-        return self.pose.transform_direction_from_relative(normalized_direction)
+        velocity = normalized_direction * self.maximum_velocity
+        return self.pose.transform_direction_from_relative(velocity)
 
 
 def test_rotation_circle(visualize=False):
-- 
2.43.0


From 56f27223bb645858074d3e5fb2544bc94a35ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 15/55] fix: projected rotation dynamics answer on every path
 and in the global frame

---
 .../dynamics/projected_rotation_dynamics.py   | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ac00a06..a6a3a94 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -101,7 +101,9 @@ class ProjectedRotationDynamics:
             attractor_dir = self.attractor_position - position
             if dist_attractor := LA.norm(attractor_dir):
                 attractor_dir = attractor_dir / dist_attractor
-                dot_product = np.dot(attractor_dir, self.rotation.base0)
+                dot_product = np.dot(
+                    attractor_dir, self._get_projected_lyapunov_gradient(position)
+                )
                 gamma = gamma ** (2 / (dot_product + 1))
 
                 # if dist_obs := LA.norm(self.obstacle.center_position):
@@ -117,6 +119,8 @@ class ProjectedRotationDynamics:
             else:
                 gamma = self.max_gamma
 
+        return gamma
+
     def _get_deflation_weight(self, gamma: float) -> float:
         # TODO: this needs to be improved to ensure that the projected position
         # is outside the obstacle
@@ -233,7 +237,9 @@ class ProjectedRotationDynamics:
             )
 
         else:
+            # At the attractor: no direction is defined
             transformed_position[0] = (-1) * sys.float_info.max
+            dist_attr_pos = 1.0
 
         dir_attractor_to_position = vec_attractor_to_position / dist_attr_pos
         dot_prod = np.dot(dir_attractor_to_position, dir_attractor_to_obstacle)
@@ -288,7 +294,7 @@ class ProjectedRotationDynamics:
         # Rotation is performed with VectorRotationXd
         # vec_attractor_to_position = transformed_position - attractor_position
         if in_obstacle_frame:
-            vec_obstacle_to_position = transformed_position
+            vec_obstacle_to_position = np.copy(transformed_position)
         else:
             vec_obstacle_to_position = (
                 transformed_position - self.obstacle.global_reference_point
@@ -384,7 +390,7 @@ class ProjectedRotationDynamics:
 
         if np.linalg.norm(folded_position) > 1e10:
             # Return directly to avoid numerical errors
-            return folded_position
+            return self.obstacle.pose.transform_position_from_relative(folded_position)
 
         inflated_position = self._get_position_after_inflating_obstacle(
             folded_position, in_obstacle_frame=True, deflation_weight=weight
@@ -514,7 +520,11 @@ class ProjectedRotationDynamics:
             return initial_sequence
 
         # Trafo is expected to be not None, as we have: weight > 0
-        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(position)
+        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(
+            position, root_obs
+        )
+        if trafo_pos_to_attr is None:
+            return initial_sequence
 
         convergence_sequence = evaluate_dynamics_sequence(
             root_obs.get_reference_point(in_global_frame=True),
@@ -532,7 +542,7 @@ class ProjectedRotationDynamics:
             sequence=initial_sequence,
         )
         obs_id = 2
-        self.conv_tree.add_node(
+        self.conv_tree.add_node_orientation(
             orientation=trafo_pos_to_attr,
             node_id=obs_id,
             parent_id=root_id,
@@ -555,10 +565,12 @@ class ProjectedRotationDynamics:
         """
         shrinking_weight = 1.0
         shrunk_position = self._get_position_after_deflating_obstacle(
-            position, in_obstacle_frame=False, weight=shrinking_weight
+            position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
         shrunk_attractor = self._get_position_after_deflating_obstacle(
-            self.attractor_position, in_obstacle_frame=False, weight=shrinking_weight
+            self.attractor_position,
+            in_obstacle_frame=False,
+            deflation_weight=shrinking_weight,
         )
 
         dir_attr_to_pos = shrunk_attractor - shrunk_position
@@ -617,6 +629,9 @@ class ProjectedRotationDynamics:
             obstacle.get_reference_point(in_global_frame=True),
             dynamics=self.initial_dynamics,
         )
+        if obstacle_sequence is None:
+            raise NotImplementedError("Obstacle at center.")
+
         obstacle_sequence.push_root_from_base_and_angle(
             rotation_pos_to_transform.base, rotation_pos_to_transform.rotation_angle
         )
-- 
2.43.0


From 44e8bc339b11668713ef2a71962a46f23bd9cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 16/55] fix: multi-obstacle avoider normalizes weights, scales
 early returns and handles missing references

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 60 ++++++++++++-------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index ad2c4e9..d3fa167 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -63,7 +63,7 @@ def get_limited_weights_to_max_sum(weights: npt.ArrayLike) -> float | np.ndarray
 
     if np.any(ind_max := np.array(weights) >= 1.0):
         new_weights = np.zeros_like(weights)
-        new_weights[ind_max] = 1
+        new_weights[ind_max] = 1.0 / np.sum(ind_max)
         # Assign to list
         return (new_weights, 1.0)
 
@@ -128,22 +128,23 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "twist") and obs.twist is not None:
             relative_velocity = relative_velocity + obs.twist.linear * weights[ii]
 
-            if obs.twist.angular:
+            if np.any(obs.twist.angular):
                 if position.shape[0] == 2:
                     angular_velocity = np.cross(
                         np.array([0, 0, obs.twist.angular]),
                         np.hstack((position - pose.position, 0)),
-                    )
+                    )[:2]
                 elif position.shape[0] == 3:
                     angular_velocity = np.cross(
                         obs.twist.angular, (position - pose.position)
                     )
                 else:
                     warnings.warn("No dynamic evaluation for higher dynensions.")
+                    angular_velocity = np.zeros_like(position)
 
                 relative_velocity = (
                     relative_velocity
-                    + weights[ii] * influence_weight[ii] * angular_velocity[:2]
+                    + weights[ii] * influence_weight[ii] * angular_velocity
                 )
 
         if hasattr(obs, "deformation_rate"):
@@ -262,7 +263,7 @@ class MultiObstacleAvoider:
         if hasattr(initial_dynamics, "attractor_position"):
             # TODO: so far this is for stable systems only (!)
             if reference_dynamics is None:
-                reference_functor = lambda x: x - initial_dynamics.attractor
+                reference_functor = lambda x: x - initial_dynamics.attractor_position
             else:
                 reference_functor = reference_dynamics.evaluate
 
@@ -329,7 +330,7 @@ class MultiObstacleAvoider:
         final_velocity = final_sequence.get_end_vector()
 
         if len(self._cluster_weights) <= 0:
-            return final_velocity + relative_velocity
+            return final_velocity * initial_magnitude + relative_velocity
 
         # averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
         averaged_normal = np.sum(
@@ -357,7 +358,7 @@ class MultiObstacleAvoider:
             print("final_velocity", final_velocity)
             print("slowed_velocity", slowed_velocity)
             print("averaged_normal", averaged_normal)
-            print("magnitude", magnitude)
+            print("magnitude", initial_magnitude)
             print("self._cluster_weights", self._cluster_weights)
 
         # breakpoint()
@@ -367,7 +368,7 @@ class MultiObstacleAvoider:
         """Returns scaling factor between [0, 1]"""
         rot_weight = np.array(self._rotation_weights)
         conv_prox = np.array(self._convergence_reference_proximity)
-        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox, conv_prox < 1.0)
+        ind_pos = (rot_weight > 0.0) & (0.0 < conv_prox) & (conv_prox < 1.0)
 
         scaling = np.ones_like(rot_weight)
         scaling[ind_pos] = ((1 - conv_prox[ind_pos]) / rot_weight[ind_pos]) ** (
@@ -471,6 +472,8 @@ class MultiObstacleAvoider:
 
     def compute_convergence_direction(self, position):
         init_seq = evaluate_dynamics_sequence(position, self.initial_dynamics)
+        if init_seq is None:
+            return np.zeros_like(position)
         final_seq = self.compute_convergence_sequence(position, init_seq)
         return final_seq.get_end_vector()
 
@@ -544,6 +547,10 @@ class MultiObstacleAvoider:
                     self.default_dynamics,
                 )
 
+            if convergence_sequence is None:
+                # No velocity at the reference point -> no convergence direction
+                continue
+
             continuous_sequence = self.vector_rotation_reduction(
                 initial_sequence, trafo_pos_to_root, convergence_sequence, weight
             )
@@ -701,6 +708,9 @@ class MultiObstacleAvoider:
         if convergence_sequence is None:
             raise NotImplementedError("Obstacle at center.")
 
+        if trafo_pos_to_attr is None:
+            return None
+
         self.conv_tree.add_node_orientation(
             orientation=trafo_pos_to_attr,
             node_id=self.get_reference_node(node_id),
@@ -877,8 +887,8 @@ class MultiObstacleAvoider:
             if np.sum(ind_weights) > 0:
                 component_weights.append(gamma_weights[gamma_weights > 0])
             else:
-                # At least one weight should be nonzero
-                component_weights.append(np.array([0.0]))
+                # No nodes were added, hence there are no weights
+                component_weights.append(np.zeros(0))
 
             if np.sum(component_weights[-1]) > 1 + 1e-6:
                 raise ValueError("Unexpected weights...")
@@ -970,6 +980,14 @@ class MultiObstacleAvoider:
         if start_id is None:
             start_id = self._BASE_VEL_ID
 
+        if gamma_values is None:
+            gamma_values = np.array(
+                [
+                    obstacle.get_component(ii).get_gamma(position, in_global_frame=True)
+                    for ii in range(obstacle.n_components)
+                ]
+            )
+
         node_list = []
         self._tangent_tree.add_node(
             node_id=NodeKey(obs_idx, -1, -1),
@@ -1153,7 +1171,7 @@ class MultiObstacleAvoider:
             # )
 
         if max_gamma is not None:
-            occlusion_gammas = np.maximum(occlusion_gammas, max_gamma)
+            occlusion_gammas = np.minimum(occlusion_gammas, max_gamma)
 
         # print("occlusion_gammas", occlusion_gammas)
         if np.any(occlusion_gammas > 1 + gamma_margin):
@@ -1194,14 +1212,9 @@ class MultiObstacleAvoider:
             )
             return final_weights
 
-        arg_max = np.argsort(occlusion_weights)
+        # Take the closest ones and divide (!)
         final_weights = np.zeros_like(occlusion_weights)
-        final_weights[-1] = 1.0
-        for ii in range(final_weights.shape[0] - 1, 0):
-            # Take the closest ones and divide (!)
-            if occlusion_weights[ii] < occlusion_weights[-1]:
-                break
-            final_weights[ii] = 1.0
+        final_weights[occlusion_weights >= np.max(occlusion_weights)] = 1.0
         return final_weights / np.sum(final_weights)
 
     def _compute_normal_and_reference_of_branch(
@@ -1244,12 +1257,12 @@ class MultiObstacleAvoider:
                 break
             obs = obstacle_tree.get_component(parents_tree[-1])
             new_id = obstacle_tree.get_parent_idx(parents_tree[-1])
-            parents_tree.append(new_id)
-            obs_parent: Obstacle_tree = obstacle_tree.get_component(new_id)
-
             if new_id is None:
                 raise ValueError("The obstacle-component is not connected to the root.")
 
+            parents_tree.append(new_id)
+            obs_parent: Obstacle_tree = obstacle_tree.get_component(new_id)
+
             if len(parents_tree) > 10:
                 # TODO: remove this debug check
                 raise Exception()
@@ -1291,8 +1304,11 @@ class MultiObstacleAvoider:
         base_velocity: np.ndarray,
         obstacle: MultiObstacle,
         obs_idx: NodeType,
-        convergence_radius: float = None,
+        convergence_radius: Optional[float] = None,
     ) -> NodeType:
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         (
             parents_tree,
             normal_directions,
-- 
2.43.0


From 102e7094ea6b6c5e75a67efb864c9228f82c0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 17/55] fix: averaging over hulls and clusters uses existing
 arguments and computes missing weights

---
 .../kmeans_learner/kmeans_motion_learner.py      | 16 ++++++++++++----
 nonlinear_avoidance/multihull_convergence.py     |  3 +--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 4703790..e9e8d85 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -568,8 +568,9 @@ class KMeansMotionLearner:
         indexes_relative: Optional[np.ndarray] = None,
         weights: Optional[np.ndarray] = None,
     ) -> Vector:
-        if indexes_relative is None:
+        if weights is None:
             weights = self._predict_sequence_weights(position)
+        if indexes_relative is None:
             indexes_relative = weights > 0
 
         indexes_absolute = np.arange(indexes_relative.shape[0])[indexes_relative]
@@ -597,6 +598,11 @@ class KMeansMotionLearner:
         simplified_calculation: bool = True,
     ) -> Vector:
         """Returns initial velocity and the convergence velocity"""
+        if weights is None:
+            weights = self._predict_sequence_weights(position)
+        if indexes_relative is None:
+            indexes_relative = weights > 0
+
         indexes_absolute = np.arange(indexes_relative.shape[0])[indexes_relative]
 
         if simplified_calculation:
@@ -617,14 +623,16 @@ class KMeansMotionLearner:
         # Start root below index (otherwise naming conflict may occur)
         root_id = -1
         temp_tree = VectorRotationTree(
-            root_id=root_id, root_direction=averaged_lyapunov
+            root_idx=root_id, root_direction=averaged_lyapunov
         )
         for i_abs in indexes_absolute:
             # TODO: there is an issue if the 'linear attractor'
             temp_tree.add_node(
                 parent_id=root_id,
                 node_id=i_abs,
-                direction=lyap_dirs[:, i_rel],
+                direction=self._dynamics[i_abs].get_lyapunov_gradient_direction(
+                    position
+                ),
             )
             temp_tree.add_node(
                 parent_id=i_abs,
@@ -635,7 +643,7 @@ class KMeansMotionLearner:
             )
         averaged_direction = temp_tree.get_weighted_mean(
             node_list=indexes_absolute + self.n_clusters,
-            weights=weights[indexes_absolute],
+            weights=weights[indexes_relative],
         )
         return averaged_direction
 
diff --git a/nonlinear_avoidance/multihull_convergence.py b/nonlinear_avoidance/multihull_convergence.py
index 905e22b..c382dce 100644
--- a/nonlinear_avoidance/multihull_convergence.py
+++ b/nonlinear_avoidance/multihull_convergence.py
@@ -213,8 +213,7 @@ def multihull_attraction(
         rotated_directions[:, it] = avoider.directional_convergence_summing(
             convergence_vector=convergence_velocity,
             reference_vector=reference_dir,
-            weight=inv_gamma_weight[it],
-            # weight=1, #
+            gamma=gamma_array[it],
             nonlinear_velocity=initial_velocity,
             # base=DirectionBase(matrix=normal_orthogonal_matrix),
             base=normal_orthogonal_matrix,
-- 
2.43.0


From 04bb754d02092a5072888c110ffc90bb851c3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 18/55] fix: learner, evaluation and plotting modules use only
 defined names

---
 .../comparison_multiobstacle_vectorfield.py           |  7 ++++---
 .../comparison/evaluation_trajectories.py             |  2 ++
 .../comparison/evaluation_trajectories_with_std.py    |  2 ++
 .../gmm_learner/learner/directional.py                |  7 +++++++
 .../gmm_learner/learner/directional_gmm.py            |  8 ++++----
 nonlinear_avoidance/gmm_learner/learner/visualizer.py | 11 +++++++----
 .../gmm_learner/visualization/gmm_visualization.py    |  6 +++---
 nonlinear_avoidance/visualization/kmean_plotting.py   |  2 +-
 .../visualization/plot_multi_obstacle.py              |  4 ++--
 9 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
index 1e62d86..0423d5f 100644
--- a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
+++ b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
@@ -176,7 +176,7 @@ def visualize_circular_dynamics_multiobstacle_nonlinear(
 
     rotation_projector = ProjectedRotationDynamics(
         attractor_position=initial_dynamics.pose.position,
-        initial_dynamics=circular_ds,
+        initial_dynamics=initial_dynamics,
         # reference_velocity=lambda x: x - center_velocity.center_position,
     )
 
@@ -246,7 +246,7 @@ def visualize_circular_dynamics_multiobstacle_modulation(
     initial_dynamics = create_initial_dynamics()
 
     obstacle_avoider = ModulationAvoider(
-        initial_dynamics=inital_dynamics,
+        initial_dynamics=initial_dynamics,
         obstacle_environment=obstacle_environment,
     )
 
@@ -640,7 +640,7 @@ def create_base_circles_to_file(datapath, parameter_file="comparison_parameters.
     rotation_projector = ProjectedRotationDynamics(
         attractor_position=initial_ds.pose.position,
         initial_dynamics=initial_ds,
-        reference_velocity=lambda x: x - center_velocity.center_position,
+        reference_velocity=lambda x: x - initial_ds.pose.position,
     )
     avoider = obstacle_avoider = NonlinearRotationalAvoider(
         initial_dynamics=initial_ds,
@@ -651,6 +651,7 @@ def create_base_circles_to_file(datapath, parameter_file="comparison_parameters.
         start_position=start_position,
         evaluate_function=avoider.evaluate,
         collision_functor=lambda x: obstacle_environment.get_minimum_gamma(x) <= 1,
+        **simulation_parameters,
     )
 
     np.savetxt(
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 78ee76e..4433837 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 9ed79a0..ba567bd 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
diff --git a/nonlinear_avoidance/gmm_learner/learner/directional.py b/nonlinear_avoidance/gmm_learner/learner/directional.py
index ba90730..3ff670b 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional.py
@@ -24,6 +24,13 @@ from sklearn.mixture import BayesianGaussianMixture
 from sklearn.model_selection import StratifiedKFold
 from sklearn.model_selection import train_test_split
 from sklearn import mixture
+from sklearn.exceptions import ConvergenceWarning
+from sklearn.utils import check_random_state
+from sklearn.mixture._gaussian_mixture import (
+    _estimate_gaussian_parameters,
+    _estimate_log_gaussian_prob,
+)
+from scipy.special import digamma
 
 from nonlinear_avoidance.gmm_learner.math_tools import rk4, mag_linear_maximum
 from nonlinear_avoidance.gmm_learner.learner.base import Learner
diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 5b668cf..ea82606 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -358,10 +358,10 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         # X=X, mean=mu_yx, covariance_matrices=covariance_output)
         # breakpoint()
         # estimate_normals = mu_yx
-        if convergence_attractor is not None:
-            self.convergence_attractor = convergence_attractor
+        if convergence_attractor is None:
+            convergence_attractor = self.convergence_attractor
 
-        if self.convergence_attractor:
+        if convergence_attractor:
             if self.pos_attractor is None:
                 raise ValueError("Convergence to attractor without attractor...")
 
@@ -595,7 +595,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x_traj[:, 1, ii]= rk4(delta_t, x_traj[:, 0, ii], self.predict)
             # xd = x_traj[:, 1, ii] - x_traj[:, 0, ii]
 
-            xd = self.predict2(x_traj[:, 0, ii])
+            xd = self.predict(x_traj[:, 0, ii])
             x_traj[:, 1, ii] = x_traj[:, 0, ii] + xd * delta_t
 
             for nn in range(2, num_steps):
diff --git a/nonlinear_avoidance/gmm_learner/learner/visualizer.py b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
index 197a26a..99c504d 100755
--- a/nonlinear_avoidance/gmm_learner/learner/visualizer.py
+++ b/nonlinear_avoidance/gmm_learner/learner/visualizer.py
@@ -7,6 +7,7 @@ Visualizer Class to add-on to the Learner-subclassses
 # Created: 2021-05-24
 # License: BSD (c) 2021
 
+import os
 from math import pi
 import numpy as np
 
@@ -309,7 +310,7 @@ class LearnerVisualizer:
         # plt.title(name)
         if save_figure:
             plt.savefig(
-                os.join.pay("figures", figure_name + ".png", bbox_inches="tight")
+                os.path.join("figures", figure_name + ".png"), bbox_inches="tight"
             )
 
     def plot_gaussians_all_directions(self):
@@ -347,7 +348,9 @@ class LearnerVisualizer:
         # NO equal axis due to different 'values'
 
         if save_figure:
-            plt.savefig(os.join.pay("figures", figName + ".png", bbox_inches="tight"))
+            plt.savefig(
+                os.path.join("figures", figure_name + ".png"), bbox_inches="tight"
+            )
 
     def get_xy_lim_plot(self, margin_x=1, margin_y=1):
         """Returns xlim & ylim of the data (plus/minus margin) in order to plot it nicely"""
@@ -363,7 +366,7 @@ class LearnerVisualizer:
         self, n_grid=100, xlim=None, ylim=None, colorlist=None, pos_vel_input=False
     ):
         """Visualize the results."""
-        if xlim is None:
+        if xlim is None or ylim is None:
             xlim, ylim = self.get_xy_lim_plot()
 
         nx, ny = n_grid, n_grid
@@ -542,7 +545,7 @@ class LearnerVisualizer:
     def plot_relative_direction(self, n_grid=100, xlim=None, ylim=None):
         self.plot_vectorfield_and_integration(n_grid=n_grid)
 
-        if xlim is None:
+        if xlim is None or ylim is None:
             xlim, ylim = self.get_xy_lim_plot()
 
         nx, ny = n_grid, n_grid
diff --git a/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py b/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
index 32aa938..82acbd0 100755
--- a/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
+++ b/nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py
@@ -34,7 +34,7 @@ def draw_obstacle_patches(
             path_axes[0],
             path_axes[1],
             obs.orientation * 180 / np.pi,
-            color=colors[ii],
+            color=None if colors is None else colors[ii],
             zorder=-2,
         )
 
@@ -44,8 +44,8 @@ def draw_obstacle_patches(
 
         if plot_centers:
             ax.plot(
-                gmm.means_[n, plot_dims[0]],
-                gmm.means_[n, plot_dims[1]],
+                obs.center_position[plot_dims[0]],
+                obs.center_position[plot_dims[1]],
                 "k.",
                 markersize=12,
                 linewidth=30,
diff --git a/nonlinear_avoidance/visualization/kmean_plotting.py b/nonlinear_avoidance/visualization/kmean_plotting.py
index dbf963d..7491eb2 100644
--- a/nonlinear_avoidance/visualization/kmean_plotting.py
+++ b/nonlinear_avoidance/visualization/kmean_plotting.py
@@ -423,7 +423,7 @@ def plot_gamma_of_learner(
             # alpha=0.7,
         )
 
-    cbar = fig.colorbar(cntr)
+    cbar = ax.figure.colorbar(cntr)
 
     ax.axis("equal")
     ax.set_xlim(x_lim)
diff --git a/nonlinear_avoidance/visualization/plot_multi_obstacle.py b/nonlinear_avoidance/visualization/plot_multi_obstacle.py
index b37958a..6890ac5 100644
--- a/nonlinear_avoidance/visualization/plot_multi_obstacle.py
+++ b/nonlinear_avoidance/visualization/plot_multi_obstacle.py
@@ -1,11 +1,11 @@
 import matplotlib.pyplot as plt
 
 from dynamic_obstacle_avoidance.visualization import plot_obstacles
-from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
+from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
 
 
 def plot_multi_obstacles(
-    container: MultiObstacleAvoider, x_lim=None, y_lim=None, ax=None, show_ticks=True
+    container: MultiObstacleContainer, x_lim=None, y_lim=None, ax=None, show_ticks=True
 ):
     if ax is None:
         fig, ax = plt.subplots()
-- 
2.43.0


From 80e7e79e0f1ccbb330f6aa8b0b337f2f60f994f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 19/55] fix: plotting of obstacle trees reads the components
 through the common interface

---
 nonlinear_avoidance/visualization/plot_multi_obstacle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/visualization/plot_multi_obstacle.py b/nonlinear_avoidance/visualization/plot_multi_obstacle.py
index 6890ac5..fc5eada 100644
--- a/nonlinear_avoidance/visualization/plot_multi_obstacle.py
+++ b/nonlinear_avoidance/visualization/plot_multi_obstacle.py
@@ -21,7 +21,10 @@ def plot_multi_obstacles(
     for obstacle_tree in container._obstacle_list:
         plot_obstacles(
             ax=ax,
-            obstacle_container=obstacle_tree._obstacle_list,
+            obstacle_container=[
+                obstacle_tree.get_component(ii)
+                for ii in range(obstacle_tree.n_components)
+            ],
             x_lim=x_lim,
             y_lim=y_lim,
             noTicks=not (show_ticks),
-- 
2.43.0


From dbb36a2f12ed49bfbbc4a2e65e8d90691d4773f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 20/55] fix: spiraling dynamics return zero instead of nan
 where the velocity vanishes

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index 0ab0145..fa1bd51 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -54,7 +54,10 @@ class SpiralingDynamics3D:
         )
 
         combined_velocity = rotating_velocity + self.direction
-        combined_velocity = combined_velocity / np.linalg.norm(combined_velocity)
+        if not (combined_norm := np.linalg.norm(combined_velocity)):
+            return np.zeros_like(combined_velocity)
+
+        combined_velocity = combined_velocity / combined_norm
         combined_velocity = combined_velocity * self.speed
         return combined_velocity
 
@@ -121,7 +124,10 @@ class SpiralingAttractorDynamics3D:
             velocity_to_attractor = velocity_to_attractor / base_vel_norm * self.speed
 
         combined_velocity = rotating_velocity + velocity_to_attractor
-        combined_velocity = combined_velocity / np.linalg.norm(combined_velocity)
+        if not (combined_norm := np.linalg.norm(combined_velocity)):
+            return np.zeros_like(combined_velocity)
+
+        combined_velocity = combined_velocity / combined_norm
         combined_velocity = combined_velocity * self.speed
         return combined_velocity
 
-- 
2.43.0


From e84aca6f9238affcd9d1e6e529690e7390e67933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 21/55] fix: multi-hull evaluation at the local attractor
 returns zero instead of nan

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 250fcb7..1c92a29 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -243,7 +243,8 @@ class MultiHullAndObstacle(Obstacle):
             # Direction is zero, but not initial one
             raise ValueError("Zero direction value obtained.")
 
-        mean_direction = mean_direction / dir_norm * mean_magnitude
+        if dir_norm:
+            mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
             mean_direction = self.transform_relative2global_dir(mean_direction)
-- 
2.43.0


From 8c33366f338655e6df59181c1c8fbcfbf5c077ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 22/55] fix: obstacle centered at the attractor gets a linear
 convergence dynamics

---
 nonlinear_avoidance/rotation_container.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 34e4540..3f54820 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -92,9 +92,14 @@ class RotationContainer(BaseContainer):
                 continue
 
             local_velocity = nonlinear_dynamics.evaluate(position)
-            dot_prod = np.dot(position, local_velocity) / (
-                pos_norm * LA.norm(local_velocity)
-            )
+            if not (velocity_norm := LA.norm(local_velocity)):
+                # Obstacle-center at the attractor
+                self._convergence_dynamics[it_obs] = LinearSystem(
+                    attractor_position=attractor
+                )
+                continue
+
+            dot_prod = np.dot(position, local_velocity) / (pos_norm * velocity_norm)
 
             if dot_prod == (-1):
                 # Simpler and faster DS -> no rotation need, hence linear is sufficient
-- 
2.43.0


From 24031e036ce6c522f261af0b22022327d7ca2f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 23/55] fix: learned motion returns the vanishing outside
 velocity instead of nan

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index e9e8d85..7efc399 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -688,7 +688,7 @@ class KMeansMotionLearner:
         # Predict surface velocity
         outside_velocity = self.outside_dynamics.evaluate(position)
 
-        if np.all(weights_surf <= 0):
+        if np.all(weights_surf <= 0) or not LA.norm(outside_velocity):
             # Return velocity directly
             return outside_velocity
 
@@ -798,7 +798,7 @@ class KMeansMotionLearner:
         # Modulate only the one which we are currently in
         outside_velocity = self.outside_dynamics.evaluate(position)
 
-        if weights_surf <= 0:
+        if weights_surf <= 0 or not LA.norm(outside_velocity):
             # Return velocity directly
             return outside_velocity
 
-- 
2.43.0


From 2ad10887fa5f80c92cff6329baf87ab25a1b2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 24/55] fix: limb orientation is not nan when rounding lifts
 the sine above one

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index b3dc2c0..79762a9 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -434,7 +434,7 @@ class MultiBodyObstacle:
 
         if rotvec_norm := np.linalg.norm(rot_vec):
             rot_vec = rot_vec / rotvec_norm
-            theta = np.arcsin(rotvec_norm)
+            theta = np.arcsin(min(rotvec_norm, 1.0))
             quat = np.hstack((rot_vec * np.cos(theta / 2.0), [np.sin(theta / 2.0)]))
 
         else:
-- 
2.43.0


From 66c584e3710820f04f48d9cd649bd64d48a9b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 25/55] fix: hull is_inside converts a global position to its
 own frame like evaluate does

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 1c92a29..93fdec9 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -171,6 +171,9 @@ class MultiHullAndObstacle(Obstacle):
 
     def is_inside(self, position, in_global_frame=True):
         """Checks if the obstacle is colliding."""
+        if in_global_frame:
+            position = self.transform_global2relative(position)
+
         in_free_space = False  # Track if the attractor is in free space!
 
         if not self.outer_obstacle.is_inside(position, in_global_frame=True):
-- 
2.43.0


From be15515d011a29c4481fb629c32120a338cdaab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 26/55] fix: hull entrances are tested in the global frame and
 against both bodies

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 93fdec9..7014a94 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -543,7 +543,9 @@ class MultiHullAndObstacle(Obstacle):
                 factors=[-1, 1],
             )
 
-            if obs_ii.is_inside(position) or obs_ii.is_inside(position):
+            if obs_ii.is_inside(
+                position, in_global_frame=True
+            ) or self.outer_obstacle.is_inside(position, in_global_frame=True):
                 continue
 
             self._graph.add_node(
-- 
2.43.0


From 44e108884ed1399c068bb62c63a4b39984c08c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 27/55] fix: GmmObstacle.set_kernel_point stores the point it
 is given

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index b6a18e4..1b2e0aa 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -113,7 +113,7 @@ class GmmObstacle:
         return self._reference_points[:, index]
 
     def set_kernel_point(self, value: Vector, index: int) -> None:
-        self._reference_points[:, index]
+        self._reference_points[:, index] = value
 
     def get_center_position(self, index: int) -> Vector:
         return self._gmm.means_[index, :]
-- 
2.43.0


From c1b51ed8cc20b6f6de96f42d36a4e818060116ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 28/55] fix: get_weight_gamma_for_hulls applies its power_value

---
 nonlinear_avoidance/multihull_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multihull_convergence.py b/nonlinear_avoidance/multihull_convergence.py
index c382dce..a17fa55 100644
--- a/nonlinear_avoidance/multihull_convergence.py
+++ b/nonlinear_avoidance/multihull_convergence.py
@@ -34,7 +34,7 @@ def get_weight_gamma_for_hulls(
     gamma_array: np.ndarray, power_value: float = 1.0
 ) -> np.ndarray:
     """Returns weight-array based on input of gamma_array."""
-    weights = np.maximum(gamma_array - 1, 0)
+    weights = np.maximum(gamma_array - 1, 0) ** power_value
 
     if sum_weights := np.sum(weights):
         # Nonzero
-- 
2.43.0


From 907e0a3fb822feda28e54b7407f8363b52aac4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 29/55] fix: outside of the clusters the weights of the learned
 motion sum to one

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 7efc399..383d5ad 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -748,7 +748,10 @@ class KMeansMotionLearner:
         if (weight_sum := np.sum(weights_surf)) > weight_norm_factor:
             all_weights = np.hstack((weights_surf / weight_sum, 0))
         else:
-            all_weights = np.hstack((weights_surf, 1 - weight_sum)) / weight_norm_factor
+            all_weights = (
+                np.hstack((weights_surf, weight_norm_factor - weight_sum))
+                / weight_norm_factor
+            )
 
         mean_direction = get_directional_weighted_sum(
             outside_velocity,
-- 
2.43.0


From 4d70eeefc5e8e21ebb982d1ad7684ba7b1f58e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 30/55] fix: weights of a path sum to one where two of its
 segments meet

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index e985055..3644624 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -116,7 +116,7 @@ class WavyPathFollowing(Dynamics):
 
         zero_dist = distances == 0
         if np.any(zero_dist):
-            weights = 1.0 * zero_dist
+            weights = zero_dist / np.sum(zero_dist)
             return np.append(weights, 0)
 
         weights = (weight_factor / distances) ** weight_power
-- 
2.43.0


From ce2de6547e517f4e0f8c48e40c3b546ffa192361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 31/55] fix: rotation between opposite directions is defined

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index e64c4ad..c9be167 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,7 +120,7 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot):
+        if np.allclose(vec_init, vec_rot) or np.allclose(vec_init, -vec_rot):
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
-- 
2.43.0


From b0b6c9f7bf39b139bbb640fc9467cee223f51d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 32/55] fix: spiraling dynamics do not share their default
 circular dynamics

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index fa1bd51..7d01c73 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -22,8 +22,8 @@ class SpiralingDynamics3D:
 
     pose: Pose
     direction: Vector
-    circular_dynamics: SimpleCircularDynamics = SimpleCircularDynamics(
-        pose=Pose.create_trivial(2)
+    circular_dynamics: SimpleCircularDynamics = field(
+        default_factory=lambda: SimpleCircularDynamics(pose=Pose.create_trivial(2))
     )
     speed: float = 1.0
 
@@ -75,8 +75,8 @@ class SpiralingAttractorDynamics3D:
 
     pose: Pose
     direction: Vector
-    circular_dynamics: SimpleCircularDynamics = SimpleCircularDynamics(
-        pose=Pose.create_trivial(2)
+    circular_dynamics: SimpleCircularDynamics = field(
+        default_factory=lambda: SimpleCircularDynamics(pose=Pose.create_trivial(2))
     )
     speed: float = 1.0
 
-- 
2.43.0


From 7d7fbc326808293fee4bd80c1c25fba10c1c312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 33/55] fix: motion learner built from centers has its outside
 dynamics

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 383d5ad..394345a 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -104,6 +104,11 @@ class KMeansMotionLearner:
         new_instance._fit_region_obstacles()
         new_instance._fit_local_dynamics()
 
+        new_instance.outside_dynamics = LinearSystem(
+            attractor_position=data.attractor_position,
+            maximum_velocity=1.0,
+        )
+
         return new_instance
 
     @property
-- 
2.43.0


From 2a194b4096a2bf48a106d1de604ff2e71a9d94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 34/55] fix: locally rotated dynamics around an obstacle at the
 attractor can be evaluated

---
 .../dynamics/locally_rotated_linear_dynamics.py      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index d196543..7fde15e 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -59,18 +59,22 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
 
         reference_velocity = reference_velocity / self.maximum_velocity
 
+        self.min_gamma = min_gamma
+        self.max_gamma = max_gamma
+        # Modify if needed
+        self.attractor_influence = 3
+
         attractor_dir = self.attractor_position - obstacle.center_position
         if not (attr_norm := LA.norm(attractor_dir)):
             warnings.warn("Obstacle is at attractor - zero deviation")
+            self.rotation = VectorRotationXd.from_directions(
+                vec_init=reference_velocity, vec_rot=reference_velocity
+            )
             return
 
         self.rotation = VectorRotationXd.from_directions(
             vec_init=attractor_dir / attr_norm, vec_rot=reference_velocity
         )
-        self.min_gamma = min_gamma
-        self.max_gamma = max_gamma
-        # Modify if needed
-        self.attractor_influence = 3
 
         # self.base = get_orthogonal_basis()
         # self.deviation = get_angle_space(reference_velocity, null_matrix=self.base)
-- 
2.43.0


From 7931e03b5965760785ca412da7005b5819cddc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 35/55] fix: intersection with the parent component is
 evaluated in the global frame

---
 nonlinear_avoidance/multi_obstacle.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 31033ed..c27fa50 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -155,11 +155,16 @@ class MultiObstacle:
         if parent_ind not in self._graph:
             raise ValueError(f"No parent component with index {parent_ind}.")
 
+        # Put obstacle to 'global' frame, but store local pose
+        local_pose = obstacle.pose
+        obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
+
         if reference_position is None:
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
             )
             if global_reference is None:
+                obstacle.pose = local_pose
                 raise ValueError("No intersection found.")
 
             reference_position = obstacle.pose.transform_position_to_relative(
@@ -171,9 +176,7 @@ class MultiObstacle:
         obstacle.set_reference_point(reference_position, in_global_frame=False)
 
         new_id = len(self._obstacle_list)
-        # Put obstacle to 'global' frame, but store local pose
-        self._local_poses.append(obstacle.pose)
-        obstacle.pose = self._pose.transform_pose_from_relative(self._local_poses[-1])
+        self._local_poses.append(local_pose)
         self._obstacle_list.append(obstacle)
 
         self._graph.add_node(
-- 
2.43.0


From 349521c3793f6938dcbfd6e25e205905c44ec776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 36/55] fix: MultiHullAndObstacle.plot_obstacle failed while no
 attractor is set

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 7014a94..4da3585 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -487,6 +487,8 @@ class MultiHullAndObstacle(Obstacle):
                 )
 
             attractor_ = self.get_attractor()
+            if attractor_ is None:
+                return
             ax.plot(
                 attractor_[0],
                 attractor_[1],
-- 
2.43.0


From 8dfd4e01600aa2821d73c5fe33db0c56706b0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 37/55] fix: extend_graph keeps both directions of the graph in
 step and checks its indices first

---
 nonlinear_avoidance/multiboundary_container.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index e83e324..bc0a52c 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -66,8 +66,8 @@ class MultiBoundaryContainer(RotationContainer):
         self._parent_intersection_point.append(None)
 
         if parent is not None:
-            # Automatically define graph
-            if parent == -1:
+            # Automatically define graph (the first obstacle remains a root)
+            if parent == -1 and self.n_obstacles > 1:
                 self.extend_graph(
                     child=self.n_obstacles - 1, parent=self.n_obstacles - 2
                 )
@@ -105,6 +105,15 @@ class MultiBoundaryContainer(RotationContainer):
 
     def extend_graph(self, child, parent):
         """Use internal functions to update parents & children."""
+        if not 0 <= child < len(self._children_list):
+            raise IndexError(f"No obstacle with index {child}.")
+        if not 0 <= parent < len(self._children_list):
+            raise IndexError(f"No obstacle with index {parent}.")
+
+        old_parent = self._parent_array[child]
+        if old_parent >= 0:
+            self._children_list[old_parent].remove(child)
+
         self.set_parent(it=child, parent=parent)
         self.add_children(it=parent, children=[child])
 
-- 
2.43.0


From 086cc4b8b42292db5eaa96f21c04021d0cde2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 38/55] fix: a rejected fit leaves the deviation model as it
 was

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index 02666ca..0b0aa82 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -110,17 +110,16 @@ class DeviationOfConstantFlow(DirectionalSystem):
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> None:
         """Fits the internal learner onto the given model."""
-        self.n_samples_fit_ = X.shape[0]
-
-        if y.shape[0] != self.n_samples_fit_:
+        if y.shape[0] != X.shape[0]:
             raise ValueError("Input data is not consistent.")
 
+        if y.shape[1] != self.dimension - 1:
+            raise ValueError("Unexpected number of output features.")
+
+        self.n_samples_fit_ = X.shape[0]
         self.n_features_in_ = X.shape[1]
         self.n_features_out_ = y.shape[1]
 
-        if self.n_features_out_ != self.dimension - 1:
-            raise ValueError("Unexpected number of output features.")
-
         self.regressor.fit(X, y)
 
     def _clean_input_data(self, data):
-- 
2.43.0


From d26144bccb5d8acbe3730e0ea8c3edf06df2d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 39/55] fix: a rejected sequence leaves no nodes behind in the
 rotation tree

---
 nonlinear_avoidance/vector_rotation.py | 33 ++++++++++++++++----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index c9be167..6d6e0d5 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -538,22 +538,29 @@ class VectorRotationTree:
         else:
             it_start = 0
 
-        for ii in range(it_start, sequence.n_rotations):
-            internode_id = (node_id, ii)
+        added_nodes = []
+        try:
+            for ii in range(it_start, sequence.n_rotations):
+                internode_id = (node_id, ii)
+                self.add_node(
+                    node_id=internode_id,
+                    direction=sequence.basis_array[:, ii, 0],
+                    parent_id=parent_id,
+                )
+                added_nodes.append(internode_id)
+                parent_id = internode_id
+
+            # Real NodeId for the last node
+            final_direction = sequence.get_end_vector()
             self.add_node(
-                node_id=internode_id,
-                direction=sequence.basis_array[:, ii, 0],
+                node_id=node_id,
+                direction=final_direction,
                 parent_id=parent_id,
             )
-            parent_id = internode_id
-
-        # Real NodeId for the last node
-        final_direction = sequence.get_end_vector()
-        self.add_node(
-            node_id=node_id,
-            direction=final_direction,
-            parent_id=parent_id,
-        )
+        except ValueError:
+            # Do not leave a part of the sequence behind
+            self._graph.remove_nodes_from(added_nodes)
+            raise
 
     def set_direction(self, node_id: int, direction: Vector) -> None:
         self._graph.nodes[node_id]["direction"] = direction
-- 
2.43.0


From 236875fbd20229ce5ca4f0aa4292b35a78d3bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 40/55] fix: a rejected component gets its pose back on every
 error

---
 nonlinear_avoidance/multi_obstacle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index c27fa50..3650e77 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -160,12 +160,15 @@ class MultiObstacle:
         obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
 
         if reference_position is None:
-            global_reference = get_intersection_of_obstacles(
-                obstacle, self.get_component(parent_ind)
-            )
-            if global_reference is None:
+            try:
+                global_reference = get_intersection_of_obstacles(
+                    obstacle, self.get_component(parent_ind)
+                )
+                if global_reference is None:
+                    raise ValueError("No intersection found.")
+            except Exception:
                 obstacle.pose = local_pose
-                raise ValueError("No intersection found.")
+                raise
 
             reference_position = obstacle.pose.transform_position_to_relative(
                 global_reference
-- 
2.43.0


From dfddfa229af72743755631f89baa303b6c43a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 41/55] fix: orientations of a rotation tree are evaluated from
 the root upwards

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 6d6e0d5..78336e9 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -593,7 +593,7 @@ class VectorRotationTree:
             self._graph.nodes[sorted_list[0]]["direction"],
         )
 
-        for n_id in self._graph.nodes:
+        for n_id in sorted_list:
             for c_id in self._graph.successors(n_id):
                 self._graph.nodes[c_id][
                     "orientation"
-- 
2.43.0


From 0de091224ec49f02d1f573424b954bd1352b8371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 42/55] fix: the levels of a rotation tree are summed up in
 ascending order

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 78336e9..81a737d 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -780,7 +780,7 @@ class VectorRotationTree:
 
         # Bottom up calculation - from lowest level to highest level
         # at each level, take the weighted average of all rotations
-        for ll, level in enumerate(set(level_list)):
+        for ll, level in enumerate(sorted(set(level_list))):
             nodelevel_ids = []
             for node_id, lev in zip(sorted_list, level_list):
                 if lev == level and self._graph.nodes[node_id]["weight"]:
-- 
2.43.0


From 95c2b8da7f7a0c7b8f666c0f3f00589a60b59ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 43/55] fix: a graph element with an invalid new parent keeps
 its old one

---
 nonlinear_avoidance/graph_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 2c2375f..37fab19 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -34,10 +34,10 @@ class GraphElement:
         child.parent = self
 
     def set_parent(self, parent):
+        parent.children.append(self)
         if self.parent is not None:
             self.parent.children.remove(self)
         self.parent = parent
-        parent.children.append(self)
 
     def expel(self):
         """Removes all connection to all under and overlying elements."""
-- 
2.43.0


From 3498923bce3556f3c51f5bb8c95f076cf7162a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 44/55] fix: get_component of the multi-body obstacle takes
 idx_obs like the obstacle interface

---
 nonlinear_avoidance/multi_body_human.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 79762a9..ee8b28d 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -142,8 +142,8 @@ class MultiBodyObstacle:
     def get_name(self, idx: int) -> str:
         return self._graph.nodes()[idx]["name"]
 
-    def get_component(self, idx: int) -> Obstacle:
-        return self._obstacle_list[idx]
+    def get_component(self, idx_obs: int) -> Obstacle:
+        return self._obstacle_list[idx_obs]
 
     def get_parent_idx(self, idx_obs: int) -> Optional[int]:
         if idx_obs == self.root_idx:
-- 
2.43.0


From bd1c6910ad16b12107d27925f09bf3fdfc00e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 45/55] fix: abstract evaluate_convergence_velocity is a method
 of the object

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index 0b0aa82..dd4d2ba 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -74,7 +74,7 @@ class DirectionalSystem(ABC):
         pass
 
     @abstractmethod
-    def evaluate_convergence_velocity(position: Vector) -> Vector:
+    def evaluate_convergence_velocity(self, position: Vector) -> Vector:
         pass
 
     # @abstractmethod
-- 
2.43.0


From 496addd03b2753d58f46067ec74b88893388503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 46/55] fix: WavyPathFollowing answers with a velocity vector
 at its attractor

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index 3644624..675072f 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -180,7 +180,7 @@ class WavyPathFollowing(Dynamics):
     def evaluate(self, position: np.ndarray) -> np.ndarray:
         vel_attractor = self.evaluate_magnitude(position)
         if not np.linalg.norm(vel_attractor):
-            return vel_attractor
+            return np.zeros_like(position, dtype=float)
 
         sequence = self.evaluate_dynamics_sequence(position)
         return sequence.get_end_vector() * vel_attractor
-- 
2.43.0


From 6b70f5e5e8b6c4211d54643998c9e2d0c4710641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 47/55] fix: the gamma derivative and the base of a sequence
 are announced as what they are

---
 nonlinear_avoidance/gmm_obstacle.py    | 2 +-
 nonlinear_avoidance/vector_rotation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 1b2e0aa..8915fac 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -499,7 +499,7 @@ class GmmObstacle:
 
     def get_gamma_derivative(
         self, position: Vector, index: int, powerfactor: float = 1
-    ) -> float:
+    ) -> Vector:
         """Returns the derivative of the proportional gamma."""
         delta_dist = position - self._gmm.means_[index, :]
 
diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 81a737d..0eed87c 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -300,7 +300,7 @@ class VectorRotationSequence:
     def n_rotations(self):
         return self.basis_array.shape[1]
 
-    def base(self) -> Vector:
+    def base(self) -> VectorArray:
         return self.basis_array[:, [0, -1]]
 
     def append_from_direction(self, direction: Vector) -> None:
-- 
2.43.0


From 634bc803e6ee8e3b37e66a34b42fd5e2a132117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 48/55] fix: the root of a GMM obstacle is the component
 closest to the mean, not a coordinate

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 8915fac..69017df 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -132,7 +132,7 @@ class GmmObstacle:
         mean_center = np.mean(self._gmm.means_, axis=0)
 
         ind_closest = np.argmin(
-            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=0)
+            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=1)
         )
 
         self._reference_points[:, ind_closest] = self._gmm.means_[ind_closest, :]
-- 
2.43.0


From ef68724ab184981f1187dec222f1ba4313653c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 49/55] fix: the derivative of a Gaussian uses the mean and
 precision of its component

---
 nonlinear_avoidance/gmm_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 69017df..b1f7b31 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -481,7 +481,7 @@ class GmmObstacle:
         fraction_value = 1 / np.sqrt(
             (2 * np.pi) ** self.dimension * LA.det(self._gmm.covariances_[index, :, :])
         )
-        delta_dist = position - self._gmm.means_[index, :, :]
+        delta_dist = position - self._gmm.means_[index, :]
         exp_value = np.exp(
             (-0.5)
             * delta_dist.T
@@ -489,7 +489,7 @@ class GmmObstacle:
             @ delta_dist
             * powerfactor
         )
-        deriv_factor = (-0.5) * self._precisions_cholesky_[index, :, :] @ delta_dist
+        deriv_factor = (-0.5) * self._gmm.precisions_cholesky_[index, :, :] @ delta_dist
         return (powerfactor * deriv_factor) * fraction_value * exp_value
 
     def get_gamma_proportional(self, position: Vector, index: int) -> float:
-- 
2.43.0


From c9ce2e6a8b7d0c706def2d4057d2458b9fc5b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 50/55] fix: the in-between position of a cluster is the one of
 the given index

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index b5efca3..31794bf 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -127,7 +127,7 @@ class KMeansObstacle(Obstacle):
         return inbetween_points
 
     def get_inbetween_position(self, index) -> Vector:
-        return self._inbetween_points[self.ind_relevant, :]
+        return self.inbetween_points[index, :]
 
     @property
     def num_relevant(self) -> int:
-- 
2.43.0


From 4c295081f0e6faebfddd78433febe54c9eccd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 51/55] fix: compare the obstacle velocity with the actual
 velocity, not with its unit direction

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index 627554f..5e18bc5 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -206,21 +206,19 @@ class SingularityConvergenceDynamics(BaseAvoider):
         if not (initial_norm := LA.norm(initial_velocity)):
             return initial_velocity
 
-        initial_velocity = initial_velocity / initial_norm
-
         convergence_velocity = self.evaluate_weighted_dynamics(
-            position, initial_velocity
+            position, initial_velocity / initial_norm
         )
 
-        rotated_velocity = self._rotation_avoider.avoid(
+        # The velocity of the obstacles has to be compared with the actual
+        # (i.e., not normalized) velocity
+        return self._rotation_avoider.avoid(
             position=position,
             initial_velocity=initial_velocity,
             convergence_velocity=convergence_velocity * initial_norm,
             **kwargs,
         )
 
-        return rotated_velocity * initial_norm
-
     def evaluate_sequence(self, position: np.ndarray) -> np.ndarray:
         if hasattr(self._rotation_avoider.initial_dynamics, "evaluate_magnitude"):
             magnitude = self._rotation_avoider.initial_dynamics.evaluate_magnitude(
-- 
2.43.0


From 5f9bf9e3d0f215eef5d52cd93d142e95f211032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 52/55] fix: add the obstacle velocity to the scaled velocity
 in evaluate_old

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index d3fa167..7c0b060 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -403,7 +403,6 @@ class MultiObstacleAvoider:
         final_velocity = self.evaluate_avoidance_direction(
             position, initial_velocity, convergence_direction
         )
-        final_velocity = final_velocity + relative_velocity
 
         averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
 
@@ -414,6 +413,8 @@ class MultiObstacleAvoider:
             averaged_normal=averaged_normal,
             gamma=gamma,
         )
+        # The direction has unit length: add the obstacle velocity only after scaling
+        slowed_velocity = slowed_velocity + relative_velocity
 
         if np.any(np.isnan(position)) or np.any(np.isnan(slowed_velocity)):
             raise ValueError("Evaluation resulted in nan-values.")
-- 
2.43.0


From 36d8f9449fa840720f3018a6a8dda11f958ca3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 53/55] fix: log the iteration at which the gamma gradient
 converged, not an obstacle number

---
 nonlinear_avoidance/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/utils.py b/nonlinear_avoidance/utils.py
index bd99654..9a60690 100644
--- a/nonlinear_avoidance/utils.py
+++ b/nonlinear_avoidance/utils.py
@@ -50,7 +50,7 @@ def gamma_normal_gradient_descent(
 
     dimension = obstacles[0].dimension
 
-    for _ in range(it_max):
+    for it in range(it_max):
         step = np.zeros(dimension)
         # Gamma Gradient and Normal direction (?)
         for ii, obs_ii in enumerate(obstacles):
@@ -62,7 +62,7 @@ def gamma_normal_gradient_descent(
             )
 
         if LA.norm(step) < convergence_error:
-            logging.info(f"Gamma gradient converged at it={ii}")
+            logging.info(f"Gamma gradient converged at it={it}")
             break
 
         position += step_factor * step
-- 
2.43.0


From b285df7e00d0b6cba31be6810e8b9d8b502c3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 54/55] fix: check the partial orientation of every successor
 for nan, not only the last one

---
 nonlinear_avoidance/vector_rotation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 0eed87c..71f394f 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -758,9 +758,8 @@ class VectorRotationTree:
 
             for ii, succ in enumerate(successors):
                 self._graph.nodes[succ]["part_orientation"].base = succ_basis[:, ii, :]
-
-            if np.any(np.isnan(self._graph.nodes[succ]["part_orientation"].base)):
-                raise ValueError("Partial node-orientation contains nan.")
+                if np.any(np.isnan(self._graph.nodes[succ]["part_orientation"].base)):
+                    raise ValueError("Partial node-orientation contains nan.")
 
     def evaluate_graph_summing(self, sorted_list) -> VectorRotationSequence:
         """Graph summing under assumption of shared-basis at each level.
-- 
2.43.0


From eb455d44167d3ae37a1516611d06cb9488469b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:39 +0000
Subject: [PATCH 55/55] fix: apply the last weighted level of a rotation tree
 once, also if deeper nodes have no weight

---
 nonlinear_avoidance/vector_rotation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 71f394f..467463f 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -772,10 +772,7 @@ class VectorRotationTree:
         # sequence_vectors = np.zeros((self.dimension, len(set(level_list))))
         vector_sequence = VectorRotationSequence.create_empty(dimension=self.dimension)
 
-        # Without any weighted node, the sequence remains at the root
         root_base = self._graph.nodes[sorted_list[0]]["part_orientation"].base
-        shared_first_basis, averaged_direction = root_base[:, 0], root_base[:, 1]
-        new_angle = 0.0
 
         # Bottom up calculation - from lowest level to highest level
         # at each level, take the weighted average of all rotations
@@ -826,7 +823,11 @@ class VectorRotationTree:
             all_basis = np.zeros((self.dimension, 0))
             for node_id in nodelevel_ids:
                 # Transform all child angles to first base-direction
-                successors = self.get_all_childs_children(node_id)
+                successors = [
+                    succ
+                    for succ in self.get_all_childs_children(node_id)
+                    if self._graph.nodes[succ]["weight"]
+                ]
 
                 if not successors:
                     # No successors
@@ -849,13 +850,14 @@ class VectorRotationTree:
                 all_successors += successors
                 all_basis = np.hstack((all_basis, succ_basis))
 
+            new_base = np.vstack((shared_first_basis, averaged_direction)).T
             if not all_successors:
-                # Zero list -> check the next level
+                # No weighted successors -> this is the last level
+                vector_sequence.append_from_base_and_angle(new_base, new_angle)
                 continue
 
             if new_angle:
                 # Only append if nonzero angle, i.e., actual rotation
-                new_base = np.vstack((shared_first_basis, averaged_direction)).T
                 # Transform to the new basis-direction
                 all_basis = rotate_array(
                     # directions=all_basis.reshape(self.dimension, -1),
@@ -873,9 +875,9 @@ class VectorRotationTree:
             for ii, node in enumerate(all_successors):
                 self._graph.nodes[node]["part_orientation"].base = all_basis[:, ii, :]
 
-        vector_sequence.append_from_base_and_angle(
-            np.vstack((shared_first_basis, averaged_direction)).T, new_angle
-        )
+        if not vector_sequence.n_rotations:
+            # Without any weighted node, the sequence remains at the root
+            vector_sequence.append_from_base_and_angle(root_base, 0.0)
 
         if np.any(np.isnan(vector_sequence.basis_array)):
             raise ValueError("Weighted rotation-sequence contains nan.")
-- 
2.43.0

