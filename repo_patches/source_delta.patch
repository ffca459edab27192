From 484ad7d0d6ee406d25cb12fa061148c38b99a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:00 +0000
Subject: [PATCH 01/18] fix: restore sharded checkpoints that contain zero-size
 arrays

The checkpoint was saved without error, but none of its leaves could be
restored: chunks of zero-size arrays were written as an empty list of
sub-chunks (which cannot be concatenated), and the intersection of two equal
empty slices was dereferenced.
---
 vmoe/checkpoints/partitioned.py   | 4 ++--
 vmoe/checkpoints/serialization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index a7d0402..dc73f86 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -528,8 +528,8 @@ def _restore_local_buffers(
         ckpt_chunks.chunks[i], ckpt_chunks.global_slices[i]):
       for global_slice, buffer in local_buffers[i].items():
         intersect_slice = _intersect_slicend(global_slice, ckpt_slice)
-        if (global_slice == ckpt_slice or  # account for scalars with shape ().
-            intersect_slice):
+        # Note: the intersection of scalars with shape () is an empty SliceNd.
+        if intersect_slice is not None:
           local_intersect_slice = tuple(
               slice(a.start - b.start, a.stop - b.start)
               for a, b in safe_zip(intersect_slice, global_slice))
diff --git a/vmoe/checkpoints/serialization.py b/vmoe/checkpoints/serialization.py
index 2c0bbe3..62e6c65 100644
--- a/vmoe/checkpoints/serialization.py
+++ b/vmoe/checkpoints/serialization.py
@@ -216,7 +216,7 @@ def _lazy_array_chunks_encode(
     subchunk_size = max(1, int(_MAX_CHUNK_SIZE / chunk.dtype.itemsize))
     subchunks = [
         chunk[i:i + subchunk_size]
-        for i in range(0, chunk.size, subchunk_size)
+        for i in range(0, max(1, chunk.size), subchunk_size)
     ]
     return [subchunks, global_slice]
 
-- 
2.43.0


From 0cee62ff40547a8a2d0f9c5126f52365d3f2cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 02/18] fix: steps with any temporary checkpoint shard are
 incomplete

A step was reported as complete if the temporary file had a suffix other than
the required ones (e.g. 'ckpt_2.index' and '.tmp.ckpt_2.data-00000-of-00001'
with suffixes=('.index',)), contrary to the documentation. Also, sorting
(step, suffix) pairs failed when a step had files with and without suffix.
---
 vmoe/checkpoints/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 01ff717..6b6ae11 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -111,12 +111,13 @@ def iterate_complete_steps_for_prefix(
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
   pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
-  incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
+  incomplete_steps = set(
+      _parse_step_and_suffix_or_error(filepath)[0]
+      for filepath in gfile.glob(pattern_tmp))
 
   for step, group in itertools.groupby(
-      sorted(steps_and_suffixes - incomplete_steps_and_suffixes,
-             reverse=decreasing),
+      sorted((x for x in steps_and_suffixes if x[0] not in incomplete_steps),
+             key=lambda x: x[0], reverse=decreasing),
       lambda x: x[0]):
     if not suffixes.difference(set(x[1] for x in group)):
       yield step
-- 
2.43.0


From 9f5186babb5828cc15ba8c8e89da7a5c4de4cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:06 +0000
Subject: [PATCH 03/18] fix: ignore files of other prefixes when looking for
 complete checkpoints

With prefix 'ckpt', the file 'ckpt_best_5' was parsed as step 5 of 'ckpt', and
'ckpt_5', which does not exist, was returned as the latest checkpoint.
---
 vmoe/checkpoints/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 6b6ae11..f09e8fc 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -105,15 +105,23 @@ def iterate_complete_steps_for_prefix(
     suffix = m.group(3)
     return step, suffix
 
+  def _glob(pattern_prefix):
+    # Ignore files of other prefixes starting with the given one, for instance
+    # 'ckpt_best_5' when the prefix is 'ckpt'.
+    name = os.path.basename(pattern_prefix)
+    for filepath in gfile.glob(pattern_prefix + '*'):
+      if os.path.basename(CHECKPOINT_REGEX.sub(r'\1', filepath)) == name:
+        yield filepath
+
   # Find set of (step, suffix) from the given prefix.
   steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(prefix + '*')))
+      map(_parse_step_and_suffix_or_error, _glob(prefix)))
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
-  pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
+  prefix_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}')
   incomplete_steps = set(
       _parse_step_and_suffix_or_error(filepath)[0]
-      for filepath in gfile.glob(pattern_tmp))
+      for filepath in _glob(prefix_tmp))
 
   for step, group in itertools.groupby(
       sorted((x for x in steps_and_suffixes if x[0] not in incomplete_steps),
-- 
2.43.0


From e66f23a569ebd67250d71da508e5a3b6c805b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:13 +0000
Subject: [PATCH 04/18] fix: a checkpoint step with missing shards is not
 complete

A crash after some shards were written (and before the temp file of others was
created) left a step that was reported as complete and could not be restored.
---
 vmoe/checkpoints/base.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index f09e8fc..4af444d 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 """Base functions for checkpointing."""
+import collections
 import functools
 import itertools
 import multiprocessing.pool
@@ -73,7 +74,9 @@ def iterate_complete_steps_for_prefix(
   """Iterates over steps with complete checkpoints from a given prefix.
 
   Complete steps are those for which there are not incomplete (temp) checkpoint
-  shards and for which all suffixes are present.
+  shards, for which all suffixes are present, and for which no shard is missing
+  (i.e. if there is a file ending in '-00000-of-00002', there must be one ending
+  in '-00001-of-00002' too).
 
   E.g. If the prefix is '/dir/ckpt', the suffixes are ('.index', '.data') and
   the files in '/dir/' are: '/dir/ckpt_1.index', '/dir/ckpt_1.data',
@@ -94,7 +97,7 @@ def iterate_complete_steps_for_prefix(
     suffixes = (None,)
   suffixes = set(suffixes)
 
-  def _parse_step_and_suffix_or_error(filepath):
+  def _parse_filepath_or_error(filepath):
     m = CHECKPOINT_REGEX.fullmatch(filepath)
     assert m is not None, (
         f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
@@ -103,7 +106,9 @@ def iterate_complete_steps_for_prefix(
       raise ValueError(f'Filepath {filepath!r} does not contain a step number.')
     step = int(m.group(2)[1:])
     suffix = m.group(3)
-    return step, suffix
+    shard, shard_count = (
+        map(int, m.group(4)[1:].split('-of-')) if m.group(4) else (None, None))
+    return step, suffix, shard, shard_count
 
   def _glob(pattern_prefix):
     # Ignore files of other prefixes starting with the given one, for instance
@@ -113,21 +118,26 @@ def iterate_complete_steps_for_prefix(
       if os.path.basename(CHECKPOINT_REGEX.sub(r'\1', filepath)) == name:
         yield filepath
 
-  # Find set of (step, suffix) from the given prefix.
-  steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, _glob(prefix)))
+  # Find set of (step, suffix, shard, shard_count) from the given prefix.
+  parsed_filepaths = set(map(_parse_filepath_or_error, _glob(prefix)))
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
   prefix_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}')
   incomplete_steps = set(
-      _parse_step_and_suffix_or_error(filepath)[0]
+      _parse_filepath_or_error(filepath)[0]
       for filepath in _glob(prefix_tmp))
 
   for step, group in itertools.groupby(
-      sorted((x for x in steps_and_suffixes if x[0] not in incomplete_steps),
+      sorted((x for x in parsed_filepaths if x[0] not in incomplete_steps),
              key=lambda x: x[0], reverse=decreasing),
       lambda x: x[0]):
-    if not suffixes.difference(set(x[1] for x in group)):
+    group = list(group)
+    if suffixes.difference(set(x[1] for x in group)):
+      continue
+    # Some shards may not have been written at all, not even to a temp file.
+    shards = collections.Counter(
+        (suffix, count) for _, suffix, _, count in group if count is not None)
+    if all(n == count for (_, count), n in shards.items()):
       yield step
 
 
-- 
2.43.0


From 47144844a3eb7f49417f3201f22187e6ef19c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:28 +0000
Subject: [PATCH 05/18] fix: combine with the noisy gates in the KL projection
 router

The experts of each item were selected from the noisy logits, but their outputs
were combined with the softmax of the logits without noise, unlike in all the
other routers (including the items-per-expert one in the same file).
---
 vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py b/vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py
index 914e673..cf91931 100644
--- a/vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py
+++ b/vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py
@@ -105,7 +105,7 @@ class KLProjectionNoisyTopExpertsPerItemRouter(
       logits_noise = noise_std * jax.random.normal(
           key=self.make_rng("gating"), shape=gates_logits.shape)
       gates_logits_noisy = gates_logits + logits_noise
-      gates_softmax_noisy = jax.nn.softmax(gates_logits)
+      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)
       gates_plan_noisy = kl_projection_algorithm(sim_matrix=gates_logits_noisy)
       if self.load_loss_weight == 0.0:
         # no need to compute the loss in this case
-- 
2.43.0


From 5a651c26d5adffc5287975aeabb0e172d89331cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:06 +0000
Subject: [PATCH 06/18] fix: keep the devices of each process contiguous when
 tiling the mesh by process

---
 vmoe/partitioning.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vmoe/partitioning.py b/vmoe/partitioning.py
index 6a0a087..26fdf6c 100644
--- a/vmoe/partitioning.py
+++ b/vmoe/partitioning.py
@@ -277,15 +277,17 @@ def get_logical_mesh_tile_by_process(
     hardware_mesh_local_shape: Tuple[int, ...]) -> Mesh:
   """Returns a logical mesh where all process' devices form a contiguous slice."""
   # Split each axis of the hardware mesh in
-  # (partitions_process, partitions_device, replica_process, replica_device).
-  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_P_D, Z_R_H, Z_R_D, Y_P_H, ...).
+  # (partitions_process, replica_process, partitions_device, replica_device).
+  # The devices of a process are consecutive along each hardware axis, thus the
+  # device axes must be the innermost ones.
+  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_R_H, Z_P_D, Z_R_D, Y_P_H, ...).
   def fn(p, r, l):
     # (p, r) are the number of (partitions, replicas) across a given axis.
     # l is the number of devices per process across a given axis.
     if p % l == 0:
-      return p // l, l, r, 1
+      return p // l, r, l, 1
     elif r % l == 0:
-      return 1, p, r // l, l
+      return p, r // l, 1, l
     else:
       raise ValueError(
           f'Neither p = {p}, nor r = {r} are multiples of l = {l}')
@@ -296,8 +298,8 @@ def get_logical_mesh_tile_by_process(
   # Put all partition_process axes first, then partition_devices axes, then
   # all replica_process axes, and finally all replica_device axes.
   devices = devices.transpose(tuple(range(0, 4 * hardware_mesh.ndim, 4)) +
-                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(2, 4 * hardware_mesh.ndim, 4)) +
+                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(3, 4 * hardware_mesh.ndim, 4)))
   # Reshape devices to (num_partitions, num_replicas).
   num_partitions = np.prod(partitions)
-- 
2.43.0


From eb08b45ec033405e7bbcca303a61299747421194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:06 +0000
Subject: [PATCH 07/18] fix: do not drop examples of evaluation data when a
 filter is used

---
 vmoe/data/input_pipeline.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vmoe/data/input_pipeline.py b/vmoe/data/input_pipeline.py
index f895ccf..72387cf 100644
--- a/vmoe/data/input_pipeline.py
+++ b/vmoe/data/input_pipeline.py
@@ -106,6 +106,7 @@ def get_dataset(
                      f'and {jax.device_count()} respectively.')
   batch_size_per_process = batch_size // jax.process_count()
   data = builder.as_dataset()
+  num_examples = max(0, data.cardinality().numpy())  # Negative if unknown.
   data = data.filter(pre_filter_fn) if pre_filter_fn is not None else data
   # Optionally, cache loaded data.
   if cache == 'loaded':
@@ -130,12 +131,19 @@ def get_dataset(
       deterministic=False)
   if variant != 'train':
     num_fake_examples = builder.get_num_fake_examples(batch_size_per_process)
+    num_total_examples = num_examples + num_fake_examples
+    if pre_filter_fn is not None:
+      # Each of the filtered examples is replaced by a fake one, so that no other
+      # example is dropped and all processes have the same number of batches.
+      num_fake_examples = num_total_examples
     if num_fake_examples > 0:
       fake_elem = tf.nest.map_structure(
           lambda spec: tf.zeros(spec.shape, spec.dtype), data.element_spec)
       fake_data = tf.data.Dataset.from_tensors(fake_elem)
       fake_data = fake_data.repeat(num_fake_examples).cache()
       data = data.concatenate(fake_data)
+    if pre_filter_fn is not None and num_examples > 0:
+      data = data.take(num_total_examples)
   # Batch data.
   data = data.batch(batch_size_per_process, drop_remainder=True)
   # Optionally, cache data after batching.
-- 
2.43.0


From 3e51f1bed3ced01474a5777c4006b07ae420b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:15 +0000
Subject: [PATCH 08/18] fix: pair weight decay with parameters by name instead
 of by order

---
 vmoe/train/optimizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vmoe/train/optimizer.py b/vmoe/train/optimizer.py
index f90ff58..e5d2ec1 100644
--- a/vmoe/train/optimizer.py
+++ b/vmoe/train/optimizer.py
@@ -76,10 +76,9 @@ def add_decayed_weights(
     flatparams = flax.traverse_util.flatten_dict(
         flax.serialization.to_state_dict(params), sep='/')
     flatupdates = dict(utils.safe_map(
-        lambda k, g, p: (k, g + weight_decay_fn(k) * p),
+        lambda k, g: (k, g + weight_decay_fn(k) * flatparams[k]),
         flatupdates.keys(),
-        flatupdates.values(),
-        flatparams.values()))
+        flatupdates.values()))
     updates = flax.serialization.from_state_dict(
         updates, flax.traverse_util.unflatten_dict(flatupdates, sep='/'))
     return updates, state
-- 
2.43.0


From f80de219c68a52d139ee7e923921915191d694c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:15 +0000
Subject: [PATCH 09/18] fix: never use a negative learning rate after the rsqrt
 cooldown

---
 vmoe/train/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmoe/train/schedule.py b/vmoe/train/schedule.py
index 91b8460..31cee74 100644
--- a/vmoe/train/schedule.py
+++ b/vmoe/train/schedule.py
@@ -16,6 +16,7 @@
 import math
 
 import jax
+import jax.numpy as jnp
 import optax
 
 
@@ -102,7 +103,8 @@ def big_vision_rsqrt_schedule(
   def _cooldown(count):
     # Note: count starts from 0, optax.join_schedules subtracts
     # decay_steps - cooldown_steps.
-    return cooldown_peak_value * (1 - count / cooldown_steps)
+    # The learning rate stays at 0 if training continues after decay_steps.
+    return cooldown_peak_value * jnp.maximum(0., 1 - count / cooldown_steps)
 
   schedules, boundaries = [], []
   # Warmup phase.
-- 
2.43.0


From 4172591baa1e9d93e72adfc2f1e4f234380c1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:03 +0000
Subject: [PATCH 10/18] fix: wrap_train_step_with_mixup must not modify the
 rngs of the given state

---
 vmoe/train/trainer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmoe/train/trainer.py b/vmoe/train/trainer.py
index 3c5e581..d712c0f 100644
--- a/vmoe/train/trainer.py
+++ b/vmoe/train/trainer.py
@@ -934,7 +934,7 @@ def wrap_train_step_with_mixup(
       raise ValueError(f'Mixup requires a PRNGKey with the name "mixup", but '
                        f'only these were given: {sorted(state.rngs.keys())}')
     frozen_rngs = isinstance(state.rngs, flax.core.FrozenDict)
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else dict(state.rngs)
     # Apply mixup on images and labels.
     mixup_rng = rngs.pop('mixup')
     mixup_rng, next_mixup_rng = jax.random.split(mixup_rng)
@@ -960,7 +960,7 @@ def wrap_train_step_with_mixup(
     state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)
     state, metrics = train_step_fn(state, images, labels, *args, **kwargs)
     # Add the mixup PRNGKey back to the state.
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else dict(state.rngs)
     rngs['mixup'] = next_mixup_rng
     state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)
     return state, metrics
-- 
2.43.0


From 620a42844695db7f9f09fa6ee84d24aef087e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:03 +0000
Subject: [PATCH 11/18] fix: get_combine_weights must ignore the selections
 over the capacity of ExpertIndicesDispatcher

---
 vmoe/projects/adversarial_attacks/restore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index 6d9b7fc..de13a09 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -83,8 +83,11 @@ def get_combine_weights(intermediates) -> Dict[str, jnp.ndarray]:
       # (G, S, K) -> (G, S, K, E).
       indices_one_hot = jax.nn.one_hot(
           dispatcher.indices[..., 0], dispatcher.num_experts, dtype=jnp.float32)
-      combine_weights = (
-          indices_one_hot * dispatcher.combine_weights[:, :, :, None])
+      # Selections that exceed the capacity of the expert are not processed.
+      within_capacity = dispatcher.indices[..., 1] < dispatcher.capacity
+      combine_weights = jnp.where(
+          within_capacity, dispatcher.combine_weights, 0)
+      combine_weights = indices_one_hot * combine_weights[:, :, :, None]
       # (G, S, K, E) -> (G, S, E).
       combine_weights = jnp.sum(combine_weights, axis=2)
     else:
-- 
2.43.0


From c7441a5a449fe6311bbd6e8b37b9ff397d9c10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:40 +0000
Subject: [PATCH 12/18] fix: restore_from_config must return variables and axis
 resources with the same structure

---
 vmoe/projects/adversarial_attacks/restore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index de13a09..86104b2 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -170,6 +170,8 @@ def restore_from_config(
               prefix=checkpoint_prefix,
               tree=variables_shape['params']),
   })
+  # The variables are frozen, the axis resources must have the same structure.
+  variables_axis_resources = flax.core.freeze(variables_axis_resources)
   loss_fn = get_loss_including_auxiliary_fn(**config.get('loss'))
   return (flax_module, variables, variables_axis_resources, loss_fn,
           router_keys, extra_rng_keys)
-- 
2.43.0


From a0303392694b71accb77eb64b88cb4743d714b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:40 +0000
Subject: [PATCH 13/18] fix: the gradient of the auxiliary losses must be
 finite when the experts are perfectly balanced

---
 vmoe/nn/routing.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vmoe/nn/routing.py b/vmoe/nn/routing.py
index 9070a2c..ffea84c 100644
--- a/vmoe/nn/routing.py
+++ b/vmoe/nn/routing.py
@@ -151,10 +151,11 @@ class NoisyTopExpertsPerItemRouter(nn.Module):
   def _importance_auxiliary_loss(cls, gates: Array) -> Array:
     axis = tuple(range(gates.ndim - 1))  # All except last.
     importance_per_expert = jnp.sum(gates, axis=axis)
-    std_importance_per_expert = jnp.std(importance_per_expert)
+    var_importance_per_expert = jnp.var(importance_per_expert)
     mean_importance_per_expert = jnp.mean(importance_per_expert)
-    # Compute coefficient of variation (i.e. std/mean) squared.
-    return (std_importance_per_expert / mean_importance_per_expert)**2
+    # Compute coefficient of variation (i.e. std/mean) squared. Note: the
+    # gradient of the std is not defined if all experts are equally important.
+    return var_importance_per_expert / mean_importance_per_expert**2
 
   @classmethod
   def _load_auxiliary_loss(cls, logits: Array, logits_noisy: Array,
@@ -179,8 +180,9 @@ class NoisyTopExpertsPerItemRouter(nn.Module):
     p = 1. - jax.scipy.stats.norm.cdf(noise_required_to_win)
     # We compute the average such probability for each expert over examples.
     p_mean = jnp.mean(p, axis=0)
-    # Compute p_mean's coefficient of variation squared.
-    return (jnp.std(p_mean) / jnp.mean(p_mean))**2
+    # Compute p_mean's coefficient of variation squared. Note: the gradient of
+    # the std is not defined if all experts have the same load.
+    return jnp.var(p_mean) / jnp.mean(p_mean)**2
 
 
 class NoisyTopItemsPerExpertRouter(nn.Module):
-- 
2.43.0


From 3453a85e54cabf0c8c0e7d140aee877629499737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:07 +0000
Subject: [PATCH 14/18] fix: the ImageNet-21k configuration names the mixup
 size as the trainer does

---
 vmoe/configs/vmoe_paper/pretrain_imagenet21k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py b/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
index cb6d3a2..d2c3ebd 100644
--- a/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
+++ b/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
@@ -73,7 +73,7 @@ def get_config():
   config.train_epochs = get_num_epochs(config.description)
   config.mixup = ml_collections.ConfigDict()
   config.mixup.concentration = 0.5
-  config.mixup.mixup_size = 2
+  config.mixup.size = 2
 
   # These control how the model parameters are partitioned across the device
   # mesh for running the models efficiently.
-- 
2.43.0


From 7ec695a1bd20bd61f6d930e73a985df551b358ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:07 +0000
Subject: [PATCH 15/18] fix: Soft MoE configurations name the module of the
 soft router

---
 vmoe/projects/soft_moe/configs/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/projects/soft_moe/configs/common.py b/vmoe/projects/soft_moe/configs/common.py
index db589c0..f066970 100644
--- a/vmoe/projects/soft_moe/configs/common.py
+++ b/vmoe/projects/soft_moe/configs/common.py
@@ -254,7 +254,7 @@ def get_vmoe_soft_router_config(
       'group_size': (image_size // patch_size)**2,
       'split_rngs': False,
       'router': {
-          'name': 'SoftRouter',
+          'name': 'vmoe.projects.soft_moe.router.SoftRouter',
           'capacity_factor': capacity_factor,
           'num_slots': num_slots,
           'partition_spec': (('expert', 'replica'),),
-- 
2.43.0


From 3dc5644dc22def7938bd2d158eafcce6fd18b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:42 +0000
Subject: [PATCH 16/18] fix: restore_checkpoint respects max_concurrent_bytes

The number of files per thread was the rounded ratio of the total size to the
limit, so up to 1.5x the limit (or more, with files of different sizes) could be
read at the same time.
---
 vmoe/checkpoints/partitioned.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index dc73f86..7da9622 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -35,6 +35,7 @@ the checkpointing is I/O bounded.
 import collections
 import enum
 import functools
+import math
 import multiprocessing.pool
 import os
 from typing import Any, Dict, Iterator, List, Optional, Sequence, Tuple
@@ -453,12 +454,13 @@ def _restore_checkpoint_from_index(
   # to read from concurrently. Otherwise, we just read from as many files as
   # possible.
   if max_concurrent_bytes:
-    total_bytes_to_restore = sum(
+    max_bytes_per_file = max(
         thread_pool.map(lambda fpath: base.gfile.stat(fpath).length,
-                        ckpt_shards_to_restore))
-    num_ckpt_shards_per_thread = round(
-        total_bytes_to_restore / max_concurrent_bytes)
-    num_ckpt_shards_per_thread = max(num_ckpt_shards_per_thread, 1)
+                        ckpt_shards_to_restore), default=0)
+    max_concurrent_files = max(
+        max_concurrent_bytes // max(max_bytes_per_file, 1), 1)
+    num_ckpt_shards_per_thread = math.ceil(
+        len(ckpt_shards_to_restore) / max_concurrent_files)
   else:
     num_ckpt_shards_per_thread = None
   # Restore the values of the local buffers (i.e. addressable shards), reading
-- 
2.43.0


From eb9dbbaf09b310d4f5d9be461a9bb518b5851852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:42 +0000
Subject: [PATCH 17/18] fix: store attacked examples in jobs with several
 processes

np.asarray() fails on arrays that span devices of other processes. Each process
stores its own rows.
---
 vmoe/projects/adversarial_attacks/lib.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vmoe/projects/adversarial_attacks/lib.py b/vmoe/projects/adversarial_attacks/lib.py
index 916771f..b6ce8b4 100644
--- a/vmoe/projects/adversarial_attacks/lib.py
+++ b/vmoe/projects/adversarial_attacks/lib.py
@@ -53,7 +53,7 @@ class ExampleStorage:
 
   def _transfer(self):
     for key, values in self._temp.items():
-      self._data[key].extend(jax.tree_util.tree_map(np.asarray, values))
+      self._data[key].extend(jax.tree_util.tree_map(_local_rows, values))
       self._temp[key] = []
 
   @property
@@ -76,6 +76,16 @@ class ExampleStorage:
           })
 
 
+def _local_rows(array: jax.Array) -> np.ndarray:
+  """Returns the rows of an array stored in the devices of this process."""
+  if not isinstance(array, jax.Array) or array.is_fully_addressable:
+    return np.asarray(array)
+  # Replicated rows are kept only once.
+  shards = {shard.index[0].start or 0: shard.data
+            for shard in array.addressable_shards}
+  return np.concatenate([np.asarray(shards[i]) for i in sorted(shards)], axis=0)
+
+
 def get_dataset(config: ml_collections.ConfigDict) -> DatasetIterator:
   config = config.to_dict()
   _ = config.pop('prefetch_device', None)
-- 
2.43.0


From 54e9352d77958a3b2a9037b95da961663f38bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 18/18] fix: resize never wraps integer pixel values around

Interpolation methods such as bicubic overshoot the range of the input; casting
those values back to uint8 turned bright pixels into dark ones and vice versa.
---
 vmoe/data/pp_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vmoe/data/pp_ops.py b/vmoe/data/pp_ops.py
index ff0ff5b..9e33c84 100644
--- a/vmoe/data/pp_ops.py
+++ b/vmoe/data/pp_ops.py
@@ -302,6 +302,8 @@ def resize(resize_size, resize_method='bilinear'):
     # applied after resize.
     dtype = image.dtype
     image = tf2.image.resize(image, resize_size, resize_method)
+    # Note: some methods (e.g. bicubic) overshoot the range of the input values.
+    image = tf.clip_by_value(image, dtype.min, dtype.max)
     return tf.cast(image, dtype)
 
   return _resize
-- 
2.43.0

