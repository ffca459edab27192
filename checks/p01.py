"""P01: saving a sharded checkpoint and restoring it gives back exactly what was saved."""
import os
import shutil

RULE = ('random PyTrees (dict/FrozenDict/list/tuple/dataclass; 10 dtypes incl. bf16/bool/complex; ranks 0-4, '
        'zero-size dims) placed with random NamedShardings on random meshes of 1-8 devices (and on 2-4 real '
        'cooperating processes), saved with random num_shards/max_chunk_bytes and restored with another random '
        'sharding/mesh, concurrency limit or without target; non-trivial when at least 2 leaves or 2 chunks were '
        'written; distinct by (leaf shapes+dtypes, shardings, shards, chunk bytes, restore mode)')
REQUIRED = {'leaf_restored': 200, 'device_shard_compared': 500, 'resharded_leaf': 30,
            'multi_chunk_leaf': 20, 'zero_size_leaf': 3, 'long_axis': 4, 'multiprocess_restore': 4,
            'restore_without_target': 10}
ASSUMPTIONS = ['devices are XLA host devices; multi-process runs use real processes over loopback']


def specs(tier):
  n = 130 if tier == 'quick' else 2000
  out = [dict(name='dev1', devices=1, n=n), dict(name='dev8a', devices=8, n=n),
         dict(name='dev8b', devices=8, n=n), dict(name='dev6', devices=6, n=n)]
  m = 30 if tier == 'quick' else 300
  out.append(dict(name='mp2', devices=4, procs=2, n=m))
  out.append(dict(name='mp3', devices=2, procs=3, n=m))
  return out


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import numpy as np
  from multiprocessing.pool import ThreadPool
  from vmoe.checkpoints import partitioned
  from vmoe.checkpoints import base
  from vmoe import multihost_utils
  from vlib import trees
  multi = bool(spec.get('shared'))
  rank = spec.get('rank', 0)
  root = spec['shared_dir'] if multi else ctx.scratch

  def case(ctx, rng, i):
    mesh = trees.random_mesh(rng)
    nleaves = int(rng.integers(1, 6))
    stress = rng.random() < 0.4   # one well divisible matrix, so that placements really differ
    if stress:
      nleaves = 1
    values, arrays, keys = [], [], []
    for _ in range(nleaves):
      shape = trees.random_shape(rng, zero=True) if rng.random() > 0.02 else [(70000,), (2, 40000)][rng.integers(2)]
      if stress:
        shape = tuple(int(rng.choice([8, 12, 24, 6])) for _ in range(int(rng.integers(1, 4))))
      dtype = trees.DTYPES[rng.integers(len(trees.DTYPES))]
      v = trees.random_numpy(rng, shape, dtype)
      pspec = trees.random_spec(rng, shape, mesh)
      if 0 in shape:
        pspec = trees.P()
        ctx.event('zero_size_leaf')
      values.append(v)
      arrays.append(trees.device_array(v, trees.NamedSharding(mesh, pspec)))
      keys.append((shape, np.dtype(dtype).name, str(pspec)))
    struct_seed = int(rng.integers(1 << 30))
    tree = trees.random_structure(np.random.default_rng(struct_seed), arrays)
    ref = trees.random_structure(np.random.default_rng(struct_seed), values)
    num_shards = [None, 1, 2, 3, 5, 8, 13][rng.integers(7)]
    chunk = [None, 1, 8, 64, 200, 1024, 1 << 28][rng.integers(7)]
    if chunk and any(v.size > 30000 for v in values):
      chunk = max(chunk, 200000)  # A million tiny chunks only take time.
      ctx.event('long_axis')
    conc = [None, 1, 100, 5000, 1 << 33][rng.integers(5)]
    prefix = os.path.join(root, f'c{i}', 'sub', f'ckpt_{int(rng.integers(10**6))}')
    pool = ThreadPool(int(rng.integers(1, 5))) if rng.random() < 0.5 else None
    files = partitioned.save_checkpoint(
        prefix, tree, num_shards=num_shards, thread_pool=pool, max_chunk_bytes=chunk).get()
    if multi:
      multihost_utils.sync_devices(f'saved{i}')
    # Observe how many chunks were actually written.
    if not multi:
      index = base.restore_checkpoint(prefix + '.index')
      chunks = [len(l.shards) for l in jax.tree_util.tree_leaves(index['index'])
                if hasattr(l, 'shards')]
      ctx.event('chunk_written', sum(chunks))
      ctx.event('multi_chunk_leaf', sum(c > 1 for c in chunks))
    ctx.event('file_written', len(files))
    # Targets to restore to.
    mode = ['same', 'reshard', 'struct', 'none'][rng.integers(4)]
    if mode == 'none':
      target = None
    elif mode == 'same':
      target = tree
    else:
      mesh2 = trees.random_mesh(rng)
      def retarget(x):
        ps = trees.random_spec(rng, x.shape, mesh2) if 0 not in x.shape else trees.P()
        sh = trees.NamedSharding(mesh2, ps)
        if mode == 'struct':
          return jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=sh)
        return trees.device_array(np.zeros(x.shape, x.dtype), sh)
      target = jax.tree_util.tree_map(retarget, tree)
    # Reused pool, given pool, or own pool.
    restored = partitioned.restore_checkpoint(
        prefix, target, thread_pool=pool if rng.random() < 0.5 else None,
        max_concurrent_bytes=conc)
    if mode == 'none':
      ctx.event('restore_without_target')
      from flax import serialization
      ref = serialization.to_state_dict(ref)
    else:
      ctx.check(jax.tree_util.tree_structure(restored) == jax.tree_util.tree_structure(target),
                f'restored structure {jax.tree_util.tree_structure(restored)} differs from target')
    got = trees.tree_leaves_with_path(restored)
    want = trees.tree_leaves_with_path(ref)
    ctx.check([k for k, _ in got] == [k for k, _ in want],
              lambda: f'restored leaves {[k for k, _ in got]} vs saved {[k for k, _ in want]}')
    tleaves = jax.tree_util.tree_leaves(target) if target is not None else [None] * len(got)
    for (k, g), (_, w), t in zip(got, want, tleaves):
      ctx.event('leaf_restored')
      ctx.check(g.shape == w.shape and g.dtype == w.dtype,
                f'{k}: restored {g.shape}/{g.dtype}, saved {w.shape}/{w.dtype}')
      if t is not None:
        ctx.check(g.sharding.is_equivalent_to(t.sharding, g.ndim),
                  f'{k}: restored sharding {g.sharding} is not the requested {t.sharding}')
        if mode != 'same':
          ctx.event('resharded_leaf')
      for s in g.addressable_shards:
        ctx.event('device_shard_compared')
        ctx.check(trees.same_bits(s.data, w[s.index]),
                  lambda s=s, k=k, w=w: f'{k}: device {s.device} slice {s.index} holds different '
                  f'bits than saved; num_shards={num_shards} chunk={chunk} mode={mode}')
    if multi:
      ctx.event('multiprocess_restore')
      multihost_utils.sync_devices(f'restored{i}')
    if nleaves > 1 or chunk:
      ctx.distinct_case(tuple(keys), dict(mesh.shape).items().__repr__(), num_shards, chunk, conc, mode)
    ctx.sample(dict(leaves=[str(k) for k in keys], mesh=str(dict(mesh.shape)), num_shards=num_shards,
                    max_chunk_bytes=chunk, restore=mode))
    if pool:
      pool.close()
    if rank == 0:
      shutil.rmtree(os.path.join(root, f'c{i}'))
    # Original arrays are untouched.
    for a, v in zip(arrays, values):
      for s in a.addressable_shards:
        ctx.check(trees.same_bits(s.data, v[s.index]), 'saving or restoring modified the saved arrays')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
