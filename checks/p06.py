"""P06: asynchronous saving stores the values at the time of the call, whatever happens afterwards."""
import os
import shutil
import threading

RULE = ('trees saved asynchronously through pools of 1-4 threads whose workers are held back by a gate; before the gate '
        'opens the caller deletes, donates (jit with donated arguments) or overwrites the saved device arrays, and starts '
        'further saves of later versions to other or the same destination; oracle: each file holds the version passed to the '
        'call that wrote it, results report exactly the files of the call, errors of any file are raised by the result; '
        'distinct by (interference, pool size, queued saves, entry point)')
REQUIRED = {'save_pending_at_interference': 60, 'deleted_after_call': 15, 'donated_after_call': 10,
            'version_checked': 60, 'queued_saves': 30, 'error_reported': 10}


def specs(tier):
  n = 40 if tier == 'quick' else 1000
  return [dict(name=f'w{j}', devices=[1, 4, 8, 2][j], n=n) for j in range(4)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  from multiprocessing.pool import ThreadPool
  import jax
  import numpy as np
  from vmoe.checkpoints import base
  from vmoe.checkpoints import partitioned
  from vlib import trees
  bump = jax.jit(lambda t: jax.tree_util.tree_map(lambda x: x + 1, t), donate_argnums=0)
  SHAPES = [(8,), (4, 6), (3,), (16, 2), ()]

  def case(ctx, rng, i):
    d = os.path.join(ctx.scratch, f'd{i}')
    os.makedirs(d)
    mesh = trees.random_mesh(rng)
    nthreads = int(rng.integers(1, 5))
    pool = ThreadPool(nthreads)
    gate = threading.Event()
    pool.map_async(lambda _: gate.wait(120), range(nthreads), chunksize=1)  # every worker is busy
    saves = []
    mode = ['delete', 'donate', 'later_save', 'error'][rng.integers(4)]
    nsaves = int(rng.integers(1, 4))
    values = {f'k{j}': trees.random_numpy(rng, SHAPES[rng.integers(len(SHAPES))], np.float32)
              for j in range(int(rng.integers(1, 4)))}
    values = {k: np.nan_to_num(v, nan=0., posinf=1., neginf=1.) for k, v in values.items()}
    tree = {k: trees.device_array(v, trees.NamedSharding(mesh, trees.random_spec(rng, v.shape, mesh)))
            for k, v in values.items()}
    for s in range(nsaves):
      prefix = os.path.join(d, f'ckpt_{s}')
      expect = jax.tree_util.tree_map(lambda x: np.array(x), tree)
      r = partitioned.save_checkpoint(prefix, tree, thread_pool=pool,
                                      num_shards=int(rng.integers(1, 4) if rng.random() < .6 else rng.integers(4, 20)),
                                      makedirs=False)
      ctx.event('save_pending_at_interference', int(not r.ready()))
      saves.append((prefix, expect, r))
      if mode in ('donate', 'later_save', 'error'):
        new = bump(tree)
        jax.block_until_ready(new)
        ctx.event('donated_after_call')
        tree = new
      else:
        old, tree = tree, jax.tree_util.tree_map(lambda x: trees.device_array(np.asarray(x) * 2 + 1, x.sharding), tree)
        for x in jax.tree_util.tree_leaves(old):
          x.delete()
        ctx.event('deleted_after_call')
      # Reuse the memory that was just released.
      junk = [jax.device_put(np.full(v.shape, np.nan, np.float32)) for v in values.values() for _ in range(4)]
      del junk
    ctx.event('queued_saves', len(saves))
    bad = None
    if mode == 'error':  # one more save that cannot succeed
      target = os.path.join(d, 'file')
      open(target, 'w').close()
      bad = base.save_multiple_checkpoints_async(
          {os.path.join(d, 'good'): {'a': np.arange(3)}, os.path.join(target, 'ckpt'): {'a': np.arange(3)}},
          thread_pool=pool, makedirs=False)
      one = base.save_checkpoint_async(os.path.join(target, 'ckpt2'), {'a': np.arange(3)}, thread_pool=pool,
                                       makedirs=False)
    gate.set()
    for prefix, expect, r in saves:
      files = r.get(120)
      ctx.check(all(os.path.exists(f) for f in files) and prefix + '.index' in files,
                f'reported files {files} do not exist or lack the index')
      mine = {os.path.join(d, f) for f in os.listdir(d) if f.startswith(os.path.basename(prefix) + '.')}
      ctx.check(set(files) == mine, f'result reports {sorted(files)}, disk has {sorted(mine)}')
      got = partitioned.restore_checkpoint(prefix, None)
      for k, v in expect.items():
        ctx.check(trees.same_bits(got[k], v), lambda k=k, v=v: (
            f'{os.path.basename(prefix)}/{k}: the checkpoint holds values that are not those at the time of the call '
            f'({mode}): {np.asarray(got[k]).ravel()[:4]} vs {v.ravel()[:4]}'))
      ctx.event('version_checked')
    if bad is not None:
      for r in (bad, one):
        try:
          r.get(120)
          failed = False
        except Exception:  # pylint: disable=broad-except
          failed = True
        ctx.event('error_reported')
        ctx.check(failed, 'an asynchronous save that could not write its file reported success')
    # Saving one file asynchronously: the stored tree is the given one; several files at once.
    trees_map = {os.path.join(d, f'm{j}'): {'v': np.full((int(rng.integers(1, 5)),), 10 * i + j, np.int32)}
                 for j in rng.permutation(int(rng.integers(1, 5)))}
    out = base.save_multiple_checkpoints_async(trees_map, thread_pool=pool if rng.random() < .5 else None).get(120)
    ctx.check(sorted(out) == sorted(trees_map), f'reported {out} for {sorted(trees_map)}')
    back = base.restore_multiple_checkpoints({f: None for f in trees_map}, thread_pool=pool if rng.random() < .5 else None)
    ctx.check(list(back) == list(trees_map), 'restored files differ from the requested')
    for f, t in trees_map.items():
      ctx.check(np.array_equal(back[f]['v'], t['v']), f'{f}: restored content belongs to another file')
    ctx.distinct_case(mode, nthreads, nsaves, tuple(v.shape for v in values.values()))
    ctx.sample(dict(mode=mode, threads=nthreads, saves=nsaves))
    pool.close()
    shutil.rmtree(d)

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
