"""P05: in a multi-process job, the union of the files written holds every element exactly once."""
import os
import shutil

RULE = ('random trees of globally sharded/replicated arrays on random meshes spanning 1-4 real processes (loopback '
        'distributed runtime), random num_shards (also fewer than processes) and chunk sizes; every rank logs the files it '
        'wrote, rank 0 reads back index and data files and checks exact cover, ownership and balance; distinct by (leaf '
        'shapes, specs, mesh, processes, shards, chunk bytes)')
REQUIRED = {'chunk_checked': 1000, 'leaf_covered': 100, 'file_owner_checked': 100, 'balanced_checkpoint': 10,
            'fewer_shards_than_processes': 3, 'element_counted': 5000, 'multi_process_checkpoint': 20}


def specs(tier):
  q = tier == 'quick'
  n = 14 if q else 250
  return [dict(name='p1', devices=8, n=40 if q else 600), dict(name='mp2', devices=4, procs=2, n=n),
          dict(name='mp3', devices=2, procs=3, n=n), dict(name='mp4', devices=2, procs=4, n=n)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import json
  import jax
  import numpy as np
  from vmoe import multihost_utils
  from vmoe.checkpoints import base
  from vmoe.checkpoints import partitioned
  from vmoe.checkpoints import types
  from vlib import trees
  multi = bool(spec.get('shared'))
  rank, procs = spec.get('rank', 0), spec.get('procs', 1)
  root = spec['shared_dir'] if multi else ctx.scratch

  def sync(name):
    if multi:
      multihost_utils.sync_devices(name)

  def case(ctx, rng, i):
    mesh = trees.random_mesh(rng)
    replicated = rng.random() < 0.35
    leaves, values, keys = {}, {}, []
    for j in range(int(rng.integers(1, 6))):
      shape = trees.random_shape(rng, 400)
      dtype = [np.float32, np.int8, np.float16][rng.integers(3)]
      ps = trees.P() if replicated else trees.random_spec(rng, shape, mesh)
      v = trees.random_numpy(rng, shape, dtype)
      values[f'k{j}'] = v
      leaves[f'k{j}'] = trees.device_array(v, trees.NamedSharding(mesh, ps))
      keys.append((shape, np.dtype(dtype).name, str(ps)))
    num_shards = [None, 1, 2, 3, 4, 7, 12][rng.integers(7)]
    chunk = [None, 1, 16, 100, 1000][rng.integers(5)]
    prefix = os.path.join(root, f'c{i}', 'ckpt_7')
    files = partitioned.save_checkpoint(prefix, leaves, num_shards=num_shards, max_chunk_bytes=chunk).get()
    with open(os.path.join(root, f'log_{i}_{rank}'), 'w') as fp:
      json.dump(files, fp)
    sync(f'saved{i}')
    shards = max(num_shards or procs, procs)
    if num_shards and num_shards < procs:
      ctx.event('fewer_shards_than_processes')
    if rank == 0:
      written = {}
      for r in range(procs):
        with open(os.path.join(root, f'log_{i}_{r}')) as fp:
          for f in json.load(fp):
            ctx.check(f not in written, f'{os.path.basename(f)} was written by processes {written.get(f)} and {r}')
            written[f] = r
      expect = {f'{prefix}.index': 0}
      for s in range(shards):
        expect[base.add_shard_suffix(f'{prefix}.data', s, shards)] = s % procs
      ctx.check(written == expect, lambda: f'files and writers {sorted(written.items())}, expected {sorted(expect.items())}')
      on_disk = {os.path.join(root, f'c{i}', f) for f in os.listdir(os.path.join(root, f'c{i}'))}
      ctx.check(on_disk == set(expect), f'files on disk {sorted(on_disk)}')
      ctx.event('file_owner_checked', len(expect))
      index = base.restore_checkpoint(prefix + '.index')
      ctx.check(index['shard_count'] == shards, 'shard count in the index is wrong')
      flat_names = sorted(leaves)  # leaves of a dict are ordered by key
      stored = {n: [] for n in flat_names}
      bytes_per_shard = [0] * shards
      biggest = 0
      for s in range(shards):
        ac = base.restore_checkpoint(base.add_shard_suffix(f'{prefix}.data', s, shards), types.ArrayChunks())
        for idx in ac.chunks:
          name = flat_names[idx]
          for c, sl in ac.iter_chunks(idx):
            ctx.event('chunk_checked')
            stored[name].append((sl, s))
            bytes_per_shard[s] += c.nbytes
            biggest = max(biggest, c.nbytes)
            if chunk:
              ctx.check(c.nbytes <= max(chunk, c.dtype.itemsize),
                        f'chunk of {c.nbytes} bytes, although at most {chunk} were allowed')
            ctx.check(trees.same_bits(c, values[name][tuple(x.slice for x in sl)]),
                      f'chunk {sl} of {name} in shard {s} does not hold the values of the array')
      for name in flat_names:
        v = values[name]
        count = np.zeros(v.shape, np.int32)
        for sl, _ in stored[name]:
          count[tuple(x.slice for x in sl)] += 1
        ctx.event('element_counted', int(v.size))
        ctx.check(bool(np.all(count == 1)),
                  f'{name} {v.shape}: some elements were stored {sorted(set(count.flatten().tolist()))} times')
        info = index['index'][name]
        ctx.check(tuple(info.global_shape.shape) == v.shape and info.global_shape.dtype == v.dtype,
                  f'index records {info.global_shape} for {v.shape} {v.dtype}')
        listed = sorted((tuple(x.tuple for x in sl), s) for sl, s in zip(info.global_slices, info.shards))
        actual = sorted((tuple(x.tuple for x in sl), s) for sl, s in stored[name])
        ctx.check(listed == actual, lambda: f'index lists {listed}, files hold {actual}')
        ctx.event('leaf_covered')
      if replicated or procs == 1:
        ctx.event('balanced_checkpoint')
        ctx.check(max(bytes_per_shard) - min(bytes_per_shard) <= biggest,
                  f'unbalanced shards: {bytes_per_shard} bytes with chunks of at most {biggest}')
      if procs > 1:
        ctx.event('multi_process_checkpoint')
    sync(f'checked{i}')
    ctx.distinct_case(tuple(keys), str(mesh.shape), procs, num_shards, chunk)
    ctx.sample(dict(leaves=[str(k) for k in keys], mesh=str(dict(mesh.shape)), processes=procs, num_shards=num_shards,
                    max_chunk_bytes=chunk))
    if rank == 0:
      shutil.rmtree(os.path.join(root, f'c{i}'))

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
