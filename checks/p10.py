"""P10: a restore never holds more than its budget of file bytes in flight, and reads only what it needs, once."""
import os
import shutil
import threading
import time

RULE = ('random checkpoints of 1-12 data files of equal or very different sizes, restored with read budgets around every '
        'multiple of the file sizes (and far below / above), thread pools of 1-16 threads or none, and random target '
        'placements, on one and on two real processes; every read of a data file is delayed and logged, an online monitor '
        'adds up the sizes of the files being read at the same time; distinct by (file sizes, budget, pool, placement)')
REQUIRED = {'file_read': 300, 'budgeted_restore': 60, 'concurrent_reads_seen': 40, 'budget_below_total': 40,
            'budget_forces_serial': 5, 'file_not_needed': 5, 'values_compared': 60, 'unlimited_restore': 4}


def specs(tier):
  q = tier == 'quick'
  return [dict(name='p1', devices=4, n=90 if q else 900), dict(name='mp2', devices=2, procs=2, n=14 if q else 150)]


class ReadMonitor:
  """Online monitor of the data files being read at the same time."""

  def __init__(self):
    self.lock = threading.Lock()
    self.active = False
    self.delay = 0.0
    self.inflight = {}
    self.reset()

  def reset(self):
    self.log = []          # files, in the order their reads started
    self.peak = 0
    self.peak_files = 0
    self.worst = []        # sizes in flight when several files exceed the budget
    self.budget = None

  def install(self):
    from tensorflow.python.lib.io import file_io
    orig = file_io.FileIO.read
    mon = self

    def read(fio, *a, **k):
      name = fio.name
      if not mon.active or '.data-' not in os.path.basename(name):
        return orig(fio, *a, **k)
      size, me = os.path.getsize(name), object()
      with mon.lock:
        mon.log.append(name)
        mon.inflight[me] = size
        sizes = list(mon.inflight.values())
        mon.peak = max(mon.peak, sum(sizes))
        mon.peak_files = max(mon.peak_files, len(sizes))
        if mon.budget and len(sizes) > 1 and sum(sizes) > mon.budget and sum(sizes) > sum(mon.worst):
          mon.worst = sizes
      try:
        time.sleep(mon.delay)
        return orig(fio, *a, **k)
      finally:
        with mon.lock:
          del mon.inflight[me]
    file_io.FileIO.read = read


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  from multiprocessing.pool import ThreadPool
  import jax
  import numpy as np
  from vmoe import multihost_utils
  from vmoe.checkpoints import base
  from vmoe.checkpoints import partitioned
  from vlib import trees
  multi = bool(spec.get('shared'))
  rank = spec.get('rank', 0)
  root = spec['shared_dir'] if multi else ctx.scratch
  mon = ReadMonitor()
  mon.install()

  def sync(name):
    if multi:
      multihost_utils.sync_devices(name)

  def case(ctx, rng, i):
    prefix = os.path.join(root, f'c{i}', 'ckpt_3')
    mesh = trees.random_mesh(rng)
    uneven = rng.random() < 0.5
    leaves, values = {}, {}
    for j in range(int(rng.integers(1, 8))):
      shape = (int(rng.choice([4, 8, 16])), int(rng.choice([1, 40, 900]) if uneven else 60))
      v = trees.random_numpy(rng, shape, np.float32)
      values[f'k{j}'] = v
      leaves[f'k{j}'] = trees.device_array(v, trees.NamedSharding(mesh, trees.random_spec(rng, shape, mesh)))
    partitioned.save_checkpoint(prefix, leaves, num_shards=int(rng.integers(1, 13)),
                                max_chunk_bytes=[None, 200, 2000][rng.integers(3)]).get()
    sync(f'saved{i}')
    index = base.restore_checkpoint(prefix + '.index')
    count = index['shard_count']
    size = {}
    for s in range(count):
      f = base.add_shard_suffix(prefix + '.data', s, count)
      size[f] = os.path.getsize(f)
    # What this process needs: the files of the chunks which overlap one of its addressable shards.
    mesh2 = trees.random_mesh(rng)
    target, needed = {}, set()
    for name, v in values.items():
      sh = trees.NamedSharding(mesh2, trees.random_spec(rng, v.shape, mesh2))
      target[name] = jax.ShapeDtypeStruct(v.shape, v.dtype, sharding=sh)
      info = index['index'][name]
      for sl, s in zip(info.global_slices, info.shards):
        box = np.zeros(v.shape, bool)
        box[tuple(x.slice for x in sl)] = True
        if any(box[ix].any() for ix in sh.addressable_devices_indices_map(v.shape).values()):
          needed.add(base.add_shard_suffix(prefix + '.data', s, count))
    sizes = sorted(size[f] for f in needed)
    total, big = sum(sizes), max(sizes)
    for t in range(3):
      kind = ['edge', 'ratio', 'any', 'tiny', 'large', 'none'][rng.choice(6, p=[.3, .3, .15, .1, .05, .1])]
      if kind == 'edge':
        budget = int(rng.integers(1, len(sizes) + 1)) * int(rng.choice(sizes)) + int(rng.integers(-1, 2))
      elif kind == 'ratio':
        budget = int(total / [1.05, 1.2, 1.4, 1.49, 1.5, 1.6, 2, 2.4, 2.5, 3.3, 4.45][rng.integers(11)])
      else:
        budget = dict(any=int(rng.integers(1, total + 1)), tiny=int(rng.integers(1, 20)), large=total * 3, none=None)[kind]
      budget = budget if budget is None else max(budget, 1)
      threads = [None, 1, 2, 4, 16][rng.integers(5)]
      pool = ThreadPool(threads) if threads else None
      mon.reset()
      mon.budget, mon.delay = budget, float(rng.choice([0.002, 0.006]))
      mon.active = True
      try:
        out = partitioned.restore_checkpoint(prefix, target, thread_pool=pool, max_concurrent_bytes=budget)
      finally:
        mon.active = False
        if pool:
          pool.terminate()
      log = mon.log
      ctx.event('file_read', len(log))
      if mon.peak_files > 1:
        ctx.event('concurrent_reads_seen')
      if budget is None:
        ctx.event('unlimited_restore')
      else:
        ctx.event('budgeted_restore')
        if budget < total:
          ctx.event('budget_below_total')
        if budget < 2 * min(sizes) and len(sizes) > 1:
          ctx.event('budget_forces_serial')
        ctx.check(not mon.worst, f'{len(mon.worst)} files of {mon.worst} bytes ({sum(mon.worst)} together) were being read at the '
                  f'same time, although at most {budget} bytes were allowed; files {sizes}, pool of {threads} threads',
                  mechanism='read budget')
      ctx.check(len(log) == len(set(log)), f'files read twice in one restore: {sorted(map(os.path.basename, log))}',
                mechanism='needed files')
      ctx.check(set(log) == needed, lambda: f'read {sorted(map(os.path.basename, log))}, needed '
                f'{sorted(map(os.path.basename, needed))}', mechanism='needed files')
      if len(needed) < count:
        ctx.event('file_not_needed')
      for name, v in values.items():
        a = out[name]
        ctx.check(a.sharding.is_equivalent_to(target[name].sharding, a.ndim), f'{name} was not placed as requested')
        for s in a.addressable_shards:
          ctx.check(trees.same_bits(np.asarray(s.data), v[s.index]), f'{name}{s.index} has other values than were saved')
      ctx.event('values_compared')
      ctx.distinct_case(tuple(sizes), budget, threads, str(mesh2.shape))
      ctx.sample(dict(file_sizes=sizes, budget=budget, threads=threads, peak_bytes=mon.peak, peak_files=mon.peak_files))
    sync(f'checked{i}')
    if rank == 0:
      shutil.rmtree(os.path.join(root, f'c{i}'))

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
