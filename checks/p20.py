"""P20: transferring batches to devices keeps every batch, its order and its rows."""

RULE = ('random iterators (0-30 batches of nested trees; bool, int, float, bfloat16, string and TF tensors; early failures), prefetch sizes '
        'None/0/negative/1-40, meshes over 8 devices in permuted orders and shapes, 2 real processes; oracle: recorded source batches '
        'compared with every yielded array and shard; distinct by (mesh, batches, size, structure)')
REQUIRED = {'batch_checked': 250, 'array_checked': 600, 'shard_checked': 1500, 'passthrough': 30, 'lookahead_checked': 40, 'bad_rejected': 8,
            'source_error': 8, 'struct_checked': 30, 'active_mesh': 8, 'real_multiprocess': 6, 'empty_source': 3}


def specs(tier):
  n = 30 if tier == 'quick' else 800
  return [dict(name=f'w{j}', devices=8, n=n) for j in range(3)] + [dict(name='ranks', procs=2, devices=2, n=12 if tier == 'quick' else 100)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import contextlib
  import jax
  import numpy as np
  import tensorflow as tf
  from vmoe.data import pjit_utils
  PS = jax.sharding.PartitionSpec
  procs = spec.get('procs', 1)
  rank = spec.get('rank', 0)
  all_devices = np.array(sorted(jax.devices(), key=lambda d: (d.process_index, d.id)))
  n_dev = len(all_devices)

  def value(rng, rows):
    shape = (rows,) + [(), (3,), (2, 2), (1,), (0,), (5, 4, 3)][rng.integers(6)]
    k = rng.integers(8)
    if k <= 2:
      return rng.normal(size=shape).astype(np.float32)
    if k == 3:
      return rng.integers(-100, 100, size=shape).astype([np.int32, np.uint8, np.int8][rng.integers(3)])
    if k == 4:
      return rng.random(size=shape) < 0.5
    if k == 5:
      return tf.constant(rng.normal(size=shape).astype(np.float32))
    if k == 6:
      return rng.normal(size=shape).astype(np.float16)
    return tf.constant(rng.integers(0, 9, size=shape).astype(np.int32))

  def structure(rng, rows):
    """A function making batches which all have the same structure."""
    seed = int(rng.integers(2**31))
    kind = int(rng.integers(4))
    text = rng.random() < 0.3
    def make(i):
      r = np.random.default_rng([seed])  # Same structure for all, different values.
      vals = [value(r, rows) for _ in range(3)]
      def fresh(v):
        a = np.random.default_rng([seed, i]).integers(-100, 100, size=v.shape)
        if isinstance(v, tf.Tensor):
          return tf.constant(a.astype(v.dtype.as_numpy_dtype))
        return (a > 0) if v.dtype == bool else a.astype(v.dtype)
      vals = [fresh(v) for v in vals]
      if text:
        vals[2] = np.array([f't{i}_{j}' for j in range(rows)], dtype=object) if kind % 2 else np.array([b'x%d' % i] * rows)
      if kind == 0:
        return {'image': vals[0], 'labels': vals[1], '__valid__': vals[2]}
      if kind == 1:
        return {'a': {'b': vals[0]}, 'c': [vals[1], (vals[2],)]}
      if kind == 2:
        return tuple(vals)
      return vals[0]
    return make

  def leaves(t):
    return jax.tree_util.tree_flatten(t)

  def is_plain(x):
    return not isinstance(x, tf.Tensor) and x.dtype.kind in 'OSU'

  def compare(ctx, got, want, mesh, info):
    g, gs = leaves(got)
    w, ws = leaves(want)
    ctx.check(gs == ws, f'{info}: structure {gs} instead of {ws}')
    local = [d for d in mesh.devices.flat if d.process_index == jax.process_index()]
    for x, y in zip(g, w):
      if is_plain(y):
        ctx.check(not isinstance(x, jax.Array) and list(x) == list(y), f'{info}: non-numeric data was altered')
        ctx.event('passthrough')
        continue
      y = y.numpy() if isinstance(y, tf.Tensor) else y
      ctx.check(isinstance(x, jax.Array), f'{info}: not on devices')
      ctx.check(x.shape == (y.shape[0] * procs,) + y.shape[1:] and x.dtype == y.dtype, f'{info}: {x.shape} {x.dtype} from {y.shape} {y.dtype}')
      ctx.check(x.sharding.is_equivalent_to(jax.sharding.NamedSharding(mesh, PS(mesh.axis_names)), x.ndim), f'{info}: sharding {x.sharding}')
      if procs == 1:
        ctx.check(np.array_equal(np.asarray(x), y), f'{info}: values changed')
      shards = {s.device: np.asarray(s.data) for s in x.addressable_shards}
      ctx.check(set(shards) == set(local), f'{info}: shards on {sorted(map(str, shards))}')
      rows = y.shape[0] // len(local)
      for j, d in enumerate(local):
        ctx.check(np.array_equal(shards[d], y[j * rows:(j + 1) * rows]), f'{info}: device {d} does not hold rows {j * rows}..{(j + 1) * rows}')
        ctx.event('shard_checked')
      ctx.event('array_checked')
    ctx.event('batch_checked')

  def case(ctx, rng, i):
    order = all_devices.copy()
    if rng.random() < 0.5:
      if procs == 1:
        order = order[rng.permutation(n_dev)]
      else:
        order = order[::-1]
    if procs > 1 and rng.random() < 0.4:  # Devices of the processes alternate.
      order = order.reshape(procs, -1).T.reshape(-1)
    shape = [(n_dev, 1), (1, n_dev), (2, n_dev // 2), (n_dev // 2, 2), (n_dev,)][rng.integers(5)]
    mesh = jax.sharding.Mesh(order.reshape(shape), ('expert', 'replica')[:len(shape)])
    rows = (n_dev // procs) * int(rng.choice([1, 2, 5, 64]))
    if procs > 1:
      rows_arg = rows
    total = int(rng.choice([0, 1, 2, 3, 8, 30] if procs == 1 else [1, 3, 8]))
    size = [None, 0, -3, 1, 2, 3, 7, 40][rng.integers(8)]
    make = structure(rng, rows)
    fail_at = int(rng.integers(0, total)) if total and rng.random() < 0.2 and procs == 1 else None
    info = f'mesh {shape} {[d.id for d in order]}, {total} batches of {rows}, prefetch {size}'
    consumed = [0]

    class Boom(Exception):
      pass

    def source():
      for k in range(total):
        if fail_at == k:
          raise Boom()
        consumed[0] += 1
        yield make(k + 1000 * rank)

    active = rng.random() < 0.3
    with (mesh if active else contextlib.nullcontext()):
      it = pjit_utils.prefetch_to_device(source(), size, None if active else mesh)
      got = 0
      failed = False
      while True:
        try:
          x = next(it)
        except StopIteration:
          break
        except Boom:
          failed = True
          break
        ctx.check(got < total, f'{info}: more batches than in the source')
        compare(ctx, x, make(got + 1000 * rank), mesh, f'{info}, batch {got}')
        got += 1
        ctx.check(consumed[0] - got <= max(size or 0, 0), f'{info}: {consumed[0] - got} batches ahead of the consumer')
        ctx.event('lookahead_checked')
    if active:
      ctx.event('active_mesh')
    if fail_at is None:
      ctx.check(not failed and got == total, f'{info}: {got} of {total} batches')
    else:
      ctx.check(failed and got <= fail_at, f'{info}: the failure of the source at {fail_at} was not reported')
      ctx.event('source_error')
    if total == 0:
      ctx.event('empty_source')
    if procs > 1:
      ctx.event('real_multiprocess')
    ctx.distinct_case(info, str(leaves(make(0))[1]))
    ctx.sample(info)
    # The abstract description of the data agrees with the data.
    flat = make(1)
    nums = {f'k{j}': v for j, v in enumerate(leaves(flat)[0]) if not is_plain(v)}
    if nums:
      ds = tf.data.Dataset.from_tensors({k: tf.convert_to_tensor(v) for k, v in nums.items()})
      st = pjit_utils.get_dataset_shape_dtype_struct(ds, mesh)
      arr = next(pjit_utils.prefetch_to_device(iter([nums]), 1, mesh))
      for k in nums:
        ctx.check(st[k].shape == arr[k].shape and st[k].dtype == arr[k].dtype and st[k].sharding.is_equivalent_to(arr[k].sharding, arr[k].ndim),
                  f'{info}: described as {st[k]}, but is {arr[k].shape} {arr[k].dtype} {arr[k].sharding}')
      ctx.event('struct_checked')
    if n_dev // procs > 1:
      try:
        next(pjit_utils.prefetch_to_device(iter([np.zeros((rows + 1, 2), np.float32)]), 1, mesh))
      except ValueError:
        ctx.event('bad_rejected')
      else:
        ctx.check(False, f'{info}: {rows + 1} rows were accepted')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
