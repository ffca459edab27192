"""P04: encoding to bytes and decoding is the identity."""

RULE = ('random nested dict/list/tuple trees whose leaves are arrays (10 dtypes, NaN payloads, zero-size, Fortran order, '
        'strided views, scalars), NumPy scalars, Python primitives, complex numbers, array slices of rank 0-5 with any of '
        'start/stop/step absent, arrays of slices, shape records with weak types, index records and lazily chunked arrays; '
        'also with the array-splitting threshold lowered so that arrays are split; distinct by tree description')
REQUIRED = {'roundtrip': 300, 'leaf_array': 300, 'leaf_slice': 100, 'leaf_slicend_array': 50, 'leaf_index': 50,
            'lazy_chunk': 100, 'leaf_primitive': 100, 'split_array': 30, 'target_roundtrip': 100,
            'leaf_complex': 50, 'split_piece': 300}


def specs(tier):
  n = 250 if tier == 'quick' else 8000
  return [dict(name=f'w{j}', devices=1, n=n, small=bool(j % 2)) for j in range(4)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import flax.serialization
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmoe.checkpoints import serialization
  from vmoe.checkpoints import types
  from vlib import trees
  limit = 64 if spec['small'] else None
  if limit:
    flax.serialization.MAX_CHUNK_SIZE = limit
    # The same threshold under the name used by /repo, when it exists.
    if hasattr(serialization, '_MAX_CHUNK_SIZE'):
      serialization._MAX_CHUNK_SIZE = limit
  ShapedArray = jax.core.ShapedArray

  def rslice(rng):
    v = lambda: None if rng.random() < 0.3 else int(rng.integers(-1000, 10**6))
    return types.Slice(v(), v(), None if rng.random() < 0.7 else int(rng.integers(1, 9)))

  def rslicend(rng, k=None):
    k = int(rng.integers(0, 6)) if k is None else k
    return types.SliceNd([rslice(rng) for _ in range(k)])

  def leaf(rng):
    kind = int(rng.integers(11))
    if kind <= 2:
      ctx.event('leaf_array')
      x = trees.random_numpy(rng, trees.random_shape(rng, 500, zero=True),
                             trees.DTYPES[rng.integers(len(trees.DTYPES))])
      if limit and x.size * x.dtype.itemsize > limit:
        ctx.event('split_array')
      r = rng.random()
      if r < 0.2:
        return np.asfortranarray(x)
      if r < 0.4 and x.ndim and x.shape[0] > 1:
        return x[::2]
      if r < 0.6 and x.dtype != np.float64:
        return jnp.asarray(x)
      return x
    if kind == 3:
      ctx.event('leaf_slice')
      return rslice(rng)
    if kind == 4:
      ctx.event('leaf_slice')
      return rslicend(rng)
    if kind == 5:
      ctx.event('leaf_slicend_array')
      shape = [(1,), (4,), (2, 3), (2, 1, 2)][rng.integers(4)]
      k = int(rng.integers(1, 4))
      out = types.SliceNdArray.create([rslicend(rng, k) for _ in range(int(np.prod(shape)))], shape=shape)
      return [out, out.T, out[::-1]][rng.integers(3)]
    if kind == 6:
      return ShapedArray(trees.random_shape(rng), np.dtype(trees.DTYPES[rng.integers(len(trees.DTYPES))]),
                         weak_type=bool(rng.integers(2)))
    if kind == 7:
      ctx.event('leaf_index')
      n = int(rng.integers(0, 5))
      return types.IndexInfo(
          global_shape=ShapedArray(trees.random_shape(rng), np.dtype(np.float32), weak_type=bool(rng.integers(2))),
          global_slices=tuple(rslicend(rng, 2) for _ in range(n)),
          shards=tuple(int(rng.integers(0, 1000)) for _ in range(n)))
    if kind == 8:
      ctx.event('leaf_complex')
      part = lambda: [float(rng.standard_normal()), 0.0, 1.0, float('inf')][rng.integers(4)]
      return complex(part(), part())
    if kind == 9:
      dt = [np.float32, np.int8, np.uint32, np.float64, np.bool_, np.int64, np.float16, np.uint64, jnp.bfloat16.dtype.type,
            np.complex64][rng.integers(10)]
      return dt(rng.integers(0, 2) if dt == np.bool_ else rng.integers(0, 100))
    ctx.event('leaf_primitive')
    return [None, True, False, 0, -1, 2**40, 1.5, float('inf'), '', 'texto é', b'', b'\x00\xff'][rng.integers(12)]

  def tree(rng, depth=0):
    r = rng.random()
    if depth >= 3 or (depth and r < 0.5):
      return leaf(rng)
    n = int(rng.integers(1, 4))
    if rng.random() < 0.7:
      return {f'k{j}' if rng.random() < .8 else f'{j}': tree(rng, depth + 1) for j in range(n)}
    return [tree(rng, depth + 1) for _ in range(n)]

  def same(a, b, path=''):
    """b is the decoded version of a."""
    if isinstance(a, dict):
      ctx.check(isinstance(b, dict) and set(a) == set(b), f'{path}: keys {list(a)} vs {b!r:.200}')
      for k in a:
        same(a[k], b[k], f'{path}/{k}')
    elif isinstance(a, types.SliceNdArray):
      ctx.check(isinstance(b, types.SliceNdArray) and a.shape == b.shape and
                all(isinstance(y, types.SliceNd) and tuple(s.tuple for s in x) == tuple(s.tuple for s in y)
                    for x, y in zip(a.flat, b.flat)), f'{path}: array of slices {a!r} decoded as {b!r}')
    elif isinstance(a, types.SliceNd):
      ctx.check(isinstance(b, types.SliceNd) and tuple(s.tuple for s in a) == tuple(s.tuple for s in b),
                f'{path}: {a!r} decoded as {b!r}')
    elif isinstance(a, types.Slice):
      ctx.check(isinstance(b, types.Slice) and a.tuple == b.tuple, f'{path}: {a!r} decoded as {b!r}')
    elif isinstance(a, types.IndexInfo):
      same(a.global_shape, b.global_shape, path + '.global_shape')
      ctx.check(isinstance(b, types.IndexInfo) and tuple(a.shards) == tuple(b.shards) and
                len(a.global_slices) == len(b.global_slices), f'{path}: {a!r} decoded as {b!r}')
      for j, (x, y) in enumerate(zip(a.global_slices, b.global_slices)):
        same(x, y, f'{path}.global_slices[{j}]')
    elif isinstance(a, ShapedArray):
      ctx.check(isinstance(b, ShapedArray) and tuple(a.shape) == tuple(b.shape) and a.dtype == b.dtype and
                a.weak_type == b.weak_type, f'{path}: {a!r} decoded as {b!r}')
    elif isinstance(a, (list, tuple)):
      ctx.check(isinstance(b, (list, tuple)) and len(a) == len(b), f'{path}: {a!r} decoded as {b!r}')
      for j, (x, y) in enumerate(zip(a, b)):
        same(x, y, f'{path}[{j}]')
    elif isinstance(a, np.generic):
      ctx.check(isinstance(b, np.generic) and a.dtype == b.dtype and trees.same_bits(a, b),
                f'{path}: NumPy scalar {a!r} decoded as {b!r}')
    elif isinstance(a, (np.ndarray, jax.Array)):
      ctx.check(isinstance(b, (np.ndarray, jax.Array)) and trees.same_bits(a, b),
                lambda: f'{path}: array {np.asarray(a).dtype}{np.shape(a)} decoded with different bits')
    else:
      ctx.check(type(a) is type(b) and a == b, f'{path}: {a!r} decoded as {b!r}')

  def describe(t):
    if isinstance(t, dict):
      return tuple((k, describe(v)) for k, v in t.items())
    if isinstance(t, list):
      return tuple(map(describe, t))
    return (type(t).__name__, str(getattr(t, 'shape', '')), str(getattr(t, 'dtype', '')))

  def case(ctx, rng, i):
    t = tree(rng)
    in_place = False
    data = serialization.msgpack_serialize(t, in_place=in_place)
    ctx.check(isinstance(data, bytes), 'encoding did not produce bytes')
    same(t, serialization.msgpack_restore(data))
    ctx.check(serialization.msgpack_serialize(t) == data, 'encoding twice gives different bytes')
    ctx.event('roundtrip')
    # With a target, of the same structure.
    arrays = [trees.random_numpy(rng, trees.random_shape(rng), trees.DTYPES[rng.integers(len(trees.DTYPES))])
              for _ in range(int(rng.integers(1, 5)))]
    s = int(rng.integers(1 << 30))
    x = trees.random_structure(np.random.default_rng(s), arrays)
    target = trees.random_structure(np.random.default_rng(s), [0] * len(arrays))
    y = serialization.from_bytes(target, serialization.to_bytes(x))
    ctx.check(jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(y), 'structure changed')
    for (k, a), (_, b) in zip(trees.tree_leaves_with_path(x), trees.tree_leaves_with_path(y)):
      ctx.check(trees.same_bits(a, b), f'{k}: array changed by encoding with target')
    ctx.event('target_roundtrip')
    # Lazily chunked arrays.
    lac = types.LazyArrayChunks()
    want = {}
    for idx in rng.permutation(50)[:int(rng.integers(0, 4))]:
      shape = tuple(int(rng.integers(1, 9)) for _ in range(int(rng.integers(0, 4))))
      arr = trees.random_numpy(rng, shape, trees.DTYPES[rng.integers(len(trees.DTYPES))])
      for _ in range(int(rng.integers(1, 4))):
        off = [int(rng.integers(0, 100)) for _ in shape]
        lo = [int(rng.integers(0, n)) for n in shape]
        hi = [int(rng.integers(l, n)) + 1 for l, n in zip(lo, shape)]
        local = types.SliceNd([types.Slice(l, h) for l, h in zip(lo, hi)])
        glob = types.SliceNd([types.Slice(l + o, h + o) for l, h, o in zip(lo, hi, off)])
        form = int(rng.integers(4))
        lac.add(int(idx), [arr, np.asfortranarray(arr), np.repeat(arr[..., None], 2, -1)[..., 1],
                           jnp.asarray(arr) if arr.dtype != np.float64 else arr][form], local, glob)
        want.setdefault(int(idx), []).append((np.array(arr[tuple(slice(l, h) for l, h in zip(lo, hi))]), glob))
    data = serialization.to_bytes(lac)
    if limit:
      # No piece exceeds the limit of the encoding, whatever the dtype.
      sizes = []
      flax.serialization.msgpack.unpackb(data, ext_hook=lambda code, x: sizes.append(len(x)) if code == 1 else None, raw=False)
      ctx.event('split_piece', len(sizes))
      ctx.check(max(sizes, default=0) <= limit + 64, f'a piece of {max(sizes, default=0)} bytes was stored, limit {limit}')
    got = serialization.from_bytes(types.ArrayChunks(), data)
    ctx.check(set(got.chunks) == set(want), f'chunked arrays {set(got.chunks)} vs {set(want)}')
    for idx, lst in want.items():
      pairs = list(got.iter_chunks(idx))
      ctx.check(len(pairs) == len(lst), 'number of chunks changed')
      for (c, g), (wc, wg) in zip(pairs, lst):
        ctx.event('lazy_chunk')
        ctx.check(g == wg and trees.same_bits(c, wc), lambda: f'chunk {wg} of array {idx} changed')
    ctx.distinct_case(describe(t))
    ctx.sample(str(describe(t))[:300])

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
