"""Generators of PyTrees, dtypes, shapes and shardings; bit-exact comparison."""
import flax
import flax.struct
import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np

P = jax.sharding.PartitionSpec
NamedSharding = jax.sharding.NamedSharding

DTYPES = [np.float32, np.float16, ml_dtypes.bfloat16, np.int32, np.int8, np.uint8, np.uint32,
          np.int16, np.bool_, np.complex64]


def bits(x):
  """(dtype, shape, raw bytes) of an array: equality is bit-exact, NaN payloads included."""
  x = np.asarray(x)
  return (x.dtype.name, tuple(x.shape), np.ascontiguousarray(x).tobytes())


def random_numpy(rng, shape, dtype):
  dtype = np.dtype(dtype)
  n = int(np.prod(shape, dtype=np.int64))
  if dtype == np.bool_:
    return rng.integers(0, 2, size=shape).astype(np.bool_)
  if dtype.kind in 'iu':
    info = np.iinfo(dtype)
    return rng.integers(info.min, info.max, size=shape, endpoint=True, dtype=dtype)
  if dtype.kind == 'c':
    return (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)).astype(dtype)
  x = rng.standard_normal(n).astype(np.float32) * 10.0 ** float(rng.integers(-3, 4))
  specials = [np.nan, np.inf, -np.inf, -0.0, 0.0, 1e-40]
  for _ in range(min(3, n)):
    if rng.random() < 0.5:
      x[rng.integers(n)] = specials[rng.integers(len(specials))]
  return x.reshape(shape).astype(dtype)


def random_shape(rng, max_size=600, max_rank=4, zero=False):
  rank = int(rng.integers(0, max_rank + 1))
  menu = [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16, 24]
  shape = []
  for _ in range(rank):
    d = int(menu[rng.integers(len(menu))])
    if np.prod(shape + [d]) > max_size:
      d = 1
    shape.append(d)
  if zero and rank and rng.random() < 0.1:
    shape[rng.integers(rank)] = 0
  return tuple(shape)


def random_spec(rng, shape, mesh):
  """A PartitionSpec valid (divisible) for the given shape and mesh."""
  axes = list(mesh.axis_names)
  rng.shuffle(axes)
  out = []
  for d in shape:
    choice, size = [], 1
    while axes and rng.random() < 0.6:
      a = axes[-1]
      if d and d % (size * mesh.shape[a]) == 0:
        choice.append(axes.pop())
        size *= mesh.shape[a]
      else:
        break
    out.append(tuple(choice) if len(choice) > 1 else (choice[0] if choice else None))
  while out and out[-1] is None and rng.random() < 0.5:
    out.pop()
  return P(*out)


def random_mesh(rng, devices=None):
  devices = np.array(devices if devices is not None else jax.devices())
  n = devices.size
  shapes = [(n,)]
  for a in range(1, n + 1):
    if n % a == 0:
      shapes.append((a, n // a))
      for b in range(1, n // a + 1):
        if (n // a) % b == 0:
          shapes.append((a, b, n // a // b))
  shape = shapes[rng.integers(len(shapes))]
  order = np.arange(n)
  if rng.random() < 0.5:
    rng.shuffle(order)
  return jax.sharding.Mesh(devices[order].reshape(shape), ('x', 'y', 'z')[:len(shape)])


def device_array(x, sharding):
  x = np.asarray(x)
  return jax.make_array_from_callback(x.shape, sharding, lambda idx: x[idx])


@flax.struct.dataclass
class Node:
  a: object
  b: object
  tag: str = flax.struct.field(pytree_node=False, default='t')


def random_structure(rng, leaves, depth=0):
  """Puts the leaves in a random nested container that has a FLAX state dict."""
  leaves = list(leaves)
  if len(leaves) == 1 and (depth > 2 or rng.random() < 0.6):
    return leaves[0]
  k = int(rng.integers(1, min(4, len(leaves)) + 1)) if leaves else 0
  groups = [[] for _ in range(k)]
  for i, leaf in enumerate(leaves):
    groups[i if i < k else rng.integers(k)].append(leaf)
  kids = [random_structure(rng, g, depth + 1) for g in groups]
  kind = int(rng.integers(5))
  names = ['layer_10', 'layer_2', 'b', 'kernel', 'w/x', 'Z', '0']
  rng.shuffle(names)
  if kind == 0 and len(kids) == 2:
    return Node(kids[0], kids[1])
  if kind == 1:
    return list(kids)
  if kind == 2:
    return tuple(kids)
  d = {n: v for n, v in zip(names, kids)}
  if rng.random() < 0.15:
    d['empty'] = {}
  return flax.core.freeze(d) if kind == 3 else d


def tree_leaves_with_path(tree):
  return [(jax.tree_util.keystr(p), v)
          for p, v in jax.tree_util.tree_flatten_with_path(tree)[0]]


def same_bits(a, b):
  return bits(a) == bits(b)


def jnp_dtype(x):
  return jnp.asarray(x).dtype
