"""P31: mapping a checkpoint to a model applies the first matching rule to every array, and nothing is lost silently."""

RULE = ('random source trees and rules of every kind (rename, drop, reshape, squeeze, stack of up to 13 layers, expand_tile, zoom, vit_zoom with and '
        'without class token), overlapping rules, targets with arrays and abstract leaves sharded over 1-8 devices, dict/FrozenDict/TrainState '
        'targets, other dtypes and broadcastable shapes, empty nodes, all error options; oracle: NumPy implementation of the rules (own linear '
        'interpolation); distinct by (rules, shapes, options)')
REQUIRED = {'leaf_checked': 500, 'sharding_checked': 300, 'rename': 25, 'partial': 15, 'drop': 10, 'reshape': 20, 'squeeze': 10, 'stack': 15, 'stack_10plus': 4, 'expand_tile': 15, 'zoom': 10, 'vit_zoom': 20,
            'kept': 20, 'identity': 6, 'dtype_converted': 10, 'dtype_widened': 15, 'broadcast': 4, 'error_raised': 40, 'overlapping': 15, 'abstract_target': 40, 'train_state': 8, 'token_kept': 2, 'multi_device': 10}


def specs(tier):
  n = 40 if tier == 'quick' else 300
  return [dict(name=f'w{j}', devices=[8, 1, 4, 2, 8, 1][j], n=n) for j in range(6)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import flax
  import jax
  import jax.numpy as jnp
  import numpy as np
  import optax
  from vmoe.initialization import mapping
  from vmoe.train import train_state

  n_dev = len(jax.devices())
  PS = jax.sharding.PartitionSpec

  def zoom(x, shape):
    for ax, n in enumerate(shape):
      o = x.shape[ax]
      if n == o:
        continue
      pos = np.arange(n) * ((o - 1) / (n - 1) if n > 1 else 0.)
      lo = np.clip(np.floor(pos + 1e-9).astype(int), 0, o - 1)
      hi = np.minimum(lo + 1, o - 1)
      f = (pos - lo).reshape([-1 if a == ax else 1 for a in range(x.ndim)])
      x = np.take(x, lo, ax) * (1 - f) + np.take(x, hi, ax) * f
    return x

  def sharding(rng, mesh, shape):
    spec_ = []
    free = ['a', 'b']
    for d in shape:
      fits = [a for a in free if d % mesh.shape[a] == 0]
      if fits and rng.random() < 0.5:
        a = fits[rng.integers(len(fits))]
        free.remove(a)
        spec_.append(a)
      else:
        spec_.append(None)
    return jax.sharding.NamedSharding(mesh, PS(*spec_))

  def build(rng, mesh):
    """Returns source (flat), target (flat of (shape, dtype)), rules, expected (flat of arrays)."""
    src, tgt, rules, want, tags = {}, {}, [], {}, []
    arr = lambda shape: rng.normal(size=shape).astype(jnp.bfloat16).astype(np.float32)
    rand_shape = lambda: tuple(int(v) for v in rng.choice([1, 2, 3, 4, 8], size=int(rng.integers(1, 4))))
    kinds = rng.choice(['rename', 'drop', 'reshape', 'squeeze', 'stack', 'expand_tile', 'zoom', 'vit_zoom', 'identity_rule', 'partial'], size=int(rng.integers(2, 6)), replace=False)
    for g, kind in enumerate(kinds):
      pre = f'old/g{g}'
      tags.append(kind)
      if kind in ('rename', 'identity_rule'):
        for j in range(int(rng.integers(1, 4))):
          x = arr(rand_shape())
          src[f'{pre}/layer_{j}/kernel'] = x
          want[(f'new/block{j}/g{g}/kernel' if kind == 'rename' else f'{pre}/layer_{j}/kernel')] = x
        rules.append((rf'^old/g{g}/layer_(\d+)/(.*)$', rf'new/block\1/g{g}/\2') if kind == 'rename' else (rf'^(old/g{g}/.*)$', r'\1'))
      elif kind == 'partial':
        # The pattern may be anywhere in the name, several times; the rest of the name stays.
        for j in range(int(rng.integers(1, 4))):
          x = rng.integers(-100, 100, size=rand_shape()).astype(np.int32) if rng.random() < 0.4 else arr(rand_shape())
          src[f'{pre}/lay{g}_{j}/attn/lay{g}_{j + 1}/kernel'] = x
          want[f'{pre}/BLK{j}-{g}/attn/BLK{j + 1}-{g}/kernel'] = x
        rules.append((rf'lay{g}_(\d+)', rf'BLK\1-{g}'))
      elif kind == 'drop':
        src[f'{pre}/x'] = arr(rand_shape())
        src[f'{pre}/deep/y'] = arr(rand_shape())
        rules.append((f'^{pre}/', [None, ''][rng.integers(2)]))
      elif kind == 'reshape':
        x = arr((2, 3, 4))
        shape = [(6, 4), (24,), (4, 3, 2), (2, 12)][rng.integers(4)]
        src[f'{pre}/q'] = x
        want[f'new/g{g}/q'] = x.reshape(shape)
        rules.append((f'{pre}/q', f'new/g{g}/q', 'reshape') + (((shape,) if rng.random() < 0.5 else ())))
      elif kind == 'squeeze':
        ax = int(rng.integers(0, 3))
        shape = [2, 3, 4]
        shape[ax] = 1
        x = arr(tuple(shape))
        src[f'{pre}/b'] = x
        want[f'new/g{g}/b'] = np.squeeze(x, ax)
        rules.append((f'{pre}/(b)', rf'new/g{g}/\1', 'squeeze', ax - (3 if rng.random() < 0.3 else 0)))
      elif kind == 'stack':
        n = int(rng.choice([1, 2, 5, 11, 13]))
        shape = rand_shape()
        ax = int(rng.integers(0, len(shape) + 1))
        xs = [arr(shape) for _ in range(n)]
        ids = np.sort(rng.choice(130, size=n, replace=False)) if rng.random() < 0.4 else np.arange(n)
        for j in rng.permutation(n):
          src[f'{pre}/layer_{ids[j]}/k'] = xs[j]
        want[f'new/g{g}/layers/k'] = np.stack(xs, ax)
        if rng.random() < 0.3:
          ax -= len(shape) + 1
        rules.append((rf'{pre}/layer_\d+/k', f'new/g{g}/layers/k', 'stack', ax))
        if n > 10:
          ctx.event('stack_10plus')
      elif kind == 'expand_tile':
        x = arr((3, 2))
        v = [(0, 4), (1, 2), (-1, 3), ((0, 2), (2, 3)), ((1, 0), (5, 2))][rng.integers(5)]
        y = np.expand_dims(x, v[0])
        reps = [1] * y.ndim
        for a, r in zip(*[(q,) if isinstance(q, int) else q for q in v]):
          reps[a] = r
        src[f'{pre}/mlp/bias'] = x
        want[f'new/g{g}/moe/bias'] = np.tile(y, reps)
        rules.append((rf'{pre}/mlp/(.*)', rf'new/g{g}/moe/\1', 'expand_tile', v[0], v[1]))
      elif kind == 'zoom':
        x = arr(tuple(int(q) for q in rng.integers(1, 6, size=2)))
        shape = tuple(int(q) for q in rng.integers(1, 8, size=2))
        src[f'{pre}/z'] = x
        want[f'new/g{g}/z'] = zoom(x.astype(np.float64), shape).astype(np.float32)
        rules.append((f'{pre}/z', f'new/g{g}/z', 'zoom'))
      else:
        a, b, h = int(rng.integers(1, 6)), int(rng.integers(1, 6)), 3
        st, tt = rng.random() < 0.5, rng.random() < 0.5
        x = arr((1, a * a + st, h))
        grid = x[:, int(st):].reshape(1, a, a, h).astype(np.float64)
        y = zoom(grid, (1, b, b, h)).reshape(1, b * b, h).astype(np.float32)
        # (1, 2, h) is a grid of 1 plus a token; (1, 1, h) is a grid of 1.
        if tt:
          tok = x[:, :1] if st else 'token'
          y = (tok, y) if isinstance(tok, str) else np.concatenate([tok, y], 1)
        src[f'{pre}/pos'] = x
        want[f'new/g{g}/pos'] = y
        rules.append((f'{pre}/pos', f'new/g{g}/pos', 'vit_zoom'))
    order = rng.permutation(len(rules))
    rules = [rules[j] for j in order]
    return src, rules, want, tags

  def case(ctx, rng, i):
    a = int(rng.choice([d for d in (1, 2, 4, 8) if n_dev % d == 0]))
    mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(a, -1), ('a', 'b'))
    src, rules, want, tags = build(rng, mesh)
    for t in tags:
      ctx.event(t) if t != 'identity_rule' else None
    kw = {}
    # Some arrays are stored with less precision than the model uses.
    if 'zoom' not in ' '.join(tags) and rng.random() < 0.6:
      for k in src:
        if src[k].dtype == np.float32 and rng.random() < 0.5:
          src[k] = src[k].astype(jnp.bfloat16)
          ctx.event('dtype_widened')
    # A source without rule (identity), and a target without source (kept).
    if rng.random() < 0.4:
      x = rng.normal(size=(4, 2)).astype(np.float32)
      src['lonely/x'] = x
      want['lonely/x'] = x
      kw['raise_if_source_unmatched'] = False
      ctx.event('identity')
    kept = {}
    if rng.random() < 0.6:
      kept['head/kernel'] = rng.normal(size=(4, 3)).astype(np.float32)
      kept['head/bias'] = rng.normal(size=(3,)).astype(np.float32)
      kw['raise_if_target_unmatched'] = False
    # Later rules that also match: they must be ignored.
    if rng.random() < 0.5:
      rules = rules + [(r'^old/g0/(.*)$', r'wrong/\1'), ('^old/', None)]
      ctx.event('overlapping')
    # Target leaves of other types or shapes.
    dtypes, shapes = {}, {}
    for k, v in want.items():
      shape = (1, v[1].shape[1] + 1, v[1].shape[2]) if isinstance(v, tuple) else v.shape
      dtypes[k], shapes[k] = np.dtype(np.float32), shape
      if not isinstance(v, tuple) and rng.random() < 0.2:
        dtypes[k] = np.dtype(jnp.bfloat16)
        ctx.event('dtype_converted')
      if ('zoom' not in ' '.join(tags) and rng.random() < 0.12) and 'reshape' not in tags:
        shapes[k] = (2,) + shape
        kw['raise_if_shape_mismatched'] = False
        ctx.event('broadcast')
    info = f'rules={rules} source={({k: v.shape for k, v in src.items()})} target={shapes} options={kw} mesh={dict(mesh.shape)}'
    ctx.distinct_case(info)
    flat_target, shardings = {}, {}
    for k, shape in list(shapes.items()) + [(k, v.shape) for k, v in kept.items()]:
      sh = sharding(rng, mesh, shape)
      shardings[k] = sh
      if k in kept:
        val = jax.device_put(kept[k], sh) if rng.random() < 0.6 else jax.ShapeDtypeStruct(shape, np.float32, sharding=sh)
      elif rng.random() < 0.5:
        val = jax.ShapeDtypeStruct(shape, dtypes[k], sharding=sh)
        ctx.event('abstract_target')
      else:
        val = jax.device_put(rng.normal(size=shape).astype(dtypes[k]), sh)
      flat_target[k] = val
    tokens = {k: np.asarray(flat_target[k])[:, :1] for k, v in want.items() if isinstance(v, tuple) and isinstance(flat_target[k], jax.Array)}
    source = {k: jax.device_put(v, sharding(rng, mesh, v.shape)) for k, v in src.items()}
    keys = list(source)
    source = flax.traverse_util.unflatten_dict({keys[j]: source[keys[j]] for j in rng.permutation(len(keys))}, sep='/')
    if rng.random() < 0.3:
      source = flax.core.freeze(source)
    target = flax.traverse_util.unflatten_dict(flat_target, sep='/')
    kind = ['dict', 'frozen', 'state'][rng.integers(2 if 'partial' in tags else 3)]
    if kind == 'frozen':
      target = flax.core.freeze(target)
    elif kind == 'state':
      ctx.event('train_state')
      target = train_state.TrainState(step=jax.device_put(jnp.asarray(7), jax.sharding.NamedSharding(mesh, PS())), apply_fn=None, params=target, tx=optax.sgd(1.), opt_state=(), rngs={})
      fix = lambda r: r if not r[1] else (r[0], 'params/' + r[1]) + tuple(r[2:])
      rules = [fix(r) for r in rules]
      if 'lonely/x' in src:
        rules.append((r'^(lonely/.*)$', r'params/\1'))
      kw['raise_if_target_unmatched'] = False
    if n_dev > 1:
      ctx.event('multi_device')
    kept_vals = {k: flat_target[k] for k in kept}
    use_mesh = rng.random() < 0.6
    if use_mesh:
      with mesh:
        out = mapping.map_state_dict(source, target, rules, **kw)
    else:
      out = mapping.map_state_dict(source, target, rules, **kw)
    ctx.check(type(out) is type(target), f'{info}: returned a {type(out)} for a {type(target)}')
    if kind == 'state':
      ctx.check(int(out.step) == 7 and out.tx is target.tx, f'{info}: other parts of the state changed')
      out = out.params
    got = flax.traverse_util.flatten_dict(flax.core.unfreeze(out), sep='/')
    ctx.check(set(got) == set(want) | set(kept), f'{info}: returned {sorted(got)}')
    for k, v in want.items():
      x = got[k]
      ctx.check(isinstance(x, jax.Array) and x.shape == shapes[k] and x.dtype == dtypes[k], f'{info}: {k} is {x.dtype}{x.shape}, expected {dtypes[k]}{shapes[k]}')
      ctx.check(x.sharding.is_equivalent_to(shardings[k], x.ndim), f'{info}: {k} has sharding {x.sharding}, expected {shardings[k]}')
      ctx.event('sharding_checked')
      y = np.asarray(x).astype(np.float64)
      if isinstance(v, tuple):
        tok, v = y[:, :1], v[1]
        if k in tokens:
          ctx.check(np.array_equal(tok, tokens[k]), f'{info}: the token of the target was replaced')
          ctx.event('token_kept')
        else:
          ctx.check(np.all(np.isfinite(tok)) and np.any(tok != 0) and np.abs(tok).max() < 0.2, f'{info}: new token {tok}')
        y = y[:, 1:]
      v = np.broadcast_to(v, y.shape)
      tol = 1e-2 if dtypes[k] != np.float32 else 1e-5
      ctx.check(np.allclose(y, v, rtol=tol, atol=1e-6), lambda: f'{info}: {k} is {y}, expected {v}')  # pylint: disable=cell-var-from-loop
      ctx.event('leaf_checked')
    for k, v in kept_vals.items():
      if isinstance(v, jax.ShapeDtypeStruct):
        ctx.check(isinstance(got[k], jax.ShapeDtypeStruct) and got[k].shape == v.shape, f'{info}: {k} should stay abstract, got {got[k]}')
      else:
        ctx.check(np.array_equal(np.asarray(got[k]), kept[k]), f'{info}: {k} has no source, but changed')
      ctx.event('kept')

  def errors(ctx, rng, i):
    mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(1, -1), ('a', 'b'))
    put = lambda x: jax.device_put(jnp.asarray(x), jax.sharding.NamedSharding(mesh, PS()))
    A, B = np.ones((2, 3), np.float32), np.zeros((2, 3), np.float32)
    cases = [
        ('source without rule', dict(x=A, y=A), dict(x=B, y=B), [('^x$', 'x')], {}, KeyError),
        ('renamed to nothing', dict(x=A), dict(x=B), [('^x$', 'y')], {}, KeyError),
        ('renamed to nothing, lenient', dict(x=A), dict(x=B), [('^x$', 'y')], dict(raise_if_source_unmatched=False, raise_if_target_unmatched=False), KeyError),
        ('target twice', dict(x=A, y=A), dict(x=B), [('^.*$', 'x')], {}, ValueError),
        ('target twice, lenient', dict(x=A, y=A), dict(x=B), [('^.*$', 'x')], dict(raise_if_source_unmatched=False, raise_if_target_unmatched=False), ValueError),
        ('target without source', dict(x=A), dict(x=B, y=B), [('^x$', 'x')], {}, ValueError),
        ('dropped source leaves target unmatched', dict(x=A, y=A), dict(x=B, y=B), [('^x$', 'x'), ('y', None)], {}, ValueError),
        ('other shape', dict(x=A), dict(x=np.zeros((4, 2, 3), np.float32)), [('x', 'x')], {}, ValueError),
        ('not broadcastable', dict(x=A), dict(x=np.zeros((4, 4), np.float32)), [('x', 'x')], dict(raise_if_shape_mismatched=False), Exception),
        ('other dtype', dict(x=A), dict(x=np.zeros((2, 3), np.float16)), [('x', 'x')], dict(raise_if_dtype_mismatched=True), ValueError),
        ('empty and not', dict(x={}), dict(x=B), [('x', 'x')], {}, ValueError),
        ('not empty and empty', dict(x=A), dict(x={}), [('x', 'x')], {}, ValueError),
        ('wrong reshape', dict(x=A), dict(x=B), [('x', 'x', 'reshape', (5,))], {}, Exception),
        ('unknown rule', dict(x=A), dict(x=B), [('x', 'x', 'twist')], {}, Exception),
        ('not a square grid', dict(x=np.ones((1, 3, 2), np.float32)), dict(x=np.ones((1, 4, 2), np.float32)), [('x', 'x', 'vit_zoom')], {}, ValueError),
        ('target twice, reshape', dict(x=A, y=A), dict(x=B), [('^.*$', 'x', 'reshape')], {}, ValueError),
        ('target twice, squeeze', dict(x=A[None], y=A[None]), dict(x=B), [('^.*$', 'x', 'squeeze', 0)], {}, ValueError),
        ('target twice, expand_tile', dict(x=A[0], y=A[0]), dict(x=B), [('^.*$', 'x', 'expand_tile', 0, 2)], {}, ValueError),
        ('target twice, zoom', dict(x=A, y=A), dict(x=B), [('^.*$', 'x', 'zoom')], {}, ValueError),
        ('target twice, renamed and reshaped', dict(x=A, y=A), dict(x=B), [('^x$', 'x'), ('^y$', 'x', 'reshape')], {}, ValueError),
        ('target twice, stacked and renamed', dict(x=A, y=A[None]), dict(x=B[None]), [('^x$', 'x', 'stack', 0), ('^y$', 'x')], {}, ValueError),
        ('identity of a name that does not exist', dict(x=A, y=A), dict(x=B), [('^x$', 'x')], dict(raise_if_source_unmatched=False), KeyError),
        ('other dtype of integers', dict(x=np.ones((2, 3), np.int32)), dict(x=B), [('x', 'x')], dict(raise_if_dtype_mismatched=True), ValueError),
        ('smaller embedding size', dict(x=np.ones((1, 4, 3), np.float32)), dict(x=np.ones((1, 4, 2), np.float32)), [('x', 'x', 'vit_zoom')], {}, ValueError),
        ('other embedding size', dict(x=np.ones((1, 4, 2), np.float32)), dict(x=np.ones((1, 4, 3), np.float32)), [('x', 'x', 'vit_zoom')], {}, ValueError),
    ]
    for name, s, t, rules, kw, err in cases:
      ok = False
      try:
        mapping.map_state_dict(jax.tree.map(put, s), jax.tree.map(put, t), rules, **kw)
      except err:
        ok = True
      ctx.check(ok, f'no error for: {name}')
      ctx.event('error_raised')
    out = mapping.map_state_dict(dict(x={}, y=put(A)), dict(x={}, y=put(B)), [('^x$', 'x'), ('^y$', 'y')])
    ctx.check(out['x'] == {} and np.array_equal(out['y'], A), f'empty nodes: {out}')

  for i in range(spec['n']):
    ctx.run_case(f'c{i}', case, i)
  ctx.run_case('errors', errors, 0)
