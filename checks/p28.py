"""P28: mixup combines images and labels with the same convex weights, within each device, with fresh randomness."""

RULE = ('random batch shapes, tree structures, mixing sizes (also larger than the group), concentrations, roll axes, granularities, 1-8 devices, '
        'consecutive steps, eager and jitted on meshes, (non-)frozen rngs; the mixing matrix of every call is recovered from one-hot rows; '
        'oracle: row structure of the matrix, NumPy products, Dirichlet moments; distinct by (shape, size, concentration, granularity, mesh)')
REQUIRED = {'matrix_checked': 43, 'all_mixed': 300, 'row_checked': 508, 'leaf_checked': 61, 'shared_weights': 30, 'independent_weights': 17, 'step_checked': 26, 'rng_advanced': 26, 'moments_checked': 2, 'invalid_rejected': 11, 'disabled': 3, 'batch': 3, 'device': 2, 'example': 2, 'eager': 3, 'jitted': 5, 'frozen_rngs': 4, 'oversized': 3}


def specs(tier):
  n = 7 if tier == 'quick' else 200
  return [dict(name=f'w{j}', devices=[8, 1, 4, 2, 8][j], n=n) for j in range(5)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import flax
  import jax
  import jax.numpy as jnp
  import numpy as np
  import optax
  from vmoe import partitioning
  from vmoe.train import train_state
  from vmoe.train import trainer

  n_dev = len(jax.devices())
  PS = jax.sharding.PartitionSpec

  def check_matrix(ctx, info, M, dims, axis, size, shape, conc):
    """Checks the mixing matrix M (N x N, examples in C order of dims); returns the weights (dims, size)."""
    n = int(np.prod(dims))
    idx = np.indices(dims).reshape(len(dims), -1).T
    pos = {tuple(v): k for k, v in enumerate(idx)}
    group = dims[axis]
    W = np.zeros((n, size))
    for k in range(n):
      src = []
      for j in range(size):
        v = idx[k].copy()
        v[axis] = (v[axis] + j) % group
        src.append(pos[tuple(v)])
      row = M[k]
      ctx.check(np.all(row >= -1e-6), f'{info}: negative weights {row}')
      ctx.check(abs(row.sum() - 1) <= 1e-4, f'{info}: weights of example {k} add up to {row.sum()}')
      out = np.ones(n, bool)
      out[src] = False
      ctx.check(np.all(np.abs(row[out]) <= 1e-7), f'{info}: example {k} is mixed with {np.nonzero(np.abs(row) > 1e-7)[0]}, but only {src} are its next {size}')
      if conc >= 1:  # Then no weight is zero.
        ctx.check(row[src].min() > 0, f'{info}: example {k} is mixed with {np.nonzero(row)[0]}, not with its next {size}: {src}')
        ctx.event('all_mixed')
      if size <= group:
        w = row[src]
        ctx.check(np.all(np.diff(w) <= 1e-6), f'{info}: weights of example {k} are {w}: the original example must have the largest one')
        W[k] = w
      ctx.event('row_checked')
    if size > group:
      ctx.event('oversized')
      return None
    # Weights are shared exactly along the dimensions of size 1.
    W = W.reshape(*dims, size)
    full = np.broadcast_shapes(shape[:-1], dims)
    if full == tuple(dims):
      take = tuple(slice(0, 1) if s == 1 else slice(None) for s in shape[:-1])
      rep = np.broadcast_to(W[take], W.shape)
      ctx.check(np.allclose(W, rep, atol=1e-5), f'{info}: weights are not shared as given by {shape}: {W}')
      ctx.event('shared_weights')
      u = W[take].reshape(-1, size)
      if size > 1 and len(u) > 1:
        # Independent samples: equal only if they saturate at (1, 0, ..., 0).
        free = u[u[:, 0] < 0.999]
        ctx.check(len(np.unique(np.round(free, 6), axis=0)) == len(free), f'{info}: independent weights are repeated {u}')
        if len(free) > 1:
          ctx.event('independent_weights')
    return W

  def raw_case(ctx, rng, i):
    nd = int(rng.integers(1, 4))
    dims = tuple(int(v) for v in rng.integers(1, 5, size=nd))
    axis = int(rng.integers(nd))
    size = int(rng.choice([1, 2, 2, 3, 4, 5, 6]))
    if size > 3 and rng.random() < 0.7:  # Every example of the mixture is another one.
      dims = tuple(size + int(rng.integers(2)) if j == axis else min(d, 2) for j, d in enumerate(dims))
    shape = tuple(int(d) if rng.random() < 0.5 else 1 for d in dims) + (size,)
    conc = float(rng.choice([0.2, 1.0, 5.0]))
    n = int(np.prod(dims))
    info = f'mixup dims={dims} axis={axis} shape={shape} concentration={conc}'
    ctx.distinct_case(info)
    tree = dict(
        eye=np.eye(n, dtype=np.float32).reshape(*dims, n),
        image=rng.normal(size=dims + (3, 2)).astype(np.float32),
        more=[rng.normal(size=dims).astype(np.float32)])
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    fn = lambda k, t: trainer.mixup(k, t, concentration=conc, shape=shape, roll_axis=axis)
    if rng.random() < 0.5:
      fn = jax.jit(fn)
    out = jax.tree.map(np.asarray, fn(key, jax.tree.map(jnp.asarray, tree)))
    M = out['eye'].reshape(n, n)
    ctx.event('matrix_checked')
    check_matrix(ctx, info, M, dims, axis, size, shape, conc)
    for a, b in ((out['image'], tree['image']), (out['more'][0], tree['more'][0])):
      want = (M.astype(np.float64) @ b.reshape(n, -1)).reshape(b.shape)
      ctx.check(a.shape == b.shape and np.allclose(a, want, atol=1e-4), f'{info}: leaves are not mixed with the same weights')
      ctx.event('leaf_checked')
    again = jax.tree.map(np.asarray, fn(key, jax.tree.map(jnp.asarray, tree)))
    ctx.check(np.array_equal(again['eye'], out['eye']), f'{info}: not deterministic for a key')

  def invalid(ctx, rng):
    x, key = jnp.ones((4, 3)), jax.random.PRNGKey(0)
    for kw, tree in ((dict(concentration=0., shape=(4, 2)), x), (dict(concentration=-1., shape=(4, 2)), x), (dict(concentration=1., shape=(2,)), x),
                     (dict(concentration=1., shape=(3, 2)), x), (dict(concentration=1., shape=(1, 2), roll_axis=1), x),
                     (dict(concentration=1., shape=(1, 2), roll_axis=-1), x), (dict(concentration=1., shape=(1, 2)), [x, jnp.ones((5, 3))])):
      ok = False
      try:
        trainer.mixup(key, tree, **kw)
      except ValueError:
        ok = True
      ctx.check(ok, f'mixup accepted {kw} for {jax.tree.map(jnp.shape, tree)}')
      ctx.event('invalid_rejected')
    state = train_state.TrainState.create(apply_fn=None, params={}, tx=optax.sgd(1.), rngs={'a': key})
    f = lambda s, a, b: (s, {})
    for st, kw in ((state, dict(concentration=1.)), (state.replace(rngs={'mixup': key}), dict(concentration=1., granularity='pixel'))):
      ok = False
      try:
        trainer.wrap_train_step_with_mixup(f, **kw)(st, jnp.ones((n_dev, 2)), jnp.ones((n_dev, 2)))
      except ValueError:
        ok = True
      ctx.check(ok, f'mixup step accepted {kw} with rngs {sorted(st.rngs)}')
      ctx.event('invalid_rejected')

  def moments(ctx, rng, i):
    size = int(rng.choice([2, 3, 5]))
    conc = float(rng.choice([0.3, 1.0, 4.0]))
    n = 4000
    out = np.asarray(trainer.mixup(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.asarray(np.stack([np.eye(size, dtype=np.float32)] * n)),
                                   concentration=conc, shape=(n, 1, size), roll_axis=1))
    w = out[:, 0]  # Sorted Dirichlet samples.
    want = -np.sort(-rng.dirichlet(np.full(size, conc), size=n), axis=-1)
    for pw in (1, 2):
      se = np.sqrt((w**pw).var(0) / n + (want**pw).var(0) / n) + 1e-5
      dev = np.abs((w**pw).mean(0) - (want**pw).mean(0)) / se
      ctx.check(np.all(dev < 7), f'mixup weights with size={size}, concentration={conc} have moments {(w**pw).mean(0)}, expected {(want**pw).mean(0)}')
    ctx.event('moments_checked')
    ctx.distinct_case(f'moments {size} {conc}')

  def step_case(ctx, rng, i):
    gran = ['batch', 'device', 'example'][i % 3]
    size = int(rng.choice([2, 2, 3]))
    conc = float(rng.choice([0.5, 1.0, 3.0]))
    per = int(rng.integers(max(size, 2), 5))
    batch = n_dev * per
    frozen, jitted = rng.random() < 0.4, rng.random() < 0.5
    others = ['dropout', 'gating'][:int(rng.integers(0, 3))]
    info = f'mixup step granularity={gran} size={size} concentration={conc} batch={batch} devices={n_dev} rngs={others} frozen={frozen} jit={jitted}'
    ctx.distinct_case(info)
    ctx.event(gran)
    ctx.event('jitted' if jitted else 'eager')
    if frozen:
      ctx.event('frozen_rngs')
    keys = {k: jax.random.PRNGKey(int(rng.integers(1 << 30))) for k in others + ['mixup']}
    state = train_state.TrainState.create(apply_fn=None, params={'w': jnp.zeros((2,))}, tx=optax.sgd(1.), rngs=flax.core.freeze(keys) if frozen else dict(keys))

    def inner(state, images, labels, *args, **kwargs):
      ctx.check('mixup' not in state.rngs and set(state.rngs) == set(others), f'{info}: the inner step got the rngs {sorted(state.rngs)}')
      rngs = {k: jax.random.split(v)[0] for k, v in state.rngs.items()}
      got = {k: v + 0 for k, v in state.rngs.items()}
      new = state.replace(step=state.step + 1, rngs=flax.core.freeze(rngs) if isinstance(state.rngs, flax.core.FrozenDict) else rngs)
      return new, dict(images=images, labels=labels, rngs=got, extra=kwargs.get('extra', 0), args=list(args))

    use_spec = jitted and rng.random() < 0.7
    parts = int(rng.choice([d for d in (1, 2, 4) if n_dev % d == 0]))
    mesh = partitioning.get_auto_logical_mesh(parts, jax.devices())
    step = trainer.wrap_train_step_with_mixup(inner, concentration=conc, granularity=gran, size=size, partition_spec=PS(mesh.axis_names,) if use_spec else None)
    if jitted:
      step = jax.jit(step)
    seen_w, seen_k = [], {np.asarray(keys['mixup']).tobytes()}
    for t in range(3):
      x = rng.normal(size=(batch, 2, 3)).astype(np.float32)
      y = np.eye(batch, dtype=np.float32)
      old = {k: np.array(v) for k, v in state.rngs.items()}
      given = state
      with mesh:
        new, m = step(given, jnp.asarray(x), jnp.asarray(y), 7, extra=5)
      ctx.check(set(given.rngs) == set(old) and all(np.array_equal(given.rngs[k], old[k]) for k in old), f'{info}: the given state lost or changed rngs: {sorted(given.rngs)}')
      ctx.check(int(m['extra']) == 5 and int(m['args'][0]) == 7, f'{info}: arguments were not passed on')
      for k in others:
        ctx.check(np.array_equal(m['rngs'][k], old[k]), f'{info}: the step got another {k} key')
        ctx.check(np.array_equal(new.rngs[k], jax.random.split(jnp.asarray(old[k]))[0]), f'{info}: the {k} key returned by the step was lost')
      ctx.check(set(new.rngs) == set(others) | {'mixup'} and isinstance(new.rngs, flax.core.FrozenDict) == frozen, f'{info}: rngs after the step: {new.rngs}')
      k = np.asarray(new.rngs['mixup']).tobytes()
      ctx.check(k not in seen_k, f'{info}: the mixup key did not change')
      seen_k.add(k)
      ctx.event('rng_advanced')
      ctx.check(int(new.step) == t + 1, f'{info}: step {int(new.step)}')
      M = np.asarray(m['labels'])
      ctx.check(M.shape == y.shape and np.shape(m['images']) == x.shape, f'{info}: shapes changed to {np.shape(m["images"])}, {M.shape}')
      want = (M.astype(np.float64) @ x.reshape(batch, -1)).reshape(x.shape)
      ctx.check(np.allclose(m['images'], want, atol=1e-4), f'{info}: images and labels are mixed with different weights')
      ctx.event('leaf_checked')
      shape = dict(batch=(1, 1), device=(n_dev, 1), example=(n_dev, per))[gran] + (size,)
      W = check_matrix(ctx, info, M, (n_dev, per), 1, size, shape, conc)
      ctx.event('matrix_checked')
      if W is not None and W.reshape(-1, size)[0, 0] < 0.999:
        ctx.check(not any(np.allclose(W, v, atol=1e-7) for v in seen_w), f'{info}: the same weights in two steps')
        seen_w.append(W)
      ctx.event('step_checked')
      state = new

  def disabled(ctx, rng):
    key = jax.random.PRNGKey(1)
    state = train_state.TrainState.create(apply_fn=None, params={}, tx=optax.sgd(1.), rngs={'a': key})
    x = jnp.asarray(rng.normal(size=(n_dev * 2, 3)).astype(np.float32))
    for c in (None, 0, 0.):
      new, m = trainer.wrap_train_step_with_mixup(lambda s, a, b: (s, dict(a=a, b=b)), concentration=c)(state, x, x)
      ctx.check(np.array_equal(m['a'], x) and np.array_equal(m['b'], x) and set(new.rngs) == {'a'}, f'concentration={c} must disable mixup')
      ctx.event('disabled')

  for i in range(spec['n']):
    ctx.run_case(f'raw{i}', raw_case, i)
    ctx.run_case(f'raw{i}b', raw_case, i)
    ctx.run_case(f'step{i}', step_case, i)
  for i in range(2):
    ctx.run_case(f'moments{i}', moments, i)
  ctx.run_case('invalid', invalid)
  ctx.run_case('disabled', disabled)
