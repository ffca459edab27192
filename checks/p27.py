"""P27: a training step applies exactly the average gradient of the batch, with fresh randomness."""

RULE = ('random linear models with noise and auxiliary losses (also none, and extra metrics), losses, batch sizes, 1-8 devices, meshes, microsteps '
        '(none, 1..8), optimizers (SGD, momentum), several consecutive steps, jitted and eager; monitors record which examples and random keys '
        'each forward pass saw; oracle: NumPy float64 gradients over the recorded passes; distinct by (model, loss, mesh, microsteps)')
REQUIRED = {'step_checked': 31, 'microsteps': 6, 'no_microsteps': 4, 'pass_observed': 100, 'gradient_checked': 31, 'aux_loss': 8, 'no_aux_loss': 2, 'keys_distinct': 31, 'extra_metric': 8, 'pure': 10, 'bad_microsteps_rejected': 1, 'frozen_rngs': 3, 'several_rngs': 6, 'multi_device': 7}


def specs(tier):
  n = 7 if tier == 'quick' else 120
  return [dict(name=f'w{j}', devices=[8, 1, 4, 2, 8, 1][j], n=n) for j in range(6)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import flax
  import jax
  import jax.numpy as jnp
  import numpy as np
  import optax
  from vmoe import partitioning
  from vmoe.train import train_state
  from vmoe.train import trainer

  n_dev = len(jax.devices())
  passes = []

  def record(x, noises, keys):
    passes.append((np.array(x), np.array(noises), np.array(keys)))

  def softmax(z):
    e = np.exp(z - z.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)

  def case(ctx, rng, i):
    dim, classes = int(rng.integers(1, 5)), int(rng.integers(2, 5))
    loss_name = ['softmax_xent', 'sigmoid_xent'][rng.integers(2)]
    aux = rng.random() < 0.65
    extra = rng.random() < 0.5
    names = [['noise'], ['noise', 'other'], ['zzz', 'noise', 'gating']][rng.integers(3)]
    micro = [None, 0, 1, 2, 3, 4, 8][rng.integers(7)]
    m = micro or 1
    batch = n_dev * m * int(rng.integers(1, 4))
    lr = float(rng.choice([1.0, 0.1]))
    momentum = [None, 0.9][rng.integers(2)]
    frozen = rng.random() < 0.3
    jitted = rng.random() < 0.7
    parts = int(rng.choice([d for d in (1, 2, 4, 8) if n_dev % d == 0]))
    mesh = partitioning.get_auto_logical_mesh(parts, jax.devices())
    info = f'{loss_name} batch={batch} microsteps={micro} devices={n_dev} parts={parts} aux={aux} rngs={names} momentum={momentum} jit={jitted}'
    ctx.distinct_case(info)
    ctx.event('microsteps' if m > 1 else 'no_microsteps')
    ctx.event('aux_loss' if aux else 'no_aux_loss')
    if frozen:
      ctx.event('frozen_rngs')
    if len(names) > 1:
      ctx.event('several_rngs')
    if n_dev > 1:
      ctx.event('multi_device')

    def apply_fn(variables, x, rngs):
      p = variables['params']
      assert set(rngs) == set(names), f'model called with rngs {sorted(rngs)}'
      noises = jnp.stack([jax.random.normal(rngs[k], ()) for k in names])
      jax.debug.callback(record, x, noises, jnp.stack([jax.random.key_data(rngs[k]) if jnp.issubdtype(rngs[k].dtype, jax.dtypes.prng_key) else rngs[k] for k in names]))
      z = x @ p['w'] + p['b'] + p['s']['scale'] * jnp.sum(noises)
      metrics = {}
      if aux:
        # Not linear in the batch: tells how examples were grouped.
        metrics['auxiliary_loss'] = 0.5 * jnp.square(jnp.mean(x @ p['v'])) * jnp.ones((3,))
      if extra:
        metrics['nested'] = {'value': jnp.sum(x, axis=-1), 'scalar': jnp.max(x), 'cube': x[:, :, None, None] * jnp.array([[1., 3.]])}
      return z, metrics

    params = dict(w=rng.normal(size=(dim, classes)), b=rng.normal(size=(classes,)), s=dict(scale=rng.normal(size=(classes,))), v=rng.normal(size=(dim,)))
    params = jax.tree.map(lambda x: jnp.asarray(x, jnp.float32), params)
    keys = {k: jax.random.PRNGKey(int(rng.integers(1 << 30))) for k in names}
    rngs = flax.core.freeze(keys) if frozen else dict(keys)
    state = train_state.TrainState.create(apply_fn=apply_fn, params=params, tx=optax.sgd(lr, momentum), rngs=rngs)
    loss_fn = trainer.get_loss_fn(loss_name)[0]

    def step_fn(state, x, y):
      return trainer.train_step(state, x, y, loss_fn=loss_fn, microsteps=micro)

    if jitted:
      step_fn = jax.jit(step_fn)
    ref = jax.tree.map(lambda x: np.asarray(x, np.float64), params)
    trace = jax.tree.map(np.zeros_like, ref)
    seen_keys = {tuple(np.asarray(v).tolist()) for v in keys.values()}
    n_steps = 3
    for t in range(n_steps):
      x = rng.normal(size=(batch, dim)).astype(np.float32)
      y = rng.dirichlet(np.ones(classes), size=batch).astype(np.float32)
      passes.clear()
      before = jax.tree.map(np.array, (state.params, state.opt_state, dict(state.rngs), state.step))
      with mesh:
        new, metrics = step_fn(state, jnp.asarray(x), jnp.asarray(y))
      jax.block_until_ready((new.params, metrics))
      jax.effects_barrier()
      after = jax.tree.map(np.array, (state.params, state.opt_state, dict(state.rngs), state.step))
      ctx.check(all(np.array_equal(a, b) for a, b in zip(jax.tree.leaves(before), jax.tree.leaves(after))), f'{info}: the given state was modified')
      # Deduplicate passes (a pass may be reported by more than one device).
      groups = {}
      for px, pn, pk in passes:
        groups[pk.tobytes()] = (px, pn, pk)
      ctx.event('pass_observed', len(groups))
      ctx.check(len(groups) == m, f'{info}: {len(groups)} different random keys in {m} forward passes')
      # Each example in exactly one pass; passes of the same size.
      rows = {x[j].tobytes(): j for j in range(batch)}
      used = []
      for px, _, _ in groups.values():
        ctx.check(px.shape == (batch // m, dim), f'{info}: a pass over {px.shape} of a batch of {batch}')
        js = [rows.get(px[k].tobytes()) for k in range(px.shape[0])]
        ctx.check(None not in js, f'{info}: a pass over altered examples')
        used.append(js)
      ctx.check(sorted(sum(used, [])) == list(range(batch)), f'{info}: examples used in a step {sorted(sum(used, []))}')
      for _, _, pk in groups.values():
        for row in pk:
          ctx.check(tuple(row.tolist()) not in seen_keys, f'{info}: a random key was used before (step {t})')
          seen_keys.add(tuple(row.tolist()))
      for k, v in dict(new.rngs).items():
        ctx.check(tuple(np.asarray(v).tolist()) not in seen_keys, f'{info}: the next key {k} was already used (step {t})')
        seen_keys.add(tuple(np.asarray(v).tolist()))
      ctx.check(set(new.rngs) == set(names) and isinstance(new.rngs, flax.core.FrozenDict) == frozen, f'{info}: rngs after the step: {new.rngs}')
      ctx.event('keys_distinct')
      # Reference.
      g = jax.tree.map(np.zeros_like, ref)
      main, auxl, ex_v, ex_s, ex_c = 0., 0., 0., 0., 0.
      for js, (px, pn, _) in zip(used, groups.values()):
        xx, yy = px.astype(np.float64), y[js].astype(np.float64)
        z = xx @ ref['w'] + ref['b'] + ref['s']['scale'] * pn.sum()
        if loss_name.startswith('softmax'):
          p = softmax(z)
          main += -(yy * np.log(p)).sum(-1).mean() / m
          d = (p * yy.sum(-1, keepdims=True) - yy) / len(js)
        else:
          main += (yy * np.logaddexp(0, -z) + (1 - yy) * np.logaddexp(0, z)).sum(-1).mean() / m
          d = (1 / (1 + np.exp(-z)) - yy) / len(js)
        g['w'] += xx.T @ d / m
        g['b'] += d.sum(0) / m
        g['s']['scale'] += d.sum(0) * pn.sum() / m
        if aux:
          u = (xx @ ref['v']).mean()
          auxl += 0.5 * u**2 / m
          g['v'] += u * xx.mean(0) / m
        ex_v += xx.sum(-1).mean() / m
        ex_s += xx.max() / m
        ex_c += 2 * xx.mean() / m
      want_metrics = {'main_loss': main, 'total_loss': main + auxl}
      if aux:
        want_metrics['auxiliary_loss'] = auxl
      if extra:
        want_metrics['nested'] = dict(value=ex_v, scalar=ex_s, cube=ex_c)
        ctx.event('extra_metric')
      norm = lambda tr: np.sqrt(sum((v**2).sum() for v in jax.tree.leaves(tr)))
      want_metrics['global_norm/grads'] = norm(g)
      trace = jax.tree.map(lambda a, b: (momentum or 0.) * a + b, trace, g)
      ref = jax.tree.map(lambda a, b: a - lr * b, ref, trace)
      want_metrics['global_norm/params'] = norm(ref)
      want_metrics['global_norm/updates'] = norm(jax.tree.map(lambda a: lr * a, trace))
      fm, fw = (flax.traverse_util.flatten_dict(dict(q), sep='|') for q in (metrics, want_metrics))
      ctx.check(set(fm) >= set(fw), f'{info}: metrics {sorted(fm)}, expected {sorted(fw)}')
      for k, v in fw.items():
        ctx.check(np.shape(fm[k]) == () and abs(float(fm[k]) - v) <= 1e-4 * max(1., abs(v)), f'{info}: metric {k} is {fm[k]} at step {t}, expected {v}')
      got = jax.tree.map(np.asarray, new.params)
      ok = jax.tree.map(lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-4), dict(got), ref)
      ctx.check(all(jax.tree.leaves(ok)), lambda: f'{info}: parameters after step {t} {got}, expected {ref}')
      ctx.event('gradient_checked')
      ctx.check(int(new.step) == t + 1, f'{info}: step {int(new.step)} after {t + 1} updates')
      ctx.event('step_checked')
      if t == 0:
        with mesh:
          again, metrics2 = step_fn(state, jnp.asarray(x), jnp.asarray(y))
        same = jax.tree.map(lambda a, b: bool(np.array_equal(a, b)), (new.params, dict(new.rngs), metrics), (again.params, dict(again.rngs), metrics2))
        ctx.check(all(jax.tree.leaves(same)), f'{info}: the same step gave another result')
        jax.effects_barrier()
        ctx.event('pure')
      state = new
      ref = jax.tree.map(lambda a: np.asarray(a, np.float64), jax.tree.map(np.asarray, dict(new.params)))  # Avoid drift.

  def bad(ctx, rng):
    micro = 3
    state = train_state.TrainState.create(apply_fn=lambda v, x, rngs: (x @ v['params']['w'], {}), params={'w': jnp.ones((2, 2))}, tx=optax.sgd(1.), rngs={})
    x = jnp.ones((4 * n_dev, 2))
    rejected = False
    with partitioning.get_auto_logical_mesh(1, jax.devices()):
      try:
        trainer.train_step(state, x, x, loss_fn=trainer.get_loss_fn('softmax_xent')[0], microsteps=micro)
      except Exception:  # pylint: disable=broad-except
        rejected = True
    ctx.check(rejected, f'{4 * n_dev} examples on {n_dev} devices were split in {micro} microsteps')
    ctx.event('bad_microsteps_rejected')

  for i in range(spec['n']):
    ctx.run_case(f'c{i}', case, i)
  ctx.run_case('bad', bad)
