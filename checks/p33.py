"""P33: adversarial images stay within the budget, follow the gradient, and never reduce the attacked (convex) loss."""

RULE = ('random (linear and non-linear) models with noise and auxiliary losses, budgets, numbers of updates, batch shapes, rngs (none, one, several), '
        'eager, jitted and on meshes; attacks alone and wrapped around a training step; monitors record each gradient evaluation and its keys; '
        'oracle: NumPy float64 iteration over the recorded passes, budget on every pixel, loss of convex models; distinct by (model, budget, updates)')
REQUIRED = {'attack_checked': 60, 'pixel_checked': 2000, 'iteration_checked': 40, 'budget_checked': 60, 'loss_not_reduced': 2, 'keys_distinct': 30, 'no_rngs': 6, 'several_updates': 20,
            'zero_gradient_kept': 8, 'wrapped_step': 25, 'aux_attacked': 5, 'aux_not_attacked': 5, 'disabled': 6, 'nonlinear': 6}


def specs(tier):
  n = 12 if tier == 'quick' else 250
  return [dict(name=f'w{j}', devices=[8, 1, 4, 2, 1][j], n=n) for j in range(5)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import jax.numpy as jnp
  import numpy as np
  import optax
  from vmoe import partitioning
  from vmoe.projects.adversarial_attacks import attacks
  from vmoe.train import train_state
  from vmoe.train import trainer

  n_dev = len(jax.devices())
  passes = []

  def record(x, n, k):
    passes.append((np.array(x), np.array(n), np.array(k)))

  def softmax(z):
    e = np.exp(z - z.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)

  def setup(rng):
    shape = [(2, 3), (2, 2, 3), (4,)][rng.integers(3)]
    dim, classes = int(np.prod(shape)), int(rng.integers(2, 6))
    p = dict(w=rng.normal(size=(dim, classes)), s=rng.normal(size=(classes,)), v=rng.normal(size=(dim,)))
    dead = rng.random() < 0.4
    if dead:  # Some pixels without influence.
      p['w'][: max(1, dim // 3)] = 0
      p['v'][: max(1, dim // 3)] = 0
    p = {k: v.astype(np.float32) for k, v in p.items()}
    names = [[], ['a'], ['b', 'a']][rng.integers(3)]
    return shape, dim, classes, p, dead, names

  def make_apply(p, names, hidden):
    def apply_fn(params, x, rngs):
      n = jnp.zeros(())
      if names:
        ks = jnp.stack([jnp.asarray(rngs[k]) for k in names])
        n = sum(jax.random.normal(rngs[k], ()) for k in names)
        jax.debug.callback(record, x, n, ks)
      else:
        jax.debug.callback(record, x, n, jnp.zeros((1, 2), jnp.uint32))
      f = x.reshape(x.shape[0], -1)
      z = f @ params['w'] + params['s'] * n
      if hidden:
        z = jnp.sin(3 * z)
      return z, {'auxiliary_loss': jnp.mean(jnp.tanh(f @ params['v'])) * jnp.ones((2,))}
    return apply_fn

  def np_loss_grad(p, x, y, n, aux):
    """Mean softmax cross-entropy (+ auxiliary) of the linear model, and its gradient."""
    f = x.reshape(len(x), -1).astype(np.float64)
    z = f @ p['w'] + p['s'] * n
    pr = softmax(z)
    g = (pr * y.sum(-1, keepdims=True) - y) @ p['w'].T.astype(np.float64) / len(x)
    if aux:
      t = np.tanh(f @ p['v'])
      g = g + (1 - t**2)[:, None] * p['v'] / len(x)
    return -(y * np.log(pr)).sum(-1), g.reshape(x.shape)

  def follow(ctx, info, p, x0, y, xm, eps, updates, aux, names):
    """Checks the recorded iteration; returns the keys used."""
    groups = {}
    for px, pn, pk in passes:
      groups.setdefault(pk.tobytes() + px.tobytes(), (px, pn, pk))
    groups = list(groups.values())
    if names:
      ctx.check(len({g[2].tobytes() for g in groups}) == updates, f'{info}: {len({g[2].tobytes() for g in groups})} different keys in {updates} updates')
    # Chain the passes: start at x0 and look for the pass with the current image.
    cur = x0
    fuzzy = np.zeros(x0.shape, bool)
    for t in range(updates):
      cand = [g for g in groups if np.all(np.abs(g[0] - cur)[~fuzzy] <= 1e-5 + 1e-5 * np.abs(cur[~fuzzy]))]
      ctx.check(cand, f'{info}: no gradient was evaluated at the image of update {t}')
      px, pn, _ = cand[0]
      _, g = np_loss_grad(p, px, y, pn, aux)
      tiny = (np.abs(g) < 1e-6) & (g != 0)
      fuzzy |= tiny
      cur = px + eps / updates * np.sign(g)
      ctx.event('pixel_checked', int((~fuzzy).sum()))
    ok = np.abs(xm - cur) <= 1e-5 + 1e-5 * np.abs(cur)
    ctx.check(np.all(ok | fuzzy), lambda: f'{info}: the attacked image differs from the sign iteration at {np.argwhere(~(ok | fuzzy))[:3]}: {xm[~(ok | fuzzy)][:3]} instead of {cur[~(ok | fuzzy)][:3]}')
    ctx.event('iteration_checked')

  def case(ctx, rng, i):
    shape, dim, classes, p, dead, names = setup(rng)
    eps = float(rng.choice([0.01, 0.1, 1.0]))
    updates = int(rng.choice([1, 2, 3, 7, 12, 20]))
    hidden = rng.random() < 0.25
    aux = rng.random() < 0.5
    batch = n_dev * int(rng.integers(1, 4))
    info = f'pgd shape={shape} epsilon={eps} updates={updates} classes={classes} rngs={names} aux={aux} hidden={hidden} devices={n_dev}'
    ctx.distinct_case(info)
    apply_fn = make_apply(p, names, hidden)
    params = jax.tree.map(jnp.asarray, p)
    x = rng.normal(size=(batch,) + shape).astype(np.float32)
    y = np.eye(classes, dtype=np.float32)[rng.integers(classes, size=batch)]
    rngs = {k: jax.random.PRNGKey(int(rng.integers(1 << 30))) for k in names} if names else None
    loss = lambda z, yy, m: optax.softmax_cross_entropy(z, yy) + (jnp.mean(m['auxiliary_loss']) if aux else 0.)
    fn = lambda im, lb, r: attacks.stateless_attack_pgd(im, lb, r, max_epsilon=eps, num_updates=updates, apply_fn=lambda v, rngs: apply_fn(params, v, rngs), loss_fn=loss)
    if rng.random() < 0.6:
      fn = jax.jit(fn)
    passes.clear()
    with partitioning.get_auto_logical_mesh(1, jax.devices()):
      xm, new = fn(jnp.asarray(x), jnp.asarray(y), rngs)
    xm = np.asarray(xm)
    jax.effects_barrier()
    ctx.check(xm.shape == x.shape and xm.dtype == x.dtype and np.all(np.isfinite(xm)), f'{info}: attacked images {xm.dtype}{xm.shape}')
    ctx.check(np.all(np.abs(xm - x) <= eps * (1 + 1e-4) + 1e-6), f'{info}: a pixel changed by {np.abs(xm - x).max()}')
    ctx.event('budget_checked')
    if updates > 1:
      ctx.event('several_updates')
    if dead:
      k = max(1, dim // 3)
      ctx.check(np.array_equal(xm.reshape(batch, -1)[:, :k], x.reshape(batch, -1)[:, :k]), f'{info}: pixels without influence changed')
      ctx.event('zero_gradient_kept')
    if names:
      used = {r.tobytes() for g in passes for r in g[2]}
      init = {np.asarray(v).tobytes() for v in rngs.values()}
      nxt = {np.asarray(v).tobytes() for v in new.values()}
      ctx.check(set(new) == set(names) and not (nxt & used) and not (nxt & init) and not (used & init) and len(nxt) == len(names), f'{info}: a random key is used again after the attack')
      ctx.event('keys_distinct')
    else:
      ctx.check(new is None, f'{info}: rngs {new} from none')
      ctx.event('no_rngs')
    if hidden:
      ctx.event('nonlinear')
    else:
      follow(ctx, info, p, x, y, xm, eps, updates, aux, names)
      if not names and not aux:
        a, _ = np_loss_grad(p, x, y, 0., False)
        b, _ = np_loss_grad(p, xm, y, 0., False)
        ctx.check(np.all(b >= a - 1e-4 * np.maximum(1, a)), f'{info}: the attack reduced the loss from {a} to {b}')
        ctx.event('loss_not_reduced')
    ctx.event('attack_checked')

  def wrapped(ctx, rng, i):
    shape, _, classes, p, _, names = setup(rng)
    eps = float(rng.choice([0.05, 0.5]))
    updates = int(rng.choice([1, 2, 4]))
    aux = rng.random() < 0.5
    batch = n_dev * int(rng.integers(1, 4))
    info = f'adversarial step shape={shape} epsilon={eps} updates={updates} classes={classes} rngs={names} aux={aux} devices={n_dev}'
    ctx.distinct_case(info)
    apply_raw = make_apply(p, names, False)
    apply_fn = lambda variables, x, rngs=None: apply_raw(variables['params'], x, rngs)
    rngs = {k: jax.random.PRNGKey(int(rng.integers(1 << 30))) for k in names}
    state = train_state.TrainState.create(apply_fn=apply_fn, params=jax.tree.map(jnp.asarray, p), tx=optax.sgd(1.), rngs=rngs)
    inner = lambda st, im, lb, *args, **kw: (st.replace(step=st.step + 1), dict(images=im, labels=lb, rngs=dict(st.rngs), args=list(args), kw=kw))
    loss_fn = trainer.get_loss_fn('softmax_xent')[0]
    step = trainer.wrap_train_step_with_adversarial_attack(inner, loss_fn, attack_auxiliary_loss=aux, max_epsilon=eps, num_updates=updates)
    if rng.random() < 0.5:
      step = jax.jit(step)
    seen = {np.asarray(v).tobytes() for v in rngs.values()}
    for t in range(2):
      x = rng.normal(size=(batch,) + shape).astype(np.float32)
      y = np.eye(classes, dtype=np.float32)[rng.integers(classes, size=batch)]
      passes.clear()
      new, m = step(state, jnp.asarray(x), jnp.asarray(y), 3, extra=4)
      jax.block_until_ready(m)
      jax.effects_barrier()
      xm = np.asarray(m['images'])
      ctx.check(np.array_equal(m['labels'], y) and int(m['args'][0]) == 3 and int(m['kw']['extra']) == 4, f'{info}: the step got other labels or arguments')
      ctx.check(np.all(np.abs(xm - x) <= eps * (1 + 1e-4) + 1e-6), f'{info}: a pixel changed by {np.abs(xm - x).max()}')
      ctx.event('budget_checked')
      follow(ctx, info, p, x, y, xm, eps, updates, aux, names)
      ctx.event('aux_attacked' if aux else 'aux_not_attacked')
      if names:
        used = {r.tobytes() for g in passes for r in g[2]}
        nxt = {np.asarray(v).tobytes() for v in m['rngs'].values()}
        ctx.check(set(m['rngs']) == set(names) and not (used & seen) and not (nxt & (seen | used)), f'{info}: random keys are used again (step {t})')
        seen |= used | nxt
        ctx.event('keys_distinct')
      ctx.check(int(new.step) == t + 1 and all(np.array_equal(new.params[k], p[k]) for k in p), f'{info}: the attack changed the state')
      ctx.event('wrapped_step')
      ctx.event('attack_checked')
      state = new
    for kw in (dict(max_epsilon=0., num_updates=2), dict(max_epsilon=0.1, num_updates=0)):
      st2, m = trainer.wrap_train_step_with_adversarial_attack(inner, loss_fn, attack_auxiliary_loss=aux, **kw)(state, jnp.asarray(x), jnp.asarray(y))
      ctx.check(np.array_equal(m['images'], x) and all(np.array_equal(m['rngs'][k], state.rngs[k]) for k in names), f'{info}: {kw} must disable the attack')
      ctx.event('disabled')
      del st2

  for i in range(spec['n']):
    ctx.run_case(f'c{i}', case, i)
    ctx.run_case(f'w{i}', wrapped, i)
