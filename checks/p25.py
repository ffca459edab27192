"""P25: every optimizer step applies the documented chain of transformations to each parameter."""

RULE = ('random parameter trees (nested dicts in any key order, FrozenDicts, factored and unfactored shapes, float32/bfloat16 momentum) and '
        'gradients (normal, huge, zero), random regex rules for scaling, decay and freezing, clipping, optimizers, schedules; several steps '
        'eagerly, jitted and through TrainState; oracle: NumPy float64 implementation of the chain by path; distinct by (optimizer, rules, tree)')
REQUIRED = {'step_checked': 150, 'leaf_checked': 700, 'frozen_leaf': 40, 'decayed_leaf': 150, 'scaled_leaf': 60, 'clipped': 40, 'adam': 15, 'sgd': 15, 'adafactor': 15,
            'factored': 15, 'norms_checked': 40, 'eager': 15, 'unordered': 4, 'lr_reported': 40, 'conflict_rejected': 8, 'first_rule_wins': 20}


def specs(tier):
  n = 12 if tier == 'quick' else 250
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(6)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import re
  import flax
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmoe.train import optimizer
  from vmoe.train import train_state

  words = ['Encoder', 'Moe', 'Mlp', 'kernel', 'bias', 'head', 'Router', 'block_1', 'block_11']

  def tree(rng, depth):
    out = {}
    for k in rng.choice(words, size=int(rng.integers(1, 4)), replace=False).tolist():
      if depth and rng.random() < 0.6:
        out[k] = tree(rng, depth - 1)
      else:
        shape = [(), (3,), (2, 3), (4, 3), (5, 6), (2, 4, 6), (6, 2, 5), (1, 1)][rng.integers(8)]
        out[k] = rng.normal(size=shape).astype(np.float32)
    return out

  def flat(t, prefix=()):
    if hasattr(t, 'items'):
      out = {}
      for k, v in t.items():
        out |= flat(v, prefix + (k,))
      return out
    return {'/'.join(prefix): np.asarray(t, np.float64)}

  def like(t, fn):
    if hasattr(t, 'items'):
      return {k: like(v, fn) for k, v in t.items()}
    return fn(t)

  def reorder(rng, t):
    if not hasattr(t, 'items'):
      return t
    keys = list(t)
    return {keys[j]: reorder(rng, t[keys[j]]) for j in rng.permutation(len(keys))}

  def regexes(rng, values):
    out = []
    for _ in range(int(rng.integers(1, 4))):
      a, b = rng.choice(words, size=2).tolist()
      out.append(([a, f'{a}/{b}', f'^{a}', f'{b}$', f'({a}|{b})', '.*'][rng.integers(6)], float(rng.choice(values))))
    return out

  def first(rules, key, default):
    hits = [v for r, v in rules if re.search(r, key)]
    if len(set(hits)) > 1:
      ctx.event('first_rule_wins')
    return hits[0] if hits else default

  class Reference:
    """The chain, in float64 and by path."""

    def __init__(self, cfg, params):
      self.cfg, self.t = cfg, 0
      self.m = {k: np.zeros_like(v) for k, v in params.items()}
      self.v = {k: np.zeros_like(v) for k, v in params.items()}
      self.row, self.col = {}, {}

    def factored(self, shape):
      if len(shape) < 2:
        return None
      order = np.argsort(shape)
      if shape[order[-2]] < self.cfg['optim'].get('min_dim_size_to_factor', 32):
        return None
      return int(order[-2]), int(order[-1])

    def update(self, g, p, lr):
      c, o = self.cfg, self.cfg['optim']
      g = dict(g)
      if c['scale']:
        for k in g:
          s = first(c['scale'], k, 1.0)
          if s != 1.0:
            ctx.event('scaled_leaf')
          g[k] = g[k] * s
      if c['clip'].get('global_norm'):
        n = np.sqrt(sum((v**2).sum() for v in g.values()))
        if n > c['clip']['global_norm']:
          g = {k: v * c['clip']['global_norm'] / n for k, v in g.items()}
          ctx.event('clipped')
      elif c['clip'].get('absolute_value'):
        a = c['clip']['absolute_value']
        if any(np.abs(v).max(initial=0) > a for v in g.values()):
          ctx.event('clipped')
        g = {k: np.clip(v, -a, a) for k, v in g.items()}
      self.t += 1
      if c['name'] == 'adam':
        b1, b2, eps = o.get('b1', .9), o.get('b2', .999), o.get('eps', 1e-8)
        for k in g:
          self.m[k] = b1 * self.m[k] + (1 - b1) * g[k]
          self.v[k] = b2 * self.v[k] + (1 - b2) * g[k]**2
        g = {k: self.m[k] / (1 - b1**self.t) / (np.sqrt(self.v[k] / (1 - b2**self.t)) + eps) for k in g}
      elif c['name'] == 'sgd':
        if o.get('momentum'):
          for k in g:
            self.m[k] = g[k] + o['momentum'] * self.m[k]
            g[k] = g[k] + o['momentum'] * self.m[k] if o.get('nesterov') else self.m[k]
      else:
        rate = min(o.get('decay_rate_max', 0.999), 1.0 - float(self.t - o.get('decay_offset', 0))**-o.get('decay_rate', 0.8))
        for k in g:
          sq = g[k]**2 + o.get('eps', 1e-30)
          dims = self.factored(g[k].shape)
          if dims:
            d1, d0 = dims
            self.row[k] = rate * self.row.get(k, 0) + (1 - rate) * sq.mean(d0)
            self.col[k] = rate * self.col.get(k, 0) + (1 - rate) * sq.mean(d1)
            r1 = d1 - 1 if d1 > d0 else d1
            rf = (self.row[k] / self.row[k].mean(r1, keepdims=True))**-0.5
            u = g[k] * np.expand_dims(rf, d0) * np.expand_dims(self.col[k]**-0.5, d1)
            ctx.event('factored')
          else:
            self.v[k] = rate * self.v[k] + (1 - rate) * sq
            u = g[k] * self.v[k]**-0.5
          mom = o.get('momentum', 0.9)
          if mom:
            self.m[k] = mom * self.m[k] + (1 - mom) * u
            u = self.m[k]
          g[k] = u
      for k in g:
        wd = c['decay'] if isinstance(c['decay'], float) else (first(c['decay'], k, 0.0) if c['decay'] else 0.0)
        if wd:
          ctx.event('decayed_leaf')
        g[k] = g[k] + wd * p[k]
      g = {k: -lr * v for k, v in g.items()}
      for k in g:
        hit = c['pattern'] and any(re.search(r, k) for r in ([c['pattern']] if isinstance(c['pattern'], str) else c['pattern']))
        frozen = (c['freeze'] == 'frozen' and hit) or (c['freeze'] == 'trainable' and not hit)
        if frozen:
          g[k] = np.zeros_like(g[k])
          ctx.event('frozen_leaf')
      return g

  def case(ctx, rng, i):
    params = tree(rng, 2)
    name = ['adam', 'sgd', 'big_vision_adafactor'][i % 3]
    ctx.event({'big_vision_adafactor': 'adafactor'}.get(name, name))
    if name == 'adam':
      optim = [{}, dict(b1=0.8, b2=0.9), dict(b2=0.99, eps=1e-4)][rng.integers(3)]
    elif name == 'sgd':
      optim = [{}, dict(momentum=0.9), dict(momentum=0.5, nesterov=True), dict(momentum=0.)][rng.integers(4)]
    else:
      optim = [dict(min_dim_size_to_factor=4), dict(momentum=0.5, min_dim_size_to_factor=3, decay_rate=0.7), {}, dict(momentum=0., min_dim_size_to_factor=5, decay_rate_max=0.3),
               dict(min_dim_size_to_factor=4, decay_offset=-4)][rng.integers(5)]
    clip = [{}, {}, dict(global_norm=float(rng.choice([0.1, 1., 100.]))), dict(absolute_value=float(rng.choice([0.01, 0.5, 10., 5e3])))][rng.integers(4)]
    decay = [None, 0.1, 1e-3, regexes(rng, [0.0, 0.05, 0.3]), regexes(rng, [0.05, 0.3]), [[str(rng.choice(words)), 0.0], ['.*', 0.2]]][rng.integers(6)]
    scale = [None, None, regexes(rng, [0.0, 2.0, 8.0, 1.0]), [[str(rng.choice(words)), 1.0], ['.*', 0.5]]][rng.integers(4)]
    freeze = [None, None, 'frozen', 'trainable'][rng.integers(4)]
    a, b = rng.choice(words, size=2).tolist()
    pattern = [a, f'{a}|{b}', [a, b], [f'^{a}', f'{b}$'], (a,)][rng.integers(5)] if freeze else None
    lr = [0.1, 1, 1e-3, dict(schedule='warmup_linear_decay', peak_value=0.3, end_value=0.01, warmup_steps=2), dict(schedule='constant', value=0.05)][rng.integers(5)]
    cfg = dict(name=name, optim=optim, clip=clip, decay=decay, scale=scale, freeze=freeze, pattern=pattern)
    kw = dict(optim)
    if clip or rng.random() < 0.3:
      kw['gradient_clip'] = clip or None
    if decay is not None:
      kw['weight_decay'] = decay
    if scale is not None:
      kw['gradient_scale'] = scale
    if freeze:
      kw[f'{freeze}_pattern'] = pattern
    total = 6
    tx = optimizer.create_optimizer(name=name, total_steps=total, learning_rate=lr, **kw)
    info = f'{name} {kw}, lr {lr}, params {list(flat(params))}'

    def lr_at(t):
      if not isinstance(lr, dict):
        return lr
      if lr['schedule'] == 'constant':
        return lr['value']
      w = lr['warmup_steps']
      return lr['peak_value'] * t / w if t < w else lr['peak_value'] + (lr['end_value'] - lr['peak_value']) * min(1, (t - w) / (total - w))

    mode = ['eager', 'jit', 'state', 'jit_state'][rng.integers(4)] if name != 'adam' or rng.random() < .7 else 'jit'
    frozen_dict = rng.random() < 0.25
    ordered = rng.random() < 0.5
    ref = Reference(cfg, flat(params))
    if mode in ('eager', 'state') and not ordered:
      params = reorder(rng, params)
    wrap = flax.core.freeze if frozen_dict else (lambda t: t)
    cur = wrap(jax.tree_util.tree_map(jnp.asarray, params) if ordered else like(params, jnp.asarray))
    if mode in ('eager', 'state'):
      ctx.event('eager')
      if list(flat(cur)) != sorted(flat(cur)):
        ctx.event('unordered')
    if 'state' in mode:
      st = train_state.TrainState.create(apply_fn=None, params=cur, tx=tx, rngs={'dropout': jax.random.PRNGKey(1)})
      step_fn = lambda s, g: s.apply_gradients_and_compute_global_norms(g, rngs=s.rngs)
      step_fn = jax.jit(step_fn) if mode == 'jit_state' else step_fn
    else:
      opt_state = tx.init(cur)
      upd = jax.jit(tx.update) if mode == 'jit' else tx.update
    want = {k: np.asarray(v, np.float64) for k, v in flat(params).items()}
    noise = 0.0
    for t in range(4):
      size = float(rng.choice([1., 1e-3, 30., 1e4]))
      # Gradients come from jax transformations: their dictionaries are sorted.
      g = like(params, lambda v: np.where(rng.random(v.shape) < 0.9, rng.normal(size=v.shape) * size, 0.0 if name == 'sgd' else 1e-3).astype(np.float32))
      grads = wrap(jax.tree_util.tree_map(jnp.asarray, g))
      before = dict(want)
      u = ref.update(flat(g), want, lr_at(t))
      want = {k: want[k] + u[k] for k in want}
      if 'state' in mode:
        st, norms = step_fn(st, grads)
        got = flat(st.params)
        ctx.check(int(st.step) == t + 1, f'{info}: step is {int(st.step)} after {t + 1} updates')
        for nm, vals in (('grads', flat(g)), ('updates', u), ('params', want)):
          n = np.sqrt(sum((v**2).sum() for v in vals.values()))
          ctx.check(abs(float(norms[nm]) - n) <= 2e-3 * max(n, 1e-3) + 1e-6, f'{info}: norm of the {nm} is {norms[nm]}, expected {n}')
        ctx.event('norms_checked')
        os_ = st.opt_state
      else:
        upd_v, opt_state = upd(grads, opt_state, cur)
        ctx.check(set(flat(upd_v)) == set(want), f'{info}: updates for {sorted(flat(upd_v))}')
        cur = jax.tree_util.tree_map(lambda p, q: p + q, cur, upd_v)
        got = flat(cur)
        os_ = opt_state
      noise = 2e-5
      for k in want:
        tol = 3e-3 * np.abs(u[k]) + noise * np.maximum(np.abs(want[k]), np.abs(before[k])) + 2e-5 * lr_at(t) + 1e-7
        err = np.abs(got[k] - want[k])
        ctx.check(got[k].shape == want[k].shape and np.all(err <= tol), lambda: f'{info} ({mode}): after step {t} {k} is {got[k]}, expected {want[k]} (from {before[k]})')
        ctx.event('leaf_checked')
        if not np.any(u[k]):
          ctx.check(np.array_equal(got[k], before[k]) or np.allclose(got[k], before[k], rtol=1e-6, atol=0), f'{info}: frozen {k} changed')
      want = {k: got[k].copy() for k in want}  # Judge every step on its own.
      found = [float(s.hyperparams['learning_rate']) for s in jax.tree_util.tree_leaves(os_, is_leaf=lambda x: hasattr(x, 'hyperparams')) if hasattr(s, 'hyperparams')]
      ctx.check(found and abs(found[0] - lr_at(t)) <= 1e-6, f'{info}: reported learning rate {found}, expected {lr_at(t)} at step {t}')
      ctx.event('lr_reported')
      ctx.event('step_checked')
    ctx.distinct_case(info, mode)
    ctx.sample(info)
    for bad in (dict(frozen_pattern='a', trainable_pattern='b'), dict(gradient_clip=dict(global_norm=1., absolute_value=1.))):
      try:
        optimizer.create_optimizer(name='sgd', total_steps=3, learning_rate=0.1, **bad)
      except ValueError:
        ctx.event('conflict_rejected')
      else:
        ctx.check(False, f'{bad} was accepted')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
