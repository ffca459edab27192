"""P14: soft routing mixes all items convexly, per group."""

RULE = ('random inputs (tiny and huge norms included), slots per expert given or from the capacity factor, noise on/off, scale '
        'parameter; dispatch and combine operators recovered with identity inputs (bfloat16 precision) and compared with softmax '
        'definitions; metrics recomputed; recovered operators never mix groups; distinct by (G,S,E,P,noise)')
REQUIRED = {'operator_observed': 25, 'convex': 50, 'metric_checked': 60, 'noisy': 8, 'slots_checked': 25, 'scale_invariant': 10}


def specs(tier):
  n = 8 if tier == 'quick' else 250
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(6)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import numpy as np
  from vmoe.projects.soft_moe import router as soft
  from vlib import moe_obs

  def smax(x, axis):
    x = np.exp(x - x.max(axis=axis, keepdims=True))
    return x / x.sum(axis=axis, keepdims=True)

  def case(ctx, rng, i):
    g, s, e, h = (int(rng.choice([1, 2, 3])), int(rng.choice([2, 3, 5, 8])), int(rng.choice([1, 2, 3, 4])), 6)
    noise = float(rng.choice([0.0, 0.0, 1.0, 3.0]))
    det = bool(rng.random() < 0.4)
    noisy = noise > 0 and not det
    p = int(rng.integers(1, 4)) if rng.random() < 0.5 else None
    factor = float(rng.choice([0.5, 1.0, 2.0, 1.5]))
    slots = {p} if p else moe_obs.capacity_reference(s, e, factor, 'round', 1)
    x = (rng.standard_normal((g, s, h)) * float(rng.choice([0.01, 0.1, 1.0, 30.0]))).astype(np.float32)
    kw = dict(num_experts=e, num_slots=p, capacity_factor=factor, noise_std=noise, deterministic=det,
              compute_similarity_metrics=bool(s > 1))
    router = soft.SoftRouter(**kw)
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    rngs = {'gating': key} if noisy else {}
    info = f'G={g} S={s} E={e} slots={p} factor={factor} noise={noise} deterministic={det}'
    try:
      v = router.init({'params': key, 'gating': key}, x)
    except ValueError:
      ctx.check(None in slots, f'{info}: rejected')
      return
    ctx.check(slots != {None}, f'{info}: zero slots accepted')
    scale = float(rng.choice([1.0, 0.3, 4.0, 4.0 if noisy else 80.0]) * rng.choice([1, 1, -1]))
    mu = rng.standard_normal(v['params']['mu'].shape).astype(np.float32)
    ctx.check(mu.shape[:2] == (h, e) and mu.shape[2] in slots, f'{info}: slot parameters {mu.shape}, expected {slots} slots')
    ctx.event('slots_checked')
    pp = mu.shape[2]
    params = {'params': {'mu': mu, 'scale': np.float32(scale)}}

    def observe(x, rngs=rngs, r=router, params=params):
      disp, metrics = r.apply(params, x, rngs=rngs)
      d, w = moe_obs.observe(disp, g, s)
      d = np.asarray(d, np.float64).reshape(e, g, pp, g, s)
      w = np.asarray(w, np.float64).reshape(g, s, e, g, pp)
      return d, w, jax.tree_util.tree_map(np.asarray, metrics)

    d, w, metrics = observe(x)
    ctx.event('operator_observed')
    off = ~np.eye(g, dtype=bool)
    ctx.check(not d.transpose(1, 3, 0, 2, 4)[off].any() and not w.transpose(0, 3, 1, 2, 4)[off].any(),
              f'{info}: items of different groups are mixed')
    dw = np.stack([d[:, a, :, a] for a in range(g)])           # g, e, p, s
    cw = np.stack([w[a, :, :, a] for a in range(g)])           # g, s, e, p
    ctx.check(dw.min() >= 0 and np.allclose(dw.sum(-1), 1, atol=0.02), f'{info}: slots are not convex combinations of the items')
    ctx.check(cw.min() >= 0 and np.allclose(cw.sum((-1, -2)), 1, atol=0.02), f'{info}: items are not convex combinations of slots')
    ctx.event('convex', 2)
    xn = x.astype(np.float64)
    xn = xn / np.sqrt((xn**2).sum(-1, keepdims=True) + 1e-6)
    mn = mu.astype(np.float64)
    mn = mn / np.sqrt((mn**2).sum(0, keepdims=True) + 1e-6)
    logits = np.einsum('gmd,dnp->gmnp', xn, mn) * scale
    if noisy:
      ctx.event('noisy')
      # The noise is the same in dispatch and combine: log d - log c is separable.
      with np.errstate(divide='ignore'):
        ld, lc = np.log(dw.transpose(0, 3, 1, 2)), np.log(cw)
      n1 = (ld - logits) - (ld - logits).mean(1, keepdims=True)
      n2 = (lc - logits) - (lc - logits).mean((2, 3), keepdims=True)
      if min(dw.min(), cw.min()) > 1e-6:
        both = lambda z: z - z.mean(1, keepdims=True) - z.mean((2, 3), keepdims=True) + z.mean((1, 2, 3), keepdims=True)
        ctx.check(np.allclose(both(n1), both(n2), atol=0.05), f'{info}: dispatch and combine use different noise')
        if s > 2 and e * pp > 2:
          z = both(n1) / np.sqrt((1 - 1 / s) * (1 - 1 / (e * pp))) / noise
          ctx.noise = getattr(ctx, 'noise', []) + [z.ravel()]
      again = observe(x)
      ctx.check(np.array_equal(again[1], w), f'{info}: same key, different routing')
      other = observe(x, rngs={'gating': jax.random.fold_in(key, 3)})
      ctx.check(s * e * pp == 1 or not np.allclose(other[1], w) or not np.allclose(other[0], d), f'{info}: noise ignores the key')
    else:
      ctx.check(np.allclose(dw.transpose(0, 3, 1, 2), smax(logits, 1), rtol=0.02, atol=1e-3),
                f'{info}: dispatch weights are not the softmax over items of the scaled cosine similarities')
      ctx.check(np.allclose(cw, smax(logits, (2, 3)), rtol=0.02, atol=1e-3),
                f'{info}: combine weights are not the softmax over all slots of the scaled cosine similarities')
      # Only directions matter.
      if np.sqrt((x**2).sum(-1)).min() > 0.2:
        d2, w2, _ = observe(x * np.float32(3.0))
        ctx.check(np.allclose(d2, d, rtol=0.03, atol=3e-3) and np.allclose(w2, w, rtol=0.03, atol=3e-3),
                  f'{info}: the norm of the items changes the routing')
        ctx.event('scale_invariant')
    dwt = dw.transpose(0, 3, 1, 2)  # g, s, e, p
    ref = dict(auxiliary_loss=0.0,
               combine_weights_min_mean=cw.min((2, 3)).mean(), combine_weights_max_mean=cw.max((2, 3)).mean(),
               dispatch_weights_min_mean=dwt.min(1).mean(), dispatch_weights_max_mean=dwt.max(1).mean())

    def pairs(z):  # (g, n, dim) -> cosine similarities of distinct pairs
      z = z / np.sqrt((z**2).sum(-1, keepdims=True) + 1e-9)
      sim = np.einsum('gnd,gmd->gnm', z, z)
      return sim[:, ~np.eye(z.shape[1], dtype=bool)]
    if kw['compute_similarity_metrics']:
      todo = [('combine_weights', cw.reshape(g, s, -1))]
      if e * pp > 1:
        todo += [('dispatch_weights', dwt.reshape(g, s, -1).transpose(0, 2, 1)), ('mu', mn.reshape(1, h, -1).transpose(0, 2, 1))]
      for name, z in todo:
        sim = pairs(z)
        ref[f'{name}_similarity_mean'] = sim.mean()
        ref[f'{name}_similarity_min'] = sim.min()
        if sim.max() > 0:
          ref[f'{name}_similarity_max'] = sim.max()
    for name, val in ref.items():
      ctx.check(name in metrics and np.shape(metrics[name]) == () and np.allclose(metrics[name], val, rtol=0.02, atol=8e-3),
                f'{info}: metric {name} is {metrics.get(name)}, recomputed {val}')
      ctx.event('metric_checked')
    ctx.distinct_case(g, s, e, pp, noise, det, scale)
    ctx.sample(dict(G=g, S=s, E=e, slots=pp, noise=noise, deterministic=det))

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)

  def scale(ctx, rng):
    del rng
    r = np.concatenate(getattr(ctx, 'noise', [np.zeros(0)]))
    if r.size >= 200:
      ctx.check(0.7 < r.std() < 1.3, f'noise has relative standard deviation {r.std():.3f} instead of noise_std')
      ctx.event('noise_scale')
  if ctx.job.get('only_case') is None:
    ctx.run_case('noise_scale', scale)
