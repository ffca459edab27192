"""P12: router gates, noise and auxiliary losses are the documented functions of inputs and parameters."""

RULE = ('random inputs/kernels for the experts-per-item and items-per-expert routers over E, K, noise level, loss weights, '
        'deterministic or not; the full gate matrix is observed through the combine operator (K=E, ample capacity), the drawn '
        'noise is recorded at the random-number library boundary; oracle: NumPy softmax, losses recomputed per group; gradient '
        'of the weighted losses is that of their definition and stays finite when perfectly balanced; distinct by (router, E, K, noise, weights)')
REQUIRED = {'gates_observed': 30, 'noisy': 10, 'deterministic': 5, 'loss_checked': 30, 'noise_sample': 500, 'little_noise': 2,
            'routing_from_gates': 15, 'degenerate_gradient': 8, 'gradient_checked': 6}


def specs(tier):
  n = 9 if tier == 'quick' else 250
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(6)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import jax.numpy as jnp
  import numpy as np
  import scipy.stats
  from vmoe.nn import routing
  from vlib import moe_obs
  draws = []
  normal = jax.random.normal

  def recording_normal(*a, **k):
    r = normal(*a, **k)
    if not isinstance(r, jax.core.Tracer):
      draws.append(np.asarray(r))
    return r
  jax.random.normal = recording_normal

  def softmax(x):
    x = np.exp(x - x.max(-1, keepdims=True))
    return x / x.sum(-1, keepdims=True)

  def cv2(x):
    return (x.std() / x.mean())**2

  def full_gates(router, params, x, rngs):
    g, s, _ = x.shape
    draws.clear()
    disp, metrics = router.apply(params, x, rngs=rngs)
    d, w = jax.tree_util.tree_map(np.asarray, moe_obs.observe(disp, g, s))
    return w.sum(-1).reshape(g, s, -1), jax.tree_util.tree_map(np.asarray, metrics), list(draws)

  def case(ctx, rng, i):
    e = int(rng.choice([1, 2, 3, 4, 8, 13, 33]))
    g, s, h = int(rng.choice([1, 2, 4])), int(rng.choice([4, 8, 12, 80])), 6
    k = int(rng.integers(1, e + 1))
    items = bool(i % 4 == 3)
    noise = float(rng.choice([0.0, 0.5, 1.0, 4.0]))
    det = bool(rng.random() < 0.35)
    noisy = not det and noise > 0
    weights = [float(rng.choice([0.0, 0.3, 1.0, 2.0])) for _ in range(3)]
    if rng.random() < 0.3:
      weights = [w * 5e-4 for w in weights]
    x = rng.standard_normal((g, s, h)).astype(np.float32)
    kernel = (rng.standard_normal((h, e)) * float(rng.choice([0.2, 1.0]))).astype(np.float32)
    params = {'params': {'dense': {'kernel': kernel}}}
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    rngs = {'gating': key} if noisy else {}
    info = f'{"items" if items else "experts"} router E={e} K={k} noise={noise} deterministic={det} weights={weights}'
    if items:
      make = lambda kk: routing.NoisyTopItemsPerExpertRouter(
          num_experts=e, noise_std=noise, deterministic=det, dispatcher=dict(name='einsum', capacity=s))
    else:
      make = lambda kk: routing.NoisyTopExpertsPerItemRouter(
          num_experts=e, num_selected_experts=kk, noise_std=noise, deterministic=det, gshard_loss_weight=weights[0],
          importance_loss_weight=weights[1], load_loss_weight=weights[2],
          dispatcher=dict(name='einsum', batch_priority=False, capacity=s))
    gates, metrics, drawn = full_gates(make(e), params, x, rngs)
    first_draw = drawn[0] if drawn else None
    ctx.event('gates_observed')
    logits = x.astype(np.float64) @ kernel
    clean = softmax(logits)
    if not noisy:
      ctx.event('deterministic')
      ctx.check(np.allclose(gates, clean, rtol=1e-4, atol=1e-5), f'{info}: gates are not the softmax of the logits')
      again, _, _ = full_gates(make(e), params, x, {'gating': key})
      ctx.check(np.array_equal(gates, again), f'{info}: a deterministic router depends on the random key')
      zn = logits
    else:
      ctx.event('noisy')
      again, _, _ = full_gates(make(e), params, x, rngs)
      ctx.check(np.array_equal(gates, again), f'{info}: the same key gave different gates')
      other, _, _ = full_gates(make(e), params, x, {'gating': jax.random.fold_in(key, 1)})
      if e > 1:
        ctx.check(not np.allclose(gates, other), f'{info}: a different key gave the same gates')
        r = np.log(np.maximum(gates, 1e-30)) - np.log(clean)
        r = (r - r.mean(-1, keepdims=True)) * e / noise / np.sqrt(1 - 1 / e)
        if gates.min() > 1e-12:
          ctx.event('noise_sample', r.size)
          ctx.noise = getattr(ctx, 'noise', []) + [r.ravel() * 1.0]
          # every item gets its own draw
          ctx.check(g * s < 2 or np.abs(r.reshape(g * s, e)[0] - r.reshape(g * s, e)[1:]).min(0).max() > 1e-4,
                    f'{info}: different items received the same noise')
      zn = None
      if len(drawn) == 1 and drawn[0].shape == logits.shape:
        zn = logits + drawn[0] * noise / e
        ctx.check(np.allclose(gates, softmax(zn), rtol=1e-3, atol=1e-5),
                  f'{info}: gates are not the softmax of logits plus noise of standard deviation noise_std / experts')
        ctx.event('noise_exact')
    if items:
      ctx.check(np.all(metrics['auxiliary_loss'] == 0), f'{info}: unexpected auxiliary loss')
    else:
      # Losses, on each group independently.
      imp = np.array([cv2(clean[a].sum(0)) for a in range(g)])
      hard = np.stack([np.eye(e)[gates[a].argmax(1)].mean(0) for a in range(g)])
      gsh = (hard * gates.mean(1)).mean(-1) * e**2
      ref = {'importance_loss': imp, 'gshard_loss': gsh}
      total = weights[0] * gsh + weights[1] * imp
      if noisy and zn is not None:
        thr = np.sort(zn, axis=-1)[..., -e][..., None]   # num_selected_experts = E in this run
        p = 1 - scipy.stats.norm.cdf((thr - logits) / (noise / e))
        ref['load_loss'] = np.array([cv2(p[a].mean(0)) for a in range(g)])
        total = total + weights[2] * ref['load_loss']
      elif noisy:
        total = None
      else:
        ctx.check('load_loss' not in metrics, f'{info}: load loss reported without noise')
      for name, v in ref.items():
        ctx.check(np.shape(metrics[name]) == v.shape and np.allclose(metrics[name], v, rtol=5e-3, atol=1e-5),
                  f'{info}: {name}={metrics[name]}, expected {v}')
        ctx.event('loss_checked')
      if total is not None:
        ctx.check(np.allclose(metrics['auxiliary_loss'], total, rtol=5e-3, atol=1e-5 * max(1e-3, *weights)),
                  f'{info}: auxiliary loss {metrics["auxiliary_loss"]} is not the weighted sum {total}')
      # With fewer selected experts: the routing follows these gates; load loss uses the K-th threshold.
      if k < e:
        draws.clear()
        cap = int(rng.integers(1, s + 1))
        bp = bool(rng.random() < .5)
        r2 = make(k).clone(dispatcher=dict(name=['einsum', 'indices'][rng.integers(2)], batch_priority=bp, capacity=cap))
        disp, m2 = r2.apply(params, x, rngs=rngs)
        drawn = list(draws)
        d, w = jax.tree_util.tree_map(np.asarray, moe_obs.observe(disp, g, s))
        srt = np.sort(gates, axis=-1)
        mx = np.sort(gates.max(-1), axis=-1)
        if np.diff(srt, axis=-1).min() > 1e-7 and (not bp or s == 1 or np.diff(mx, axis=-1).min() > 1e-7):
          want = np.stack([moe_obs.greedy_assignment(gates[a], k, cap, bp) for a in range(g)])
          got = (d.sum(1) > 0).T.reshape(g, s, e)
          ctx.check(np.array_equal(got, want), f'{info}: the routing does not follow the gates (capacity={cap}, priority={bp})')
          ctx.check(np.allclose(w.sum(-1).reshape(g, s, e), gates * want, rtol=1e-4, atol=1e-6),
                    f'{info}: the outputs are not combined with the gates')
          ctx.event('routing_from_gates')
        if noisy and len(drawn) == 1 and drawn[0].shape == logits.shape:
          zn = logits + drawn[0] * noise / e
          thr = np.sort(zn, axis=-1)[..., -k][..., None]
          p = 1 - scipy.stats.norm.cdf((thr - logits) / (noise / e))
          want = np.array([cv2(p[a].mean(0)) for a in range(g)])
          ctx.check(np.allclose(m2['load_loss'], want, rtol=5e-3, atol=1e-4),
                    f'{info}: load loss {m2["load_loss"]}, expected {want}')
          ctx.event('loss_checked')
      if i % 2 == 0:
        # The gradient of any weighted sum of the losses is finite, even if the experts are perfectly balanced; losses with zero weight are never in it.
        zw = [float(rng.choice([0.0, 1.0, 0.5])) for q in range(3)]
        r3 = make(e).clone(gshard_loss_weight=zw[0], importance_loss_weight=zw[1], load_loss_weight=zw[2])
        def total_loss(kern):
          _, m = r3.apply({'params': {'dense': {'kernel': kern}}}, x, rngs=rngs)
          return jnp.sum(jnp.asarray(m['auxiliary_loss'], jnp.float32))
        grad_fn = jax.jit(jax.grad(total_loss))
        grad = grad_fn(jnp.zeros_like(kernel))
        ctx.check(bool(np.all(np.isfinite(grad))), f'{info}: non-finite gradient of balanced losses with weights {zw}')
        ctx.event('degenerate_gradient')
        if not noisy or zn is not None:
          def reference(kern):
            z = jnp.asarray(x) @ kern
            zz = z + (jnp.asarray(first_draw) * noise / e if noisy else 0.)
            q, qn = jax.nn.softmax(z), jax.nn.softmax(zz)
            cv = lambda v: jnp.var(v, axis=-1) / jnp.mean(v, axis=-1)**2
            out = zw[0] * jnp.sum(jnp.mean(jnp.mean(jax.nn.one_hot(qn.argmax(-1), e), axis=1) * qn.mean(1), -1)) * e**2
            out = out + zw[1] * jnp.sum(cv(q.sum(1)))
            if noisy:
              t = jnp.min(zz, axis=-1, keepdims=True)
              out = out + zw[2] * jnp.sum(cv((1 - jax.scipy.stats.norm.cdf((t - z) / (noise / e))).mean(1)))
            return out
          with jax.default_matmul_precision('highest'):
            ref_grad = np.asarray(jax.jit(jax.grad(reference))(jnp.asarray(kernel)))
          grad = np.asarray(grad_fn(jnp.asarray(kernel)))
          ctx.check(np.allclose(grad, ref_grad, rtol=2e-2, atol=2e-3 * max(1., np.abs(ref_grad).max())), lambda: f'{info}: gradient of the losses with weights {zw} differs from that of their definition by {np.abs(grad - ref_grad).max()} of {np.abs(ref_grad).max()}')
          ctx.event('gradient_checked')
    ctx.distinct_case(items, e, k, noise, det, tuple(weights), g, s)
    ctx.sample(dict(router='items' if items else 'experts', E=e, K=k, noise=noise, deterministic=det, weights=weights))

  def little_noise(ctx, rng, i):
    e, g, s, h = int(rng.choice([2, 3, 4, 8])), int(rng.choice([1, 2])), int(rng.choice([4, 8])), 6
    noise = float(10.0 ** rng.uniform(-3, -0.5))
    weights = [float(rng.choice([0.3, 1.0])) for _ in range(3)]
    k = int(rng.integers(1, e))
    x = rng.standard_normal((g, s, h)).astype(np.float32)
    kernel = rng.standard_normal((h, e)).astype(np.float32)
    params = {'params': {'dense': {'kernel': kernel}}}
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    info = f'router E={e} K={k} noise={noise} weights={weights}'
    r = routing.NoisyTopExpertsPerItemRouter(
        num_experts=e, num_selected_experts=e, noise_std=noise, deterministic=False, gshard_loss_weight=weights[0],
        importance_loss_weight=weights[1], load_loss_weight=weights[2], dispatcher=dict(name='einsum', batch_priority=False, capacity=s))
    gates, metrics, drawn = full_gates(r, params, x, {'gating': key})
    other, _, _ = full_gates(r, params, x, {'gating': jax.random.fold_in(key, 1)})
    ctx.check(not np.array_equal(gates, other), f'{info}: a different key gave the same gates')
    logits = x.astype(np.float64) @ kernel
    z = np.log(np.maximum(gates, 1e-30)) - np.log(softmax(logits))
    if noise > 0.02 and gates.min() > 1e-6:
      sd = (z - z.mean(-1, keepdims=True)).std() * e / noise / np.sqrt(1 - 1 / e)
      ctx.check(0.4 < sd < 2.0, f'{info}: the noise has {sd} times the expected standard deviation')
    if len(drawn) == 1 and drawn[0].shape == logits.shape:
      ctx.check(np.allclose(gates, softmax(logits + drawn[0] * noise / e), rtol=1e-4, atol=1e-6), f'{info}: gates are not the softmax of the noisy logits')
    _, m2 = r.clone(num_selected_experts=k).apply(params, x, rngs={'gating': key})
    for m in (metrics, m2):
      ctx.check('load_loss' in m and np.all(np.isfinite(m['load_loss'])), f'{info}: the load loss is {m.get("load_loss")}')
      ctx.check(np.allclose(m['auxiliary_loss'], sum(w * np.asarray(m[n]) for w, n in zip(weights, ('gshard_loss', 'importance_loss', 'load_loss'))), rtol=1e-3),
                f'{info}: the auxiliary loss {m["auxiliary_loss"]} is not the weighted sum of the losses')
    ctx.event('little_noise')
    ctx.distinct_case('little', e, k, g, s, round(noise, 4))

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
  for i in range(max(2, spec['n'] // 6)):
    ctx.run_case(f'little{i}', little_noise, i)

  def scale(ctx, rng):
    del rng
    r = np.concatenate(getattr(ctx, 'noise', [np.zeros(0)]))
    if r.size < 300:
      return
    ctx.check(abs(r.std() - 1) < 0.3 and abs(r.mean()) < 0.3,
              f'noise has relative standard deviation {r.std():.3f} (mean {r.mean():.3f}) instead of noise_std / experts')
  if ctx.job.get('only_case') is None:
    ctx.run_case('noise_scale', scale)
