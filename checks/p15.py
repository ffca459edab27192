"""P15: optimal-transport routers route by a valid, (k-sparse) transport plan of their own logits."""

RULE = ('random inputs/kernels for the five transport routers (Sinkhorn, L-BFGS, k-sparse rows, k-sparse columns, quadratic), noise '
        'on/off, own-plan or softmax combine weights; the plan is observed through the combine operator (all experts selected, '
        'ample capacity); oracle: marginals, sparsity, separability of plan minus similarity on the support (optimality), NumPy '
        'Sinkhorn; routing with limited K/capacity against greedy/sort selection on the observed plan; distinct by parameters')
REQUIRED = {'plan_observed': 15, 'marginals_checked': 15, 'sparse_plan': 4, 'separable': 8, 'softmax_combine': 8, 'noisy': 2,
            'selection_checked': 5, 'loss_checked': 2, 'metric_checked': 10, 'unsupported_rejected': 2, 'bfloat16': 4, 'rounded_capacity': 1}


def specs(tier):
  n = 4 if tier == 'quick' else 60
  return [dict(name=f'{k}{j}', kind=k, devices=1, n=n if k != 'lbfgs' else n // 3)
          for k, m in (('klx', 2), ('kli', 1), ('lbfgs', 1), ('ksx', 2), ('ksi', 1), ('sq', 1)) for j in range(m)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import numpy as np
  from vmoe.projects.sparsity_constrained_ot import kl_projection_routing as kl
  from vmoe.projects.sparsity_constrained_ot import ksparse_projection_routing as ks
  from vmoe.projects.sparsity_constrained_ot import sparse_projection_routing as sq
  from vlib import moe_obs
  import scipy.stats
  kind = spec['kind']
  draws = []
  normal = jax.random.normal

  def recording_normal(*a, **k):
    r = normal(*a, **k)
    if not isinstance(r, jax.core.Tracer):
      draws.append(np.asarray(r))
    return r
  jax.random.normal = recording_normal

  def smax(x):
    x = np.exp(x - x.max(-1, keepdims=True))
    return x / x.sum(-1, keepdims=True)

  def cv2(x):
    return (x.std() / x.mean())**2

  def sinkhorn(z, iters=5000):
    z = np.exp(z - z.max())
    s, e = z.shape
    v = np.ones(e)
    for _ in range(iters):
      u = 1.0 / (z @ v)
      v = (s / e) / (z.T @ u)
    return u[:, None] * z * v[None]

  def residual(diff, supp):
    """Least-squares residual of diff ~ a_i + b_j on the support."""
    s, e = diff.shape
    rows = np.argwhere(supp)
    a = np.zeros((len(rows), s + e))
    a[np.arange(len(rows)), rows[:, 0]] = 1
    a[np.arange(len(rows)), s + rows[:, 1]] = 1
    y = diff[supp]
    sol = np.linalg.lstsq(a, y, rcond=None)[0]
    return np.abs(a @ sol - y).max()

  def case(ctx, rng, i):
    e = int(rng.choice([2, 3, 4]))
    s = e * int(rng.choice([2, 3])) if kind in ('klx', 'lbfgs', 'ksx') else 4 * int(rng.choice([1, 2, 3]))
    g, h = int(rng.choice([1, 2])), 5
    experts_per_item = kind in ('klx', 'lbfgs', 'ksx')
    k = int(rng.integers(1, e)) if i % 2 == 0 else 1
    x = rng.standard_normal((g, s, h)).astype(np.float32)
    kernel = (rng.standard_normal((h, e)) * 0.5).astype(np.float32)
    params = {'params': {'dense': {'kernel': kernel}}}
    noise = float(rng.choice([1.0, 2.0])) if kind in ('klx', 'kli', 'lbfgs') and i % 2 == 1 else 0.0
    det = noise == 0.0 or (kind == 'kli' and bool(rng.random() < 0.2))
    noisy = noise > 0 and not det
    weights = (float(rng.choice([0.0, 0.5, 1.0])), float(rng.choice([0.0, 0.5, 1.0])))
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    rngs = {'gating': key} if noisy else {}
    info = f'{kind} G={g} S={s} E={e} K={k} noise={noise} deterministic={det}'
    logits = x.astype(np.float64) @ kernel

    def make(selected, cap, softmax, factor=None, name='einsum', multiple=1, **disp_extra):
      common = dict(num_experts=e, deterministic=det, noise_std=noise, use_softmax_combine_weights=softmax)
      if experts_per_item:
        disp = dict(name=name, batch_priority=False, capacity=cap, **disp_extra)
        if kind == 'klx':
          return kl.KLProjectionNoisyTopExpertsPerItemRouter(
              num_selected_experts=selected, dispatcher=disp, maxiter=300, importance_loss_weight=weights[0],
              load_loss_weight=weights[1], **common)
        if kind == 'lbfgs':
          return kl.KLProjectionNoisyTopExpertsPerItemRouter(
              num_selected_experts=selected, dispatcher=disp, maxiter=50, use_lbfgs=True, importance_loss_weight=weights[0],
              load_loss_weight=weights[1], **common)
        return ks.KSparseProjectionTransportTopExpertsPerItemRouter(
            num_selected_experts=selected, dispatcher=disp, maxiter=40, adam_lr=0.05, **common)
      disp = dict(name=name, capacity_factor=factor, capacity_multiple_of=multiple, **disp_extra)
      if multiple is None:
        disp.pop('capacity_multiple_of')
      if kind == 'kli':
        return kl.KLProjectionNoisyTopItemsPerExpertRouter(dispatcher=disp, maxiter=300, **common)
      cls = (ks.KSparseProjectionTransportTopItemsPerExpertRouter if kind == 'ksi'
             else sq.SparseProjectionTransportTopItemsPerExpertRouter)
      return cls(dispatcher=disp, maxiter=40 if kind == 'ksi' else 300, adam_lr=0.05, **common)

    def observe(router, rngs=rngs):
      draws.clear()
      disp, metrics = router.apply(params, x, rngs=rngs)
      d, w = moe_obs.observe(disp, g, s)
      return np.asarray(d), np.asarray(w, np.float64).sum(-1).reshape(g, s, e), jax.tree_util.tree_map(np.asarray, metrics)

    # k-sparse experts-per-item: the sparsity is the number of selected experts.
    selected = k if kind == 'ksx' else e
    cap_items = int(rng.integers(1, s)) if kind == 'ksi' else s
    factor = cap_items * e / s
    d, plan, metrics = observe(make(selected, s, False, factor))
    drawn = list(draws)
    sel = (d.sum(1) > 0).T.reshape(g, s, e)
    ctx.event('plan_observed')
    ctx.check(bool(np.isfinite(plan).all()) and plan.min() >= 0, f'{info}: the plan has negative or non-finite entries')
    rows, cols = plan.sum(-1), plan.sum(1)
    ctx.event('marginals_checked')
    if kind in ('klx', 'kli'):
      tol = 1e-3
      ctx.check(np.allclose(rows, 1, atol=tol) and np.allclose(cols, s / e, atol=tol * s),
                f'{info}: marginals of the plan are {rows.tolist()} and {cols.tolist()}')
    elif kind == 'lbfgs':
      ctx.check(np.allclose(rows, 1, atol=0.05) and np.allclose(cols, s / e, atol=0.05 * s),
                f'{info}: marginals of the plan are {rows.tolist()} and {cols.tolist()}')
    elif kind == 'ksx':
      ctx.check(np.allclose(rows, 1, atol=1e-4), f'{info}: rows of the plan sum to {rows.tolist()}')
      nnz = (plan > 0).sum(-1)
      ctx.check(nnz.max() <= k, f'{info}: an item is sent to {nnz.max()} experts')
      ctx.event('sparse_plan')
    elif kind == 'ksi':
      ctx.check(np.allclose(cols, s / e, atol=1e-3), f'{info}: columns of the plan sum to {cols.tolist()}')
      nnz = (plan > 0).sum(1)
      ctx.check(nnz.max() <= cap_items, f'{info}: an expert takes {nnz.max()} items, capacity {cap_items}')
      ctx.event('sparse_plan')
    else:
      err = np.abs(rows - 1).max() + np.abs(cols - s / e).max()
      ctx.check(err < 0.2, f'{info}: marginals of the plan are {rows.tolist()} and {cols.tolist()}')
    # The plan solves the documented problem for these logits.
    sim = smax(logits)
    for a in range(g):
      if kind == 'klx' and not noisy or kind == 'kli' and not noisy:
        ctx.check(np.allclose(plan[a], sinkhorn(logits[a]), rtol=5e-3, atol=1e-3), f'{info}: not the KL projection of the logits')
        ctx.event('separable')
      elif kind == 'lbfgs' and not noisy:
        ctx.check(residual(np.log(plan[a]) - logits[a], plan[a] > 1e-6) < 1e-2, f'{info}: not a scaling of exp(logits)')
        ctx.event('separable')
      elif kind in ('ksx', 'ksi', 'sq'):
        ctx.check(residual(plan[a] - sim[a], plan[a] > 1e-6) < 5e-3,
                  f'{info}: the plan is not optimal for the softmax gates: plan {plan[a].tolist()}')
        ctx.event('separable')
    if kind == 'ksi':
      # The sparsity is the capacity, however it was specified: rounded up to a multiple of 4 (also the default), or exact.
      rounded = -(-cap_items // 4) * 4
      if rounded <= s:
        _, plan4, _ = observe(make(selected, s, False, factor, multiple=[4, None][rng.integers(2)]))
        _, exact, _ = observe(make(selected, s, False, rounded * e / s))
        ctx.check(np.allclose(plan4, exact, atol=1e-4), f'{info}: capacity {cap_items} rounded to {rounded} gives another plan than capacity {rounded}')
        ctx.event('rounded_capacity')
    # Combine weights from the softmax of the same logits.
    d2, comb, m2 = observe(make(selected, s, True, factor))
    sel2 = (d2.sum(1) > 0).T.reshape(g, s, e)
    ctx.check(np.array_equal(sel, sel2), f'{info}: the combine weights change which items are dispatched')
    if i % 2 == 0:
      _, comb16, _ = observe(make(selected, s, True, factor, bfloat16=True))
      ctx.check(np.allclose(comb16, comb, rtol=3e-2, atol=3e-2), f'{info}: combine weights {comb16.tolist()} with bfloat16, {comb.tolist()} without')
      ctx.event('bfloat16')
    if noisy:
      ctx.event('noisy')
      if plan.min() > 1e-6 and sel.all():
        ctx.check(np.allclose(comb.sum(-1), 1, atol=1e-3), f'{info}: combine weights are not a softmax')
        for a in range(g):
          # (L-BFGS stops at a looser tolerance, but its plan is always a scaling.)
          ctx.check(residual(np.log(plan[a]) - np.log(comb[a]), plan[a] > 0) < 2e-2,
                    f'{info}: the plan and the combine weights come from different logits')
        ctx.event('softmax_combine')
        r = np.log(comb) - np.log(sim)
        ctx.check(np.abs(r - r.mean(-1, keepdims=True)).max() > 1e-4, f'{info}: no noise in the combine weights')
        r = (r - r.mean(-1, keepdims=True)) * e / noise / np.sqrt(1 - 1 / e)
        ctx.check(r.size < 12 or 0.35 < r.std() < 2.0, f'{info}: relative noise level {r.std():.2f}')
      _, other, _ = observe(make(selected, s, True, factor), rngs={'gating': jax.random.fold_in(key, 7)})
      ctx.check(not np.allclose(other, comb), f'{info}: a different key gives the same gates')
    else:
      ctx.check(np.allclose(comb, sim * sel, rtol=1e-3, atol=1e-4),
                f'{info}: combine weights of the dispatched items are not the softmax of the logits')
      ctx.event('softmax_combine')
    # Selection on the plan.
    if kind in ('klx', 'lbfgs'):
      if np.diff(np.sort(plan, axis=-1), axis=-1).min() > 1e-4:
        cap = int(rng.integers(1, s + 1))
        d3, w3, _ = observe(make(k, cap, True))
        got = (d3.sum(1) > 0).T.reshape(g, s, e)
        want = np.stack([moe_obs.greedy_assignment(plan[a], k, cap, False) for a in range(g)])
        ctx.check(np.array_equal(got, want), f'{info}: with capacity {cap} the routing does not follow the plan')
        ctx.check(np.allclose(w3, comb * want, rtol=1e-2, atol=1e-4), f'{info}: dropped or kept items have other weights')
        ctx.event('selection_checked')
    elif kind in ('kli', 'sq'):
      cap = int(rng.integers(1, s))
      p = np.sort(plan, axis=1)
      clear = (p[:, s - cap] - p[:, s - cap - 1]).min() > 1e-4
      if clear:
        d3, w3, _ = observe(make(e, s, True, cap * e / s))
        got = (d3.sum(1) > 0).T.reshape(g, s, e)
        want = np.zeros_like(got)
        for a in range(g):
          for q in range(e):
            want[a, np.argsort(-plan[a, :, q])[:cap], q] = True
        if kind == 'sq':  # zero entries of the plan may or may not be dispatched
          got, want = got & (plan > 0), want & (plan > 0)
        ctx.check(np.array_equal(got, want), f'{info}: with capacity {cap} experts do not take their best items of the plan')
        ctx.check(np.allclose(w3 * got, comb * want, rtol=1e-2, atol=1e-4), f'{info}: kept items have other weights')
        ctx.event('selection_checked')
    else:
      ctx.check(bool(np.all(sel[plan > 0])), f'{info}: an entry of the plan is not dispatched')
      ctx.event('selection_checked')
    # Metrics and losses.
    if kind in ('klx', 'lbfgs'):
      if weights[0]:
        imp = np.array([cv2(sim[a].sum(0)) for a in range(g)])
        ctx.check(np.allclose(metrics['importance_loss'], imp, rtol=1e-2, atol=1e-5),
                  f'{info}: importance loss {metrics["importance_loss"]}, expected {imp}')
        ctx.event('loss_checked')
      total = weights[0] * np.asarray(metrics['importance_loss'])
      if noisy and weights[1] and len(drawn) == 1 and drawn[0].shape == logits.shape:
        zn = logits + drawn[0] * noise / e
        thr = np.sort(zn, axis=-1)[..., -selected][..., None]
        q = 1 - scipy.stats.norm.cdf((thr - logits) / (noise / e))
        load = np.array([cv2(q[a].mean(0)) for a in range(g)])
        ctx.check(np.allclose(metrics['load_loss'], load, rtol=1e-2, atol=1e-4),
                  f'{info}: load loss {metrics["load_loss"]}, expected {load}')
        ctx.event('loss_checked')
      if noisy:
        total = total + weights[1] * np.asarray(metrics['load_loss'])
      ctx.check(np.allclose(metrics['auxiliary_loss'], total, rtol=1e-3, atol=1e-6), f'{info}: auxiliary loss is not the weighted sum')
      ctx.event('metric_checked', 2)
    else:
      ctx.check(np.all(metrics['auxiliary_loss'] == 0), f'{info}: unexpected auxiliary loss')
      ref = {}
      if kind in ('ksx', 'ksi'):
        n = (plan > 0).sum(1)
        ref.update(num_items_per_expert_min=n.min(1), num_items_per_expert_max=n.max(1), num_items_per_expert_avg=n.mean(1))
      if kind == 'ksx':
        n = (plan > 0).sum(2)
        ref.update(num_experts_per_item_min=n.min(1), num_experts_per_item_max=n.max(1), num_experts_per_item_avg=n.mean(1))
      for name, v in ref.items():
        ctx.check(np.allclose(metrics[name], v), f'{info}: {name} is {metrics[name]}, the plan has {v}')
      ctx.event('metric_checked', 1 + len(ref))
    if i == 0:
      try:
        observe(make(selected, s, True, factor, name='indices'))
      except (TypeError, ValueError, KeyError):
        ctx.event('unsupported_rejected')
    ctx.distinct_case(kind, g, s, e, k, noise, det)
    ctx.sample(dict(kind=kind, G=g, S=s, E=e, K=k, noise=noise))

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
