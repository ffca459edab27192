"""P09: items-per-expert routing fills every expert exactly with its best items."""

RULE = ('random gates (also with ties and exact zeros) for G groups, S items, E experts (including skewed ones where one item is chosen by all or '
        'none), capacity given or computed (always <= S); dispatch and combine operators recovered with identity inputs; '
        'oracle: sort-based selection, exact load, metrics recomputed from the observed assignment; distinct by (G,S,E,C)')
REQUIRED = {'routing_observed': 60, 'expert_filled': 300, 'item_without_expert': 20, 'item_with_many_experts': 20,
            'metric_checked': 300, 'router_module': 20, 'hundreds_of_experts': 2, 'ties': 20, 'zero_gate_selected': 30}


def specs(tier):
  n = 16 if tier == 'quick' else 250
  return [dict(name=f'w{j}', devices=1, n=n, draws=6) for j in range(5)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import math
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmoe import moe
  from vmoe.nn import routing
  from vlib import moe_obs

  def verify(d, w, metrics, gates, caps, info):
    g, s, e = gates.shape
    gc = d.shape[1]
    ctx.check(gc % g == 0 and gc // g in caps, f'{info}: buffer of {gc / g} positions, expected {caps}')
    cap = gc // g
    ctx.check(bool(np.all((d == 0) | (d == 1))) and bool(np.all(d.sum(-1) == 1)),
              f'{info}: some buffer positions do not hold exactly one item')
    sel = d.reshape(e, gc, g, s).sum(1)  # (E, G, S)
    ctx.check(sel.max() <= 1, f'{info}: an item takes several positions of one expert')
    ctx.check(bool(np.all(sel.sum(-1) == cap)), f'{info}: experts process {sel.sum(-1).tolist()} items, not {cap}')
    # The items with the largest gates (any of them, if several have the same).
    gt = gates.transpose(2, 0, 1)
    worst = np.where(sel > 0, gt, np.inf).min(-1)
    best_left = np.where(sel > 0, -np.inf, gt).max(-1)
    ctx.check(bool(np.all(worst >= best_left)), lambda: f'{info}: selected items are not those with the largest gates: '
              f'(expert, group) {np.argwhere(worst < best_left)[:3].tolist()}')
    want = sel
    ctx.event('zero_gate_selected', int((sel * (gt == 0)).sum()))
    ctx.event('expert_filled', e * g)
    ideal = np.einsum('ecn,ne->nec', d, gates.reshape(g * s, e))
    ctx.check(np.allclose(w, ideal, rtol=1e-5, atol=1e-7), f'{info}: combine weights are not the gates')
    per_item = want.sum(0)  # (G, S)
    ctx.event('item_without_expert', int((per_item == 0).sum()))
    ctx.event('item_with_many_experts', int((per_item > 1).sum()))
    chosen = np.where(want.transpose(1, 2, 0) > 0, gates, np.nan)
    ref = {'num_experts_per_item_min': per_item.min(1), 'num_experts_per_item_max': per_item.max(1),
           'min_selected_gate': np.nanmin(chosen, axis=(1, 2)), 'max_selected_gate': np.nanmax(chosen, axis=(1, 2))}
    for t in {2**q for q in range(int(math.log2(e)) + 1)} | {e}:
      ref[f'ratio_processed_items_by_at_least_{t}_experts'] = (per_item >= t).mean(1)
    for k, v in ref.items():
      ctx.check(k in metrics, f'{info}: metric {k} is missing')
      ctx.check(np.allclose(metrics[k], v, rtol=1e-5), lambda k=k, v=v: f'{info}: metric {k}={metrics[k]}, expected {v}')
      ctx.event('metric_checked')
    return cap

  def case(ctx, rng, i):
    g, s = int(rng.choice([1, 2, 3])), int(rng.choice([4, 6, 8, 12, 16]))
    e = int(rng.choice([1, 2, 3, 4, 5, 8, 17]))
    if i == 1:  # many experts choose the same items
      g, s, e = 1, 4, int(rng.integers(260, 300))
      ctx.event('hundreds_of_experts')
    kw = {}
    if rng.random() < 0.5 or i == 1:
      kw['capacity'] = int(rng.integers(1, s + 1))
      caps = {kw['capacity']}
    else:
      while True:
        f = float(rng.choice([0.5, 1.0, 1.5, 2.0]))
        m = [None, 1, 2, 4][rng.integers(4)]
        how = ['ceil', 'round'][rng.integers(2)]
        caps = moe_obs.capacity_reference(s, e, f, how, m)
        if len(caps) == 1 and None not in caps and max(caps) <= s:
          break
      kw.update(capacity_factor=f, capacity_multiple_of=m, capacity_ceil_or_round=how)
    info = f'G={g} S={s} E={e} {kw}'

    @jax.jit
    def observe(gates):
      d, m = jax.vmap(lambda x: moe.get_top_items_per_expert_dispatcher(x, 'einsum', **kw))(gates)
      return moe_obs.observe(d, g, s) + (m,)
    cap = None
    for _ in range(spec['draws']):
      x = rng.standard_normal((g, s, e)) * float(rng.choice([0.3, 1, 4]))
      if rng.random() < 0.3:
        x += np.linspace(4, 0, s)[None, :, None]
      x = np.exp(x) / np.exp(x).sum(-1, keepdims=True)
      gates = x.astype(np.float32)
      if e == 1:
        gates = rng.random((g, s, e)).astype(np.float32)
      mode = rng.random()
      if mode < 0.2:  # Very confident routers: gates underflow.
        gates *= rng.random(gates.shape) < 0.5
      elif mode < 0.35:  # Similar items.
        gates = np.round(gates, 1).astype(np.float32)
      if any(len(set(gates[a, :, q])) < s for a in range(g) for q in range(e)):
        ctx.event('ties')
      d, w, m = jax.tree_util.tree_map(np.asarray, observe(gates))
      cap = verify(d, w, m, gates, caps, info)
      ctx.event('routing_observed')
    # The router module: same guarantee for its own (noisy or not) gates.
    if i % 2 == 0:
      noise = float(rng.choice([0.0, 1.0, 3.0]))
      det = bool(rng.random() < 0.5)
      r = routing.NoisyTopItemsPerExpertRouter(num_experts=e, noise_std=noise, deterministic=det,
                                               dispatcher=dict(name='einsum', **kw))
      inp = rng.standard_normal((g, s, 5)).astype(np.float32)
      kernel = rng.standard_normal((5, e)).astype(np.float32)
      key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
      disp, metrics = r.apply({'params': {'dense': {'kernel': kernel}}}, inp,
                              rngs={} if (det or not noise) else {'gating': key})
      ctx.check(np.all(np.asarray(metrics['auxiliary_loss']) == 0), 'items-per-expert routing has no auxiliary loss')
      d, w = jax.tree_util.tree_map(np.asarray, moe_obs.observe(disp, g, s))
      if (det or not noise) and e > 1:
        z = inp @ kernel
        gates = np.exp(z - z.max(-1, keepdims=True))
        gates /= gates.sum(-1, keepdims=True)
        gaps = np.diff(np.sort(gates, axis=1), axis=1)
        if gaps.min() > 1e-6:
          ideal = np.einsum('ecn,ne->nec', d, gates.reshape(g * s, e))
          ctx.check(np.allclose(w, ideal, rtol=1e-3, atol=1e-5), f'{info}: router gates are not the softmax of its logits')
          m2 = {k: np.asarray(v) for k, v in metrics.items()}
          gates2 = gates.astype(np.float32)
          del m2['min_selected_gate'], m2['max_selected_gate']
          m2['min_selected_gate'] = np.nanmin(np.where(d.reshape(e, -1, g, s).sum(1).transpose(1, 2, 0) > 0, gates2, np.nan), axis=(1, 2))
          m2['max_selected_gate'] = np.nanmax(np.where(d.reshape(e, -1, g, s).sum(1).transpose(1, 2, 0) > 0, gates2, np.nan), axis=(1, 2))
          verify(d, ideal, m2, gates2, caps, info + ' (router)')
      else:
        ctx.check(bool(np.all(d.sum(-1) == 1)), f'{info}: noisy router left an expert position empty')
      ctx.event('router_module')
    ctx.distinct_case(g, s, e, cap)
    ctx.sample(dict(G=g, S=s, E=e, **{a: str(b) for a, b in kw.items()}))

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
