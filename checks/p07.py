"""P07: experts-per-item routing respects capacity, choice priority and gate weights."""

RULE = ('random gates (softmax, heavily skewed, one-hot-like, with exact zeros) for G groups of S items and E experts, K<=E, '
        'capacity given directly or by a factor with either rounding and any multiple; both dispatchers and both priorities; '
        'the dispatch and combine operators are recovered by feeding identity matrices and compared with a greedy model; '
        'non-trivial when some assignment was dropped for lack of capacity; distinct by (G,S,E,K,capacity,dispatcher,priority)')
REQUIRED = {'routing_observed': 200, 'assignment_dropped': 200, 'assignment_kept': 2000, 'batch_priority': 50,
            'position_priority': 50, 'einsum': 50, 'indices': 50, 'capacity_value': 500, 'capacity_error': 3,
            'priority_mattered': 30}


def specs(tier):
  n = 28 if tier == 'quick' else 300
  return [dict(name=f'w{j}', devices=1, n=n, draws=8) for j in range(6)] + [
      dict(name='cap', devices=1, n=6 if tier == 'quick' else 100, draws=200)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import numpy as np
  from vmoe import moe
  from vlib import moe_obs

  def gates_of(rng, g, s, e):
    kind = rng.integers(6)
    x = rng.standard_normal((g, s, e))
    if kind == 0:
      x *= 5
    if kind == 4:
      x *= 8                      # scores over many orders of magnitude
    if kind == 1:
      x += np.linspace(3, 0, e)   # everybody prefers the same experts
    x = np.exp(x - x.max(-1, keepdims=True))
    x /= x.sum(-1, keepdims=True)
    if kind == 2:
      x = x * 0.1 + rng.permutation(g * s * e).reshape(g, s, e) / (g * s * e)  # not normalised
    if kind == 3:
      x -= 0.3                    # negative scores
    return x.astype(np.float32)

  def case(ctx, rng, i):
    g = int(rng.choice([1, 2, 3, 4]))
    s = int(rng.choice([1, 4, 7, 12, 16, 33]))
    e = int(rng.choice([1, 2, 3, 4, 5, 8, 17, 32]))
    k = int(rng.integers(1, min(e, rng.choice([4, 4, 8])) + 1))
    if i % 14 >= 12:  # one large group with few experts
      g, s, e = 1, int(rng.integers(90, 160)), int(rng.integers(1, 3))
      k = int(rng.integers(1, e + 1))
    name = ['einsum', 'indices'][i % 2]
    bp = bool((i // 2) % 2)
    kw = {}
    if rng.random() < 0.5:
      kw['capacity'] = cap = int(rng.integers(1, s + 3))
      caps = {cap}
    else:
      factor = float(rng.choice([0.25, 0.5, 1.0, 1.25, 1.5, 2.0]))
      how = ['ceil', 'round'][rng.integers(2)]
      mult = [None, 1, 2, 4, 8][rng.integers(5)]
      caps = moe_obs.capacity_reference(s * k, e, factor, how, mult)
      if None in caps or len(caps) != 1:
        how, factor = 'ceil', 1.0
        caps = moe_obs.capacity_reference(s * k, e, factor, how, mult)
      kw.update(capacity_factor=factor, capacity_ceil_or_round=how, capacity_multiple_of=mult)
    @jax.jit
    def observe(gates):
      make = lambda x: moe.get_top_experts_per_item_dispatcher(x, name, k, bp, **kw)
      return moe_obs.observe(jax.vmap(make)(gates), g, s)
    for t in range(spec['draws']):
      gates = gates_of(rng, g, s, e)
      srt = np.sort(gates, axis=-1)
      if e > 1 and np.any(srt[..., 1:] == srt[..., :-1]):
        continue  # ambiguous order
      if bp and any(len(set(gates[a].max(-1))) < s for a in range(g)):
        continue
      d, w = jax.tree_util.tree_map(np.asarray, observe(gates))
      gc = d.shape[1]
      ctx.check(gc % g == 0 and gc // g in caps,
                f'buffers of {gc / g} positions per group and expert, expected capacity {caps} ({kw})')
      cap = gc // g
      ctx.event('routing_observed')
      ctx.event(name)
      ctx.event('batch_priority' if bp else 'position_priority')
      want = np.stack([moe_obs.greedy_assignment(gates[a], k, cap, bp) for a in range(g)])
      other = np.stack([moe_obs.greedy_assignment(gates[a], k, cap, not bp) for a in range(g)])
      ctx.event('priority_mattered', int(np.any(want != other)))
      info = f'{name} bp={bp} G={g} S={s} E={e} K={k} C={cap}'
      # Each buffer position holds at most one item, unscaled.
      ctx.check(bool(np.all((d == 0) | (d == 1))), f'{info}: dispatched data is not a copy of the items')
      ctx.check(int(d.sum(-1).max()) <= 1, f'{info}: a buffer position received several items')
      got = (d.sum(1) > 0).T.reshape(g, s, e)
      ctx.check(bool(np.all(d.sum(1) <= 1)), f'{info}: an item occupies several positions of one expert')
      per_group = d.reshape(e, gc, g, s).sum((1, 3))
      ctx.check(per_group.max() <= cap, f'{info}: an expert received more than capacity items of a group')
      ctx.check(np.array_equal(got, want), lambda: (
          f'{info}: items processed per expert {got.sum((0, 1)).tolist()} differ from greedy routing '
          f'{want.sum((0, 1)).tolist()}; first difference at (group,item,expert) '
          f'{np.argwhere(got != want)[:3].tolist()}'))
      # The combine operator reads, for each item, exactly the positions it was sent to, with its gate.
      ideal = np.einsum('ecn,ne->nec', d, gates.reshape(g * s, e))
      ctx.check(np.allclose(w, ideal, rtol=1e-5, atol=1e-7), lambda: (
          f'{info}: combine weights differ from the gates of the accepted assignments, max error '
          f'{np.abs(w - ideal).max()}'))
      kept = int(want.sum())
      ctx.event('assignment_kept', kept)
      ctx.event('assignment_dropped', g * s * k - kept)
      if kept < g * s * k:
        ctx.distinct_case(g, s, e, k, cap, name, bp)
    ctx.sample(dict(G=g, S=s, E=e, K=k, dispatcher=name, batch_priority=bp, **{a: str(b) for a, b in kw.items()}))

  def cap_case(ctx, rng, i):
    for _ in range(spec['draws']):
      n = int(rng.integers(1, 5000))
      e = int(rng.integers(1, 200))
      f = float(rng.choice([rng.integers(1, 40) / 8, round(float(rng.random()) * 3 + 0.01, 2)]))
      how = ['ceil', 'round'][rng.integers(2)]
      m = [None, 0, 1, 2, 3, 4, 8, 16][rng.integers(8)]
      want = moe_obs.capacity_reference(n, e, f, how, m)
      try:
        got = moe.compute_capacity(n, e, f, how, m)
      except ValueError:
        got = None
        ctx.event('capacity_error')
      ctx.event('capacity_value')
      ctx.check(got in want, f'capacity({n} tokens, {e} experts, factor {f}, {how}, multiple of {m}) = {got}, expected {want}')
      ctx.distinct_case('cap', n, e, f, how, m)
    for bad in (dict(), dict(capacity=4, capacity_factor=1.0)):
      for fn in (lambda **k: moe.get_top_experts_per_item_dispatcher(np.ones((4, 2), np.float32), 'einsum', 1, False, **k),
                 lambda **k: moe.get_top_items_per_expert_dispatcher(np.ones((4, 2), np.float32), 'einsum', **k)):
        try:
          fn(**bad)
        except ValueError:
          continue
        ctx.check(False, f'an ambiguous capacity specification {bad} was accepted')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', cap_case if spec['name'] == 'cap' else case, i)
