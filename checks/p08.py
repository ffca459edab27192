"""P08: dispatch and combine of all implementations equal one mathematical operator, on any mesh."""

RULE = ('random sparse assignments (each buffer position used at most once, some items unassigned, some over capacity), group '
        'counts that are and are not multiples of the number of experts, trailing shapes of rank 0-2, float32/bfloat16/int data; '
        'scatter/gather, einsum, dense and bfloat16-wrapped dispatchers against NumPy loops, gradients of the two sparse '
        'implementations against each other, and with sharding constraints on 8-device meshes against one device; '
        'distinct by (dispatcher, G, S, E, C, trailing shape, mesh)')
REQUIRED = {'dispatch_compared': 60, 'combine_compared': 60, 'gradient_compared': 8, 'sharded_compared': 10,
            'groups_multiple_of_experts': 10, 'groups_not_multiple': 6, 'bfloat16_wrapped': 10, 'dense': 8,
            'overflow_assignment': 50, 'unrouted': 20, 'tiny_weights': 6}


def specs(tier):
  n = 10 if tier == 'quick' else 350
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(5)] + [
      dict(name='mesh', devices=8, n=n // 2, mesh=True), dict(name='mesh2', devices=8, n=n // 2, mesh=True)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmoe import moe

  def case(ctx, rng, i):
    e = int(rng.choice([1, 2, 3, 4, 8]))
    g = int(rng.choice([e, 2 * e, 1, 3, 5]))
    if spec.get('mesh'):
      g, e = int(rng.choice([8, 16])), int(rng.choice([8, 4, 2, 16]))
    s, c, k = int(rng.integers(1, 7)), int(rng.integers(1, 5)), int(rng.integers(1, min(e, 3) + 1))
    trail = [(), (3,), (2, 3)][rng.integers(3)]
    trail_out = [(), (4,), (2, 2)][rng.integers(3)]
    ctx.event('groups_multiple_of_experts' if g % e == 0 else 'groups_not_multiple')
    # A random assignment: experts of each (group, item, choice) and unique buffer positions.
    idx = np.zeros((g, s, k, 2), np.int32)
    for a in range(g):
      load = np.zeros(e, int)
      slot_of = [list(rng.permutation(c)) + list(range(c, s * k + c)) for _ in range(e)]
      for b in rng.permutation(s):
        for j, x in enumerate(rng.permutation(e)[:k]):
          idx[a, b, j] = (x, slot_of[x][load[x]])
          load[x] += 1
    if rng.random() < 0.4:  # Others are not routed at all: their expert is out of range.
      gone = rng.random((g, s, k)) < 0.3
      idx[..., 0] = np.where(gone, e, idx[..., 0])
      ctx.event('unrouted', int((gone & (idx[..., 1] < c)).sum()))
    ok = (idx[..., 1] < c) & (idx[..., 0] < e)
    ctx.event('overflow_assignment', int((~ok).sum()))
    wts = rng.random((g, s, k)).astype(np.float32)
    if rng.random() < 0.4:  # weights over many orders of magnitude
      wts = (10.0 ** rng.uniform(-14, 2, (g, s, k))).astype(np.float32)
      ctx.event('tiny_weights')
    cw = np.zeros((g, s, e, c), np.float32)
    dw = np.zeros((g, s, e, c), bool)
    for a, b, j in np.ndindex(g, s, k):
      if ok[a, b, j]:
        cw[a, b, idx[a, b, j, 0], idx[a, b, j, 1]] = wts[a, b, j]
        dw[a, b, idx[a, b, j, 0], idx[a, b, j, 1]] = True
    if rng.random() < 0.3:
      wts *= -1
      cw *= -1
    x = rng.standard_normal((g, s) + trail).astype(np.float32)
    y = rng.standard_normal((e, g * c) + trail_out).astype(np.float32)
    # Reference: position p of expert's buffer; which global position belongs to (group, slot) is not specified,
    # so it is only required that dispatch and combine agree on it.
    want_d = {}
    for a, b, j in np.ndindex(g, s, k):
      if ok[a, b, j]:
        want_d[(a, int(idx[a, b, j, 0]), int(idx[a, b, j, 1]))] = x[a, b]
    ctx.check(len(want_d) == int(ok.sum()), 'harness: duplicated slot')
    mesh, pspec = None, None
    if spec.get('mesh'):
      shape = [(8,), (4, 2), (2, 4)][rng.integers(3)]
      mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(shape), ('expert', 'replica')[:len(shape)])
      pspec = [jax.sharding.PartitionSpec('expert'), 'expert', ('expert',)][rng.integers(3)]
      if len(shape) == 2 and rng.random() < 0.5:
        pspec = (('expert', 'replica'),)
    kinds = {
        'einsum': lambda: moe.EinsumDispatcher(jnp.asarray(cw), jnp.asarray(dw), partition_spec=pspec),
        'indices': lambda: moe.ExpertIndicesDispatcher(jnp.asarray(idx), jnp.asarray(wts), num_experts=e, capacity=c,
                                                       partition_spec=pspec),
    }
    if wts.min() > 0:
      kinds['einsum_implicit'] = lambda: moe.EinsumDispatcher(jnp.asarray(cw), partition_spec=pspec)
    def both(make):
      def fn(x, y, p):
        d = make()
        return d.dispatch(x), d.combine(y), d.dispatch(p)
      if mesh is not None:
        with mesh:
          return jax.tree_util.tree_map(np.asarray, jax.jit(fn)(x, y, pos))
      return jax.tree_util.tree_map(np.asarray, jax.jit(fn)(x, y, pos))
    # Identify each item, to learn which buffer row belongs to whom.
    pos = (np.arange(g * s).reshape(g, s) + 1).astype(np.int32)
    outs = {}
    for name, make in kinds.items():
      info = f'{name} G={g} S={s} E={e} C={c} K={k} data{trail} mesh={mesh and dict(mesh.shape)}'
      disp, comb, who = both(make)
      outs[name] = (disp, comb, who)
      ctx.check(disp.shape == (e, g * c) + trail, f'{info}: dispatched shape {disp.shape}')
      ctx.check(comb.shape == (g, s) + trail_out, f'{info}: combined shape {comb.shape}')
      ctx.check(who.dtype == pos.dtype, f'{info}: integer data changed type to {who.dtype}')
      # Every row is zero or a copy of the item that sits there; every assigned item sits somewhere.
      flat = np.concatenate([np.zeros((1,) + trail, np.float32), x.reshape((g * s,) + trail)])
      ctx.check(who.min() >= 0 and who.max() <= g * s, f'{info}: items were added up')
      ctx.check(np.allclose(disp, flat[who], rtol=1e-6), f'{info}: dispatched rows are not the items')
      want_pairs = sorted((xp, a * s + b + 1) for a, b, j in np.ndindex(g, s, k) if ok[a, b, j] for xp in [int(idx[a, b, j, 0])])
      got_pairs = sorted((int(ee), int(w)) for ee in range(e) for w in who[ee] if w)
      ctx.check(got_pairs == want_pairs, f'{info}: (expert, item) pairs {got_pairs[:6]} vs {want_pairs[:6]}')
      ctx.event('dispatch_compared')
      ref = np.zeros((g * s,) + trail_out, np.float64)
      row = {(ee, int(w)): p for ee in range(e) for p, w in enumerate(who[ee]) if w}
      for a, b, j in np.ndindex(g, s, k):
        if ok[a, b, j]:
          ee = int(idx[a, b, j, 0])
          ref[a * s + b] += wts[a, b, j] * y[ee, row[(ee, a * s + b + 1)]].astype(np.float64)
      ctx.check(np.allclose(comb.reshape(ref.shape), ref, rtol=1e-4, atol=1e-5 * max(1, np.abs(wts).max())),
                lambda: f'{info}: combined output differs from the weighted sum of the expert outputs, max error '
                f'{np.abs(comb.reshape(ref.shape) - ref).max()}')
      ctx.event('combine_compared')
      if mesh is not None:
        ctx.event('sharded_compared')
      # bfloat16 wrapper: same operator, data rounded to bfloat16, dtype and integers preserved.
      if mesh is None and rng.random() < 0.6:
        d = moe.Bfloat16Dispatcher(make())
        ctx.event('bfloat16_wrapped')
        bd, bc, bw = d.dispatch(jnp.asarray(x)), d.combine(jnp.asarray(y)), d.dispatch(jnp.asarray(pos * 100003))
        ctx.check(bd.dtype == jnp.float32 and bc.dtype == jnp.float32 and bw.dtype == jnp.int32,
                  f'{info}: bfloat16 wrapper changed the type of the data')
        ctx.check(np.array_equal(np.asarray(bw), who * 100003), f'{info}: bfloat16 wrapper changed integer data')
        ctx.check(np.allclose(bd, disp, rtol=1e-2, atol=1e-2), f'{info}: bfloat16 dispatch differs too much')
        scale = np.abs(wts).max() * np.abs(y).max() * k
        ctx.check(np.abs(np.asarray(bc) - comb).max() <= 0.05 * scale + 1e-6, f'{info}: bfloat16 combine differs too much')
    for name in outs:
      for q in range(3):
        ctx.check(np.allclose(outs[name][q], outs['einsum'][q], rtol=1e-4, atol=1e-5 * max(1, np.abs(wts).max())) if q == 1 else True,
                  'implementations disagree on combine')
    if mesh is None and i % 2 == 0:
      # Gradients agree between implementations.
      def loss_e(w, x):
        full = jnp.zeros((g, s, e, c)).at[
            np.arange(g)[:, None, None], np.arange(s)[None, :, None], idx[..., 0], np.minimum(idx[..., 1], c - 1)].add(w * ok)
        d = moe.EinsumDispatcher(full, jnp.asarray(dw))
        return jnp.sum(jnp.sin(d.combine(jnp.tanh(d.dispatch(x)))))
      def loss_i(w, x):
        d = moe.ExpertIndicesDispatcher(jnp.asarray(idx), w, num_experts=e, capacity=c)
        return jnp.sum(jnp.sin(d.combine(jnp.tanh(d.dispatch(x)))))
      ge, gi = jax.jit(jax.grad(loss_e, (0, 1)))(wts, x), jax.jit(jax.grad(loss_i, (0, 1)))(wts, x)
      for a, b in zip(ge, gi):
        ctx.check(np.allclose(a, b, rtol=1e-3, atol=1e-4 * max(1, np.abs(wts).max())), 'gradients of the two implementations differ')
      ctx.event('gradient_compared')
    # Dense: every item goes to every expert.
    if mesh is None and i % 2 == 1:
      w = rng.standard_normal((g, s, e)).astype(np.float32)
      d = moe.get_dense_einsum_dispatcher(jnp.asarray(w))
      who = np.asarray(d.dispatch(jnp.asarray(pos)))
      ctx.check(who.shape == (e, g * s) and all(sorted(r) == list(range(1, g * s + 1)) for r in who.tolist()),
                'dense dispatch does not send every item once to every expert')
      yd = rng.standard_normal((e, g * s) + trail_out).astype(np.float32)
      got = np.asarray(d.combine(jnp.asarray(yd))).reshape((g * s,) + trail_out)
      ref = np.zeros_like(got, np.float64)
      for ee in range(e):
        for p, it in enumerate(who[ee]):
          ref[it - 1] += w.reshape(g * s, e)[it - 1, ee] * yd[ee, p]
      ctx.check(np.allclose(got, ref, rtol=1e-4, atol=1e-4), 'dense combine is not the weighted sum over all experts')
      ctx.event('dense')
    ctx.distinct_case(g, s, e, c, k, trail, trail_out, str(mesh and mesh.shape), str(pspec))
    ctx.sample(dict(G=g, S=s, E=e, C=c, K=k, data=str(trail), out=str(trail_out), mesh=str(mesh and dict(mesh.shape))))

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
