"""P13: ensemble routing isolates the ensemble members."""

RULE = ('random group counts, sizes, E experts partitioned in M members, K<=E/M, capacity, noise; each member is compared with the '
        'plain router run on its items and parameters alone; the full ensemble model is perturbed in the parameters of one member; '
        'token reshaping is checked with unique labels; distinct by (G,S,E,M,K,noise)')
REQUIRED = {'member_compared': 20, 'off_block_zero': 20, 'reshape_checked': 40, 'noisy_member': 10, 'model_isolated': 4, 'model_as_plain': 4,
            'capacity_limited': 6, 'invalid_rejected': 4}


def specs(tier):
  n = 5 if tier == 'quick' else 200
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(6)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import numpy as np
  from vmoe.nn import ensemble_routing, routing, vit_moe, vit_moe_ensemble
  from vlib import moe_obs

  def softmax(x):
    x = np.exp(x - x.max(-1, keepdims=True))
    return x / x.sum(-1, keepdims=True)

  def reshape_case(ctx, rng, i):
    for _ in range(4):
      b, m, t, h = (int(rng.integers(1, 5)) for _ in range(4))
      divs = [d for d in range(1, b * t + 1) if (b * t) % d == 0]
      gs = int(rng.choice(divs)) * m
      x = np.arange(b * m * t * h, dtype=np.float32).reshape(b * m, t, h)
      y = np.asarray(ensemble_routing.reshape_to_group_size_representation(x, gs, m))
      ctx.check(y.shape == (b * m * t // gs, gs, h), f'shape {y.shape} for B={b} M={m} T={t} H={h} group size {gs}')
      flat = y.reshape(b * t, m, h)
      for a in range(b):
        for c in range(m):
          for d in range(t):
            ctx.check(np.array_equal(flat[a * t + d, c], x[a * m + c, d]),
                      f'token {d} of image {a}, member {c} is not at its place (B={b} M={m} T={t} group size {gs})')
      z = np.asarray(ensemble_routing.reshape_from_group_size_representation(y, t, m))
      ctx.check(z.shape == x.shape and np.array_equal(z, x), f'reshaping back is not the identity (B={b} M={m} T={t} gs={gs})')
      ctx.event('reshape_checked')
      ctx.distinct_case('reshape', b, m, t, gs)

  def router_case(ctx, rng, i):
    m = int(rng.choice([1, 2, 2, 3, 4]))
    em = int(rng.choice([1, 2, 3, 4]))
    e, g, sm, h = m * em, int(rng.choice([1, 2, 3])), int(rng.choice([4, 6, 8])), 5
    s = sm * m
    k = int(rng.integers(1, em + 1))
    noise = float(rng.choice([0.0, 1.0, 2.0]))
    det = bool(rng.random() < 0.4)
    noisy = noise > 0 and not det
    x = rng.standard_normal((g, s, h)).astype(np.float32)
    kernel = rng.standard_normal((h, m, em)).astype(np.float32)
    kw = dict(noise_std=noise, deterministic=det, gshard_loss_weight=float(rng.choice([0., 1.])),
              importance_loss_weight=float(rng.choice([0.5, 1.])), load_loss_weight=float(rng.choice([0., 1.])))
    rngs = {'gating': jax.random.PRNGKey(int(rng.integers(1 << 30)))} if noisy else {}
    info = f'M={m} E={e} K={k} S={s} noise={noise} deterministic={det}'

    def observe(kk, cap, kern, inputs, rngs=rngs):
      r = ensemble_routing.NoisyTopExpertsPerItemEnsembleRouter(
          num_experts=e, ensemble_size=m, num_selected_experts=kk,
          dispatcher=dict(name='einsum', batch_priority=False, capacity=cap), **kw)
      disp, metrics = r.apply({'params': {'dense': {'kernel': kern}}}, inputs, rngs=rngs)
      d, w = moe_obs.observe(disp, g, s)
      return np.asarray(d), np.asarray(w), jax.tree_util.tree_map(np.asarray, metrics)

    init = ensemble_routing.NoisyTopExpertsPerItemEnsembleRouter(
        num_experts=e, ensemble_size=m, dispatcher=dict(name='einsum', batch_priority=False, capacity=2), deterministic=True).init(
            jax.random.PRNGKey(i), x)['params']['dense']['kernel']
    ctx.check(init.shape == kernel.shape and all(not np.allclose(init[:, a], init[:, b]) for a in range(m) for b in range(a)),
              f'{info}: members start with the same router parameters')
    d, w, metrics = observe(em, s, kernel, x)
    gates = w.sum(-1).reshape(g, sm, m, m, em)   # item, member of the item, member of the expert, expert
    sel = (d.sum(1) > 0).T.reshape(g, sm, m, m, em)
    for a in range(m):
      for b in range(m):
        if a != b:
          ctx.check(not sel[:, :, a, b].any() and not gates[:, :, a, b].any(),
                    f'{info}: items of member {a} were sent to experts of member {b}')
    ctx.event('off_block_zero')
    for a in range(m):
      xa, ka = x.reshape(g, sm, m, h)[:, :, a], kernel[:, a]
      ref = routing.NoisyTopExpertsPerItemRouter(
          num_experts=em, num_selected_experts=em, dispatcher=dict(name='einsum', batch_priority=False, capacity=sm), **kw)
      ctx.check(bool(np.all(sel[:, :, a, a])), f'{info}: member {a} misses some of its experts')
      if noisy:
        clean = np.log(softmax(xa.astype(np.float64) @ ka))
        if em > 1 and gates[:, :, a, a].min() > 1e-12:
          r = np.log(gates[:, :, a, a]) - clean
          r = (r - r.mean(-1, keepdims=True)) * em / noise / np.sqrt(1 - 1 / em)
          ctx.event('noisy_member')
          ctx.noise = getattr(ctx, 'noise', []) + [r.ravel()]
      else:
        disp, mref = ref.apply({'params': {'dense': {'kernel': ka}}}, xa)
        _, wref = moe_obs.observe(disp, g, sm)
        ctx.check(np.allclose(gates[:, :, a, a], np.asarray(wref).sum(-1).reshape(g, sm, em), rtol=1e-4, atol=1e-5),
                  f'{info}: member {a} has not the gates of a router of its own')
        for name in mref:
          got = metrics[name]
          ctx.check(got.shape == (g, m) and np.allclose(got[:, a], mref[name], rtol=2e-3, atol=1e-5),
                    f'{info}: metric {name} of member {a} is {got}, alone it is {mref[name]}')
      ctx.event('member_compared')
    if noisy and m > 1 and em > 1:  # same inputs and parameters for all members: still independent noise
      kk = np.repeat(kernel[:, :1], m, axis=1)
      xx = np.repeat(x.reshape(g, sm, m, h)[:, :, :1], m, axis=2).reshape(g, s, h)
      _, w2, _ = observe(em, s, kk, xx)
      g2 = w2.sum(-1).reshape(g, sm, m, m, em)
      ctx.check(not np.allclose(g2[:, :, 0, 0], g2[:, :, 1, 1]), f'{info}: members receive the same noise')
    # Limited capacity: each member is routed as if it were alone.
    cap = int(rng.integers(1, sm + 1))
    d3, w3, _ = observe(k, cap, kernel, x)
    full = w.sum(-1).reshape(g, s, e)
    sel3 = (d3.sum(1) > 0).T.reshape(g, sm, m, m, em)
    own = [full.reshape(g, sm, m, m, em)[:, :, a, a] for a in range(m)]
    if em == 1 or min(np.diff(np.sort(ga, axis=-1), axis=-1).min() for ga in own) > 1e-7:
      for a in range(m):
        for q in range(g):
          want = moe_obs.greedy_assignment(own[a][q], k, cap, False)
          ctx.check(np.array_equal(sel3[q, :, a, a], want), f'{info}: with capacity {cap} member {a} is not routed as if alone')
          ctx.check(np.allclose(w3.sum(-1).reshape(g, sm, m, m, em)[q, :, a, a], own[a][q] * want, rtol=1e-4, atol=1e-6),
                    f'{info}: with capacity {cap} member {a} is not combined with its gates')
      ctx.event('capacity_limited')
    ctx.distinct_case(g, s, e, m, k, noise, det)
    ctx.sample(dict(G=g, S=s, E=e, M=m, K=k, noise=noise, deterministic=det))

  def invalid_case(ctx, rng, i):
    bad = [dict(num_experts=4, ensemble_size=3), dict(num_experts=4, ensemble_size=0), dict(num_experts=4, ensemble_size=4, s=6),
           dict(num_experts=6, ensemble_size=3, num_selected_experts=3), dict(num_experts=4, ensemble_size=4, num_selected_experts=2)]
    b = dict(bad[i % 5])
    s = b.pop('s', 12)
    try:
      ensemble_routing.NoisyTopExpertsPerItemEnsembleRouter(
          deterministic=True, dispatcher=dict(name='einsum', batch_priority=False, capacity=2), **b).init(
              jax.random.PRNGKey(0), np.zeros((1, s, 3), np.float32))
    except ValueError:
      ctx.event('invalid_rejected')
    else:
      ctx.check(False, f'{b} with group size {s} was accepted')

  def model_case(ctx, rng, i):
    m, em = int(rng.choice([2, 3])), int(rng.choice([1, 2]))
    e, b = m * em, 2
    layers = int(rng.choice([2, 3]))
    moe_layers = sorted(rng.choice(layers, size=int(rng.integers(1, layers + 1)), replace=False).tolist())
    images_per_group, capacity = int(rng.choice([1, b])), int(rng.choice([2, 4, 20]))
    classifier = str(rng.choice(['token', 'gap']))
    tokens = 5 if classifier == 'token' else 4

    def build(cls, members, cap, **moe):
      return cls(
          num_classes=3, patch_size=(2, 2), hidden_size=8, head_kernel_zero_init=False, deterministic=True, classifier=classifier,
          encoder=dict(num_layers=layers, mlp_dim=6, num_heads=2,
                       moe=dict(layers=tuple(moe_layers), num_experts=em * members, split_rngs=True,
                                group_size=tokens * members * images_per_group,
                                router=dict(num_selected_experts=em, noise_std=1.0,
                                            dispatcher=dict(name='einsum', batch_priority=False, capacity=cap)), **moe)))
    ensemble_cls = vit_moe_ensemble.VisionTransformerMoeEnsemble
    model = build(ensemble_cls, m, capacity, ensemble_size=m)
    x = rng.standard_normal((b, 4, 4, 3)).astype(np.float32)
    v = jax.jit(model.init)(jax.random.PRNGKey(i), x)
    v = jax.tree_util.tree_map(lambda a: a + 0.3 * rng.standard_normal(a.shape).astype(np.float32), v)
    run_ = jax.jit(lambda v: model.apply(v, x)[0])
    base = np.asarray(run_(v)).reshape(b, m, 3)
    victim = int(rng.integers(m))
    kinds = ['Mlp', 'Router']
    touched = []

    def perturb(path, a):
      names = [str(getattr(p, 'key', p)) for p in path]
      if 'Moe' in names and kinds[i % 2] in names:
        a = np.array(a)
        if kinds[i % 2] == 'Mlp':
          a[victim * em:(victim + 1) * em] += rng.standard_normal(a[victim * em:(victim + 1) * em].shape)
        else:
          a[:, victim] += rng.standard_normal(a[:, victim].shape)
        touched.append(names)
      return a
    out = np.asarray(run_(jax.tree_util.tree_map_with_path(perturb, v))).reshape(b, m, 3)
    if not touched:
      return
    others = [a for a in range(m) if a != victim]
    ctx.check(np.allclose(out[:, others], base[:, others], rtol=1e-5, atol=1e-5),
              f'changing the {kinds[i % 2]} parameters of member {victim} changed other members (M={m} E={e} layers={moe_layers})')
    if kinds[i % 2] == 'Mlp':
      ctx.check(not np.allclose(out[:, victim], base[:, victim]), f'member {victim} does not use its own experts (M={m} E={e})')
    for a in range(m):
      for c in range(a):
        ctx.check(not np.allclose(base[:, a], base[:, c], atol=1e-6), f'members {a} and {c} give the same prediction')
    ctx.event('model_isolated')
    # With room for all the tokens, each member is a plain sparse model with the parameters of that member.
    got, metrics = jax.jit(build(ensemble_cls, m, 4 * tokens, ensemble_size=m).apply)(v, x)
    got = np.asarray(got).reshape(b, m, 3)
    plain = jax.jit(build(vit_moe.VisionTransformerMoe, 1, 4 * tokens).apply)
    total = 0.
    for a in range(m):
      def own(path, p, a=a):
        names = [str(getattr(q, 'key', q)) for q in path]
        if 'Moe' in names:
          return p[a * em:(a + 1) * em] if 'Mlp' in names else p[:, a]
        return p
      want, alone = plain(jax.tree_util.tree_map_with_path(own, v), x)
      ctx.check(np.allclose(got[:, a], want, rtol=1e-3, atol=1e-4),
                f'member {a} of {m} does not predict for each image what a model with its parameters predicts '
                f'(E={e} layers={moe_layers}/{layers} classifier={classifier})')
      total += np.mean(alone['auxiliary_loss']) / m
    loss = np.mean(metrics['auxiliary_loss'])
    ctx.check(np.allclose(loss, total, rtol=2e-3, atol=1e-5), f'auxiliary loss {loss}, the members alone have {total} on average')
    ctx.event('model_as_plain')
    ctx.distinct_case('model', m, e, tuple(moe_layers), kinds[i % 2])

  for i in range(spec['n']):
    ctx.run_case(f'reshape{i}', reshape_case, i)
    ctx.run_case(f'router{i}', router_case, i)
    ctx.run_case(f'invalid{i}', invalid_case, i)
    if i % 4 == 0 or ctx.thorough:
      ctx.run_case(f'model{i}', model_case, i // 4 if not ctx.thorough else i)

  def scale(ctx, rng):
    del rng
    r = np.concatenate(getattr(ctx, 'noise', [np.zeros(0)]))
    if r.size >= 300:
      ctx.check(abs(r.std() - 1) < 0.3 and abs(r.mean()) < 0.3,
                f'noise has relative standard deviation {r.std():.3f} instead of noise_std / (experts of the member)')
  if ctx.job.get('only_case') is None:
    ctx.run_case('noise_scale', scale)
