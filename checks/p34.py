"""P34: attack statistics are exact sums over the real images; reported routing is the routing that was applied."""

RULE = ('random batches with fakes, losses, predictions and combine weights through the statistics; random gates, capacities and dispatchers of real '
        'routers (observed by combining one-hot expert outputs); whole attacks on TFDS datasets with real MoE models restored from checkpoints on '
        '1-8 devices, examples stored; oracle: NumPy totals, recomputation from the stored examples with the model; distinct by (data, model, mesh)')
REQUIRED = {'state_checked': 10, 'batch_added': 25, 'fake_masked': 12, 'iou_checked': 9, 'routing_observed': 10, 'over_capacity': 5, 'indices': 5, 'einsum': 2, 'items': 2, 'bfloat16': 2,
            'run_checked': 2, 'stored_example': 20, 'metric_checked': 12, 'storage_checked': 3, 'multiprocess_attack': 1}


def specs(tier):
  n = 8 if tier == 'quick' else 200
  return [dict(name=f'w{j}', devices=[4, 1, 2, 8, 1][j], n=n, runs=2 if tier == 'quick' else 15) for j in range(5)] + [
      dict(name='mp2', devices=2, procs=2, n=0, runs=2 if tier == 'quick' else 15)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import os
  from vlib import toyds
  toyds.install_builders()
  import jax
  import jax.numpy as jnp
  import ml_collections
  import numpy as np
  from vlib import tinymodel
  from vmoe import checkpoints
  from vmoe.nn import routing
  from vmoe.projects.adversarial_attacks import attacks
  from vmoe.projects.adversarial_attacks import lib
  from vmoe.projects.adversarial_attacks import restore

  from vmoe import multihost_utils
  from vlib import trees
  n_dev = len(jax.devices())
  procs = spec.get('procs', 1)
  root = spec['shared_dir'] if spec.get('shared') else ctx.scratch

  def sync(name):
    if procs > 1:
      multihost_utils.sync_devices(name)

  def iou(a, b):
    a, b = a > 0, b > 0
    inter, union = (a & b).sum(-1), (a | b).sum(-1)
    return np.where(union > 0, inter / np.maximum(union, 1), 0).sum() / a.shape[1]

  def stats(ctx, rng, i):
    routers = [f'r{j}' for j in range(int(rng.integers(0, 3)))]
    keys = {'a': jax.random.PRNGKey(int(rng.integers(100)))} if rng.random() < 0.5 else {}
    state = attacks.AttackState.create(max_updates=3, router_keys=routers, rngs=keys)
    want = dict(n=0, ch=0, c=np.zeros(2), l=np.zeros(2), **{r: 0. for r in routers})
    info = f'statistics routers={routers}'
    use_valid = rng.random() < 0.8
    jit = rng.random() < 0.5
    ctx.distinct_case('stats', i, spec['name'])
    for t in range(int(rng.integers(1, 5))):
      b, tok, e, k = int(rng.choice([1, 2, 3, 5, 8, 300])), int(rng.integers(1, 4)), int(rng.integers(1, 4)), 3
      x = rng.normal(size=(b, 2)).astype(np.float32)
      y = np.eye(k, dtype=np.float32)[rng.integers(k, size=b)]
      valid = rng.random(b) < 0.6 if use_valid else None
      outs = []
      for _ in range(2):
        cw = {r: (rng.random((b, tok, e)) * (rng.random((b, tok, e)) < 0.5)).astype(np.float32) for r in routers}
        pred = rng.integers(k, size=b)
        outs.append((rng.normal(size=b).astype(np.float32) * 5, pred, (pred == y.argmax(-1)).astype(np.float32), cw))
      calls = []

      def compute(images, labels, rngs, outs=outs, x=x, y=y, calls=calls):  # pylint: disable=dangerous-default-value
        # Which of the two: told by the images.
        moved = jnp.all(images == jnp.asarray(x) + 1)
        calls.append((labels, rngs))
        ctx.check(labels is y or labels.shape == y.shape, 'other labels')
        return jax.tree.map(lambda p, q: jnp.where(moved, q, p), outs[0], outs[1])

      fn = lambda s, x, y, v: attacks.stateful_attack(
          s, x, y, v, stateless_attack_fn=lambda x, y, r: (x + 1, jax.tree.map(lambda q: jax.random.split(q)[1], r)), compute_loss_predict_correct_cw_fn=compute)  # pylint: disable=cell-var-from-loop
      if jit:
        fn = jax.jit(fn)
      new, xm, l0, lm, y0, ym, cw0, cwm = fn(state, jnp.asarray(x), jnp.asarray(y), None if valid is None else jnp.asarray(valid))
      ctx.check(np.array_equal(xm, x + 1), f'{info}: returned images differ from the attacked ones')
      v = np.ones(b, bool) if valid is None else valid
      want['n'] += int(v.sum())
      want['ch'] += int((outs[0][1] != outs[1][1])[v].sum())
      want['c'] += [outs[0][2][v].sum(), outs[1][2][v].sum()]
      want['l'] += [outs[0][0][v].sum(), outs[1][0][v].sum()]
      for r in routers:
        want[r] += iou(outs[0][3][r][v], outs[1][3][r][v]) if v.any() else 0.
      for got, exp in ((l0, outs[0][0]), (lm, outs[1][0]), (y0, outs[0][1]), (ym, outs[1][1])):
        ctx.check(np.allclose(np.asarray(got)[v], exp[v]), f'{info}: returned {got} for {exp}')
      for r in routers:
        ctx.check(np.allclose(np.asarray(cw0[r])[v], outs[0][3][r][v]) and np.allclose(np.asarray(cwm[r])[v], outs[1][3][r][v]), f'{info}: other combine weights')
      if not v.all():
        ctx.event('fake_masked')
      for kk in keys:
        ctx.check(not np.array_equal(new.rngs[kk], state.rngs[kk]), f'{info}: rngs were not advanced')
      state = new
      ctx.event('batch_added')
    ctx.check(int(state.num_images) == want['n'] and int(state.num_changes) == want['ch'] and state.max_updates == 3, f'{info}: {state.num_images} images, {state.num_changes} changes, expected {want}')
    ctx.check(np.allclose(state.num_correct, want['c']) and np.allclose(state.sum_loss, want['l'], rtol=1e-4, atol=1e-3), f'{info}: correct {state.num_correct}, loss {state.sum_loss}, expected {want}')
    for r in routers:
      ctx.check(abs(float(state.sum_iou_experts[r]) - want[r]) < 1e-3, f'{info}: sum of IoU {state.sum_iou_experts[r]}, expected {want[r]}')
      ctx.event('iou_checked')
    ctx.event('state_checked')

  def routes(ctx, rng, i):
    g, s, e = int(rng.integers(1, 4)), int(rng.choice([4, 8, 12])), int(rng.choice([2, 3, 4]))
    kind = ['einsum', 'indices', 'items', 'indices'][i % 4]
    cf = float(rng.choice([0.3, 0.5, 1.0, 2.0]))
    bf = rng.random() < 0.3
    x = jnp.asarray(rng.normal(size=(g, s, 5)).astype(np.float32) + 1.5)
    if kind == 'items':
      if cf > 1.0:
        cf = 1.0
      r = routing.NoisyTopItemsPerExpertRouter(num_experts=e, deterministic=True, dispatcher=dict(name='einsum', capacity_factor=cf, capacity_multiple_of=None, bfloat16=bf))
    else:
      r = routing.NoisyTopExpertsPerItemRouter(num_experts=e, num_selected_experts=int(rng.integers(1, e + 1)), deterministic=True,
                                               dispatcher=dict(name=kind, batch_priority=bool(rng.random() < 0.5), capacity_factor=cf, capacity_multiple_of=None, bfloat16=bf))
    variables = r.init(jax.random.PRNGKey(int(rng.integers(1000))), x)
    (disp, _), inter = r.apply(variables, x, capture_intermediates=restore.router_filter)
    got = restore.get_combine_weights(inter)
    ctx.check(len(got) == 1, f'routers found: {sorted(got)}')
    got = np.asarray(next(iter(got.values())))
    # What is applied: experts that answer with their own number.
    sent = disp.dispatch(x)  # (E, G * C, 5)
    answer = jnp.broadcast_to(jnp.eye(e)[:, None, :], (e, sent.shape[1], e))
    want = np.asarray(disp.combine(answer)).reshape(-1, e)
    info = f'{kind} groups={g} tokens={s} experts={e} capacity_factor={cf} bfloat16={bf}'
    ctx.distinct_case(info)
    tol = 2e-2 if bf else 1e-5
    ctx.check(got.shape == want.shape and np.allclose(got, want, atol=tol), lambda: f'{info}: reported combine weights {got[np.abs(got - want).max(-1) > tol][:3]}, but {want[np.abs(got - want).max(-1) > tol][:3]} were applied')
    if np.any(want.sum(-1) == 0) or (kind != 'items' and (want > 0).sum() < g * s * 1):
      ctx.event('over_capacity')
    ctx.event(kind)
    if bf:
      ctx.event('bfloat16')
    ctx.event('routing_observed')

  def storage(ctx, rng, i):
    every = int(rng.choice([1, 2, 3, 4, 6, 9, 50, 100]))
    path = os.path.join(ctx.scratch, f'st{i}', 'deep', 'examples-000')
    st = lib.ExampleStorage(filepath=path, transfer_every_steps=every)
    want = {}
    for t in range(1, int(rng.integers(2, 24)) if rng.random() < 0.7 else 150):
      arrays = dict(a=rng.normal(size=(2, 3)).astype(np.float32), b=rng.integers(9, size=(2,)))
      arrays['cw/x'] = rng.normal(size=(2, 1, 2)).astype(np.float32)
      st.store(step=t, **{k: jnp.asarray(v) for k, v in arrays.items()})
      for k, v in arrays.items():
        want.setdefault(k, []).append(v)
    st.write()
    with open(path, 'rb') as fp:
      got = {k: v for k, v in np.load(fp).items()}
    ctx.check(set(got) == set(want) and all(np.array_equal(got[k], np.concatenate(want[k])) for k in want), f'stored {({k: v.shape for k, v in got.items()})} with transfers every {every} of {len(want["a"])} steps')
    ctx.event('storage_checked')

  class Writer:

    def __init__(self):
      self.log = {}

    def write_scalars(self, step, scalars):
      self.log.setdefault(int(step), {}).update({k: float(v) for k, v in scalars.items()})

    def __getattr__(self, name):
      if name.startswith('__'):
        raise AttributeError(name)
      return lambda *a, **k: None

  def whole(ctx, rng, i):
    n = int(rng.integers(3, 19))
    batch = n_dev * int(rng.choice([1, 2, 3])) if n_dev < 8 else 8
    name = f'adv{i}'
    toyds.make(name, {'test': n}, os.path.join(ctx.scratch, name), num_shards=2, num_classes=5)
    kind = [dict(router='experts', dispatcher='einsum'), dict(router='experts', dispatcher='indices', selected=2), dict(router='items')][rng.integers(3)]
    eps, updates = float(rng.choice([0.05, 0.3])), int(rng.choice([1, 3]))
    groups = n_dev
    model = dict(num_classes=5, num_experts=2, groups=groups, capacity_factor=1.0, **kind)
    noisy = rng.random() < 0.5  # (The attacked model is the one for evaluation, whatever its noise in training.)
    if noisy:
      model['noise'] = 2.0
    aux = kind['router'] == 'experts' and rng.random() < 0.5
    loss_name = ['softmax_xent', 'sigmoid_xent'][rng.integers(2)]
    module = tinymodel.TinyMoe(**model, deterministic=True)
    images0 = jnp.zeros((batch, 4, 4, 3))
    params = module.init(jax.random.PRNGKey(int(rng.integers(1000))), images0)['params']
    mesh = restore.create_mesh(1)
    put = lambda x: trees.device_array(x, jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec()))
    prefix = os.path.join(root, f'ck{i}', 'ckpt')
    checkpoints.save_checkpoint_partitioned(prefix, jax.tree.map(put, params)).get()
    sync(f'model{i}')
    workdir = os.path.join(root, f'wd{i}')
    cfg = ml_collections.ConfigDict(dict(
        dataset=dict(name=name, split='test', batch_size=batch, process='decode|resize(4)|value_range(-1,1)|onehot(5)|keep("image","labels")', prefetch_device=2),
        model=dict(name='vlib.tinymodel.TinyMoe', **model), params_axis_resources=[], restore={'from': 'checkpoint', 'prefix': prefix},
        loss=dict(name=loss_name, attack_auxiliary_loss=aux), **(dict(extra_rng_keys=['gating', 'dropout']) if noisy else {}), max_epsilon=eps, num_updates=updates, store_examples=dict(transfer_every_steps=2), num_expert_partitions=int(rng.choice([1, 2 if n_dev > 1 else 1]))))
    info = f'attack n={n} batch={batch} model={model} epsilon={eps} updates={updates} aux={aux} devices={n_dev} processes={procs}'
    ctx.distinct_case(info)
    w = Writer()
    lib.run_pgd_attack(cfg, workdir, None, w)
    sync(f'attacked{i}')
    files = [f for f in sorted(os.listdir(workdir)) if f.startswith('examples-')]
    ctx.check(files == [f'examples-{r:03d}-of-{procs:03d}' for r in range(procs)], f'{info}: example files {files}')
    parts = []
    for f in files:
      with open(os.path.join(workdir, f), 'rb') as fp:
        parts.append(dict(np.load(fp).items()))
    if procs > 1:
      # Each process stores its own rows of every batch: put the batches together again, in the order of the mesh.
      order = [d.process_index for d in restore.create_mesh(cfg.num_expert_partitions).devices.flatten()]
      ctx.check(all(len({len(v) for v in p.values()}) == 1 for p in parts) and len({len(p['x_0']) for p in parts}) == 1 and len(parts[0]['x_0']) % (batch // procs) == 0,
                f'{info}: processes stored {[{k: v.shape for k, v in p.items()} for p in parts]}')
      idx, rows = [0] * procs, []
      for _ in range(len(parts[0]['x_0']) * procs // batch):
        for r in order:
          rows += [(r, idx[r] + j) for j in range(batch // n_dev)]
          idx[r] += batch // n_dev
      ex = {k: np.stack([parts[r][k][j] for r, j in rows]) for k in parts[0]}
      ctx.event('multiprocess_attack')
    else:
      ex = parts[0]
    with open(os.path.join(workdir, 'pgd_state.npz'), 'rb') as fp:
      st = dict(np.load(fp).items())
    v = ex['valid'].astype(bool)
    ctx.check(v.sum() == n and int(st['num_images']) == n, f'{info}: {v.sum()} valid images, {st["num_images"]} counted')
    # Each image exactly once.
    import tensorflow as tf
    want_images = np.stack([np.asarray(tf.cast(tf.image.resize(toyds.image_of(j, (4, 5, 3)), (4, 4)), tf.uint8)) for j in range(1, n + 1)]).astype(np.float32) / 255 * 2 - 1
    got_i = ex['x_0'][v]
    d = np.abs(got_i[:, None] - want_images[None]).reshape(n, n, -1).max(-1)
    ctx.check(len(set(d.argmin(1).tolist())) == n and d.min(1).max() < 0.05, f'{info}: images are not those of the dataset')
    ctx.event('stored_example', n)
    ctx.check(np.abs(ex['x_m'] - ex['x_0']).max() <= eps * (1 + 1e-4) + 1e-6, f'{info}: a pixel changed by {np.abs(ex["x_m"] - ex["x_0"]).max()}')
    # Recompute everything from the stored images, batch by batch.
    totals = dict(c=np.zeros(2), l=np.zeros(2), ch=0, iou=0.)
    rkey = [k[len('cw_0/'):] for k in ex if k.startswith('cw_0/')]
    ctx.check(len(rkey) == 1, f'{info}: routers {rkey}')
    for o in range(0, len(v), batch):
      sl = slice(o, o + batch)
      lab = ex['y'][sl].argmax(-1)
      vv = v[sl]
      z = []
      for which in ('x_0', 'x_m'):
        (logits, metrics), inter = module.apply({'params': params}, jnp.asarray(ex[which][sl]), capture_intermediates=lambda m, _: isinstance(m, (routing.NoisyTopExpertsPerItemRouter, routing.NoisyTopItemsPerExpertRouter)))
        lp = np.asarray(jax.nn.log_softmax(logits))
        y_ = ex['y'][sl]
        z_ = np.asarray(logits, np.float64)
        xent = -(y_ * lp).sum(-1) if loss_name == 'softmax_xent' else (np.logaddexp(0, z_) - y_ * z_).sum(-1)
        loss = xent + (float(jnp.mean(metrics['auxiliary_loss'])) if aux else 0.)
        disp = jax.tree.leaves(inter['intermediates'], is_leaf=lambda q: isinstance(q, tuple))[0][0][0]
        sent = disp.dispatch(jnp.zeros((groups, batch * 16 // groups, 1)))
        cw = np.asarray(disp.combine(jnp.broadcast_to(jnp.eye(2)[:, None, :], (2, sent.shape[1], 2)))).reshape(batch, 16, 2)
        z.append((np.asarray(logits).argmax(-1), loss, cw, np.asarray(logits)))
      sfx = ('0', 'm')
      for t, (pred, loss, cw, logits) in enumerate(z):
        ctx.check(np.allclose(ex['l_' + sfx[t]][sl][vv], loss[vv], rtol=1e-3, atol=2e-3), f'{info}: stored losses {ex["l_" + sfx[t]][sl][vv]}, recomputed {loss[vv]}')
        margin = np.sort(logits, -1)
        sure = (margin[:, -1] - margin[:, -2] > 1e-4) & vv
        ctx.check(np.array_equal(ex['y_' + sfx[t]][sl][sure], pred[sure]), f'{info}: stored predictions {ex["y_" + sfx[t]][sl]}, recomputed {pred}')
        scw = ex[f'cw_{sfx[t]}/{rkey[0]}'][sl]
        ctx.check(scw.shape == cw.shape and np.mean(np.abs(scw - cw)[vv] > 1e-3) < 0.02, lambda: f'{info}: stored combine weights differ from those applied: {scw[vv][:1]} and {cw[vv][:1]}')  # pylint: disable=cell-var-from-loop
        totals['c'][t] += (ex['y_' + sfx[t]][sl] == lab)[vv].sum()
        totals['l'][t] += ex['l_' + sfx[t]][sl][vv].sum()
      totals['ch'] += (ex['y_0'][sl] != ex['y_m'][sl])[vv].sum()
      totals['iou'] += iou(ex[f'cw_0/{rkey[0]}'][sl][vv], ex[f'cw_m/{rkey[0]}'][sl][vv]) if vv.any() else 0.
    want = {0: dict(error=1 - totals['c'][0] / n, loss=totals['l'][0] / n),
            updates: {'error': 1 - totals['c'][1] / n, 'loss': totals['l'][1] / n, 'prediction_changes': totals['ch'] / n, f'routing_changes/{rkey[0]}': 1 - totals['iou'] / n}}
    for s, m in want.items():
      for k, x in m.items():
        ctx.check(s in w.log and k in w.log[s] and abs(w.log[s][k] - x) <= 1e-3 * max(1, abs(x)), f'{info}: reported {k} after {s} updates {w.log.get(s)}, expected {x}')
        ctx.event('metric_checked')
    ctx.check(np.allclose(st['num_correct'], totals['c']) and int(st['num_changes']) == totals['ch'] and np.allclose(st['sum_loss'], totals['l'], rtol=1e-3, atol=1e-2), f'{info}: saved state {st}, expected {totals}')
    ctx.event('run_checked')

  for i in range(0 if procs > 1 else spec['n']):
    ctx.run_case(f's{i}', stats, i)
    ctx.run_case(f'r{i}', routes, i)
    if i % 3 == 0:
      ctx.run_case(f'e{i}', storage, i)
  for i in range(spec['runs']):
    ctx.run_case(f'whole{i}', whole, i)
