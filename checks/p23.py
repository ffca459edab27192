"""P23: few-shot accuracies are those of ridge regression on at most k real examples per class."""

RULE = ('TFDS datasets in scratch (2-5 classes, unbalanced, classes without examples), features from a random linear model, fakes from padding, '
        '1-8 devices, shots below and above the class size, several L2 values, seeds, datasets sharing splits, parts of splits, schedules; oracle: all possible '
        'choices of examples enumerated and solved in float64 (normal equations); distinct by (data, shots, l2, model)')
REQUIRED = {'accuracy_checked': 30, 'all_examples_used': 15, 'subset_checked': 10, 'best_l2_checked': 15, 'main_task_checked': 4, 'repeated_equal': 1, 'multi_seed': 1,
            'subset_varies_with_seed': 1, 'params_changed': 6, 'schedule_checked': 6, 'shared_split': 1, 'part_of_split': 1, 'wide_features': 4, 'rank_checked': 2, 'trainer_accuracy': 4}


def specs(tier):
  n = 5 if tier == 'quick' else 60
  return [dict(name=f'w{j}', devices=[8, 2, 1, 4, 2][j], n=n) for j in range(5)] + [dict(name='seeds', devices=2, n=0, seeds=1)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import itertools
  import os
  from vlib import toyds
  toyds.install_builders()
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmoe.evaluate import fewshot

  class Writer:

    def __init__(self):
      self.log = []

    def write_scalars(self, step, scalars):
      self.log.append((step, {k: np.asarray(v) for k, v in scalars.items()}))

  n_dev = len(jax.devices())
  SHAPE = (2, 2, 3)
  count = [0]

  def dataset(rng, classes, per_class, test):
    name = f'fs{count[0]}'
    count[0] += 1
    n = sum(per_class)
    labels = rng.permutation(np.repeat(np.arange(classes), per_class))
    labels = np.concatenate([labels, rng.integers(0, classes, size=test)])
    toyds.make(name, {'train': n, 'test': test}, os.path.join(ctx.scratch, 'data'), num_classes=classes, image_shape=SHAPE, label_key='label', labels=labels)
    return name, labels

  def features(ids, w):
    x = np.stack([toyds.image_of(i, SHAPE) for i in ids]).astype(np.float64).reshape(len(ids), -1) / 127.5 - 1
    return x @ w.astype(np.float64)

  def ridge(xtr, ytr, xte, yte, classes, l2):
    """Interval of possible accuracies: test points without a clear winner may go either way."""
    mean, std = xtr.mean(0), xtr.std(0) + 1e-5
    a = np.concatenate([(xtr - mean) / std, np.full((len(xtr), 1), 100.)], 1)
    t = np.concatenate([(xte - mean) / std, np.full((len(xte), 1), 100.)], 1)
    y = 2 * np.eye(classes)[ytr] - 1
    w = np.linalg.solve(a.T @ a + l2 * np.eye(a.shape[1]), a.T @ y)
    p = t @ w
    tol = 2e-2 * max(1.0, np.abs(p).max())
    others = p.copy()
    others[np.arange(len(yte)), yte] = -np.inf
    margin = p[np.arange(len(yte)), yte] - others.max(1)
    return np.mean(margin > tol), np.mean(margin > -tol)

  def trainer_case(ctx, rng, i):
    # In a training: the model in evaluation mode, with the overrides for evaluation and few-shot, and the current parameters.
    import ml_collections
    from vlib import trainrun
    from vmoe.train import trainer
    classes = int(rng.integers(2, 5))
    name, labels = dataset(rng, classes, rng.integers(2, 9, size=classes), 31)
    toyds.make(f'tr{i}_{spec["name"]}', {'train': 16}, os.path.join(ctx.scratch, f'tr{i}'), num_shards=1)
    modes = [dict(a='a', e=None, f=None), dict(a='a', e='b', f=None), dict(a='b', e='a', f='b'), dict(a='a', e=None, f='b')][(i + spec.get('seed', 0)) % 4]
    mode = modes['f'] or modes['e'] or modes['a']
    override = lambda m, **k: dict(k, **({'mode': m} if m else {}))
    steps, dim = int(rng.integers(3, 5)), 6
    every = int(rng.choice([1, 2, 100]))
    pp = 'decode|resize(2)|value_range(-1, 1)|keep("image", "label")'
    cfg = ml_collections.ConfigDict(dict(
        dataset=dict(train=dict(name=f'tr{i}_{spec["name"]}', split='train', batch_size=8, shuffle_buffer=4, process='decode|resize(2)|value_range(-1,1)|onehot(7)|keep("image","labels")')),
        model=dict(name='vlib.tinymodel.TinyMode', num_classes=7, mode=modes['a'], hidden=dim), optimizer=dict(name='sgd', learning_rate=0.5, momentum=0.9),
        loss=dict(name='softmax_xent'), params_axis_resources=[], save_checkpoint=dict(every_steps=1), evaluate=dict(every_steps=100, **({'model_overrides': override(modes['e'])} if modes['e'] else {})),
        fewshot=dict(shots=[30], l2_regs=[4.0], every_steps=every, datasets=dict(fs=(name, 'train', 'test')), batch_size=8, process=pp, data_dir=ctx.scratch, model_overrides=override(modes['f'], num_classes=None)),
        extra_rng_keys=['dropout'], seed=int(rng.integers(100)), train_steps=steps))
    two = i % 3 == 2  # The image tower of a contrastive model: unit vectors.
    if two:
      from vmoe.projects.contrastive import trainer  # pylint: disable=reimported
      modes = dict(a='a', e=None, f=['b', None][rng.integers(2)])
      mode = modes['f'] or modes['a']
      cfg.dataset.train.process = 'decode|resize(2)|value_range(-1,1)|onehot(7, outkey="text")|keep("image","text")'
      cfg.model = ml_collections.ConfigDict(dict(name='vmoe.projects.contrastive.models.TwoTower', image=dict(name='vlib.tinymodel.TinyMode', num_classes=None, mode=modes['a'], hidden=dim),
                                                 text=dict(name='vlib.tinymodel.TinyText', features=dim), scale_init=3.0, bias_init=-1.0))
      cfg.fewshot.model_overrides = ml_collections.ConfigDict(dict(image=override(modes['f'])) if modes['f'] else {})
      for k in ('loss', 'evaluate'):
        del cfg[k]
      ctx.event('contrastive')
    w, wd = trainrun.Writer(), os.path.join(ctx.scratch, f'wd{i}')
    mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(1, n_dev), ('expert', 'replica'))
    with mesh:
      trainer.train_and_evaluate(cfg, wd, mesh, w)
    n_tr = len(toyds.ids_of(name, 'train'))
    for step, acc in w.metric('fewshot/fs/30shot'):
      if step not in trainrun.steps_on_disk(wd):
        continue
      flat, _ = trainrun.read_state(wd, step)
      key = [k for k in flat if 'params' in k and f'rep_{mode}' in k and 'opt_state' not in k]
      ctx.check(len(key) == 1, f'no unique parameter for {mode} in {sorted(flat)}')
      wmat = flat[key[0]]
      xtr, xte = features(np.arange(1, n_tr + 1), wmat), features(np.arange(n_tr + 1, len(labels) + 1), wmat)
      if two:
        xtr, xte = (x / np.linalg.norm(x, axis=1, keepdims=True) for x in (xtr, xte))
      lo, hi = ridge(xtr, labels[:n_tr], xte, labels[n_tr:], classes, 4.0)
      ctx.check(lo - 1e-4 <= acc <= hi + 1e-4, f'in training with modes {modes}: few-shot accuracy {acc} at step {step}; the evaluation model has {lo} to {hi}')
      ctx.event('trainer_accuracy')
    want = [s for s in range(1, steps + 1) if s % every == 0 or s in (1, steps)]
    ctx.check([s for s, _ in w.metric('fewshot/fs/30shot')] == want, f'few-shot evaluation at {w.metric("fewshot/fs/30shot")} of {steps} steps, every {every}')
    ctx.distinct_case('trainer', str(modes), steps, classes)

  def case(ctx, rng, i):
    ids = {}
    specs_ = {}
    data = {}
    small = rng.random() < 0.5
    for j in range(int(rng.integers(1, 3))):
      classes = int(rng.integers(2, 4)) if small else int(rng.integers(2, 6))
      per_class = rng.integers(1, 4 if small else 20, size=classes)
      if rng.random() < 0.2 and classes > 2:
        per_class[rng.integers(classes)] = 0
      test = int(rng.integers(5, 40))
      name, labels = dataset(rng, classes, per_class, test)
      split = ('train', 'test')
      if rng.random() < 0.4 and per_class.sum() > 3:  # Two parts of the same split.
        cut = int(rng.integers(2, per_class.sum() - 1))
        split = [(f'train[:{cut}]', f'train[{cut}:]'), ('train', f'test[{test // 2}:]'), (f'train[{cut}:]', 'test')][rng.integers(3)]
        ctx.event('part_of_split')
      specs_[f'd{j}'] = (name, *split)
      data[f'd{j}'] = (name, *split, classes, labels)
    if rng.random() < 0.4:
      specs_['again'] = specs_['d0']
      data['again'] = data['d0']
      ctx.event('shared_split')
    dim = 20 if i % 2 else 6
    if dim == 20:
      ctx.event('wide_features')
    shots = sorted(set(rng.choice([1, 2, 30], size=2, replace=False).tolist())) if small else [1, 30]
    l2_regs = [[1., 64.], [16.], [4., 256., 4096.]][rng.integers(3)]
    seeds = 2 if rng.random() < 0.3 else 1
    main = (str(rng.choice(list(specs_))), int(rng.choice(shots))) if rng.random() < 0.6 else None
    prefix = ['0', 'main'][rng.integers(2)]
    shape = [(n_dev,), (1, n_dev)][rng.integers(2)]
    mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(shape), ('expert', 'replica')[:len(shape)])
    writer = Writer()
    fold = rng.random() < 0.4
    every = int(rng.integers(1, 4))
    cache = ['loaded', 'batched'][rng.integers(2)]
    stoch = rng.random() < 0.3

    def apply_fn(variables, images, rngs):
      x = jnp.reshape(images, (images.shape[0], -1)) @ variables['params']['w']
      if stoch:
        x = x + 1e-6 * jax.random.normal(rngs['n'], x.shape)
      return x, {}

    batch = n_dev * int(rng.choice([1, 2, 8]))
    info = f'{ {k: (v[0], np.bincount(v[4]).tolist()) for k, v in data.items()} }, shots {shots}, l2 {l2_regs}, batch {batch}, dim {dim}'
    with mesh:
      action = fewshot.FewShotPeriodicAction(
          shots=shots, l2_regs=l2_regs, metric_writer=writer, datasets=specs_, apply_fn=apply_fn, rng_keys=['n'] if stoch else [], seed=int(rng.integers(50)),
          seed_fold_in_step=bool(fold), seeds_per_step=seeds, main_task=main, main_task_prefix=prefix, every_steps=every,
          prefetch_to_device=[None, 1, 3][rng.integers(3)], batch_size=batch, cache=cache,
          process='decode|resize(2)|value_range(-1, 1)|keep("image", "label")', data_dir=ctx.scratch)
      last, seen = {}, []
      for step in range(1, 4):
        if step != 2:
          w = rng.normal(size=(12, dim)).astype(np.float32)
          if step > 1:
            ctx.event('params_changed')
        writer.log.clear()
        action(step=step, t=0., variables={'params': {'w': jnp.asarray(w)}})
        if not writer.log:
          continue
        seen.append(step)
        m = {}
        for s, x in writer.log:
          ctx.check(s == step, f'{info}: reported for step {s} at step {step}')
          m |= x
        names = {k: [k] if seeds == 1 else [f'{k}-seed-{s}' for s in range(seeds)] for k in specs_}
        if seeds > 1:
          ctx.event('multi_seed')
        for shot in shots:
          l2 = float(m[f'fewshot/{shot}shot_best_l2'])
          ctx.check(l2 in l2_regs, f'{info}: best l2 {l2}')
          ctx.event('best_l2_checked')
          for k, (name, tr, te, classes, labels) in data.items():
            if (name, tr, te) not in ids:
              ids[name, tr, te] = tuple(np.sort(toyds.ids_of(name, z)) for z in (tr, te))
            ids_tr, ids_te = ids[name, tr, te]
            xtr, ytr, xte, yte = features(ids_tr, w), labels[ids_tr - 1], features(ids_te, w), labels[ids_te - 1]
            per = [np.where(ytr == c)[0] for c in range(classes)]
            choices = [list(itertools.combinations(p, min(shot, len(p)))) for p in per]
            total = int(np.prod([len(c) for c in choices]))
            for nm in names[k]:
              acc = float(m[f'fewshot/{nm}/{shot}shot'])
              ctx.check(0 <= acc <= 1 and abs(acc * len(yte) - round(acc * len(yte))) < 1e-3, f'{info}: accuracy {acc} of {len(yte)} test examples')
              if total <= 130:
                ok = False
                spans = []
                for combo in itertools.product(*choices):
                  idx = np.array([v for c in combo for v in c], int)
                  lo, hi = ridge(xtr[idx], ytr[idx], xte, yte, classes, l2)
                  spans.append((round(lo, 4), round(hi, 4)))
                  if lo - 1e-4 <= acc <= hi + 1e-4:
                    ok = True
                    break
                ctx.check(ok, lambda: f'{info}: {nm} {shot}-shot accuracy with l2={l2} is {acc}; no choice of examples gives that: {sorted(set(spans))[:8]}')
                ctx.event('accuracy_checked')
                ctx.event('all_examples_used' if total == 1 else 'subset_checked')
              if total == 1 and seeds == 1 and len(l2_regs) > 1 and len(data) == 1:
                # One dataset, all examples used: the selected value has the best accuracy.
                idx = np.concatenate(per)
                for other in l2_regs:
                  lo, _ = ridge(xtr[idx], ytr[idx], xte, yte, classes, other)
                  ctx.check(acc >= lo - 1e-4, f'{info}: l2={other} gives at least {lo}, but {l2} was selected with {acc}')
              key = (nm, shot, w.tobytes())
              if key in last and not fold and cache == 'batched':  # Otherwise the order of the examples may differ.
                if last[key][1] == l2:
                  ctx.check(last[key][0] == acc, f'{info}: {nm} {shot}-shot changed from {last[key][0]} to {acc} with the same model and seed')
                  ctx.event('repeated_equal')
              last[key] = (acc, l2)
        if main:
          got = float(m[f'{prefix}/{main[0]}/{main[1]}shot'])
          want = np.mean([float(m[f'fewshot/{nm}/{main[1]}shot']) for nm in names[main[0]]])
          ctx.check(abs(got - want) < 1e-6, f'{info}: main task {got}, expected {want}')
          ctx.event('main_task_checked')
        ctx.check(all(np.array_equal(action.last_metrics[k], m[k]) for k in m), f'{info}: last metrics differ from those written')
      ctx.check(seen == [s for s in range(1, 4) if s % every == 0], f'{info}: ran at {seen} with every_steps={every}')
      ctx.event('schedule_checked')
    ctx.distinct_case(info)
    ctx.sample(info)

  def rank_case(ctx, rng):
    """The L2 value is the one with the best mean rank over the datasets (all examples are used)."""
    names = {f'd{j}': (dataset(rng, 3, [6, 5 + j, 7], 300 + 60 * j)[0], 'train', 'test') for j in range(3)}
    l2_regs = [0.1, 300., 20000., 1e6]
    rng.shuffle(l2_regs)
    mesh = jax.sharding.Mesh(np.asarray(jax.devices()), ('d',))
    w = rng.normal(size=(12, 10)).astype(np.float32)
    def evaluate(regs):
      writer = Writer()
      with mesh:
        action = fewshot.FewShotPeriodicAction(
            shots=[30], l2_regs=regs, metric_writer=writer, datasets=names, rng_keys=[], every_steps=1, batch_size=64, cache='batched',
            apply_fn=lambda v, images, rngs: (jnp.reshape(images, (images.shape[0], -1)) @ v['params']['w'], {}),
            process='decode|resize(2)|value_range(-1, 1)|keep("image", "label")', data_dir=ctx.scratch)
        action(step=1, t=0., variables={'params': {'w': jnp.asarray(w)}})
      return writer.log[-1][1]
    acc = np.array([[float(m[f'fewshot/{k}/30shot']) for k in names] for m in (evaluate([x]) for x in l2_regs)])
    m = evaluate(l2_regs)
    best = l2_regs.index(float(m['fewshot/30shot_best_l2']))
    # Ties may be ordered either way; so may accuracies that differ by two examples, which may be classified otherwise in another order of additions.
    tol = 2.5 / (300 + 60 * np.arange(3))
    ranks_lo = (acc[None] < acc[:, None] - tol).sum(1)
    ranks_hi = (acc[None] <= acc[:, None] + tol).sum(1) - 1
    ctx.check(ranks_hi[best].mean() >= ranks_lo.mean(1).max(), f'accuracies {acc.tolist()} for l2 {l2_regs} (rows): selected {l2_regs[best]}')
    ctx.check(np.allclose([float(m[f'fewshot/{k}/30shot']) for k in names], acc[best], atol=0.02), 'accuracies depend on the other L2 values')
    ctx.event('rank_checked')

  def seeds_case(ctx, rng):
    """Different sub-seeds choose different examples; without folding in the step, steps choose the same."""
    name, _ = dataset(rng, 3, [12, 12, 12], 60)
    mesh = jax.sharding.Mesh(np.asarray(jax.devices()), ('d',))
    writer = Writer()
    w = rng.normal(size=(12, 5)).astype(np.float32)
    def apply_fn(variables, images, rngs):
      del rngs
      return jnp.reshape(images, (images.shape[0], -1)) @ variables['params']['w'], {}
    out = {}
    for fold in (False, True):
      with mesh:
        action = fewshot.FewShotPeriodicAction(
            shots=[2], l2_regs=[4.], metric_writer=writer, datasets={'d': (name, 'train', 'test')}, apply_fn=apply_fn, rng_keys=[], seed=3,
            seed_fold_in_step=fold, seeds_per_step=12, every_steps=1, batch_size=4, cache='batched',
            process='decode|resize(2)|value_range(-1, 1)|keep("image", "label")', data_dir=ctx.scratch)
        for step in (1, 2):
          writer.log.clear()
          action(step=step, t=0., variables={'params': {'w': jnp.asarray(w)}})
          m = writer.log[-1][1]
          out[fold, step] = [float(m[f'fewshot/d-seed-{s}/2shot']) for s in range(12)]
    ctx.check(out[False, 1] == out[False, 2], f'few-shot examples change between steps without folding in the step: {out}')
    ctx.check(out[True, 1] != out[True, 2], f'few-shot examples are the same in all steps although the step is folded in: {out}')
    ctx.check(len(set(out[False, 1])) > 1, f'all seeds choose the same examples: {out}')
    ctx.event('subset_varies_with_seed')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
  if spec.get('seeds'):
    ctx.run_case('seeds', seeds_case)
    for i in range(4 if not ctx.thorough else 60):
      ctx.run_case(f'rank{i}', rank_case)
    for i in range(4 if not ctx.thorough else 40):
      ctx.run_case(f'trainer{i}', trainer_case, i)
