"""P22: evaluation metrics are exact averages over the real examples of each dataset."""

RULE = ('random dataset collections (1-3 datasets, 1-7 batches, masks with fakes anywhere and arbitrary content in fakes, multi-label and '
        'soft targets, different shapes and types), losses per example and per class, linear models with changing parameters, random models, meshes '
        'over 1-8 devices, step schedules; oracle: NumPy float64 averages of the recorded data; distinct by (data, loss, mesh, schedule)')
REQUIRED = {'dataset_evaluated': 80, 'metric_checked': 160, 'fake_present': 25, 'multi_label': 15, 'params_changed': 15, 'schedule_checked': 20,
            'stochastic': 4, 'extra_metric': 10, 'per_class_loss': 15, 'repeated_equal': 10, 'single_device': 3, 'integer_images': 6, 'large_batch': 5, 'nan_for_real': 3}


def specs(tier):
  n = 9 if tier == 'quick' else 120
  return [dict(name=f'w{j}', devices=[8, 4, 1, 8, 2][j], n=n) for j in range(5)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  from clu.data import dataset_iterator
  import jax
  import jax.numpy as jnp
  import numpy as np
  import tensorflow as tf
  from vmoe.evaluate import evaluator
  V = '__valid__'

  class Writer:

    def __init__(self):
      self.log = []

    def write_scalars(self, step, scalars):
      self.log.append((step, {k: np.asarray(v) for k, v in scalars.items()}))

    def flush(self):
      pass

  n_dev = len(jax.devices())

  def softmax_loss(logits, labels):
    return -jnp.sum(labels * jax.nn.log_softmax(logits), axis=-1)

  def sigmoid_loss(logits, labels):  # One value per class: summed by the evaluator.
    return -(labels * jax.nn.log_sigmoid(logits) + (1 - labels) * jax.nn.log_sigmoid(-logits))

  def sq_loss(logits, labels):
    return (logits - labels)[:, :, None]**2 * jnp.array([1., 0.5])

  def np_loss(kind, z, y):
    if kind == 'softmax':
      m = z - z.max(-1, keepdims=True)
      return -(y * (m - np.log(np.exp(m).sum(-1, keepdims=True)))).sum(-1)
    if kind == 'sigmoid':
      return (y * np.logaddexp(0, -z) + (1 - y) * np.logaddexp(0, z)).sum(-1)
    return ((z - y)**2 * 1.5).sum(-1)

  losses = dict(softmax=softmax_loss, sigmoid=sigmoid_loss, square=sq_loss)

  def make_data(rng, dim, classes):
    batch = n_dev * int(rng.choice([1, 2, 3, 8]))
    nb = int(rng.integers(1, 8))
    if rng.random() < 0.2:
      batch, nb = n_dev * (1 + 300 // n_dev) * int(rng.integers(1, 4)), int(rng.integers(1, 4))
      ctx.event('large_batch')
    n = batch * nb
    images = rng.normal(size=(n, dim)).astype(np.float32)
    if rng.random() < 0.3:  # Raw pixels: the model converts them.
      images = rng.integers(0, 9, size=(n, dim)).astype(rng.choice(['uint8', 'int32']))
      ctx.event('integer_images')
    kind = rng.integers(4)
    if kind <= 1:
      labels = np.eye(classes)[rng.integers(0, classes, size=n)]
    elif kind == 2:
      labels = (rng.random(size=(n, classes)) < 0.4).astype(float)
      ctx.event('multi_label')
    else:
      labels = rng.random(size=(n, classes))
    mode = rng.integers(4)
    valid = np.ones(n, bool)
    if mode == 1:
      valid[int(rng.integers(1, n + 1)):] = False
    elif mode == 2:
      valid = rng.random(n) < 0.5
      valid[rng.integers(n)] = True
    elif mode == 3 and nb > 1:
      valid[batch:2 * batch] = False
    if not valid.all():
      ctx.event('fake_present')
    if rng.random() < 0.5:  # As the input pipeline does.
      images[~valid] = 0
      labels[~valid] = 0
    else:
      images[~valid] *= 20
      labels[~valid] = 1
    labels = labels.astype(np.float32)
    ds = tf.data.Dataset.from_tensor_slices({'image': images, 'labels': labels, V: valid}).batch(batch, drop_remainder=True)
    return dataset_iterator.TfDatasetIterator(ds, checkpoint=False), images, labels, valid

  def case(ctx, rng, i):
    dim, classes = int(rng.integers(2, 9)), int(rng.integers(2, 12))
    naming = [['ds0', 'ds1', 'ds2'], ['val', 'test', 'v2'], ['imagenet2012_val', 'imagenet2012_real', 'imagenet2012_v2'],
              ['val/a', 'val/b', 'val'], ['validation_minival', 'validation_full', 'validation']][rng.integers(5)]
    data = {naming[j]: make_data(rng, dim, classes) for j in range(int(rng.integers(1, 4)))}
    kind = ['softmax', 'sigmoid', 'square'][rng.integers(3)]
    if kind != 'softmax':
      ctx.event('per_class_loss')
    shape = [(n_dev,), (1, n_dev), (max(n_dev // 2, 1), min(n_dev, 2))][rng.integers(3)]
    mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(shape), ('expert', 'replica')[:len(shape)])
    if n_dev == 1:
      ctx.event('single_device')
    writer = Writer()
    sched = [dict(every_steps=int(rng.integers(1, 5))), dict(on_steps=sorted(set(rng.integers(1, 10, size=3).tolist()))),
             dict(every_steps=4, on_steps=[1, 6]), dict(every_secs=1e-9)][rng.integers(4)]
    deep = rng.random() < 0.3  # A model with parameters of higher rank.
    stoch = rng.random() < 0.25

    def apply_fn(variables, images, rngs):
      z = images @ variables['params']['w'].reshape(dim, classes) + variables['params']['b']
      if stoch:
        z = z + jax.random.normal(rngs['noise'], z.shape)
      return z, {'auxiliary_loss': jnp.float32(17.)}

    info = f'{kind}, { {k: (v[1].shape, int(v[3].sum())) for k, v in data.items()} }, mesh {shape}, {sched}'
    with mesh:
      action = evaluator.EvaluateMultipleDatasets(
          apply_fn=apply_fn, loss_fn=losses[kind], label_pred_fn=lambda z: jnp.argmax(z, -1), datasets={k: v[0] for k, v in data.items()},
          metric_writer=writer, rng_keys=['noise'] if stoch else [], seed=int(rng.integers(100)), **sched)
      seen, values = [], {}
      for step in range(1, 10):
        if step % 3 == 1:
          w = rng.normal(size=(dim, classes)).astype(np.float32)
          b = rng.normal(size=(classes,)).astype(np.float32)
          if step > 1:
            ctx.event('params_changed')
        params = jax.device_put({'w': w.reshape(1, dim, 1, classes) if deep else w, 'b': b}, jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec()))
        writer.log.clear()
        extra = dict(foo=3.5 * (step % 4 == 1), bar=None) if step % 2 else {}
        action(step=step, params=params, **extra)
        merged = {}
        for s, m in writer.log:
          ctx.check(s == step, f'{info}: metrics of step {step} written for step {s}')
          merged |= m
        if not merged:
          continue
        seen.append(step)
        if extra:
          ctx.check(merged.get('foo') == 3.5 * (step % 4 == 1) and 'bar' not in merged, f'{info}: extra metrics {sorted(merged)}')
          ctx.event('extra_metric')
        for name, (_, images, labels, valid) in data.items():
          ctx.event('dataset_evaluated')
          got_loss, got_acc = float(merged[f'{name}/loss']), float(merged[f'{name}/prec@1'])
          key = (name, w.tobytes())
          if key in values:
            ctx.check(np.allclose(values[key], (got_loss, got_acc), rtol=1e-5, atol=1e-6), f'{info}: {name} evaluates to {values[key]}, then to {(got_loss, got_acc)}')
            ctx.event('repeated_equal')
          values[key] = (got_loss, got_acc)
          if stoch:
            ctx.check(np.isfinite(got_loss) and 0 <= got_acc <= labels.max() + 1e-6, f'{info}: {got_loss}, {got_acc}')
            continue
          x, y = images[valid].astype(np.float64), labels[valid].astype(np.float64)
          z = x @ w.astype(np.float64) + b
          loss = np_loss(kind, z, y).mean()
          top = np.sort(z, -1)
          sure = top[:, -1] - top[:, -2] > 1e-4
          hit = y[np.arange(len(y)), z.argmax(-1)]
          slack = (~sure).sum() / len(y) + 1e-4
          ctx.check(abs(got_loss - loss) <= 2e-4 * max(1, abs(loss)), f'{info}: {name}/loss is {got_loss} at step {step}, the mean is {loss}')
          ctx.check(abs(got_acc - hit.mean()) <= slack, f'{info}: {name}/prec@1 is {got_acc} at step {step}, expected {hit.mean()}')
          ctx.event('metric_checked', 2)
      # PeriodicCallback runs every multiple of every_steps, and on the given steps.
      want = [s for s in range(1, 10) if s % sched.get('every_steps', 10**9) == 0 or s in (sched.get('on_steps') or [])]
      if 'every_secs' in sched:
        want = list(range(2, 10))
        seen = [s for s in seen if s > 1]
      ctx.check(seen == want, f'{info}: evaluated at steps {seen}, expected {want}')
      ctx.event('schedule_checked')
    ctx.distinct_case(info)
    ctx.sample(info)

  def nan_case(ctx, rng):
    # A real example without a finite loss makes the mean undefined: it is not hidden.
    data = {'a': make_data(rng, 3, 4), 'b': make_data(rng, 3, 4)}
    x = data['a'][1]
    bad = x[data['a'][3]][int(rng.integers(data['a'][3].sum()))]
    mesh = jax.sharding.Mesh(np.asarray(jax.devices()), ('d',))
    writer = Writer()
    with mesh:
      evaluator.EvaluateMultipleDatasets(
          apply_fn=lambda v, images, rngs: (jnp.where(jnp.all(images == bad, axis=1, keepdims=True), jnp.nan, 1.) * jnp.ones((1, 4)), {}),
          loss_fn=sq_loss, label_pred_fn=lambda z: jnp.argmax(z, -1), datasets={k: v[0] for k, v in data.items()},
          metric_writer=writer, rng_keys=[], every_steps=1)(step=1, params={})
    m = {}
    for _, v in writer.log:
      m |= v
    ctx.check(not np.isfinite(m['a/loss']) and np.isfinite(m['b/loss']), f'losses {m["a/loss"]} and {m["b/loss"]}, the first is undefined for one example')
    ctx.event('nan_for_real')

  def noise_case(ctx, rng):
    """Every batch of a random model uses fresh noise, the same in each evaluation."""
    batch = n_dev * 2
    def make(nb):
      d = {'image': np.zeros((batch * nb, 1), np.float32), 'labels': np.ones((batch * nb, 1), np.float32), V: np.ones(batch * nb, bool)}
      return dataset_iterator.TfDatasetIterator(tf.data.Dataset.from_tensor_slices(d).batch(batch, drop_remainder=True), checkpoint=False)
    writer = Writer()
    mesh = jax.sharding.Mesh(np.asarray(jax.devices()), ('d',))
    def apply_fn(variables, images, rngs):
      del variables
      return images + jax.random.normal(rngs['a'], (1, 1)) + 100. * jax.random.normal(rngs['b'], (1, 1)), {}
    out = []
    for seed in (0, 1):
      with mesh:
        action = evaluator.EvaluateMultipleDatasets(
            apply_fn=apply_fn, loss_fn=lambda z, y: z[:, 0], label_pred_fn=lambda z: jnp.argmax(z, -1), datasets={f'd{n}': make(n) for n in (1, 2, 3)},
            metric_writer=writer, rng_keys=['a', 'b'], seed=seed, every_steps=1)
        for step in (1, 2):
          writer.log.clear()
          action(step=step, params={})
          m = {}
          for _, x in writer.log:
            m |= x
          s = [float(m[f'd{n}/loss']) * n for n in (1, 2, 3)]
          out.append(np.diff([0] + s))
    ctx.check(np.allclose(out[0], out[1], rtol=1e-4) and np.allclose(out[2], out[3], rtol=1e-4), f'evaluations with the same seed use noise {out}')
    ctx.check(not np.allclose(out[0], out[2], rtol=1e-3), 'evaluations with different seeds use the same noise')
    a = out[0]
    ctx.check(min(abs(a[0] - a[1]), abs(a[1] - a[2]), abs(a[0] - a[2])) > 1e-3, f'batches share their noise: {a}')
    ctx.event('stochastic')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
  ctx.run_case('noise', noise_case)
  ctx.run_case('nan', nan_case)
