"""P35: contrastive training pairs each image with its own text; towers are independent; loss and steps follow their definition."""

RULE = ('random two-tower models (real sparse image and text transformers, all pooling types; small linear towers), inputs, parameters; random logits '
        '(however large) for the loss; training steps with microsteps over meshes of 1-8 devices with recorded passes; whole contrastive '
        'trainings crashed and resumed with recorded retrieval and zero-shot evaluations; oracle: NumPy definitions, single-tower '
        'executions, the uninterrupted run; distinct by (model, data, mesh)')
REQUIRED = {'model_checked': 2, 'tower_mode': 10, 'unit_norm': 5, 'logit_checked': 30, 'tower_isolated': 5, 'pooling_checked': 2, 'permutation': 2, 'loss_checked': 15, 'loss_extreme': 7, 'loss_gradient': 15,
            'step_checked': 5, 'pass_observed': 10, 'pair_checked': 50, 'microsteps': 1, 'run': 1, 'final_state_equal': 1, 'retrieval_evaluated': 3, 'zeroshot_evaluated': 4, 'invalid_rejected': 5}


def specs(tier):
  q = tier == 'quick'
  return [dict(name=f'w{j}', devices=[4, 1, 2, 8, 1][j], losses=12 if q else 600, models=2 if q else 40, steps=2 if q else 100, runs=1 if q and j < 3 else 0 if q else 8) for j in range(5)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import os
  import shutil
  import types
  from vlib import toyds
  from vlib import trainrun
  toyds.install_builders()
  import jax
  import jax.numpy as jnp
  import numpy as np
  import optax
  from vmoe import partitioning
  from vmoe.projects.contrastive import evaluators
  from vmoe.projects.contrastive import models
  from vmoe.projects.contrastive import trainer
  from vmoe.train import train_state

  n_dev = len(jax.devices())

  def rejects(fn):
    try:
      fn()
    except Exception:  # pylint: disable=broad-except
      return True
    return False

  def loss(ctx, rng, i):
    lead = [(), (2,), (2, 3)][rng.integers(3)]
    n = int(rng.integers(1, 7))
    scale = float(rng.choice([0.1, 1.0, 10., 1e3, 1e6, 1e30]))
    z = (rng.normal(size=lead + (n, n)) * scale).astype(np.float32)
    if rng.random() < 0.3:
      z[rng.random(z.shape) < 0.3] = 0
    sign = 2 * np.eye(n) - 1
    want = np.logaddexp(0, -(z.astype(np.float64) * sign)).sum(-1)
    got = np.asarray((jax.jit(trainer.sigmoid_loss) if rng.random() < 0.5 else trainer.sigmoid_loss)(jnp.asarray(z)))
    info = f'sigmoid loss of {z.shape} logits of size {scale}'
    ctx.distinct_case(info, i)
    ctx.check(got.shape == want.shape and np.all(np.isfinite(got)) and np.allclose(got, want, rtol=1e-5, atol=1e-6), lambda: f'{info}: {got}, expected {want} for {z.tolist()}')
    ctx.event('loss_checked')
    if scale > 100:
      ctx.event('loss_extreme')
    w = rng.normal(size=want.shape).astype(np.float32)
    g = np.asarray(jax.grad(lambda q: jnp.sum(trainer.sigmoid_loss(q) * w))(jnp.asarray(z)))
    with np.errstate(over='ignore'):
      wg = -sign * w[..., None] / (1 + np.exp(z.astype(np.float64) * sign))
    ctx.check(np.allclose(g, wg, rtol=1e-4, atol=1e-5), lambda: f'{info}: gradient {g}, expected {wg}')
    ctx.event('loss_gradient')
    if i % 5 == 0:
      for shape in ((n,), (n, n + 1), ()):
        ctx.check(rejects(lambda: trainer.sigmoid_loss(jnp.zeros(shape))), f'sigmoid loss accepted logits of shape {shape}')  # pylint: disable=cell-var-from-loop
        ctx.event('invalid_rejected')

  def model(ctx, rng, i):
    moe = rng.random() < 0.3
    dim = int(rng.choice([4, 6]))
    pool = ['last', 'first', 'gap', 'gmp', 'map', 'last'][(i + [0, 2, 4, 1, 3][int(spec['name'][1:])]) % 6]
    enc = dict(num_layers=1, mlp_dim=8, num_heads=2)
    if moe:
      enc['moe'] = dict(layers=(0,), num_experts=2, group_size=4, router=dict(num_selected_experts=1, noise_std=0.5, dispatcher=dict(name='einsum', capacity=4, batch_priority=False)))
    emb = [dim, None][rng.integers(2)] if dim == 6 else dim
    hidden = 6 if emb is None else 8
    image = dict(num_classes=emb, patch_size=(4, 4), hidden_size=hidden, classifier='gap', encoder=dict(enc))
    text = dict(num_classes=emb, hidden_size=hidden, encoder=dict(num_layers=1, mlp_dim=8, num_heads=2, position_emb=dict(name='learned')), vocab_size=11, pool_type=pool)
    bias = [None, float(rng.normal()), 0.0][rng.integers(3)]
    if rng.random() < 0.4:  # What the configuration says holds over the name.
      text['name'] = 'TextTransformer(pool_type="nothing", vocab_size=2)'
      image['name'] = 'VisionTransformerMoe(hidden_size=2, classifier="map")'
    scale0 = float(rng.choice([0.01, 1.0, 2.0, 10.0, 150.0, 2000.0]))
    mod = models.TwoTower(image=image, text=text, scale_init=scale0, bias_init=bias, deterministic=True)
    n, nt = 4, int(rng.choice([1, 2, 4, 5, 13]))
    images = rng.normal(size=(n, 8, 8, 3)).astype(np.float32)
    texts = rng.integers(0, 11, size=(nt, 5))
    info = f'two towers dim={emb} pool={pool} moe={moe} bias={bias} scale={scale0}'
    ctx.distinct_case(info, i)
    variables = mod.init(jax.random.PRNGKey(int(rng.integers(1000))), images, texts)
    p = variables['params']
    ctx.check(abs(float(jnp.exp(p['s'])) - scale0) < 1e-4 * scale0 and (('b' in p) == (bias is not None)) and (bias is None or abs(float(p['b']) - bias) < 1e-6), f'{info}: initial scale {p["s"]} and bias {p.get("b")}')
    # Make all parameters matter.
    p = jax.tree.map(lambda x: jnp.asarray(x + 0.2 * rng.normal(size=x.shape), x.dtype), dict(p))
    p['s'] = jnp.asarray(rng.choice([rng.normal(), 5.5, 8.0]), jnp.float32)
    apply = lambda p, a, b: mod.apply({'params': p}, a, b)
    (logits, metrics), inter = mod.apply({'params': p}, images, texts, mutable=['intermediates'], capture_intermediates=True)
    zi, mi = apply(p, images, None)
    zt, mt = apply(p, None, texts)
    for z, who in ((zi, 'image'), (zt, 'text')):
      nz = np.linalg.norm(np.asarray(z, np.float64), axis=-1)
      ctx.check(np.allclose(nz, 1, atol=1e-4), f'{info}: norm of the {who} embeddings {nz}')
      ctx.event('unit_norm')
    want = np.exp(np.float64(p['s'])) * (np.asarray(zi, np.float64) @ np.asarray(zt, np.float64).T) + (float(p['b']) if bias is not None else 0)
    ctx.check(logits.shape == (n, nt) and np.allclose(logits, want, rtol=1e-3, atol=1e-3 * np.exp(float(p['s']))), lambda: f'{info}: logits {logits}, expected {want}')
    ctx.event('logit_checked', n * nt)
    ctx.check(np.allclose(metrics['scale'], np.exp(float(p['s'])), rtol=1e-5) and 'img' in metrics and 'txt' in metrics and 'img' in mi and 'txt' in mt, f'{info}: metrics {metrics.keys()}')
    # Each tower depends only on its input and parameters.
    q = dict(p, txt=jax.tree.map(lambda x: x + 1, p['txt']), s=p['s'] + 1)
    ctx.check(np.array_equal(apply(q, images, None)[0], zi), f'{info}: image embeddings depend on the text tower')
    q = dict(p, img=jax.tree.map(lambda x: x + 1, p['img']), s=p['s'] + 1)
    ctx.check(np.array_equal(apply(q, None, texts)[0], zt), f'{info}: text embeddings depend on the image tower')
    ctx.event('tower_isolated', 2)
    # Both towers use dropout in training, and only then.
    drop = lambda cfg: dict(cfg, encoder=dict(cfg['encoder'], dropout_rate=0.5))
    for det in (False, True):
      for who, cfg in (('image', dict(image=drop(image), text=text)), ('text', dict(image=image, text=drop(text)))):
        m2 = models.TwoTower(**cfg, scale_init=1.0, bias_init=bias, deterministic=det)
        outs = [m2.apply({'params': p}, images, texts, rngs={'dropout': jax.random.PRNGKey(k), 'gating': jax.random.PRNGKey(0)})[0] for k in range(3)]
        ctx.check(any(not np.allclose(outs[0], o, rtol=1e-5, atol=1e-6) for o in outs) == (not det), f'{info}: dropout of the {who} tower is {"active" if det else "not active"} with deterministic={det}')
        ctx.event('tower_mode')
    # Texts are independent of each other; pairs follow a permutation.
    perm = rng.permutation(nt)
    ctx.check(np.allclose(apply(p, images, texts[perm])[0], np.asarray(logits)[:, perm], rtol=1e-3, atol=1e-3), f'{info}: permuted texts give other logits')
    other = texts.copy()
    other[0] = (other[0] + 1) % 11
    ctx.check(np.allclose(np.asarray(apply(p, images, other)[0])[:, 1:], np.asarray(logits)[:, 1:], rtol=1e-3, atol=1e-3), f'{info}: a text changes the logits of another text')
    ctx.event('permutation')
    # Pooling of the encoded text.
    it = inter['intermediates']['txt']
    encoded = np.asarray(it['Encoder']['__call__'][0][0], np.float64)
    if pool != 'map':
      pooled = {'last': lambda x: x[:, -1], 'first': lambda x: x[:, 0], 'gap': lambda x: x.mean(1), 'gmp': lambda x: x.max(1)}[pool](encoded)
      if emb is not None:
        h = p['txt']['head']
        pooled = pooled @ np.asarray(h['kernel'], np.float64) + np.asarray(h['bias'], np.float64)
      pooled /= np.linalg.norm(pooled, axis=-1, keepdims=True)
      ctx.check(np.allclose(pooled, zt, atol=1e-3), lambda: f'{info}: text embeddings {zt}, but pooling the encoder gives {pooled}')
      ctx.event('pooling_checked')
    ctx.event('model_checked')
    if i == 0:
      ctx.check(rejects(lambda: apply(p, None, None)), f'{info}: accepted no input')
      ctx.check(rejects(lambda: models.TwoTower(image=image, text=dict(text, pool_type='other')).init(jax.random.PRNGKey(0), None, texts)), f'{info}: accepted an unknown pooling')
      ctx.check(rejects(lambda: models.TwoTower(image=image, text=dict(text, encoder=dict(enc, position_emb=dict(name='sincos2d')))).init(jax.random.PRNGKey(0), None, texts)), f'{info}: accepted two-dimensional positions for text')
      ctx.event('invalid_rejected', 3)

  passes = []

  def record(x, t, key):
    passes.append((np.array(x), np.array(t), np.array(key)))

  def step(ctx, rng, i):
    dim, k = int(rng.integers(2, 5)), 3
    micro = [None, 1, 2, 4][rng.integers(4)]
    m = micro or 1
    batch = n_dev * m * int(rng.integers(1, 4))
    lr = 0.1
    aux = [0., 0.5, -0.5][rng.integers(3)]
    parts = int(rng.choice([d for d in (1, 2, 4, 8) if n_dev % d == 0]))
    mesh = partitioning.get_auto_logical_mesh(parts, jax.devices())
    info = f'contrastive step batch={batch} microsteps={micro} devices={n_dev} parts={parts} aux={aux}'
    ctx.distinct_case(info, i)

    def logits_of(p, x, t, noise):
      return jnp.exp(p['s']) * (x @ p['w']) @ (t @ p['u']).T + noise * p['b'], (aux * jnp.square(jnp.mean(x @ p['w'])) if aux else 0.)

    def apply_fn(variables, x, t, rngs):
      noise = jax.random.normal(rngs['noise'], ())
      jax.debug.callback(record, x, t, rngs['noise'])
      z, a = logits_of(variables['params'], x, t, noise)
      return z, ({'auxiliary_loss': a} if aux else {}) | {'scale': jnp.exp(variables['params']['s'])}

    params = jax.tree.map(lambda x: jnp.asarray(x, jnp.float32), dict(w=rng.normal(size=(dim, k)), u=rng.normal(size=(dim, k)), s=rng.normal() * 0.3, b=rng.normal()))
    state = train_state.TrainState.create(apply_fn=apply_fn, params=params, tx=optax.sgd(lr), rngs={'noise': jax.random.PRNGKey(int(rng.integers(1 << 30)))})
    fn = lambda s, x, t: trainer.train_step(s, x, t, loss_fn=trainer.sigmoid_loss, microsteps=micro)
    if rng.random() < 0.7:
      fn = jax.jit(fn)
    seen = set()
    for t_ in range(2):
      x = rng.normal(size=(batch, dim)).astype(np.float32)
      t = rng.normal(size=(batch, dim)).astype(np.float32)
      passes.clear()
      with mesh:
        new, metrics = fn(state, jnp.asarray(x), jnp.asarray(t))
      jax.block_until_ready(new.params)
      jax.effects_barrier()
      groups = {pk.tobytes(): (px, pt, pk) for px, pt, pk in passes}
      ctx.event('pass_observed', len(groups))
      ctx.check(len(groups) == m and not seen & set(groups), f'{info}: {len(groups)} random keys for {m} passes, or a key of a previous step')
      seen |= set(groups)
      rows = {x[j].tobytes(): j for j in range(batch)}
      used = []

      def reference(p):
        out = 0.
        for px, pt, pk in groups.values():  # pylint: disable=cell-var-from-loop
          z, a = logits_of(p, px, pt, jax.random.normal(jnp.asarray(pk), ()))
          sign = 2 * np.eye(z.shape[0]) - 1
          out = out + (jnp.mean(jnp.sum(jnp.logaddexp(0., -z * sign), -1)) + a) / m
        return out

      for px, pt, _ in groups.values():
        js = [rows.get(v.tobytes()) for v in px]
        used += js
        ctx.check(px.shape[0] == batch // m and None not in js, f'{info}: a pass over other images')
        ctx.check(all(np.array_equal(t[j], pt[a]) for a, j in enumerate(js)), f'{info}: an image was paired with the text of another')
        ctx.event('pair_checked', len(js))
      ctx.check(sorted(used) == list(range(batch)), f'{info}: examples used {sorted(used)}')
      val, g = jax.value_and_grad(reference)(params)
      want = jax.tree.map(lambda a, b: a - lr * b, params, g)
      ok = jax.tree.map(lambda a, b: bool(np.allclose(a, b, rtol=1e-3, atol=1e-3)), dict(new.params), want)
      ctx.check(all(jax.tree.leaves(ok)), lambda: f'{info}: parameters {new.params}, expected {want}')
      ctx.check(abs(float(metrics['total_loss']) - float(val)) <= 1e-3 * max(1, abs(float(val))) and int(new.step) == t_ + 1, f'{info}: loss {metrics["total_loss"]}, expected {val}')
      state, params = new, dict(new.params)
      ctx.event('step_checked')
      if m > 1:
        ctx.event('microsteps')

  # Whole trainings, with stand-ins for the Big Vision evaluators.
  evaluations = []
  ev_x = np.random.default_rng(0).normal(size=(3, 4, 4, 3)).astype(np.float32)
  ev_t = np.random.default_rng(1).normal(size=(3, 7)).astype(np.float32)

  class Evaluator:

    def __init__(self, predict_fn, devices, dataset_names=('r',), **kw):
      self.predict_fn, self.devices, self.kw = predict_fn, devices, kw
      self.datasets = list(dataset_names)

    def evaluate(self, variables, task=None):
      zi, none1, _ = self.predict_fn(variables, {'image': ev_x})
      none2, zt, _ = self.predict_fn(variables, {'labels': ev_t})
      both = rejects(lambda: self.predict_fn(variables, {'image': ev_x, 'labels': ev_t})) and rejects(lambda: self.predict_fn(variables, {}))
      evaluations.append((task, np.asarray(zi), np.asarray(zt), none1 is None and none2 is None and both, len(self.devices)))
      score = float(jnp.sum(zi * zt)) * self.kw.get('x', 1)
      return {'accuracy': score} if task else {'txt2img': {'Recall@1': score}, 'img2txt': {'Recall@5': score + 1}}

  def embed(state):
    p = {k[len("['params']"):]: v.astype(np.float64) for k, v in state.items() if k.startswith("['params']")}
    a = ev_x.reshape(3, -1).astype(np.float64) @ p["['img']['Mlp']['kernel']"] + p["['img']['Mlp']['bias']"]
    a = a @ p["['img']['head']['kernel']"] + p["['img']['head']['bias']"]
    b = ev_t.astype(np.float64) @ p["['txt']['Mlp']['kernel']"] + p["['txt']['Mlp']['bias']"]
    return [v / np.linalg.norm(v, axis=-1, keepdims=True) for v in (a, b)]

  def whole(ctx, rng, i):
    evaluators.bv_retrieval = types.SimpleNamespace(Evaluator=Evaluator)
    evaluators.bv_discriminative = types.SimpleNamespace(Evaluator=Evaluator)
    base = os.path.join(ctx.scratch, f'case{i}')
    trainrun.make_data(os.path.join(base, 'data'))
    total = int(rng.integers(3, 7))
    every_r, every_z = int(rng.integers(2, 4)), int(rng.integers(2, 4))
    tasks = dict(list(dict(r=1, r2=2, a=-1).items())[:int(rng.integers(1, 4))])
    o = dict(batch=int(rng.choice([4, 8])), optimizer=dict(name='adam', learning_rate=0.02), axes=[['img/Mlp/.*$', ['expert']]] if rng.random() < 0.5 else [], seed=int(rng.integers(100)),
             save=dict(every_steps=1), evaluate={}, rngs=['dropout'], train_steps=total, contrastive=dict(scale_init=2.0, bias_init=[None, -1.0][rng.integers(2)]),
             retrieval=dict(every_steps=every_r, datasets={k: dict(x=x) for k, x in tasks.items()}), zeroshot=dict(every_steps=every_z, datasets=dict(za=dict(), zb=dict(), zc=dict())))
    if rng.random() < 0.4:
      o['microsteps'] = 1 if n_dev == 4 and o['batch'] == 4 else 2 if o['batch'] // n_dev >= 2 else 1
    mesh = (1, n_dev) if rng.random() < 0.5 else (n_dev, 1)
    info = f'contrastive training {o} on {mesh}'
    ctx.distinct_case(info)

    def checked(w, start, d, crashed):
      done = w.train_steps()
      ctx.check(done == list(range(start + 2, start + 2 + len(done))) and (crashed or len(done) == max(0, total - start - 1)), f'{info}: steps {done} after {start} of {total}')
      for name, every, ev, x in ([(f'retrieval/{k}/txt2img/Recall@1', every_r, 'retrieval_evaluated', x) for k, x in tasks.items()]
                                 + [(f'zeroshot/{k}/accuracy', every_z, 'zeroshot_evaluated', 1) for k in ('za', 'zb', 'zc')]):
        got = w.metric(name)
        exp = [s for s in range(start + 1, total + 1) if s % every == 0 or s in (start + 1, total)]
        ctx.check([s for s, _ in got] == (exp[:len(got)] if crashed else exp), f'{info}: {name} evaluated at {[s for s, _ in got]}, expected {exp}')
        for s, v in got:
          if s in trainrun.steps_on_disk(d):
            a, b = embed(trainrun.read_state(d, s)[0])
            ctx.check(abs(x * (a * b).sum() - v) < 1e-2, f'{info}: {name} at step {s} is {v}, but the parameters of that step give {x * (a * b).sum()}')
            ctx.event(ev)
      ctx.event('run')

    evaluations.clear()
    ref_dir, d = os.path.join(base, 'ref'), os.path.join(base, 'run')
    ref, _ = trainrun.train(o, ref_dir, mesh)
    checked(ref, 0, ref_dir, False)
    ctx.check(evaluations and all(e[3] and e[4] == n_dev for e in evaluations), f'{info}: predictions for the evaluators: {[e[3:] for e in evaluations]}')
    crash = (['write', 'before_save', 'after_save'][rng.integers(3)], int(rng.integers(2, total + 1)), 0)
    w, crashed = trainrun.train(o, d, mesh, crash=crash)
    checked(w, 0, d, crashed)
    before = trainrun.steps_on_disk(d)
    w, crashed = trainrun.train(o, d, mesh)
    checked(w, max(before) if before else 0, d, crashed)
    if before and 0 < max(before) < total:
      ctx.event('resume')
    got, idx = trainrun.read_state(d, total)
    want, widx = trainrun.read_state(ref_dir, total)
    ctx.check(set(got) == set(want) and idx == widx == total * o['batch'], f'{info}: last seen index {idx} {widx} after {total} steps')
    for k in want:
      ctx.check(np.allclose(got[k], want[k], rtol=1e-4, atol=1e-4), f'{info}: crashed at {crash}: {k} differs from the uninterrupted run by {np.abs(got[k].astype(float) - want[k]).max()}')
    ctx.event('final_state_equal')
    shutil.rmtree(base, ignore_errors=True)

  for i in range(spec['losses']):
    ctx.run_case(f'l{i}', loss, i)
  for i in range(spec['models']):
    ctx.run_case(f'm{i}', model, i)
  for i in range(spec['steps']):
    ctx.run_case(f's{i}', step, i)
  for i in range(spec['runs']):
    ctx.run_case(f'r{i}', whole, i)
