"""P24: losses and predictions are those of the (ensemble of) probabilities, without overflow."""

RULE = ('random logits (scales up to 1e4, shifted, -inf, ties), labels (one-hot, multi-hot, soft, all-zero), ensemble sizes 1-6, class counts 1-200, '
        'jitted and not, gradients; oracle: float64 definitions with log-sum-exp; distinct by (loss, shape, scale)')
REQUIRED = {'loss_checked': 200, 'prediction_checked': 100, 'ensemble': 50, 'extreme': 20, 'gradient_checked': 150, 'minus_inf': 6, 'unknown_rejected': 4,
            'multiply_no_nan': 20, 'single_member_consistent': 15}


def specs(tier):
  n = 10 if tier == 'quick' else 400
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(7)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmoe import utils
  from vmoe.train import trainer

  def lse(z, axis):
    m = z.max(axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide='ignore'):
      return np.log(np.exp(z - m).sum(axis)) + np.squeeze(m, axis)

  def log_softmax(z):
    return z - lse(z, -1)[..., None]

  def log_sigmoid(z):
    return -np.logaddexp(0, -z)

  def dot(y, lp):
    with np.errstate(invalid='ignore'):
      return np.where(y == 0, 0, y * lp).sum(-1)

  def reference(name, mode, z, y, m):
    z, y = z.astype(np.float64), y.astype(np.float64)
    if not name.startswith('ensemble'):
      m = 1
    if mode == 'train':
      y = np.repeat(y, m, axis=0)
      if 'softmax' in name:
        return -dot(y, log_softmax(z))
      return -(y * log_sigmoid(z) + (1 - y) * log_sigmoid(-z)).sum(-1)
    zz = z.reshape(-1, m, z.shape[-1])
    if 'softmax' in name:
      return -dot(y, lse(log_softmax(zz), 1) - np.log(m))
    return -(y * (lse(log_sigmoid(zz), 1) - np.log(m)) + (1 - y) * (lse(log_sigmoid(-zz), 1) - np.log(m))).sum(-1)

  cache = {}

  def gradient(name, mode, m, fn, z, y):
    if (name, mode, m) not in cache:
      cache[name, mode, m] = jax.jit(jax.grad(lambda v, w: jnp.sum(fn(v, w))))
    return np.asarray(cache[name, mode, m](z, y))

  def case(ctx, rng, i):
    for name in ('softmax_xent', 'sigmoid_xent', 'ensemble_softmax_xent', 'ensemble_sigmoid_xent'):
      ens = name.startswith('ensemble')
      m = int(rng.choice([1, 2, 3, 6])) if ens else 1
      b, c = int(rng.choice([1, 4, 7])), int(rng.choice([1, 2, 5, 200], p=[.1, .3, .5, .1]))
      scale = float(rng.choice([0.1, 1., 10., 100., 1e4], p=[.1, .4, .2, .15, .15]))
      z = (rng.normal(size=(b * m, c)) * scale + rng.choice([0., 0., 50., -300.])).astype(np.float32)
      k = rng.integers(4)
      if k <= 1:
        y = np.eye(c)[rng.integers(0, c, size=b)]
      elif k == 2:
        y = rng.random((b, c)) < 0.4
      else:
        y = rng.random((b, c))
        y = y / y.sum(-1, keepdims=True) if rng.random() < 0.5 else y
      y = y.astype(np.float32)
      if scale >= 100:
        ctx.event('extreme')
      kw = dict(ensemble_size=m) if ens else {}
      train, evaluate, predict = trainer.get_loss_fn(name, **kw)
      info = f'{name}{kw} with logits {z.shape} of scale {scale}'
      jit = jax.jit if rng.random() < 0.3 else (lambda f: f)
      for mode, fn in (('train', train), ('eval', evaluate)):
        got = np.asarray(jit(fn)(jnp.asarray(z), jnp.asarray(y)), np.float64)
        want = reference(name, mode, z, y, m)
        ctx.check(got.shape == want.shape, f'{info}: {mode} loss has shape {got.shape} instead of {want.shape}')
        tol = 1e-3 + 3e-5 * np.abs(want) + 1e-5 * np.abs(z).max() * c
        ctx.check(np.all(np.abs(got - want) <= tol), lambda: f'{info}: {mode} loss {got[:4]}, expected {want[:4]}')
        ctx.event('loss_checked')
        g = gradient(name, mode, m, fn, z, y)
        ctx.check(np.all(np.isfinite(g)), f'{info}: gradient of the {mode} loss is not finite')
        if scale <= 10:
          eps, d = 1e-5, rng.normal(size=z.shape)
          num = (reference(name, mode, z + eps * d, y, m).sum() - reference(name, mode, z - eps * d, y, m).sum()) / (2 * eps)
          ctx.check(abs(num - (g * d).sum()) <= 1e-2 + 1e-3 * abs(num) + 2e-4 * scale * np.abs(d).sum() * 0.02, f'{info}: gradient of the {mode} loss along a direction is {(g * d).sum()}, expected {num}')
          ctx.event('gradient_checked')
      # Predictions: the class with the largest (mean) probability.
      pred = np.asarray(jit(predict)(jnp.asarray(z)))
      zz = z.astype(np.float64).reshape(b, m, c)
      if ens:
        score = lse(log_softmax(zz), 1) if 'softmax' in name else lse(log_sigmoid(zz), 1)
      else:
        score = zz[:, 0]
      ctx.check(pred.shape == (b,), f'{info}: predictions of shape {pred.shape}')
      best = score.max(-1)
      ok = score[np.arange(b), pred] >= best - 1e-4 - 1e-5 * np.abs(zz).max()
      ctx.check(np.all(ok), lambda: f'{info}: predicted {pred}, scores {score[~ok][:2]}')
      ctx.event('prediction_checked')
      if ens:
        ctx.event('ensemble')
        if m == 1:
          base = trainer.get_loss_fn(name.replace('ensemble_', ''))
          for f, h in zip((train, evaluate), base[:2]):
            a, e = np.asarray(f(z, y)), np.asarray(h(z, y))
            ctx.check(np.allclose(a, e, rtol=1e-4, atol=1e-3 + 1e-5 * scale * c), f'{info}: an ensemble of one differs from the plain loss')
        if rng.random() < 0.5:  # Members with equal logits: the ensemble is the member.
          z1 = (rng.normal(size=(b, c)) * scale).astype(np.float32)
          a = np.asarray(evaluate(jnp.repeat(z1, m, axis=0), y))
          e = np.asarray(trainer.get_loss_fn(name.replace('ensemble_', ''))[1](z1, y))
          ctx.check(np.allclose(a, e, rtol=1e-4, atol=1e-3 + 1e-5 * scale * c), f'{info}: equal members differ from a single one')
          ctx.event('single_member_consistent')
      if 'softmax' in name and ens and c > 2 and rng.random() < 0.6:
        zi = z.copy()
        zi[:, 0] = -np.inf
        yi = y.copy()
        yi[:, 0] = 0
        got = np.asarray(evaluate(jnp.asarray(zi), jnp.asarray(yi)))
        want = reference(name, 'eval', zi, yi, m)
        ctx.check(np.all(np.isfinite(got)) and np.allclose(got, want, rtol=1e-3, atol=1e-3 + 1e-5 * np.abs(z).max() * c),
                  f'{info}: impossible classes without label give {got}, expected {want}')
        ctx.event('minus_inf')
      ctx.distinct_case(name, z.shape, m, scale)
    x = rng.choice([0., -0., 1., -2.5, 3.], size=12).astype(np.float32)
    v = rng.choice([np.inf, -np.inf, np.nan, 0., 2., -7.], size=12).astype(np.float32)
    got = np.asarray(utils.multiply_no_nan(x, v))
    with np.errstate(invalid='ignore'):
      want = np.where(x == 0, 0, x * v)
    ctx.check(np.array_equal(got, want, equal_nan=True), f'multiply_no_nan({x}, {v}) = {got}')
    fin = np.where(np.isfinite(v), v, 1)
    g = np.asarray(jax.grad(lambda a, b: jnp.sum(utils.multiply_no_nan(a, b)), argnums=(0, 1))(x, fin))
    ctx.check(np.all(np.isfinite(g)), 'multiply_no_nan has a non-finite gradient')
    g = np.asarray(jax.grad(lambda a, b: jnp.sum(utils.multiply_no_nan(a, b)), argnums=(0, 1))(x, np.where(x == 0, v, fin)))
    ctx.check(np.all(np.isfinite(g)), f'multiply_no_nan({x}, {np.where(x == 0, v, fin)}) has the gradient {g}')
    ctx.event('multiply_no_nan')
    if i % 8 == 0:
      try:
        trainer.get_loss_fn(['foo', 'softmax', 'ensemble'][rng.integers(3)])
      except ValueError:
        ctx.event('unknown_rejected')
      else:
        ctx.check(False, 'an unknown loss was accepted')
    ctx.sample(info)

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
