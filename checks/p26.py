"""P26: learning rate schedules follow their formulas at every step, and stay bounded after the end."""

RULE = ('random schedules of every kind (warmup 0..n, cooldown, powers, timescales, default and explicit decay steps), evaluated at each step of '
        'the schedule and beyond, eagerly, jitted and vectorised; oracle: closed formulas in float64; distinct by (schedule, arguments)')
REQUIRED = {'value_checked': 5000, 'boundary_checked': 300, 'beyond_end': 100, 'nonnegative': 200, 'no_warmup': 5, 'default_decay': 15, 'invalid_rejected': 20,
            'constant': 5, 'cosine': 5, 'linear': 5, 'polynomial': 5, 'rsqrt': 10, 'exponential': 4}


def specs(tier):
  n = 30 if tier == 'quick' else 1200
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(4)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import math
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmoe.train import schedule

  def case(ctx, rng, i):
    kind = ['constant', 'cosine', 'linear', 'polynomial', 'rsqrt', 'rsqrt', 'exponential'][i % 7]
    total = int(rng.choice([5, 20, 137, 1000]))
    peak = float(rng.choice([1e-3, 0.1, 2.0]))
    end = float(rng.choice([0.0, 1e-5, 1e-4]))
    warm = int(rng.choice([0, 1, 2, total // 5, total // 2]))
    explicit = rng.random() < 0.5
    decay = int(rng.integers(warm + 2, total + 50)) if explicit else total
    if warm == 0:
      ctx.event('no_warmup')
    kw = {}
    if kind == 'constant':
      name, kw = 'constant', dict(value=peak)
      want = lambda t: peak
      decay = total
    elif kind == 'cosine':
      name, kw = 'warmup_cosine_decay', dict(peak_value=peak, warmup_steps=warm, end_value=end)
      want = lambda t: peak * t / warm if t < warm else end + (peak - end) * 0.5 * (1 + math.cos(math.pi * min(1, (t - warm) / (decay - warm))))
    elif kind in ('linear', 'polynomial'):
      name = f'warmup_{kind}_decay'
      power = 1.0
      kw = dict(peak_value=peak, end_value=end, warmup_steps=warm)
      if kind == 'polynomial':
        power = kw['power'] = float(rng.choice([0.5, 1.0, 2.0, 3.0]))
      want = lambda t: peak * t / warm if t < warm else end + (peak - end) * (1 - min(1, (t - warm) / (decay - warm)))**power
    elif kind == 'exponential':
      name = 'warmup_exponential_decay'
      rate, trans = float(rng.choice([0.5, 0.9])), int(rng.choice([1, 3, 10]))
      warm = max(warm, 1)
      kw = dict(peak_value=peak, warmup_steps=warm, transition_steps=trans, decay_rate=rate)
      explicit, decay = False, total
      want = lambda t: peak * t / warm if t < warm else peak * rate**((t - warm) / trans)
    else:
      name = 'big_vision_rsqrt'
      cool = int(rng.choice([0, 1, (decay - warm) // 2, decay - warm]))
      ts = int(rng.choice([1, 10, 10_000]))
      kw = dict(peak_value=peak, timescale=ts)
      if warm or rng.random() < 0.5:
        kw['warmup_steps'] = warm
      if cool or rng.random() < 0.5:
        kw['cooldown_steps'] = cool
      def want(t):
        if t < warm:
          return peak * t / warm
        if t < decay - cool or not cool:
          return peak / math.sqrt(1 + (t - warm) / ts)
        return peak / math.sqrt(1 + (decay - warm - cool) / ts) * max(0.0, 1 - (t - (decay - cool)) / cool)
    ctx.event(kind)
    if kind in ('cosine', 'linear', 'polynomial', 'rsqrt'):
      if explicit:
        kw['decay_steps'] = decay
      else:
        ctx.event('default_decay')
    info = f'{name} {kw}, {total} steps'
    fn = schedule.create_learning_rate_schedule(schedule=name, total_steps=total, **kw)
    last = max(total, decay)
    steps = np.arange(last + 1) if last <= 140 else np.unique(np.concatenate([rng.integers(0, last + 1, size=60), [0, 1, warm - 1, warm, warm + 1, decay - 1, decay, decay + 1]]))
    steps = np.unique(np.concatenate([steps[steps >= 0], [last + 1, last + 7, 3 * last]]))
    jitted = jax.jit(fn)
    vec = np.asarray(jax.vmap(fn)(jnp.asarray(steps, jnp.int32))) if kind != 'constant' else None
    for j, t in enumerate(steps.tolist()):
      w = want(t)
      values = [float(jitted(t))]
      if j % 8 == 0:
        values.append(float(fn(t)))
        values.append(float(fn(jnp.asarray(t, jnp.int32))))
      if vec is not None:
        values.append(float(vec[j]))
      for v in values:
        ctx.check(math.isfinite(v) and abs(v - w) <= (2e-3 if kw.get("power") == 0.5 else 1e-4) * peak + 1e-4 * abs(w), f'{info}: {v} at step {t}, expected {w}')
        ctx.event('value_checked')
        ctx.check(-1e-6 * peak <= v <= peak * (1 + 1e-5), f'{info}: {v} at step {t} is outside of [0, {peak}]')
        ctx.event('nonnegative')
      if t in (0, warm, decay, decay - 1):
        ctx.event('boundary_checked')
      if t > decay:
        ctx.event('beyond_end')
    ctx.distinct_case(info)
    ctx.sample(info)
    bad = [dict(schedule='foo'), dict(schedule='big_vision_rsqrt', peak_value=1., timescale=10, warmup_steps=total, cooldown_steps=1),
           dict(schedule='big_vision_rsqrt', peak_value=1., timescale=-1)][rng.integers(3)]
    try:
      schedule.create_learning_rate_schedule(total_steps=total, **bad)
    except ValueError:
      ctx.event('invalid_rejected')
    else:
      ctx.check(False, f'{bad} was accepted')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
