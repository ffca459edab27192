"""P37: barriers hold back every process; reports are written once, completely; summaries are those of the arrays."""

RULE = ('real jobs of 2-4 processes entering barriers with random delays and names (also mismatched); progress reports and single-process actions in '
        'those jobs; random trees, rules and reductions for the summaries; monitors record entry/exit times on the shared clock and everything '
        'written by each process; oracle: no exit before the last entry, one writer, NumPy reductions; distinct by (processes, delays, names, rules)')
REQUIRED = {'barrier': 18, 'late_process': 10, 'mismatch_detected': 4, 'report_checked': 20, 'silent_process': 6, 'single_process': 18, 'summary_value': 100, 'summary_checked': 20,
            'cost_checked': 16, 'too_many_rejected': 5, 'unknown_rejected': 4, 'several_rules': 5, 'axes': 10}


def specs(tier):
  q = tier == 'quick'
  n = 8 if q else 120
  return [dict(name='mp2', devices=2, procs=2, n=n), dict(name='mp3', devices=1, procs=3, n=n), dict(name='mp4', devices=1, procs=4, n=n),
          dict(name='s0', devices=1, trees=60 if q else 3000), dict(name='s1', devices=4, trees=60 if q else 3000)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import itertools
  import json
  import os
  import re
  import time
  import flax
  import jax
  import jax.numpy as jnp
  import ml_collections
  import numpy as np
  from vmoe import multihost_utils
  from vmoe.train import periodic_actions
  from vmoe.train import trainer
  from vmoe.train import tree_summarizer

  rank, procs = spec.get('rank', 0), spec.get('procs', 1)

  class Writer:

    def __init__(self):
      self.log = []

    def write_scalars(self, step, scalars):
      self.log.append((step, dict(scalars)))

    def __getattr__(self, name):
      if name.startswith('__'):
        raise AttributeError(name)
      return lambda *a, **k: None

  def write(name, value):
    tmp = os.path.join(spec['shared_dir'], f'.{name}.{rank}')
    with open(tmp, 'w') as fp:
      json.dump(value, fp)
    os.rename(tmp, os.path.join(spec['shared_dir'], f'{name}.{rank}'))

  def gather(name, value):
    """All ranks exchange values through files, without the code under test."""
    write(name, value)
    out = []
    for r in range(procs):
      path = os.path.join(spec['shared_dir'], f'{name}.{r}')
      t = time.time()
      while not os.path.exists(path):
        if time.time() - t > 120:
          raise TimeoutError(f'no {name} from rank {r}')
        time.sleep(0.005)
      with open(path) as fp:
        out.append(json.load(fp))
    return out

  def barrier(ctx, rng, i):
    # All ranks draw the same values.
    late = int(rng.integers(procs))
    delays = [float(rng.random() * 0.05) + (0.15 if r == late else 0) for r in range(procs)]
    main = [0, 0, procs - 1][rng.integers(3)]
    name = ['ckpt', 'training:completed', '', 'ñ', f'step {i}'][rng.integers(5)]
    gather(f'b{i}', 0)
    time.sleep(delays[rank])
    t0 = time.monotonic()
    if main == 0 and rng.random() < 0.5:
      multihost_utils.sync_devices(name)
    else:
      multihost_utils.sync_devices(name, main_process=main)
    t1 = time.monotonic()
    times = gather(f'e{i}', [t0, t1])
    ctx.check(max(a for a, _ in times) <= min(b for _, b in times) + 1e-4, f'barrier {name!r} of {procs} processes (main {main}): entered and left at {times}')
    ctx.event('barrier')
    if t1 - t0 > 0.05:
      ctx.event('late_process')
    ctx.distinct_case('barrier', procs, name, main, late, i)

  def mismatch(ctx, rng, i):
    main = int(rng.integers(procs))
    odd = int(rng.integers(procs))
    gather(f'mm{i}', 0)
    failed = False
    try:
      multihost_utils.sync_devices('other' if rank == odd else 'same', main_process=main)
    except ValueError:
      failed = True
    res = gather(f'me{i}', failed)
    # Those which disagree with the main process notice.
    want = [(r == odd) != (main == odd) for r in range(procs)]
    ctx.check(res == want, f'mismatched barrier (main {main}, odd {odd}): failed {res}, expected {want}')
    ctx.event('mismatch_detected')

  def reports(ctx, rng, i):
    total = int(rng.integers(3, 12))
    every = int(rng.integers(1, 4))
    who = [0, procs - 1, None][rng.integers(3)]
    w = Writer()
    extra = sorted(rng.choice(total, size=int(rng.integers(0, 3)), replace=False).tolist())
    kw = {}
    if extra:
      kw['on_steps'] = [list, tuple, set][rng.integers(3)](extra)
      if rng.random() < 0.3:
        every = 1000
    hook = trainer.create_progress_hook(writer=w, first_step=1, train_steps=total, every_steps=every, process_index=who, **kw)
    values = {s: {'train': {'loss': float(s) * 1.5, 'deep': {'x': float(-s)}}, 'flat/name': float(s * 3), 'lr': np.float32(1.2345678e-7 * s), 'big': np.float32(12345678.0 * s), 'odd': [np.nan, np.inf, -np.inf, 0.0][s % 4]} for s in range(1, total + 1)}
    if rng.random() < 0.5:
      values = {s: flax.traverse_util.flatten_dict(v, sep='/') for s, v in values.items()}
    fired = []
    with hook.timed('part', wait_jax_async_dispatch=False):
      pass
    for s in range(1, total + 1):
      v = jax.tree.map(jnp.asarray, values[s]) if rng.random() < 0.5 else values[s]
      if hook(s, scalar_metrics=v):
        fired.append(s)
    mine = [(s, m) for s, m in w.log if 'train/loss' in m]
    if who is not None and rank != who:
      ctx.check(not w.log and not fired, f'rank {rank} reported {w.log} although only {who} should')
      ctx.event('silent_process')
    else:
      want = [s for s in range(2, total + 1) if s % every == 0 or s == total or s in extra]  # The first call starts the clock.
      ctx.check(fired == want and [s for s, _ in mine] == want, f'progress every {every} and on {extra} of {total}: fired at {fired}, wrote {[s for s, _ in mine]}, expected {want}')
      for s, m in mine:
        ctx.check(m['train/loss'] == s * 1.5 and m['train/deep/x'] == -s and m['flat/name'] == s * 3 and m['lr'] == np.float32(1.2345678e-7 * s) and m['big'] == np.float32(12345678.0 * s) and 'uptime_part' in m and np.array_equal(m['odd'], values[s]['odd'], equal_nan=True), f'progress at step {s}: {m}')
        ctx.check(all(isinstance(v, (float, int)) for v in m.values()), f'progress at step {s}: {m}')
        ctx.event('report_checked')
    # Single-process actions.
    calls = []
    act = periodic_actions.SingleProcessPeriodicAction(periodic_action=lambda *a, **k: calls.append((a, k)) or True, process_index=who or 0)
    r = [act(s, x=s) for s in range(3)]
    if rank == (who or 0):
      ctx.check(calls == [((s,), dict(x=s)) for s in range(3)] and r == [True] * 3, f'single-process action: {calls} {r}')
    else:
      ctx.check(not calls and r == [False] * 3, f'single-process action on rank {rank}: {calls} {r}')
    ctx.event('single_process')

  ops = {'mean': np.mean, 'std': np.std, 'sum': np.sum, 'min': np.min, 'max': np.max, 'norm': lambda x, axis=None, keepdims=True: np.sqrt(np.sum(np.square(x), axis=axis, keepdims=keepdims))}

  def summaries(ctx, rng, i):
    shapes = [(), (3,), (2, 4), (2, 1, 3)]
    flat = {}
    shift = float(rng.choice([0., 0., 1000.]))
    names = ['a/kernel', 'a/bias', 'Moe/Mlp/kernel', 'Moe/Router/kernel', 'head/kernel', 'step']
    names = names[:rng.integers(1, 7)]
    if rng.random() < 0.25:
      names += [f'Moe/block_{j}/kernel' for j in range(int(rng.integers(4, 60)))]
    for k in names:
      flat[k] = (rng.normal(size=shapes[rng.integers(4)]) * 3 + shift).astype(np.float32)
    tree = flax.traverse_util.unflatten_dict(flat, sep='/')
    pats = ['kernel', '^a/', 'Moe', 'bias$', '.*', 'nomatch', 'a']
    rules, info_rules = [], []
    for _ in range(rng.integers(1, 4)):
      pat = pats[rng.integers(len(pats))]
      tf = []
      r = rng.random()
      if r < 0.4:
        tf = [sorted(ops)[rng.integers(6)]]
      elif r < 0.75:
        tf = [(sorted(ops)[rng.integers(6)], int(rng.integers(-1, 1)))]
        if rng.random() < 0.5:
          tf += [sorted(ops)[rng.integers(6)] for _ in range(int(rng.integers(1, 4)))]
        two = rng.random() < 0.3  # Several axes at once.
        if two:
          tf[0] = (tf[0][0], (0, 1))
        pat = [p for p in ('kernel', 'Moe')][rng.integers(2)]
        for k in list(flat):
          if re.search(pat, k) and flat[k].ndim <= int(two):
            flat[k] = rng.normal(size=(2, 4)).astype(np.float32)
      rules.append(([pat] + tf) if tf or rng.random() < 0.5 else pat)
      info_rules.append((pat, tf))
    tree = flax.traverse_util.unflatten_dict(flat, sep='/')
    if rng.random() < 0.3:
      tree = flax.core.freeze(tree)
    limit = int(rng.choice([1, 4, 100]))
    want, too_many = [], False
    for k, v in flat.items():
      for pat, tf in info_rules:
        if re.search(pat, k):
          out, sfx = v.astype(np.float64), ''
          for t in tf:
            op, ax = (t, None) if isinstance(t, str) else (t[0], (t[1],) if isinstance(t[1], int) else t[1])
            out = ops[op](out, axis=ax, keepdims=True)
            sfx += f'_{op}' + (f'{ax}' if ax is not None else '')
            if ax is not None:
              ctx.event('axes')
          if out.size > limit:
            too_many = True
          for idx in itertools.product(*(range(s) for s in out.shape)):
            q = ','.join(str(j) for j, s in zip(idx, out.shape) if s > 1)
            want.append((k + sfx + (f'[{q}]' if q else ''), float(out[idx])))
    info = f'rules {rules} on {({k: v.shape for k, v in flat.items()})} limit={limit}'
    form = rng.integers(3)
    if form == 0 and limit == 1:
      s = trainer.create_tree_summarizer(rules)
    elif form == 1:
      s = trainer.create_tree_summarizer(ml_collections.ConfigDict(dict(rules=rules, max_summary_values=limit)))
    else:
      s = tree_summarizer.TreeSummarizer(rules=rules, max_summary_values=limit)
    ctx.distinct_case(info)
    jtree = jax.tree.map(jnp.asarray, tree)
    fn = (lambda t: dict(s(t))) if rng.random() < 0.5 else jax.jit(lambda t: dict(s(t)))
    if too_many:
      failed = False
      try:
        fn(jtree)
      except ValueError:
        failed = True
      ctx.check(failed, f'{info}: more values than allowed were accepted')
      ctx.event('too_many_rejected')
      return
    got = fn(jtree)
    ctx.check(set(got) == {k for k, _ in want}, lambda: f'{info}: gave {sorted(got)}, expected {sorted(k for k, _ in want)}')
    for k, v in want:
      ctx.check(np.shape(got[k]) == () and abs(float(got[k]) - v) <= 1e-3 * max(1, abs(v)), f'{info}: {k} is {got[k]}, expected {v}')
      ctx.event('summary_value')
    ctx.event('summary_checked')
    if len(rules) > 1:
      ctx.event('several_rules')
    if i % 10 == 0:
      for bad in ('median', ('prod', 0)):
        failed = False
        try:
          dict(tree_summarizer.TreeSummarizer(rules=[('.*', bad)])({'a': jnp.ones((2,))}))
        except ValueError:
          failed = True
        ctx.check(failed, f'unknown reduction {bad} was accepted')
        ctx.event('unknown_rejected')
      ctx.check(trainer.create_tree_summarizer(None) is None, 'a summarizer without rules')

  def cost(ctx, rng, i):
    # The reported cost of the training is that of all devices of all processes up to the step.
    class Compiled:

      def __init__(self, **kw):
        self.kw = kw

      def cost_analysis(self):
        return dict(self.kw)
    value = lambda: [None, float(rng.integers(1, 10**6)), -1.0, 0.0, 2.5e-3][rng.integers(5)]
    given = {k: v for k, v in (('flops', value()), ('optimal_seconds', value())) if v is not None}
    fn = trainer.make_train_cost_fn(Compiled(bytes=3, **given))
    for step in (1, int(rng.integers(2, 10**6))):
      want = {k: given[q] * step * len(jax.devices()) for k, q in (('flops', 'flops'), ('device_seconds', 'optimal_seconds')) if given.get(q, 0) > 0}
      got = fn(step)
      ctx.check(set(got) == set(want) and all(abs(got[k] - want[k]) <= 1e-9 * want[k] for k in want), f'cost at step {step} of {given} on {len(jax.devices())} devices: {got}, expected {want}')
    ctx.event('cost_checked')
    ctx.distinct_case('cost', str(given))

  for i in range(6):
    ctx.run_case(f'cost{i}', cost, i)
  if procs > 1:
    for i in range(spec['n']):
      ctx.run_case(f'b{i}', barrier, i)
      ctx.run_case(f'r{i}', reports, i)
    for i in range(max(2, spec['n'] // 4)):
      ctx.run_case(f'm{i}', mismatch, i)
  else:
    for i in range(spec['trees']):
      ctx.run_case(f's{i}', summaries, i)
