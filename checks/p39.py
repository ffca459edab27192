"""P39: the main programs run the configured job and leave their metrics on disk."""

RULE = ('the real main programs started as processes with generated configuration files, arguments, overrides (typed, unknown, malformed), missing flags, '
        '1-8 devices and expert partitions, 2 distributed processes; a recorder in the place of the trainer reports scalars and then returns, fails or '
        'exits; complete trainings through the command line, killed around checkpoint writes and started again; oracle: recorded arguments, event '
        'files read back, uninterrupted run; distinct by (program, configuration, flags, outcome)')
REQUIRED = {'program_run': 10, 'config_checked': 10, 'override_checked': 8, 'bad_flags_rejected': 5, 'events_checked': 10, 'failure_reported': 3, 'mesh_checked': 10,
            'distributed': 1, 'trained': 2, 'killed': 1, 'resumed_equal': 1, 'metric_on_disk': 10}

MAINS = {'vmoe.train.main': 'vmoe.train.trainer', 'vmoe.projects.soft_moe.main': 'vmoe.train.trainer',
         'vmoe.projects.soft_moe.main_contrastive': 'vmoe.projects.contrastive.trainer',
         'vmoe.projects.adversarial_attacks.main': 'vmoe.projects.adversarial_attacks.lib'}


def specs(tier):
  n = 3 if tier == 'quick' else 40
  out = [dict(name=f'w{j}', devices=1, n=n) for j in range(5)]
  return out + [dict(name='dist', devices=1, n=1 if tier == 'quick' else 8, dist=1)] + [
      dict(name=f'k{j}', devices=1, n=1 if tier == 'quick' else 10, kill=1) for j in range(2)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import glob
  import json
  import os
  import shutil
  import subprocess
  import sys
  import numpy as np
  import tensorflow as tf
  from vlib import driver
  from vlib import trainrun
  count = [0]

  def launch(job, flags, devices, rank=None):
    count[0] += 1
    path = os.path.join(ctx.scratch, f'job{count[0]}.json')
    with open(path, 'w') as fp:
      json.dump(job, fp)
    env = dict(os.environ, PYTHONHASHSEED=str(int(os.environ['PYTHONHASHSEED']) // 2 + count[0]), APPRUN_JOB=path, XLA_FLAGS=f'--xla_force_host_platform_device_count={devices} --xla_backend_optimization_level=0')
    log = open(path + '.log', 'w')
    p = subprocess.Popen([sys.executable, '-m', 'vlib.apprun'] + flags, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=ctx.scratch)
    p.log = path + '.log'
    return p

  def tail(p):
    with open(p.log, errors='replace') as fp:
      return fp.read()[-600:]

  def events(workdir):
    """All scalars in the event files: [(step, name, value)]."""
    out = []
    for f in sorted(glob.glob(os.path.join(workdir, '**', '*tfevents*'), recursive=True)):
      for e in tf.compat.v1.train.summary_iterator(f):
        for v in e.summary.value:
          if v.HasField('tensor'):
            a = tf.make_ndarray(v.tensor)
            if a.ndim == 0 and a.dtype.kind == 'f':
              out.append((int(e.step), v.tag, float(a)))
          elif v.HasField('simple_value'):
            out.append((int(e.step), v.tag, float(v.simple_value)))
    return out

  def config_file(rng, name, partitions, with_arg):
    """A configuration file and its contents."""
    c = dict(num_expert_partitions=partitions, seed=int(rng.integers(100)), lr=float(rng.integers(1, 100)) / 8, name=f'run{rng.integers(50)}', flag=bool(rng.integers(2)),
             dims=tuple(int(x) for x in rng.integers(1, 9, size=2)), model=dict(width=int(rng.integers(1, 64)), depth=2, router=dict(noise=0.5, kind='top')))
    path = os.path.join(ctx.scratch, f'{name}.py')
    with open(path, 'w') as fp:
      fp.write('import ml_collections\n\ndef get_config(%s):\n  c = ml_collections.ConfigDict(%r)\n%s  return c\n' % (
          'arg' if with_arg else '', c, '  c.seed = int(arg)\n' if with_arg else ''))
    return path, c

  def typed(x):
    if isinstance(x, dict):
      return {k: typed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
      return [type(x).__name__] + [typed(v) for v in x]
    return [type(x).__name__, x]

  def prepare(rng, i, outcome, devices):
    parts = int(rng.choice([d for d in range(1, devices + 1) if devices % d == 0] + [devices * 2]))
    with_arg = bool(rng.random() < 0.3)
    path, c = config_file(rng, f'cfg{i}_{count[0]}', parts, with_arg)
    flag = f'--config={path}'
    if with_arg:
      c['seed'] = int(rng.integers(1000, 2000))
      flag += f':{c["seed"]}'
    overrides = []
    for k in rng.permutation(5)[:int(rng.integers(0, 5))]:
      if k == 0:
        c['lr'] = float(rng.integers(1, 50)) / 4
        overrides.append(f'--config.lr={c["lr"]}')
      elif k == 1:
        c['model']['width'] = int(rng.integers(100, 200))
        overrides.append(f'--config.model.width={c["model"]["width"]}')
      elif k == 2:
        c['model']['router']['kind'] = 'other thing'
        overrides.append('--config.model.router.kind=other thing')
      elif k == 3:
        c['flag'] = True
        overrides.append('--config.flag')
      else:
        c['num_expert_partitions'] = parts = int(rng.choice([1, devices]))
        overrides.append(f'--config.num_expert_partitions={parts}')
    for _ in overrides:
      ctx.event('override_checked')
    workdir = os.path.join(ctx.scratch, f'work{i}_{count[0]}')
    scalars = [[s, {f'm{j}': float(rng.integers(-1000, 1000)) / 8 for j in range(int(rng.integers(1, 4)))}] for s in sorted(rng.choice(100, size=4, replace=False).tolist())]
    job = dict(spy=True, record=os.path.join(ctx.scratch, f'rec{i}_{count[0]}'), scalars=scalars, fail=outcome)
    return job, [flag, f'--workdir={workdir}'] + overrides, c, workdir, min(parts, devices)

  def verify(ctx, job, c, workdir, parts, devices, info, ranks=1):
    with open(job['record']) as fp:
      recs = [json.loads(l) for l in fp]
    ctx.check(len(recs) == ranks, f'{info}: the trainer ran {len(recs)} times')
    for r in recs:
      ctx.check(r['trainer'] == MAINS[job['module']], f'{info}: {job["module"]} runs {r["trainer"]}')
      ctx.check(r['config'] == typed(c), f'{info}: configuration {r["config"]}, expected {typed(c)}')
      ctx.check(r['locked'], f'{info}: misspelled names in the configuration are accepted')
      ctx.check(r['workdir'] == workdir, f'{info}: workdir {r["workdir"]}')
      ctx.check(r['axes'] == ['expert', 'replica'] and r['shape'] == [parts, devices // parts] and sorted(set(r['ids'])) == sorted(recs[0]['ids']) and
                len(set(r['ids'])) == devices and r['active'], f'{info}: mesh {r["axes"]} {r["shape"]} {r["ids"]} active={r["active"]}, {parts} partitions configured')
      ctx.event('config_checked')
      ctx.event('mesh_checked')
    want = sorted((s, k, v) for s, m in job['scalars'] for k, v in m.items())
    got = sorted(e for e in events(workdir) if e[1].startswith('m'))
    ctx.check(got == want, f'{info}: reported {want}, on disk {got}')
    ctx.event('events_checked')

  def case(ctx, rng, i):
    module = list(MAINS)[int(rng.integers(4))]
    devices = int(rng.choice([1, 2, 4, 8]))
    outcome = [None, 'error', 'exit', None][i % 4]
    job, flags, c, workdir, parts = prepare(rng, i, outcome, devices)
    job['module'] = module
    info = f'{module} {[f.split(ctx.scratch)[-1] for f in flags]} on {devices} devices, outcome {outcome}'
    p = launch(job, flags, devices)
    bad = None
    if i % 2 == 0:  # At the same time, flags which must not start anything.
      kind = int(rng.integers(5))
      mods = {0: flags[1:2], 1: flags[:1], 2: flags + ['--config.nope=1'], 3: flags + ['--config.seed=abc'], 4: flags[1:2] + ['--config=/nonexistent/c.py']}[kind]
      mods = [f.replace('/work', '/never') for f in mods]
      bjob = dict(job, record=job['record'] + '_bad', fail=None)
      bad = launch(bjob, mods, 1)
    rc = p.wait(timeout=400)
    ctx.event('program_run')
    ctx.check(os.path.exists(job['record']), lambda: f'{info}: the trainer was not started: {tail(p)}')
    verify(ctx, job, c, workdir, parts, devices, info)
    ctx.check((rc != 0) == (outcome is not None) and (outcome != 'exit' or rc == 3), lambda: f'{info}: exit status {rc}: {tail(p)}')
    if outcome:
      ctx.event('failure_reported')
    if bad is not None:
      rc = bad.wait(timeout=400)
      ctx.check(rc != 0 and not os.path.exists(bjob['record']), f'{module} {mods[-2:]}: started although the flags are not valid (status {rc})')
      ctx.event('bad_flags_rejected')
    ctx.distinct_case(module, devices, tuple(f.split('=')[0] for f in flags), outcome, parts)
    ctx.sample(info)
    shutil.rmtree(workdir, ignore_errors=True)

  def dist_case(ctx, rng, i):
    job, flags, c, workdir, parts = prepare(rng, i, None, 4)
    job['module'] = list(MAINS)[i % 4]
    info = f'{job["module"]} with 2 processes, {parts} partitions'
    port = driver.free_port()
    ps = [launch(dict(job, coordinator=f'127.0.0.1:{port}', procs=2, rank=r), flags, 2) for r in range(2)]
    rcs = [p.wait(timeout=500) for p in ps]
    ctx.check(rcs == [0, 0], lambda: f'{info}: exit status {rcs}: {[tail(p) for p in ps]}')
    verify(ctx, job, c, workdir, parts, 4, info, ranks=2)
    ctx.event('distributed')
    ctx.distinct_case('dist', job['module'], parts)

  def options(rng):
    return dict(batch=8, optimizer=dict(name='adam', learning_rate=0.01), axes=[['Mlp/.*$', ['expert']]], seed=int(rng.integers(100)), rngs=['dropout'],
                save=dict(every_steps=int(rng.integers(1, 3))), evaluate=dict(every_steps=2), train_steps=int(rng.integers(4, 7)))

  def kill_case(ctx, rng, i):
    o = options(rng)
    devices = int(rng.choice([1, 2, 4]))
    path = os.path.join(ctx.scratch, f'train{i}.py')
    with open(path, 'w') as fp:
      fp.write(f'from vlib import trainrun\n\ndef get_config():\n  c = trainrun.config({o!r})\n  c.num_expert_partitions = {int(rng.choice([1, devices]))}\n  return c\n')
    module = ['vmoe.train.main', 'vmoe.projects.soft_moe.main'][int(rng.integers(2))]
    kill = [['before', 'during'][int(rng.integers(2))], int(rng.integers(2, 4)), int(rng.integers(0, 120))]
    info = f'{module} {o} on {devices} devices, killed {kill}'
    dirs = {k: os.path.join(ctx.scratch, f'{k}{i}') for k in ('whole', 'killed')}
    mk = lambda k, n: dict(module=module, data_dir=os.path.join(ctx.scratch, f'data_{k}_{i}_{n}'))
    a = launch(mk('whole', 0), [f'--config={path}', f'--workdir={dirs["whole"]}'], devices)
    b = launch(dict(mk('killed', 0), kill=kill), [f'--config={path}', f'--workdir={dirs["killed"]}'], devices)
    rc = b.wait(timeout=400)
    if rc != 0:
      ctx.event('killed')
    c = launch(mk('killed', 1), [f'--config={path}', f'--workdir={dirs["killed"]}'], devices)
    rcs = a.wait(timeout=400), c.wait(timeout=400)
    ctx.check(rc in (0, -9), lambda: f'{info}: exit status {rc}: {tail(b)}')
    ctx.check(rcs == (0, 0), lambda: f'{info}: exit status {rcs}: {tail(a)} {tail(c)}')
    for k in dirs:
      last = trainrun.steps_on_disk(dirs[k])
      ctx.check(last and last[-1] == o['train_steps'], f'{info}: {k} has checkpoints {last}')
      ctx.event('trained')
    x, _ = trainrun.read_state(dirs['whole'], o['train_steps'])
    y, _ = trainrun.read_state(dirs['killed'], o['train_steps'])
    ctx.check(set(x) == set(y) and all(np.allclose(x[k], y[k], rtol=1e-4, atol=1e-5) for k in x),
              lambda: f'{info}: the final state differs: {[k for k in x if k not in y or not np.allclose(x[k], y[k], rtol=1e-4, atol=1e-5)]}')
    ctx.event('resumed_equal')
    ea, eb = events(dirs['whole']), events(dirs['killed'])
    keep = lambda n: 'loss' in n or n.endswith('prec@1')
    whole = {(s, n): v for s, n, v in ea if keep(n)}
    steps = {s for s, n in whole if n.startswith('train/')}
    ctx.check(steps - {1} == set(range(2, o['train_steps'] + 1)), f'{info}: losses of steps {sorted(steps)} on disk')
    ctx.check({s for s, n in whole if n.startswith('test/')} >= set(range(2, o['train_steps'] + 1, 2)), f'{info}: evaluations on disk {sorted(whole)}')
    for s, n, v in eb:
      if keep(n) and n.startswith('test/') and (s, n) not in whole:
        continue  # The first step after a restart is also evaluated.
      if keep(n):
        ctx.check((s, n) in whole and np.isclose(v, whole[s, n], rtol=1e-3, atol=1e-5), f'{info}: {n} of step {s} is {v}, without interruption {whole.get((s, n))}')
        ctx.event('metric_on_disk')
    ctx.check(any(s == o['train_steps'] and n.startswith('train/') for s, n, _ in eb), f'{info}: the last step is not on disk')
    ctx.distinct_case('kill', module, str(o), str(kill), devices)
    ctx.sample(info)

  for i in range(spec['n']):
    if spec.get('kill'):
      ctx.run_case(f'k{i}', kill_case, i)
    elif spec.get('dist'):
      ctx.run_case(f'd{i}', dist_case, i)
    else:
      ctx.run_case(f'{i}', case, i)
