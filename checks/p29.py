"""P29: training interrupted anywhere and restarted ends in the same state as training without interruption."""

RULE = ('random short trainings (optimizers, schedules, microsteps, mixup, adversarial steps, checkpoint periods and retention, steps or epochs), '
        'crashed by exceptions or by killing the process (os._exit) before, during and after checkpoint writes and between steps, up to 3 times, '
        'restarted on other mesh shapes; logs and checkpoints recorded; oracle: the uninterrupted run, step contiguity, retention sets, NumPy '
        'evaluation from the checkpoints; distinct by (configuration, crash points)')
REQUIRED = {'run': 8, 'crash': 3, 'resume': 3, 'kill': 1, 'metric_compared': 48, 'checkpoint_compared': 13, 'final_state_equal': 2, 'eval_metric_compared': 15, 'eval_recomputed': 5, 'retention_checked': 5, 'rerun_no_op': 2, 'steps_formula': 90, 'mesh_changed': 2, 'leaf_compared': 239}


def specs(tier):
  n = 2 if tier == 'quick' else 25
  out = [dict(name=f'w{j}', devices=[4, 2, 1, 4][j], n=n, weight=1) for j in range(4)]
  return out + [dict(name=f'k{j}', devices=[2, 4][j], n=1 if tier == 'quick' else 12, weight=2, kill=1) for j in range(2)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import json
  import math
  import os
  import shutil
  import subprocess
  import sys
  from vlib import toyds
  from vlib import trainrun
  toyds.install_builders()
  import jax
  import numpy as np
  from vmoe.train import trainer

  n_dev = len(jax.devices())
  meshes = {1: [(1, 1)], 2: [(2, 1), (1, 2)], 4: [(2, 2), (4, 1), (1, 4)]}[n_dev]
  data_dir = os.path.join(ctx.scratch, 'data')
  trainrun.make_data(data_dir)

  def options(rng):
    batch = int(rng.choice([4, 8, 16]))
    opt = [dict(name='adam', learning_rate=0.01), dict(name='sgd', learning_rate=0.05, momentum=0.9), dict(name='adam', learning_rate=0.01, mu_dtype='bfloat16'),
           dict(name='adam', weight_decay=[['.*kernel', 0.01]], gradient_clip=dict(global_norm=0.5),
                learning_rate=dict(schedule='warmup_cosine_decay', peak_value=0.02, end_value=1e-4, warmup_steps=2))][rng.integers(4)]
    o = dict(batch=batch, optimizer=opt, axes=[['Mlp/.*$', ['expert']]] if rng.random() < 0.6 else [], seed=int(rng.integers(100)),
             save=dict(every_steps=int(rng.integers(1, 5))), evaluate=dict(every_steps=int(rng.integers(2, 5))), rngs=['dropout'])
    if rng.random() < 0.7:
      o['train_steps'] = int(rng.integers(3, 9))
    else:
      o['train_epochs'] = float(rng.choice([1, 1.5, 2.25]))
    r = rng.random()
    if r < 0.3:
      o['microsteps'] = batch // n_dev if batch // n_dev <= 4 else 2
    elif r < 0.55:
      o['mixup'] = dict(concentration=1.0, granularity='device')
      o['rngs'] = ['dropout', 'mixup']
    elif r < 0.75:
      o['adversarial'] = dict(attack_auxiliary_loss=True, max_epsilon=0.1, num_updates=1)
    if rng.random() < 0.5:
      o['save']['keep_last'] = int(rng.integers(1, 4))
      if rng.random() < 0.6:
        o['save']['keep_steps_multiple_of'] = int(rng.integers(2, 5))
    return o

  def total_steps(o):
    return o['train_steps'] if 'train_steps' in o else math.ceil(o['train_epochs'] * 16 / o['batch'])

  def close(a, b, tol):
    return a.shape == b.shape and a.dtype == b.dtype and np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=tol, atol=tol)

  te_images = np.stack([toyds.image_of(i, (4, 5, 3)) for i in range(40, 51)])

  def check_run(ctx, info, o, w, before, crashed, ref, workdir):
    total = total_steps(o)
    start = max(before) if before else 0
    first = [s for s, m in w.log if 'train/compile_secs' in m]
    if first:
      ctx.check(first[0] == start + 1, f'{info}: training continued at step {first[0]} with checkpoints {before}')
    done = w.train_steps()
    ctx.check(done == list(range(start + 2, start + 2 + len(done))) and (not done or done[-1] <= total), f'{info}: steps {done} after {before} (of {total})')
    if not crashed:
      ctx.check((done[-1] if done else start + 1) >= min(total, start + 1) and (len(done) == max(0, total - start - 1)), f'{info}: steps {done} of {total} after {before}')
    if ref is not None:
      for name in ('train/main_loss', 'train/total_loss', 'train/auxiliary_loss', 'train/global_norm/params', 'train/global_norm/grads', 'train/global_norm/updates'):
        want = dict((s, m[name]) for s, m in ref.log if name in m)
        for s, v in w.metric(name):
          if s in want:
            ctx.check(abs(v - want[s]) <= 2e-3 * max(1e-2, abs(want[s])), f'{info}: {name} at step {s} is {v}, but {want[s]} without interruption')
            ctx.event('metric_compared')
    rates = [v / s for s, v in w.metric('flops')]  # Depend on the mesh, but not on the step.
    ctx.check(not rates or max(rates) <= min(rates) * (1 + 1e-6), f'{info}: the cost is not proportional to the step: {w.metric("flops")}')
    every = o['evaluate']['every_steps']
    evals = [s for s, _ in w.metric('test/loss')]
    expected = [s for s in range(start + 1, total + 1) if s % every == 0 or s in (start + 1, total)]
    ctx.check(evals == (expected if not crashed else expected[:len(evals)]), f'{info}: evaluated at {evals}, expected {expected}')
    if ref is not None:
      for name in ('test/loss', 'test/prec@1'):
        want = dict(ref.metric(name))
        for s, v in w.metric(name):
          if s in want:
            ctx.check(abs(v - want[s]) <= 2e-3 * max(1e-2, abs(want[s])) + (0.1 if 'prec' in name else 0), f'{info}: {name} at step {s} is {v}, but {want[s]} without interruption')
            ctx.event('eval_metric_compared')
    disk = trainrun.steps_on_disk(workdir)
    saved = sorted({0, total} | {s for s in range(1, total + 1) if s % o['save']['every_steps'] == 0})
    ctx.check(set(disk) <= set(saved), f'{info}: checkpoints {disk}, expected some of {saved}')
    if not crashed:
      keep = o['save'].get('keep_last')
      if keep is not None:
        mult = o['save'].get('keep_steps_multiple_of')
        want = sorted(set(saved[-keep:]) | {s for s in saved if mult and s % mult == 0})
      else:
        want = saved
      ctx.check(disk == want, f'{info}: checkpoints {disk} after {total} steps, expected {want}')
      ctx.event('retention_checked')
    ctx.event('run')
    return disk

  def compare(ctx, info, workdir, step, ref_dir, o, exact_mesh):
    got, idx = trainrun.read_state(workdir, step)
    want, _ = trainrun.read_state(ref_dir, step)
    ctx.check(idx == step * o['batch'], f'{info}: last seen index {idx} at step {step}')
    ctx.check(set(got) == set(want), f'{info}: checkpoint {step} has {sorted(set(got) ^ set(want))} missing or more')
    for k in want:
      tol = 1e-5 if exact_mesh else 2e-4
      if 'rngs' in k or 'count' in k or k == "['step']":
        ctx.check(np.array_equal(got[k], want[k]), f'{info}: {k} at step {step} is {got[k]}, but {want[k]} without interruption')
      else:
        ctx.check(close(got[k], want[k], tol), lambda: f'{info}: {k} at step {step} differs from the uninterrupted run by {np.abs(got[k].astype(float) - want[k]).max()}')  # pylint: disable=cell-var-from-loop
      ctx.event('leaf_compared')
    ctx.check(int(got["['step']"]) == step, f'{info}: checkpoint {step} is of step {got["[" + repr("step") + "]"]}')
    ctx.event('checkpoint_compared')
    return got

  def reference(ctx, rng, o, base):
    ref_o = dict(o, save=dict(every_steps=1), evaluate=dict(every_steps=1))
    d = os.path.join(base, 'ref')
    mesh = meshes[0]
    ref, crashed = trainrun.train(ref_o, d, mesh)
    ctx.check(not crashed, 'the uninterrupted run crashed')
    check_run(ctx, f'uninterrupted {o}', ref_o, ref, [], False, None, d)
    # Evaluation at a step is of the parameters after that step.
    import tensorflow as tf
    labels = np.eye(7)[np.arange(40, 51) % 7]
    images = np.stack([np.asarray(tf.cast(tf.image.resize(x, (4, 4)), tf.uint8)) for x in te_images]).astype(np.float64) / 255 * 2 - 1
    want = dict(ref.metric('test/loss'))
    for s in sorted(want)[-2:]:
      st, _ = trainrun.read_state(d, s)
      p = {k[len("['params']"):]: v.astype(np.float64) for k, v in st.items() if k.startswith("['params']")}
      z = (images.reshape(11, -1) @ p["['Mlp']['kernel']"] + p["['Mlp']['bias']"]) @ p["['head']['kernel']"] + p["['head']['bias']"]
      z = z - z.max(-1, keepdims=True)
      loss = -(labels * (z - np.log(np.exp(z).sum(-1, keepdims=True)))).sum(-1).mean()
      ctx.check(abs(loss - want[s]) <= 2e-2 * max(1, loss), f'evaluation at step {s} reported {want[s]}, but the checkpoint {s} gives {loss} ({o})')
      ctx.event('eval_recomputed')
    return ref, d, mesh

  def case(ctx, rng, i):
    o = options(rng)
    base = os.path.join(ctx.scratch, f'case{i}')
    total = total_steps(o)
    ref, ref_dir, ref_mesh = reference(ctx, rng, o, base)
    d = os.path.join(base, 'run')
    crashes = []
    mesh_same = True
    n_crashes = int(rng.integers(1, 3))
    finished = False
    for _ in range(n_crashes + 1):
      before = trainrun.steps_on_disk(d)
      mesh = meshes[rng.integers(len(meshes))]
      if mesh != ref_mesh:
        mesh_same = False
        ctx.event('mesh_changed')
      crash = None
      if len(crashes) < n_crashes:
        kind = ['write', 'write', 'before_save', 'after_save', 'during_save'][rng.integers(5)]
        crash = (kind, int(rng.integers(1, 3 * total)) if kind == 'write' else int(rng.integers(1, total + 1)), int(rng.integers(0, 200)))
      crashes.append(crash)
      info = f'{o} on {mesh} crashes={crashes}'
      killed = False
      if crash and spec.get('kill'):
        job = os.path.join(base, 'job.json')
        with open(job, 'w') as fp:
          json.dump(dict(options=o, workdir=d, mesh=mesh, crash=crash, data_dir=os.path.join(base, f'data{len(crashes)}')), fp)
        env = dict(os.environ, PYTHONHASHSEED=str(int(os.environ['PYTHONHASHSEED']) // 2 + len(crashes)))
        r = subprocess.run([sys.executable, '-m', 'vlib.trainrun', job], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300, check=False)
        ctx.check(r.returncode in (0, 9), f'{info}: the run failed: {r.stderr.decode()[-800:]}')
        killed = r.returncode == 9
        finished = r.returncode == 0
        if killed:
          ctx.event('kill')
      else:
        w, crashed = trainrun.train(o, d, mesh, crash=crash)
        finished = not crashed
        check_run(ctx, info, o, w, before, crashed, ref, d)
        if crashed:
          ctx.event('crash')
      if before and not (before == [0]):
        ctx.event('resume')
      now = trainrun.steps_on_disk(d)
      for s in now:
        # Old checkpoints may be half deleted when the process was killed: only the last one matters.
        if s not in before and (not killed or s == now[-1]):
          compare(ctx, info, d, s, ref_dir, o, mesh_same)
    ctx.distinct_case(str(o), str(crashes))
    if not finished:
      ctx.check(False, f'{info}: the last run did not finish')
    ctx.check(trainrun.steps_on_disk(d)[-1] == total, f'{info}: last checkpoint {trainrun.steps_on_disk(d)}, expected {total}')
    compare(ctx, info, d, total, ref_dir, o, mesh_same)
    ctx.event('final_state_equal')
    ctx.sample(info)
    # Starting a finished training again does not train, nor changes the result.
    before = trainrun.steps_on_disk(d)
    w, crashed = trainrun.train(o, d, ref_mesh)
    ctx.check(not crashed and not w.train_steps() and not w.metric('test/loss'), f'{info}: a finished training was continued with {w.train_steps()}')
    ctx.check(trainrun.steps_on_disk(d) == before, f'{info}: checkpoints changed from {before} to {trainrun.steps_on_disk(d)}')
    compare(ctx, info, d, total, ref_dir, o, mesh_same)
    ctx.event('rerun_no_op')
    shutil.rmtree(base, ignore_errors=True)

  def formulas(ctx, rng):
    for _ in range(60):
      b, n = int(rng.integers(1, 5000)), int(rng.integers(1, 10**6))
      if rng.random() < 0.5:
        s = int(rng.integers(1, 10**5))
        got = trainer.get_train_steps_and_epochs(train_batch_size=b, train_examples=n, train_steps=s)
        ctx.check(got[0] == s and math.isclose(got[1], s * b / n), f'{s} steps of {b} over {n} examples: {got}')
      else:
        e = int(rng.integers(1, 100)) / [1, 2, 4][rng.integers(3)]
        got = trainer.get_train_steps_and_epochs(train_batch_size=b, train_examples=n, train_epochs=e)
        ctx.check((got[0] - 1) * b < e * n <= got[0] * b, f'{e} epochs of {n} examples in batches of {b}: {got}')
        ctx.check(math.isclose(got[1], got[0] * b / n), f'{e} epochs of {n} examples in batches of {b}: {got}')
      ctx.event('steps_formula')
    for kw in (dict(), dict(train_steps=3, train_epochs=2), dict(train_steps=0)):
      ok = False
      try:
        trainer.get_train_steps_and_epochs(train_batch_size=2, train_examples=4, **kw)
      except ValueError:
        ok = True
      ctx.check(ok, f'get_train_steps_and_epochs accepted {kw}')

  for i in range(spec['n']):
    ctx.run_case(f'c{i}', case, i)
  ctx.run_case('formulas', formulas)
