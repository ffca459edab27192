"""P32: a training job spread over several processes computes what one process computes on the same data."""
import json
import os
import shutil
import signal
import socket
import subprocess
import sys
import time

RULE = ('complete trainings of small sparse models (V-MoE, ensemble-free MoE, two-tower contrastive, dense) by 2-3 real processes on the loopback '
        'network, with expert partitions, microsteps, mixup, adversarial steps, evaluation, few-shot evaluation, checkpoints, stops and restarts '
        'with other process counts; the same global batches are fed to one process on 1-6 devices with another mesh; oracle: the single-process '
        'run (all reported values and all saved arrays); distinct by (configuration, processes, meshes)')
REQUIRED = {'distributed_run': 2, 'reference_run': 2, 'metric_compared': 40, 'leaf_compared': 30, 'eval_compared': 3, 'fewshot_compared': 1,
            'moe': 1, 'ranks_agree': 2}


def specs(tier):
  q = tier == 'quick'
  kinds = ['vmoe', 'tiny', 'contrastive'] if q else ['vmoe', 'tiny', 'contrastive', 'vmoe', 'tiny']
  return [dict(name=f'{k}{j}', devices=1, kind=k, n=1 if q else 12) for j, k in enumerate(kinds)]


IGNORED = ('secs', 'uptime', 'steps_per_sec', 'core_hours')


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import numpy as np
  from vlib import pretrained as pretrained_file
  from vlib import trainrun

  def start(job, devices):
    env = dict(os.environ, XLA_FLAGS=f'--xla_force_host_platform_device_count={devices}', JAX_CPU_COLLECTIVES_IMPLEMENTATION='gloo')
    os.makedirs(job['scratch'])
    path = os.path.join(job['scratch'], 'job.json')
    with open(path, 'w') as fp:
      json.dump(job, fp)
    out = []
    for r in range(job['procs']):
      env['PYTHONHASHSEED'] = str(int(os.environ['PYTHONHASHSEED']) // 2 + 1000 * r + sum(map(ord, job['scratch'][-20:])))
      with open(os.path.join(job['scratch'], f'out{r}'), 'w') as fp:
        out.append(subprocess.Popen([sys.executable, '-m', 'vlib.distrun', path, str(r)], env=env, stdout=fp, stderr=subprocess.STDOUT))
    return out

  def finish(procs, job, timeout=420):
    """Waits for the processes; returns what they logged."""
    t = time.time()
    try:
      while any(p.poll() is None for p in procs) and time.time() - t < timeout:
        if any(p.poll() not in (None, 0) for p in procs):
          time.sleep(5)  # The others may hang now.
          break
        time.sleep(0.1)
    finally:
      for p in procs:
        if p.poll() is None:
          p.send_signal(signal.SIGKILL)
          p.wait()
    outs = []
    for r in range(job['procs']):
      p = job['log'] % r
      if os.path.exists(p):
        with open(p) as fp:
          outs.append(json.load(fp))
      else:
        with open(os.path.join(job['scratch'], f'out{r}')) as fp:
          outs.append(dict(ok=False, error=f'no result, exit status {procs[r].returncode}: {fp.read()[-600:]}', log=[]))
    return outs

  def port():
    with socket.socket() as s:
      s.bind(('127.0.0.1', 0))
      return s.getsockname()[1]

  def options(rng, kind, i):
    procs, local = [(2, 2), (2, 1), (2, 2), (3, 1), (2, 3)][0 if i == 0 else int(rng.integers(5))]
    devices = procs * local
    per = int(rng.choice([2, 4]))
    batch = devices * per
    image = 8
    pp = f'decode|resize({image})|value_range(-1,1)|onehot(7)|keep("image","labels")'
    steps = 4
    experts = 2 if devices % 2 == 0 else 3
    axes = [['Moe/Mlp/.*', ['expert']]]
    rngs = ['dropout', 'gating']
    if kind == 'vmoe':
      selected = int(rng.integers(1, 3))
      name = ['einsum', 'indices'][rng.integers(2)]
      spread = [['expert', 'replica']]
      router = [dict(num_selected_experts=selected, noise_std=1.0, importance_loss_weight=0.02, load_loss_weight=0.02,
                     dispatcher=dict(name=name, capacity_factor=1.5, batch_priority=False, partition_spec=spread)),
                dict(name='NoisyTopItemsPerExpertRouter', noise_std=1.0, dispatcher=dict(name='einsum', capacity_factor=1.0, capacity_multiple_of=1, partition_spec=spread))][rng.integers(2)]
      # A group per image: what happens to an image does not depend on the other ones of the batch.
      model = dict(name='VisionTransformerMoe', num_classes=7, patch_size=[4, 4], hidden_size=8, classifier='gap',
                   encoder=dict(num_layers=2, mlp_dim=8, num_heads=2, dropout_rate=0.1, position_emb=dict(name='learned'),
                                moe=dict(layers=[1], num_experts=experts, group_size=4, split_rngs=True, router=router)))
    elif kind == 'tiny':
      model = dict(name='vlib.tinymodel.Tiny', num_classes=7, hidden=6)
      axes = [['Mlp/.*', ['expert']]] if experts == 2 else []
    else:
      model = dict(name='vmoe.projects.contrastive.models.TwoTower', image=dict(name='vlib.tinymodel.Tiny', num_classes=4), text=dict(name='vlib.tinymodel.TinyText'),
                   scale_init=3.0, bias_init=-1.0)
      axes = [['img/Mlp/.*', ['expert']]] if experts == 2 else []
      pp = f'decode|resize({image})|value_range(-1,1)|onehot(7, outkey="text")|keep("image","text")'
    config = dict(
        dataset=dict(train=dict(name='toytr', split='train', batch_size=batch, process=pp, shuffle_buffer=1, num_parallel_calls=1, prefetch_device=[None, 2][rng.integers(2)])),
        model=model, optimizer=[dict(name='sgd', momentum=0.9, learning_rate=0.05), dict(name='sgd', momentum=0.9, learning_rate=dict(schedule='warmup_linear_decay', peak_value=0.1, end_value=0.01, warmup_steps=2), gradient_clip=dict(global_norm=0.7), weight_decay=[['.*kernel', 0.05]])][rng.integers(2)],
        save_checkpoint=dict(every_steps=int(rng.integers(1, 4))), report_progress=dict(every_steps=1), extra_rng_keys=rngs, seed=int(rng.integers(1000)), train_steps=steps)
    if config['dataset']['train']['prefetch_device'] is None:
      config['dataset']['train'].pop('prefetch_device')
    same_mesh = False
    fewshot = dict(shots=[30, 2], l2_regs=[8.0, 512.0], every_steps=4, datasets=dict(fs=['toyfs', 'train', 'test']), batch_size=batch, cache='batched',
                   process=f'decode|resize({image})|value_range(-1,1)|keep("image","label")')
    config['fewshot'] = fewshot
    if kind != 'contrastive':
      config['dataset']['test'] = dict(name='toyte', split='test', batch_size=batch, process=pp)
      config['loss'] = dict(name='softmax_xent')
      config['evaluate'] = dict(every_steps=2)
      fewshot['model_overrides'] = dict(num_classes=None)
      extra = rng.random()
      if extra < 0.3:
        config['mixup'] = dict(concentration=1.0, granularity='device')
        config['extra_rng_keys'] = rngs + ['mixup']
        same_mesh = True
      elif extra < 0.55:
        config['adversarial'] = dict(attack_auxiliary_loss=False, max_epsilon=0.1, num_updates=1)
    if 'mixup' not in config and 'adversarial' not in config and rng.random() < 0.4:
      config['microsteps'] = 2
    if rng.random() < 0.5:
      config['summarize_arrays'] = dict(rules=[['params/.*kernel$', 'norm']])
    partitions = [p for p in (1, 2, 3) if devices % p == 0 and experts % p == 0]
    mesh = int(rng.choice(partitions))
    if same_mesh or config.get('microsteps') or rng.random() < 0.5:
      ref_devices, ref_mesh = devices, mesh  # (Microsteps split the rows of each device.)
    else:
      ref_devices = [1, devices][rng.integers(2)]
      ref_mesh = int(rng.choice([p for p in partitions if ref_devices % p == 0]))
    pretrained = [None, 'vmoe', 'vit', 'orbax'][rng.integers(4)] if kind == 'vmoe' else None
    # A restart begins with the first batch again: train on one batch then.
    restart = bool(rng.random() < 0.35)
    if restart:  # (The schedule of the stopped job would be another one.)
      config['optimizer'] = dict(name='sgd', momentum=0.9, learning_rate=0.05)
    return dict(config=config, axes=axes, mesh=mesh, procs=procs, local=local, ref_devices=ref_devices, ref_mesh=ref_mesh, batch=batch, restart=restart, alone=bool(rng.random() < 0.5), pretrained=pretrained, experts=experts,
                data=dict(train=batch * (1 if restart else 2), test=int(rng.integers(5, 20)), fs=[int(rng.integers(7, 16)), int(rng.integers(7, 20))], batch=batch),
                trainer='vmoe.projects.contrastive.trainer' if kind == 'contrastive' else 'vmoe.train.trainer')

  def write_pretrained(rng, kind, path, experts):
    """A dense transformer for larger images, to be upcycled: each expert starts as a copy of the dense layer."""
    h = 8
    arrays = {'embedding/bias': (h,), 'embedding/kernel': (4, 4, 3, h), 'Encoder/posembed_input/pos_embedding': (1, 10, h), 'head/kernel': (h, 11), 'head/bias': (11,), 'cls': (1, 1, h)}
    for b in range(2):
      pre = f'Encoder/encoderblock_{b}/'
      for n in range(2):
        arrays.update({f'{pre}LayerNorm_{n}/bias': (h,), f'{pre}LayerNorm_{n}/scale': (h,), f'{pre}Mlp/Dense_{n}/bias': (h,), f'{pre}Mlp/Dense_{n}/kernel': (h, h)})
      for q in ('key', 'query', 'value'):
        arrays.update({f'{pre}SelfAttention/{q}/bias': (2, h // 2), f'{pre}SelfAttention/{q}/kernel': (h, 2, h // 2)})
      arrays.update({f'{pre}SelfAttention/out/bias': (h,), f'{pre}SelfAttention/out/kernel': (2, h // 2, h)})
    arrays = {('opt/target/' if kind == 'vmoe' else '') + k: (0.3 * rng.normal(size=v)).astype(np.float32) for k, v in arrays.items()}
    # (The names of the head and of the token are in no rule of the target.)
    rules = [['head/|cls$', None], ['^.*(Encoder/posembed_input/pos_embedding)$', r'params/\1', 'vit_zoom'],
             ['^.*Encoder/encoderblock_1/Mlp/(.*)$', r'params/Encoder/encoderblock_1/Moe/Mlp/\1', 'expand_tile', 0, experts],
             ['^(?:opt/target/)?(embedding/.*|Encoder/.*)$', r'params/\1']]
    return dict(pretrained_file.write(kind, path, arrays, num_shards=int(rng.integers(1, 4))), rules=rules, raise_if_target_unmatched=False,
                axis_resources_regexes=[['Mlp/Dense_0/kernel', []]] if rng.random() < 0.5 else None)

  def execute(ctx, o, root, info):
    """Runs both jobs; returns (distributed logs, reference log, workdirs)."""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    if o['pretrained']:
      o['config']['initialization'] = write_pretrained(np.random.default_rng(o['config']['seed']), o['pretrained'], os.path.join(root, 'pretrained'), o['experts'])
      ctx.event('pretrained')
    wd = {k: os.path.join(root, f'{k}_work') for k in ('dist', 'ref')}
    rows = os.path.join(root, 'rows.json')

    def job(kind, procs, mesh, tag='', **overrides):  # pylint: disable=redefined-outer-name
      return dict(config=dict(o['config'], **overrides), axes=o['axes'], mesh=mesh, procs=procs, coordinator=f'127.0.0.1:{port()}', trainer=o['trainer'],
                  workdir=wd[kind], scratch=os.path.join(root, kind + tag), log=os.path.join(root, f'{kind}{tag}_%d.json'), rows=rows,
                  data=dict(o['data'], as_procs=o['procs'] if procs == 1 else 1))
    jobs = []
    ref = job('ref', 1, o['ref_mesh'])
    jobs.append((ref, start(ref, o['ref_devices'])))
    logs = []
    try:
      parts = [dict(train_steps=2), {}] if o['restart'] else [{}]
      for t, part in enumerate(parts):
        alone = t == 1 and o['alone']  # The job goes on in one process.
        dist = job('dist', 1 if alone else o['procs'], o['mesh'], tag=str(t), **part)
        out = finish(start(dist, o['local'] * (o['procs'] if alone else 1)), dist)
        for r, x in enumerate(out):
          ctx.check(x['ok'], f'{info}: process {r} of {o["procs"]} failed: {x.get("error")} {x.get("traceback", "")[-700:]}')
        logs.append(out)
        ctx.event('distributed_run')
    finally:
      if not logs:
        for p in jobs[0][1]:
          p.kill()
    x = finish(jobs[0][1], ref)[0]
    ctx.check(x['ok'], f'{info}: the single process failed: {x.get("error")} {x.get("traceback", "")[-700:]}')
    ctx.event('reference_run')
    return logs, x, wd

  def differences(o, logs, ref, wd, count):
    """All differences between the distributed job and the reference."""
    out = []
    ignored = IGNORED if (o['mesh'], o['procs'] * o['local']) == (o['ref_mesh'], o['ref_devices']) else IGNORED + ('flops',)
    flat = lambda log: {(s, k): v for s, m in log for k, v in m.items() if not any(w in k for w in ignored)}
    want = flat(ref['log'])
    n = dict(prec=min(o['data']['test'], o['data']['fs'][1]))
    got = {}
    for part in logs:
      for r, x in enumerate(part):
        f = flat(x['log'])
        if r == 0:
          first = f
          got.update(f)
        else:
          # Only the first process reports about training; the values reported by others are the same.
          for k, v in f.items():
            if k in first and not (v == first[k] or abs(v - first[k]) <= 1e-6 * max(1, abs(v)) or v != v and first[k] != first[k]):
              out.append(f'process {r} reports {k} = {v}, process 0 {first[k]}')
          count('ranks_agree')
    keys = set(want)
    if not o['restart']:
      if set(got) != keys:
        out.append(f'reported values differ: {sorted(set(got) ^ keys)[:8]}')
    else:
      last = max((k[0] for k in keys), default=None)
      missing = sorted(k for k in keys - set(got) if k[0] == last)
      if missing:
        out.append(f'not reported after the restart: {missing[:8]}')
    for k in sorted(keys & set(got)):
      a, b = got[k], want[k]
      tol = 1.01 / n['prec'] if 'prec@1' in k[1] or 'shot' in k[1] and 'l2' not in k[1] else 2e-3 * max(abs(b), 0.5)
      if 'best_l2' in k[1] or '2shot' in k[1]:
        continue  # (The examples drawn depend on their order.)
      count('metric_compared')
      count('eval_compared' if k[1].startswith('test/') else 'fewshot_compared' if k[1].startswith('fewshot/') else 'train_value_compared')
      if not (abs(a - b) <= tol or a != a and b != b):
        out.append(f'{k[1]} at step {k[0]} is {a}, with one process {b}')
    s1, s2 = trainrun.steps_on_disk(wd['dist']), trainrun.steps_on_disk(wd['ref'])
    if max(s1, default=0) != max(s2, default=0) or (not o['restart'] and s1 != s2):
      out.append(f'checkpoints at steps {s1}, with one process {s2}')
    for step in sorted(set(s1) & set(s2)):
      (a, ia), (b, ib) = trainrun.read_state(wd['dist'], step), trainrun.read_state(wd['ref'], step)
      if set(a) != set(b):
        out.append(f'checkpoint {step} holds {sorted(set(a) ^ set(b))[:6]}')
      if ia != ib:
        out.append(f'checkpoint {step}: position in the data {ia} and {ib}')
      for k in sorted(set(a) & set(b)):
        x, y = a[k], b[k]
        count('leaf_compared')
        same = x.shape == y.shape and x.dtype == y.dtype and (np.array_equal(x, y) if x.dtype.kind in 'iu' else np.allclose(x.astype(np.float64), y.astype(np.float64), rtol=3e-3, atol=1e-3))
        if not same:
          out.append(f'{k} in checkpoint {step}: {x.shape} {x.dtype}, {y.shape} {y.dtype}' + (f', maximum difference {np.abs(x.astype(np.float64) - y.astype(np.float64)).max()}' if x.shape == y.shape else ''))
    return out

  def case(ctx, rng, i):
    o = options(rng, spec['kind'], i)
    root = os.path.join(ctx.scratch, f'job{i}')
    info = (f'{spec["kind"]} {o["config"]["model"].get("encoder", {}).get("moe", {}).get("router", "")} {o["procs"]}x{o["local"]} devices mesh {o["mesh"]}, reference {o["ref_devices"]} '
            f'devices mesh {o["ref_mesh"]}, { {k: o["config"][k] for k in ("mixup", "adversarial", "microsteps", "optimizer") if k in o["config"]} } restart={o["restart"]} alone={o["alone"]} pretrained={o["pretrained"]}')
    ctx.distinct_case(info)
    ctx.sample(info)
    # Routing is discontinuous: rounding may flip a choice in one run, but not in every run.
    found = []
    for attempt in range(2):
      logs, ref, wd = execute(ctx, o, root, info)
      found = differences(o, logs, ref, wd, lambda e: ctx.event(e))  # pylint: disable=unnecessary-lambda
      if not found:
        break
      o['config']['seed'] += 17 + attempt
    ctx.check(not found, lambda: f'{info}: {len(found)} differences: {found[:6]}')
    if spec['kind'] == 'vmoe':
      ctx.event('moe')
    if o['restart']:
      ctx.event('restarted_alone' if o['alone'] else 'restarted')
    shutil.rmtree(root)

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
