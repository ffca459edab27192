"""Parent process of a check: spawns workers, merges what they observed, decides."""
import importlib
import json
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMOE_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
MAX_PARALLEL = 8
# Generous watchdogs; firing is inconclusive, never a violation.
WATCHDOG = {'quick': 780, 'thorough': 6 * 3600}


def worker_env(devices, scratch, hash_seed=0):
  env = dict(os.environ)
  env.update({
      'HOME': '/root', 'LANG': 'C.UTF-8',
      'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
      'PYTHONPATH': ':'.join([REPO, ROOT, os.path.join(ROOT, 'stubs')]),
      'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': str(hash_seed),
      'JAX_PLATFORMS': 'cpu', 'CUDA_VISIBLE_DEVICES': '', 'TF_CPP_MIN_LOG_LEVEL': '2',
      'TF_ENABLE_ONEDNN_OPTS': '0', 'NO_GCE_CHECK': 'true',
      'JAX_TRACEBACK_FILTERING': 'off',
      'TMPDIR': scratch, 'TEST_TMPDIR': scratch,
      'XLA_FLAGS': (f'--xla_force_host_platform_device_count={devices} '
                    '--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true'),
  })
  return env


def free_port():
  with socket.socket() as s:
    s.bind(('127.0.0.1', 0))
    return s.getsockname()[1]


def expand(specs):
  """A spec with procs=n becomes n cooperating ranks of one distributed JAX job."""
  out = []
  for spec in specs:
    n = spec.get('procs', 1)
    if n == 1:
      out.append(spec)
      continue
    port = free_port()
    for rank in range(n):
      out.append(dict(spec, rank=rank, coordinator=f'127.0.0.1:{port}', weight=1,
                      shared=True))
  return out


def load_known_findings():
  path = os.path.join(ROOT, 'known_findings.jsonl')
  out = []
  if os.path.exists(path):
    with open(path) as fp:
      for line in fp:
        line = line.strip()
        if line:
          out.append(json.loads(line))
  return out


def main(pid, tier, seed, replay=None, only_spec=None):
  t0 = time.time()
  mod = importlib.import_module('checks.' + pid.lower())
  specs = [dict(s) for s in mod.specs(tier)]
  only_case = None
  if replay:
    with open(replay) as fp:
      r = json.load(fp)
    tier, seed, only_case = r['tier'], r['seed'], r['case']
    specs = [s for s in (dict(x) for x in mod.specs(tier)) if s['name'] == r['spec']]
  if only_spec:
    specs = [s for s in specs if s['name'] == only_spec]
  specs = expand(specs)
  ev_dir = os.path.join(ROOT, 'evidence')
  os.makedirs(ev_dir, exist_ok=True)
  scratch = tempfile.mkdtemp(prefix=f'verif_{pid}_')
  procs, pending, results, problems = [], list(enumerate(specs)), {}, []
  group_done = {}
  deadline = t0 + WATCHDOG[tier]
  try:
    while pending or procs:
      load = sum(s.get('weight', 1) for _, s, _, _ in procs)
      while pending and (not procs or pending[0][1].get('rank', 0) > 0 or
                         load + pending[0][1].get('procs', pending[0][1].get('weight', 1))
                         <= MAX_PARALLEL):
        i, spec = pending.pop(0)
        out = os.path.join(scratch, f'out_{i}.json')
        wdir = os.path.join(scratch, f'w{i}')
        os.makedirs(wdir)
        if spec.get('shared'):
          shared = os.path.join(scratch, 'shared_' + spec['name'])
          os.makedirs(shared, exist_ok=True)
          spec['shared_dir'] = shared
        job = dict(pid=pid, tier=tier, seed=seed, spec=spec, out=out, scratch=wdir,
                   only_case=only_case)
        jf = os.path.join(scratch, f'job_{i}.json')
        with open(jf, 'w') as fp:
          json.dump(job, fp)
        log = open(os.path.join(scratch, f'log_{i}.txt'), 'wb')
        p = subprocess.Popen(
            [PYTHON, '-m', 'vlib.worker', jf], cwd=wdir, stdin=subprocess.DEVNULL,
            stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
            # Processes hash strings differently, but always the same way in a replay.
            env=worker_env(spec.get('devices', 1), wdir, zlib.crc32(f"{seed} {spec['name']} {spec.get('rank', 0)}".encode())))
        procs.append((i, spec, p, log))
        load += spec.get('weight', 1)
      time.sleep(0.05)
      for item in list(procs):
        i, spec, p, log = item
        rc = p.poll()
        if rc is None and time.time() > deadline:
          os.killpg(p.pid, signal.SIGKILL)
          p.wait()
          rc = 'watchdog'
        if rc is None and spec.get('shared') and time.time() > group_done.get(
            spec['name'], float('inf')) + 90:
          # A cooperating rank has stopped; this one may wait for it forever.
          os.killpg(p.pid, signal.SIGKILL)
          p.wait()
          rc = 'peer stopped'
        if rc is None:
          continue
        procs.remove(item)
        log.close()
        if spec.get('shared'):
          group_done.setdefault(spec['name'], time.time())
        out = os.path.join(scratch, f'out_{i}.json')
        if os.path.exists(out):
          with open(out) as fp:
            results[i] = json.load(fp)
        tail = ''
        with open(os.path.join(scratch, f'log_{i}.txt'), 'rb') as fp:
          tail = fp.read()[-6000:].decode('utf-8', 'replace')
        if i not in results or not results[i].get('finished'):
          problems.append(f'worker {spec["name"]} ended with {rc} without finishing:\n{tail}')
        elif os.environ.get('VERIF_VERBOSE'):
          print(tail)
  finally:
    for _, _, p, _ in procs:
      try:
        os.killpg(p.pid, signal.SIGKILL)
      except ProcessLookupError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)

  evals, distinct, samples, events, violations = 0, set(), [], {}, []
  for i, spec in enumerate(specs):
    r = results.get(i)
    if not r:
      continue
    evals += r['evaluations']
    distinct.update(r['distinct'])
    samples.extend(r['samples'][:3])
    for k, v in r['events'].items():
      events[k] = events.get(k, 0) + v
    for v in r['violations']:
      v['spec'] = spec['name']
      violations.append(v)
    problems.extend(f'{spec["name"]}: {e}' for e in r['errors'])
  if not only_case and not only_spec:
    for key, least in mod.REQUIRED.items():
      if events.get(key, 0) < least:
        problems.append(f'monitor {key!r} observed {events.get(key, 0)} events, fewer than {least}')

  known = [k for k in load_known_findings()
           if k.get('property') == pid and k.get('status') == 'known']
  hit_known, fresh = {}, []
  for v in violations:
    match = next((k for k in known if k['mechanism'] == v.get('mechanism')), None)
    if match:
      hit_known[match['mechanism']] = match
    else:
      fresh.append(v)

  wall = time.time() - t0
  if not replay and not only_spec:
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=mod.RULE,
                      samples=samples[:12] or ['none'], monitor_events=events,
                      workers=[s['name'] for s in specs]),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=len(fresh))
    tmp = os.path.join(ev_dir, f'.{pid}.json.tmp')
    with open(tmp, 'w') as fp:
      json.dump(evidence, fp, indent=1, default=str)
    os.replace(tmp, os.path.join(ev_dir, f'{pid}.json'))

  for m, k in hit_known.items():
    print(f'KNOWN-FINDING: property={pid} {k["what"]}')
  for e in problems:
    print('INCONCLUSIVE:', e, file=sys.stderr)
  print(f'{pid} {tier} seed={seed}: evaluations={evals} distinct={len(distinct)} '
        f'events={json.dumps(events, sort_keys=True)} wall={wall:.1f}s')
  if fresh:
    rdir = os.path.join(ev_dir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    for v in fresh:
      key = (v['spec'], v['case'])
      if key in seen:
        continue
      seen.add(key)
      if len(seen) > 5:
        break
      path = os.path.join(rdir, f'{pid}_{v["spec"]}_{len(seen)}.json')
      with open(path, 'w') as fp:
        json.dump(dict(property=pid, tier=tier, seed=seed, spec=v['spec'], case=v['case'],
                       message=v['message'], detail=v.get('detail'),
                       command=f'{PYTHON} {ROOT}/run.py {pid} --replay {path}'), fp, indent=1,
                  default=str)
      print(f'  [{v["spec"]}/{v["case"]}] {v["message"][:700]}')
      print(f'VIOLATION property={pid} replay={path}')
    return 1
  return 2 if problems else 0
