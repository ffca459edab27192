"""A worker process of a check: runs the workload of one spec and records what monitors saw."""
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('VMOE_REPO', '/repo')


class Violation(Exception):
  """Raised by an oracle: the observed execution refutes the property."""

  def __init__(self, message, mechanism=None):
    super().__init__(message)
    self.mechanism = mechanism


class Inconclusive(Exception):
  """Raised by a monitor that cannot decide (e.g. the thing to observe is missing)."""


def _digest(obj):
  return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


class Ctx:

  def __init__(self, job):
    self.job = job
    self.tier = job['tier']
    self.thorough = job['tier'] == 'thorough'
    self.seed = job['seed']
    self.spec = job['spec']
    self.scratch = job['scratch']
    self.t0 = time.time()
    self.evaluations = 0
    self.distinct = set()
    self.samples = []
    self.events = {}
    self.violations = []
    self.errors = []
    self.budget = self.spec.get('budget', 3600 if self.thorough else 240)
    self._current = None

  # --- recording -----------------------------------------------------------
  def event(self, name, n=1):
    self.events[name] = self.events.get(name, 0) + n

  def distinct_case(self, *key):
    self.distinct.add(_digest((self.job['pid'],) + key))

  def sample(self, obj):
    if len(self.samples) < 4:
      self.samples.append(obj if isinstance(obj, (str, dict, list)) else repr(obj))

  # --- oracles -------------------------------------------------------------
  def check(self, cond, message, mechanism=None):
    if not cond:
      raise Violation(message() if callable(message) else message, mechanism)

  def rng(self, *key):
    import numpy as np  # pylint: disable=import-outside-toplevel
    h = hashlib.sha256(repr((self.job['pid'], self.seed) + key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))

  def time_left(self):
    return self.budget - (time.time() - self.t0)

  # --- cases ---------------------------------------------------------------
  def run_case(self, name, fn, *args, **kwargs):
    """Runs one execution of the workload under its oracles."""
    only = self.job.get('only_case')
    if only is not None and only != name:
      return
    if only is None and len(self.violations) >= 3:
      return
    if only is None and not self.spec.get('shared') and self.time_left() < 0 and self.evaluations > 0:
      self.event('cases_skipped_for_time')
      return
    self.evaluations += 1
    t = time.time()
    try:
      fn(self, self.rng(self.spec['name'], name), *args, **kwargs)
    except Inconclusive as e:
      self.errors.append(f'case {name}: {e}')
    except Violation as e:
      self.violations.append(dict(case=name, message=str(e)[:4000], mechanism=e.mechanism))
    except BaseException as e:  # pylint: disable=broad-except
      tb = traceback.format_exc()
      frames = traceback.extract_tb(e.__traceback__)
      in_repo = any(f.filename.startswith(REPO + os.sep) for f in frames)
      harness_only = isinstance(e, (ImportError, AttributeError, NameError)) and not in_repo
      if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)) or harness_only:
        self.errors.append(f'case {name}: harness problem: {tb[-3000:]}')
      else:
        self.violations.append(dict(
            case=name, mechanism=None,
            message=f'valid use raised {type(e).__name__}: {str(e)[:600]}', detail=tb[-3000:]))
    if self.spec.get('shared') and self.violations:
      self.dump(True)  # The other ranks cannot continue without this one.
      os._exit(0)
    if os.environ.get('VERIF_VERBOSE'):
      print(f'case {name}: {time.time() - t:.2f}s', flush=True)

  def dump(self, finished):
    out = dict(evaluations=self.evaluations, distinct=sorted(self.distinct),
               samples=self.samples, events=self.events, violations=self.violations,
               errors=self.errors, finished=finished)
    tmp = self.job['out'] + '.tmp'
    with open(tmp, 'w') as fp:
      json.dump(out, fp, default=str)
    os.replace(tmp, self.job['out'])


def main():
  with open(sys.argv[1]) as fp:
    job = json.load(fp)
  random.seed(job['seed'])
  ctx = Ctx(job)
  if job['spec'].get('shared'):
    import jax  # pylint: disable=import-outside-toplevel
    jax.config.update('jax_cpu_collectives_implementation', 'gloo')
    jax.distributed.initialize(job['spec']['coordinator'], job['spec']['procs'],
                               job['spec']['rank'], initialization_timeout=200)
  try:
    mod = importlib.import_module('checks.' + job['pid'].lower())
    mod.run(ctx, job['spec'])
  except BaseException:  # pylint: disable=broad-except
    ctx.errors.append('worker failed outside a case: ' + traceback.format_exc()[-4000:])
  ctx.dump(True)
  sys.stdout.flush()
  if job['spec'].get('shared'):  # Rank 0 hosts the coordinator: it leaves last.
    sd = job['spec']['shared_dir']
    with open(os.path.join(sd, f'.done_{job["spec"]["rank"]}'), 'w'):
      pass
    t = time.time()
    while job['spec']['rank'] == 0 and time.time() - t < 60:
      if all(os.path.exists(os.path.join(sd, f'.done_{r}')) for r in range(job['spec']['procs'])):
        break
      time.sleep(0.05)
  os._exit(0)  # Do not wait for leaked threads of the code under test.


if __name__ == '__main__':
  main()
