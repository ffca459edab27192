"""Runs a main program of the repository as a command line would, optionally with a recorder in the place of its trainer.

  APPRUN_JOB=job.json python -m vlib.apprun --config=... --workdir=...
"""
import importlib
import importlib.util
import json
import os
import runpy
import signal
import sys
import threading
import time
import types


def _install_imp():
  """The installed ml_collections needs the module `imp`, which this Python no longer has."""
  def load_source(name, path):
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module
  try:
    import imp  # pylint: disable=import-outside-toplevel,unused-import
  except ImportError:
    sys.modules['imp'] = types.ModuleType('imp')
    sys.modules['imp'].load_source = load_source


TRAINERS = [('vmoe.train.trainer', 'train_and_evaluate'), ('vmoe.projects.contrastive.trainer', 'train_and_evaluate'),
            ('vmoe.projects.adversarial_attacks.lib', 'run_pgd_attack')]


def _plain(x):
  if hasattr(x, 'to_dict'):
    x = x.to_dict()
  if isinstance(x, dict):
    return {k: _plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [type(x).__name__] + [_plain(v) for v in x]
  return [type(x).__name__, x]


def _spy(job, name):
  """What the program hands to its trainer is recorded."""
  def spy(config, workdir, mesh, writer):
    import jax  # pylint: disable=import-outside-toplevel
    from jax.interpreters import pxla  # pylint: disable=import-outside-toplevel
    locked = True
    try:
      config.surely_a_new_name = 1
      locked = False
    except (AttributeError, KeyError):
      pass
    active = pxla.thread_resources.env.physical_mesh
    rec = dict(trainer=name, config=_plain(config), workdir=workdir, axes=list(mesh.axis_names), shape=list(mesh.devices.shape),
               ids=[d.id for d in mesh.devices.flat], active=active == mesh, locked=locked, rank=jax.process_index())
    with open(job['record'], 'a') as fp:
      fp.write(json.dumps(rec) + '\n')
    for step, scalars in job.get('scalars', []):
      if jax.process_index() == 0:  # As the trainers do.
        writer.write_scalars(step, scalars)
    if job.get('fail') == 'error':
      raise RuntimeError('injected')
    if job.get('fail') == 'exit':
      sys.exit(3)
  return spy


def _killer(job):
  """Kills the process around the n-th checkpoint."""
  from vmoe.train import trainer  # pylint: disable=import-outside-toplevel
  kind, n, delay = job['kill']
  orig = trainer.create_checkpoint_manager
  saves = [0]

  def kill(after=0.0):
    time.sleep(after)
    os.kill(os.getpid(), signal.SIGKILL)

  def create(*a, **kw):
    m = orig(*a, **kw)
    save = m.save
    def monitored(*a, **k):
      saves[0] += 1
      if saves[0] == n and kind == 'before':
        kill()
      if saves[0] == n and kind == 'during':
        threading.Thread(target=kill, args=(delay / 1000,), daemon=True).start()
      return save(*a, **k)
    m.save = monitored
    return m
  trainer.create_checkpoint_manager = create


def main():
  with open(os.environ['APPRUN_JOB']) as fp:
    job = json.load(fp)
  _install_imp()
  from vlib import toyds  # pylint: disable=import-outside-toplevel
  toyds.install_builders()
  if job.get('coordinator'):
    import jax  # pylint: disable=import-outside-toplevel
    jax.distributed.initialize(job['coordinator'], num_processes=job['procs'], process_id=job['rank'])
  if job.get('data_dir'):
    from vlib import trainrun  # pylint: disable=import-outside-toplevel
    trainrun.make_data(job['data_dir'])
  if job.get('spy'):
    for module, name in TRAINERS:
      setattr(importlib.import_module(module), name, _spy(job, module))
  if job.get('kill'):
    _killer(job)
  sys.argv = [job['module']] + sys.argv[1:]
  runpy.run_module(job['module'], run_name='__main__')


if __name__ == '__main__':
  main()
