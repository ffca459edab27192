"""Runs the real training loop on toy data, recording everything written, with crashes at chosen points."""
import json
import os
import sys
import threading
import time


class Crash(BaseException):
  """The injected failure."""


class Writer:
  """Records all scalars; crashes before or after the n-th call."""

  def __init__(self, crash_at=None):
    self.log = []
    self.calls = 0
    self.crash_at = crash_at

  def write_scalars(self, step, scalars):
    self.calls += 1
    if self.crash_at is not None and self.calls == self.crash_at:
      raise Crash(f'write {self.calls}')
    self.log.append((int(step), {k: float(v) for k, v in scalars.items()}))

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return lambda *a, **k: None

  def train_steps(self):
    return [s for s, m in self.log if any(k.startswith('train/') and 'loss' in k for k in m)]

  def metric(self, name):
    return [(s, m[name]) for s, m in self.log if name in m]


def make_data(data_dir, train=16, test=11, same=True):
  from vlib import toyds  # pylint: disable=import-outside-toplevel
  toyds.make('toytr', {'train': train}, os.path.join(data_dir, 'a'), num_shards=2, same=same)
  toyds.make('toyte', {'test': test}, os.path.join(data_dir, 'b'), num_shards=2, offset=40)


def config(o):
  """ConfigDict for the options `o` (a plain dict, see checks/p29.py)."""
  import ml_collections  # pylint: disable=import-outside-toplevel
  pp = 'decode|resize(4)|value_range(-1,1)|onehot(7)|keep("image","labels")'
  c = dict(
      dataset=dict(train=dict(name='toytr', split='train', batch_size=o['batch'], process=pp, shuffle_buffer=10),
                   test=dict(name='toyte', split='test', batch_size=8, process=pp)),
      model=dict(name='vlib.tinymodel.Tiny', num_classes=7), optimizer=dict(**o['optimizer']), loss=dict(name='softmax_xent'),
      params_axis_resources=[tuple(v) for v in o['axes']], save_checkpoint=dict(**o['save']), evaluate=dict(**o['evaluate']),
      report_progress=dict(every_steps=1), extra_rng_keys=list(o['rngs']), seed=o['seed'])
  if o.get('contrastive'):
    for k in ('evaluate', 'loss'):
      c.pop(k)
    c['dataset'].pop('test')
    c['dataset']['train']['process'] = 'decode|resize(4)|value_range(-1,1)|onehot(7, outkey="text")|keep("image","text")'
    c['model'] = dict(name='vmoe.projects.contrastive.models.TwoTower', image=dict(name='vlib.tinymodel.Tiny', num_classes=4), text=dict(name='vlib.tinymodel.TinyText'), **o['contrastive'])
    for k in ('retrieval', 'zeroshot'):
      if o.get(k):
        c[k] = o[k]
  for k in ('train_steps', 'train_epochs', 'microsteps', 'mixup', 'adversarial', 'fewshot', 'initialization', 'summarize_arrays'):
    if o.get(k):
      c[k] = o[k]
  return ml_collections.ConfigDict(c)


def make_mesh(shape):
  import jax  # pylint: disable=import-outside-toplevel
  import numpy as np  # pylint: disable=import-outside-toplevel
  return jax.sharding.Mesh(np.array(jax.devices()).reshape(*shape), ('expert', 'replica'))


def train(o, workdir, mesh_shape, crash=None, hard=False):
  """Runs train_and_evaluate; returns (writer, crashed). `crash` is None or (kind, n, delay_ms)."""
  import jax  # pylint: disable=import-outside-toplevel
  if o.get('contrastive'):
    from vmoe.projects.contrastive import trainer  # pylint: disable=import-outside-toplevel
  else:
    from vmoe.train import trainer  # pylint: disable=import-outside-toplevel
  kind, n, delay = crash or (None, 0, 0)

  class Killer(Writer):

    def write_scalars(self, step, scalars):
      if kind == 'write' and self.calls + 1 == n:
        die()
      super().write_scalars(step, scalars)

  def die():
    if hard:
      os._exit(9)
    raise Crash(f'{kind} {n}')

  writer = Killer()
  managers = []
  orig = trainer.create_checkpoint_manager
  saves = [0]

  def create(**kw):
    m = orig(**kw)
    managers.append(m)
    save = m.save

    def monitored(*a, **k):
      saves[0] += 1
      if kind == 'before_save' and saves[0] == n:
        die()
      if kind == 'during_save' and saves[0] == n and hard:
        threading.Thread(target=lambda: (time.sleep(delay / 1000), os._exit(9)), daemon=True).start()
      r = save(*a, **k)
      if kind in ('after_save', 'during_save') and saves[0] == n and not hard:
        die()
      if kind == 'after_save' and saves[0] == n:
        die()
      return r

    m.save = monitored
    return m

  trainer.create_checkpoint_manager = create
  crashed = False
  mesh = make_mesh(mesh_shape)
  try:
    with mesh:
      trainer.train_and_evaluate(config(o), workdir, mesh, writer)
  except Crash:
    crashed = True
  finally:
    trainer.create_checkpoint_manager = orig
    for m in managers:
      m.wait_until_finished()
      m.close()
  return writer, crashed


def steps_on_disk(workdir):
  d = os.path.join(workdir, 'ckpt')
  return sorted(int(x) for x in os.listdir(d) if x.isdigit()) if os.path.isdir(d) else []


def read_state(workdir, step):
  """The arrays in a checkpoint, read without the code under test: {path: array}, and last_seen_index."""
  import numpy as np  # pylint: disable=import-outside-toplevel
  import jax  # pylint: disable=import-outside-toplevel
  import orbax.checkpoint as ocp  # pylint: disable=import-outside-toplevel
  d = os.path.join(workdir, 'ckpt', str(step))
  ck = ocp.PyTreeCheckpointer()
  meta = ck.metadata(os.path.join(d, 'state'))
  meta = getattr(meta, 'item_metadata', meta)
  meta = getattr(meta, 'tree', meta)
  # As NumPy arrays: the devices of the job may not be here.
  args = jax.tree_util.tree_map(lambda _: ocp.RestoreArgs(restore_type=np.ndarray), meta)
  tree = ck.restore(os.path.join(d, 'state'), restore_args=args)
  flat = {jax.tree_util.keystr(k): np.asarray(v) for k, v in jax.tree_util.tree_flatten_with_path(tree)[0]}
  idx = ocp.Checkpointer(ocp.JsonCheckpointHandler()).restore(os.path.join(d, 'dataset_iterator'))
  return flat, idx['last_seen_index']


def main():
  with open(sys.argv[1]) as fp:
    job = json.load(fp)
  from vlib import toyds  # pylint: disable=import-outside-toplevel
  toyds.install_builders()
  make_data(job['data_dir'])
  train(job['options'], job['workdir'], job['mesh'], crash=job['crash'], hard=True)
  os._exit(0)


if __name__ == '__main__':
  main()
