"""One process of a training job started by checks/p32.py: `python -m vlib.distrun job.json rank`.

The job is a plain dict: config, data, mesh (expert partitions), workdir, procs, coordinator, trainer, log.
"""
import json
import os
import sys
import time
import traceback


def make_data(job, scratch):
  """The datasets of the job; training data in the order in which the processes of the distributed job read it together."""
  from vlib import toyds  # pylint: disable=import-outside-toplevel
  d = job['data']
  toyds.make('toytr', {'train': d['train']}, os.path.join(scratch, 'a'), num_shards=1)
  if d['as_procs'] > 1:
    # One process reads, batch by batch, what `as_procs` processes would read together from their parts of the split.
    # The rows of a batch are those of the devices of the mesh, in order (as told by the distributed job).
    n, batch, p = d['train'], d['batch'], d['as_procs']
    read = toyds.ids_of('toytr', 'train')  # TFDS permutes the examples by a hash of their position.
    t = time.time()
    while not os.path.exists(job['rows']) and time.time() - t < 300:
      time.sleep(0.05)
    with open(job['rows']) as fp:
      owners = json.load(fp)
    block, nxt, want = batch // len(owners), [q * (n // p) for q in range(p)], []
    for _ in range(n // batch):
      for q in owners:
        want += read[nxt[q]:nxt[q] + block]
        nxt[q] += block
    order = [0] * n
    for j in range(n):
      order[read[j] - 1] = want[j] - 1
    toyds.make('toytr', {'train': n}, os.path.join(scratch, 'a2'), num_shards=1, order=order)
    assert toyds.ids_of('toytr', 'train') == want
  toyds.make('toyte', {'test': d['test']}, os.path.join(scratch, 'b'), num_shards=2, offset=400)
  toyds.make('toyfs', {'train': d['fs'][0], 'test': d['fs'][1]}, os.path.join(scratch, 'c'), num_shards=1, offset=800, label_key='label')


def tuples(x):
  """JSON has no tuples."""
  if isinstance(x, dict):
    return {k: tuples(v) for k, v in x.items()}
  return tuple(tuples(v) for v in x) if isinstance(x, list) else x


def main():
  with open(sys.argv[1]) as fp:
    job = json.load(fp)
  rank = int(sys.argv[2])
  import jax  # pylint: disable=import-outside-toplevel
  jax.config.update('jax_platforms', 'cpu')
  if job['procs'] > 1:
    jax.distributed.initialize(job['coordinator'], job['procs'], rank, initialization_timeout=200)
  from vlib import toyds  # pylint: disable=import-outside-toplevel
  from vlib import trainrun  # pylint: disable=import-outside-toplevel
  toyds.install_builders()
  import importlib  # pylint: disable=import-outside-toplevel
  import ml_collections  # pylint: disable=import-outside-toplevel
  from vmoe import partitioning  # pylint: disable=import-outside-toplevel
  trainer = importlib.import_module(job['trainer'])
  scratch = os.path.join(job['scratch'], f'rank{rank}')
  os.makedirs(scratch)
  make_data(job, scratch)
  out = {'rank': rank}
  writer = trainrun.Writer()
  try:
    mesh = partitioning.get_auto_logical_mesh(job['mesh'], jax.devices())
    out['mesh'] = [[int(d.id), int(d.process_index)] for d in mesh.devices.flatten()]
    out['mesh_shape'] = list(mesh.devices.shape)
    if job['procs'] > 1 and rank == 0:
      with open(job['rows'] + '.tmp', 'w') as fp:
        json.dump([int(d.process_index) for d in mesh.devices.flatten()], fp)
      os.replace(job['rows'] + '.tmp', job['rows'])
    cfg = ml_collections.ConfigDict(tuples(job['config']))
    cfg.params_axis_resources = [(k, tuple(v) if v else ()) for k, v in job['axes']]
    with mesh:
      trainer.train_and_evaluate(cfg, job['workdir'], mesh, writer)
    out['ok'] = True
  except BaseException as e:  # pylint: disable=broad-except
    out['ok'] = False
    out['error'] = f'{type(e).__name__}: {e}'[:1500]
    out['traceback'] = traceback.format_exc()[-3000:]
  out['log'] = writer.log
  path = job['log'] % rank
  with open(path + '.tmp', 'w') as fp:
    json.dump(out, fp)
  os.replace(path + '.tmp', path)
  if not out['ok']:
    os._exit(3)
  if job['procs'] > 1:
    # Rank 0 hosts the coordination service: it leaves last.
    t = time.time()
    while rank == 0 and time.time() - t < 60 and not all(os.path.exists(job['log'] % r) for r in range(job['procs'])):
      time.sleep(0.05)
    time.sleep(0.2 if rank == 0 else 0)
  os._exit(0)


if __name__ == '__main__':
  main()
