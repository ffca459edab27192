"""P02: a crash, kill or I/O error while saving never leaves a torn or lost checkpoint file."""
import hashlib
import os
import shutil
import signal
import sys
import threading
import time

LEVEL = 'fault_enumeration'
RULE = ('random trees saved by every public saving entry point (one file, async, several files, sharded) over absent or '
        'existing destinations; the on-disk state is captured at every executed line of the checkpointing code, in '
        'the middle of every write and around every rename (= every crash image at that granularity), I/O errors are '
        'injected at each write/rename in turn, and real processes are killed with SIGKILL at random instants; '
        'distinct by (entry point, overwrite, number of files, injected fault)')
REQUIRED = {'snapshot': 2000, 'partial_write_state': 20, 'injected_io_error': 20, 'no_overwrite_rejected': 5,
            'crash_image_analysed': 50, 'crash_image_resumed_previous': 10, 'sigkill': 4, 'rival_saved': 3}
ASSUMPTIONS = ['the file system gives atomic rename; power loss (unsynced page cache) is not modelled']
TOOL = 4


def specs(tier):
  q = tier == 'quick'
  return [dict(name='files', devices=1, n=60 if q else 800, mode='files'),
          dict(name='files2', devices=1, n=60 if q else 800, mode='files'),
          dict(name='faults', devices=1, n=30 if q else 400, mode='faults'),
          dict(name='sharded', devices=4, n=12 if q else 200, mode='sharded'),
          dict(name='sharded2', devices=2, n=12 if q else 200, mode='sharded'),
          dict(name='kill1', devices=2, n=4 if q else 60, mode='kill'),
          dict(name='kill2', devices=2, n=4 if q else 60, mode='kill')]


class Observer:
  """Captures the visible state of the target files at every program point of the saver."""

  def __init__(self, repo_dir):
    self.repo_dir = repo_dir
    self.lock = threading.RLock()
    self.targets = []
    self.states = {}
    self.count = 0
    self.image_of = None   # directory to copy at every distinct listing
    self.images_root = None
    self.images = {}
    self.fault = None      # (kind, countdown)
    self.partial = 0
    self.fired = 0
    self.action = None     # what happens instead of an error
    self.active = False

  def install(self):
    from tensorflow.io import gfile
    from tensorflow.python.lib.io import file_io
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'verif-crash-points')

    def on_line(code, _):
      if not code.co_filename.startswith(self.repo_dir):
        return mon.DISABLE
      if self.active:
        self.snapshot()
      return None
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)
    orig_write, orig_rename = file_io.FileIO.write, gfile.rename
    obs = self

    def write(fio, data):
      if not obs.active or not isinstance(data, (bytes, str)) or len(data) < 2:
        return orig_write(fio, data)
      obs.inject('write')
      half = len(data) // 2
      orig_write(fio, data[:half])
      fio.flush()
      obs.partial += 1
      obs.snapshot()
      obs.inject('midwrite')
      r = orig_write(fio, data[half:])
      obs.snapshot()
      return r

    def rename(*args, **kwargs):
      obs.snapshot()
      obs.inject('rename')
      r = orig_rename(*args, **kwargs)
      obs.snapshot()
      return r
    file_io.FileIO.write = write
    gfile.rename = rename
    os_rename, os_replace = os.rename, os.replace

    def wrap(fn):
      def inner(*a, **k):
        if obs.active:
          obs.snapshot()
          obs.inject('rename')
        return fn(*a, **k)
      return inner
    os.rename, os.replace = wrap(os_rename), wrap(os_replace)

  def inject(self, kind):
    with self.lock:
      if self.active and self.fault and self.fault[0] == kind:
        self.fault[1] -= 1
        if self.fault[1] == 0:
          self.fired += 1
          if self.action:
            self.action()
            return
          raise OSError(28, f'injected: no space left on device ({kind})')

  def snapshot(self):
    if not self.active:
      return
    with self.lock:
      self.count += 1
      for t in self.targets:
        try:
          with open(t, 'rb') as fp:
            h = hashlib.sha1(fp.read()).hexdigest()
        except FileNotFoundError:
          h = None
        self.states.setdefault(t, set()).add(h)
      if self.image_of:
        try:
          names = tuple(sorted((e.name, e.stat().st_size) for e in os.scandir(self.image_of)))
        except FileNotFoundError:
          return
        if names not in self.images and len(self.images) < 60:
          dst = os.path.join(self.images_root, str(len(self.images)))
          os.makedirs(dst)
          for n, _ in names:
            try:
              shutil.copyfile(os.path.join(self.image_of, n), os.path.join(dst, n))
            except FileNotFoundError:
              pass
          self.images[names] = dst

  def start(self, targets, image_of=None, images_root=None, fault=None):
    self.targets, self.states, self.fault = list(targets), {}, fault
    self.image_of, self.images_root, self.images = image_of, images_root, {}
    self.count = self.partial = self.fired = 0
    self.active = True
    self.snapshot()

  def stop(self):
    self.snapshot()
    self.active = False


def digest(path):
  try:
    with open(path, 'rb') as fp:
      return hashlib.sha1(fp.read()).hexdigest()
  except FileNotFoundError:
    return None


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import numpy as np
  from vmoe.checkpoints import base
  from vmoe.checkpoints import partitioned
  if spec['mode'] == 'kill':
    for i in range(spec['n']):
      ctx.run_case(f'{i}', kill_case, i)
    return
  from vlib import trees
  import jax
  from multiprocessing.pool import ThreadPool
  repo = os.environ.get('VMOE_REPO', '/repo')
  obs = Observer(os.path.join(repo, 'vmoe', 'checkpoints'))
  obs.install()

  def rand_tree(rng):
    n = int(rng.integers(1, 4))
    t = {f'k{j}': trees.random_numpy(rng, trees.random_shape(rng, 3000),
                                     trees.DTYPES[rng.integers(len(trees.DTYPES))])
         for j in range(n)}
    t['id'] = np.asarray(rng.integers(1 << 40))
    return t

  def same_tree(a, b):
    la, lb = trees.tree_leaves_with_path(a), trees.tree_leaves_with_path(b)
    return [k for k, _ in la] == [k for k, _ in lb] and all(
        trees.same_bits(x, y) for (_, x), (_, y) in zip(la, lb))

  def save(entry, mapping, overwrite, pool):
    if entry == 'one':
      for f, t in mapping.items():
        base.save_checkpoint(f, t, overwrite=overwrite)
    elif entry == 'async':
      rs = [base.save_checkpoint_async(f, t, overwrite=overwrite, thread_pool=pool)
            for f, t in mapping.items()]
      for r in rs:
        r.wait()
      for r in rs:
        r.get()
    else:
      r = base.save_multiple_checkpoints_async(mapping, overwrite=overwrite, thread_pool=pool)
      r.wait()
      r.get()

  def file_case(ctx, rng, i):
    entry = ['one', 'async', 'many'][rng.integers(3)]
    d = os.path.join(ctx.scratch, f'd{i}')
    nfiles = int(rng.integers(1, 5))
    files = [os.path.join(d, f'ckpt_{j}') for j in range(nfiles)]
    old = {f: rand_tree(rng) for f in files if rng.random() < 0.5}
    new = {f: rand_tree(rng) for f in files}
    for f, t in old.items():
      base.save_checkpoint(f, t)
    before = {f: digest(f) for f in files}
    overwrite = bool(rng.random() < 0.7)
    pool = ThreadPool(int(rng.integers(1, 5)))
    fault = None
    if spec['mode'] == 'faults':
      fault = [['write', 'midwrite', 'rename'][rng.integers(3)], int(rng.integers(1, nfiles + 1))]
    obs.start(files, fault=fault)
    error = None
    try:
      save(entry, new, overwrite, pool)
    except Exception as e:  # pylint: disable=broad-except
      error = e
    finally:
      obs.stop()
    pool.close()
    pool.join()
    ctx.event('snapshot', obs.count)
    ctx.event('partial_write_state', obs.partial)
    ctx.event('injected_io_error', obs.fired)
    # What complete versions look like on disk.
    complete = {}
    ref = os.path.join(ctx.scratch, f'ref{i}')
    for f, t in new.items():
      complete[f] = digest(base.save_checkpoint(os.path.join(ref, os.path.basename(f)), t))
    must_fail = bool(old) and not overwrite
    if must_fail:
      ctx.event('no_overwrite_rejected')
      ctx.check(error is not None, 'saving without overwrite over existing checkpoints did not fail')
    if obs.fired:
      ctx.check(error is not None, f'an I/O error ({fault}) while saving was not reported ({entry})')
    if not must_fail and not obs.fired and error is not None:
      raise error
    for f in files:
      allowed = {before[f]} | ({complete[f]} if (overwrite or f not in old) else set())
      seen = obs.states.get(f, set())
      ctx.check(seen <= allowed, lambda f=f: (
          f'{os.path.basename(f)}: a crash could leave content that is neither the previous nor the '
          f'complete new version ({entry}, overwrite={overwrite}, existed={f in old}, fault={fault}, '
          f'absent observed={None in seen})'))
      if error is None:
        ctx.check(digest(f) == complete[f], 'save reported success but the file is not the new version')
        ctx.check(not os.path.exists(os.path.join(d, '.tmp.' + os.path.basename(f))),
                  'temporary file left after a successful save')
        ctx.check(same_tree(base.restore_checkpoint(f, new[f]), new[f]), 'restored content differs')
      elif digest(f) is not None:
        want = new[f] if digest(f) == complete[f] else old[f]
        ctx.check(same_tree(base.restore_checkpoint(f, want), want), 'content after failure is not restorable')
    # A retry after the failure succeeds.
    if error is not None:
      save('many', new, True, None)
      for f in files:
        ctx.check(digest(f) == complete[f], 'retry after a failed save did not write the new version')
    ctx.distinct_case(entry, overwrite, nfiles, len(old), str(fault))
    ctx.sample(dict(entry=entry, files=nfiles, existing=len(old), overwrite=overwrite, fault=str(fault),
                    snapshots=obs.count, error=repr(error)[:80]))
    shutil.rmtree(d)
    shutil.rmtree(ref)

  def sharded_case(ctx, rng, i):
    d = os.path.join(ctx.scratch, f's{i}')
    images = os.path.join(ctx.scratch, f'img{i}')
    os.makedirs(images)
    mesh = trees.random_mesh(rng)
    def make():
      out = {}
      for j in range(int(rng.integers(1, 4))):
        v = trees.random_numpy(rng, trees.random_shape(rng, 400), np.float32)
        out[f'k{j}'] = trees.device_array(v, trees.NamedSharding(
            mesh, trees.random_spec(rng, v.shape, mesh)))
      return out
    t1, t2 = make(), make()
    s1, s2 = int(rng.integers(1, 200)), int(rng.integers(200, 2000))
    prefix = os.path.join(d, 'ckpt')
    shards = int(rng.integers(1, 6))
    partitioned.save_checkpoint(f'{prefix}_{s1}', t1, num_shards=shards).get()
    names = [f'{prefix}_{s2}.index'] + [
        base.add_shard_suffix(f'{prefix}_{s2}.data', k, shards) for k in range(shards)]
    pool = ThreadPool(int(rng.integers(1, 4)))
    obs.start(names, image_of=d, images_root=images)
    try:
      r = partitioned.save_checkpoint(f'{prefix}_{s2}', t2, num_shards=shards, thread_pool=pool,
                                      max_chunk_bytes=[None, 64][rng.integers(2)])
      r.get()
    finally:
      obs.stop()
    pool.close()
    ctx.event('snapshot', obs.count)
    ctx.event('partial_write_state', obs.partial)
    for n in names:
      ctx.check(obs.states[n] <= {None, digest(n)},
                f'{os.path.basename(n)} was visible with incomplete content while saving')
      ctx.check(digest(n) is not None, f'expected file {os.path.basename(n)} was not written')
    if len(obs.images) < 3:
      raise RuntimeError('no crash images were captured')
    for listing, img in obs.images.items():
      ctx.event('crash_image_analysed')
      p = os.path.join(img, 'ckpt')
      latest = base.find_latest_complete_checkpoint_for_prefix(p, suffixes=('.index', '.data'))
      ctx.check(latest in (f'{p}_{s1}', f'{p}_{s2}'),
                f'after a crash leaving {listing}, the latest complete checkpoint found was {latest}')
      if latest == f'{p}_{s1}':
        ctx.event('crash_image_resumed_previous')
      want = t1 if latest == f'{p}_{s1}' else t2
      try:
        got = partitioned.restore_checkpoint(latest, want)
      except Exception as e:  # pylint: disable=broad-except
        ctx.check(False, f'crash image {listing}: {os.path.basename(latest)} is reported complete but '
                  f'cannot be restored: {e!r}'[:800])
      ctx.check(same_tree(got, want), f'crash image {listing}: restored content differs')
    # Saving without overwriting fails and keeps the existing checkpoint; overwriting replaces it.
    t3 = make()
    kept = {n: digest(n) for n in names}
    try:
      partitioned.save_checkpoint(f'{prefix}_{s2}', t3, num_shards=shards, overwrite=False).get()
      error = None
    except Exception as e:  # pylint: disable=broad-except
      error = e
    ctx.event('no_overwrite_rejected')
    ctx.check(error is not None and kept == {n: digest(n) for n in names},
              'a sharded save without overwrite replaced an existing checkpoint or did not fail')
    partitioned.save_checkpoint(f'{prefix}_{s2}', t3, num_shards=shards, overwrite=True).get()
    ctx.check(same_tree(partitioned.restore_checkpoint(f'{prefix}_{s2}', t3), t3),
              'overwriting a sharded checkpoint did not store the new content')
    ctx.distinct_case('sharded', shards, len(t2), len(obs.images))
    ctx.sample(dict(entry='sharded', shards=shards, images=len(obs.images), snapshots=obs.count))
    shutil.rmtree(d)
    shutil.rmtree(images)

  def rival_case(ctx, rng, i):
    """Without overwrite, a checkpoint that another process completes meanwhile is not replaced either."""
    d = os.path.join(ctx.scratch, f'r{i}')
    os.makedirs(d)
    target = os.path.join(d, 'ckpt_3')
    rival = base.save_checkpoint(os.path.join(d, 'other'), rand_tree(rng))
    kind = ['write', 'midwrite'][rng.integers(2)]
    def appear():
      shutil.copyfile(rival, target)
    obs.start([target], fault=[kind, 1])
    obs.action = appear
    error = None
    try:
      save(['one', 'async', 'many'][rng.integers(3)], {target: rand_tree(rng)}, False, None)
    except Exception as e:  # pylint: disable=broad-except
      error = e
    finally:
      obs.action = None
      obs.stop()
    if obs.fired:
      ctx.event('rival_saved')
      ctx.check(error is not None and digest(target) == digest(rival),
                f'a save without overwrite replaced the checkpoint that appeared while it was writing, or did not fail ({error!r})')
    shutil.rmtree(d)

  if spec['mode'] == 'faults':
    for i in range(6):
      ctx.run_case(f'rival{i}', rival_case, i)
  for i in range(spec['n']):
    ctx.run_case(f'{i}', sharded_case if spec['mode'] == 'sharded' else file_case, i)


def content(step):
  import numpy as np
  rng = np.random.default_rng(step)
  return {'a': rng.standard_normal((64, 128)).astype(np.float32),
          'b': rng.standard_normal((257,)).astype(np.float32),
          'step': np.asarray(step, np.int32)}


def kill_case(ctx, rng, i):
  """Kills a process that saves checkpoints in a loop; then resumes from what is on disk."""
  import numpy as np
  from vmoe.checkpoints import base
  from vmoe.checkpoints import partitioned
  d = os.path.join(ctx.scratch, f'k{i}')
  os.makedirs(d)
  marker = os.path.join(ctx.scratch, f'marker{i}')
  prefix = os.path.join(d, 'ckpt')
  shards = int(rng.integers(1, 9))
  chunk = int(rng.integers(200, 4000))
  pid = os.fork()
  if pid == 0:
    try:
      import jax
      step = 0
      while True:
        step += 1
        tree = {k: jax.device_put(v) for k, v in content(step).items()}
        partitioned.save_checkpoint(f'{prefix}_{step}', tree, num_shards=shards,
                                    max_chunk_bytes=chunk).get()
        if step == 1:
          open(marker, 'w').close()
    finally:
      os._exit(3)
  t = time.time()
  while not os.path.exists(marker) and time.time() - t < 120:
    time.sleep(0.01)
    if os.waitpid(pid, os.WNOHANG)[0]:
      raise RuntimeError('saving process ended by itself')
  time.sleep(float(rng.random()) * 0.6)
  os.kill(pid, signal.SIGKILL)
  os.waitpid(pid, 0)
  if not os.path.exists(marker):
    from vlib.worker import Inconclusive
    raise Inconclusive('the saving process did not start')
  ctx.event('sigkill')
  # Decide in another child, so that this process stays free of JAX threads.
  steps = sorted({int(f.split('_')[1].split('.')[0]) for f in os.listdir(d) if not f.startswith('.')})
  latest = base.find_latest_complete_checkpoint_for_prefix(prefix, suffixes=('.index', '.data'))
  ctx.check(latest is not None, 'no complete checkpoint found after a kill, although step 1 was complete')
  n = int(latest.rsplit('_', 1)[1])
  ctx.check(n >= max(steps) - 1, f'latest complete {n}, but steps {steps[-3:]} were written in order')
  out = os.path.join(ctx.scratch, f'res{i}')
  pid = os.fork()
  if pid == 0:
    msg = 'ok'
    try:
      got = partitioned.restore_checkpoint(latest, None)
      for k, v in content(n).items():
        if not np.array_equal(np.asarray(got[k]), v):
          msg = f'leaf {k} of step {n} differs after a kill'
    except BaseException as e:  # pylint: disable=broad-except
      msg = f'{os.path.basename(latest)} is reported complete after a kill but cannot be restored: {e!r}'
    with open(out, 'w') as fp:
      fp.write(msg)
    os._exit(0)
  os.waitpid(pid, 0)
  with open(out) as fp:
    msg = fp.read()
  ctx.check(msg == 'ok', msg)
  ctx.distinct_case('kill', shards, chunk // 500, n)
  ctx.sample(dict(entry='sigkill', shards=shards, steps_written=n))
  shutil.rmtree(d)
