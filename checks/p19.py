"""P19: evaluation pipelines yield each example exactly once, in equally many full batches per process."""

RULE = ('TFDS datasets written to scratch (1-600 examples, 1-7 shards), sub-splits, 1-9 processes (one process playing each in turn, '
        'and 2 real jax.distributed processes), batch sizes, caching, prefetching, filters, re-iteration; oracle: multiset of ids over '
        'all processes; distinct by (split, processes, batch size, options)')
REQUIRED = {'eval_config': 25, 'process_iterated': 70, 'real_example_seen': 3000, 'fake_example_seen': 300, 'reiterated': 10, 'filtered': 5,
            'train_config': 6, 'train_example_seen': 1500, 'bad_batch_rejected': 5, 'fewer_examples_than_processes': 3, 'real_multiprocess': 2, 'marked': 200, 'data_dir_checked': 10}


def specs(tier):
  n = 14 if tier == 'quick' else 250
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(5)] + [dict(name='ranks', procs=2, devices=2, n=3 if tier == 'quick' else 12)]


PROCESS = 'decode|resize(4)|keep("id", "image", "labels")'


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import collections
  import json
  import os
  import time
  from vlib import toyds
  shared = spec.get('shared')
  toyds.install_builders()
  if not shared:
    toyds.install_topology()
  import jax
  import ml_collections
  import numpy as np
  import tensorflow as tf
  from vmoe.data import input_pipeline
  V = '__valid__'
  T = toyds.TOPOLOGY
  names = []
  rng0 = np.random.default_rng(ctx.seed if shared else [ctx.seed, int(spec['name'][1:])])
  sizes = [(1, 3), (16, 40), (53, 20), (97, 128)] + [(int(rng0.integers(30, 400)), int(rng0.integers(1, 60)))]
  if ctx.thorough:
    sizes.append((600, 257))
  for j, (a, b) in enumerate(sizes):
    name = f'toy{j}'
    toyds.make(name, {'train': a, 'test': b}, os.path.join(ctx.scratch, f'data{spec.get("rank", 0)}'), num_shards=int(rng0.integers(1, 8)))
    names.append((name, a, b))

  def split_of(rng, a, b):
    k = rng.integers(6)
    if k <= 1:
      return 'train'
    if k == 2:
      return 'test'
    if k == 3:
      lo = int(rng.integers(0, a))
      return f'train[{lo}:{int(rng.integers(lo + 1, a + 1))}]'
    if k == 4:
      return 'train+test'
    return f'test[{int(rng.integers(0, 50))}%:]' if b >= 10 else 'test'

  def consume(it):
    out = []
    for d in it:
      out.append({k: np.asarray(v) for k, v in d.items()})
      if len(out) > 5000:
        raise RuntimeError('endless evaluation data')
    return out

  def verify_batches(ctx, batches, per_process, keep, info):
    """Checks the batches of one process, returns the ids of its real examples."""
    ids = []
    for d in batches:
      ctx.check(set(d) == {'id', 'image', 'labels', V}, f'{info}: keys {sorted(d)}')
      ctx.check(d['id'].shape == (per_process,) and d['image'].shape == (per_process, 4, 4, 3) and d[V].shape == (per_process,),
                f'{info}: shapes { {k: v.shape for k, v in d.items()} }, batch size per process is {per_process}')
      ctx.check(d[V].dtype == bool, f'{info}: mask has dtype {d[V].dtype}')
      for i, ok, im, lab in zip(d['id'], d[V], d['image'], d['labels']):
        if ok:
          ids.append(int(i))
          want = tf.cast(tf.image.resize(toyds.image_of(i, (4, 5, 3)), (4, 4)), tf.uint8).numpy()
          ctx.check(np.array_equal(im, want) and lab == i % 7, f'{info}: example {i} is not itself: labels {lab}')
          ctx.event('real_example_seen')
        else:
          ctx.check(i == 0 and lab == 0 and not im.any(), f'{info}: example {i} is marked as fake')
          ctx.event('fake_example_seen')
    return ids

  def case(ctx, rng, i):
    name, a, b = names[rng.integers(len(names))] if i >= len(names) else names[i]
    split = split_of(rng, a, b)
    count = int(rng.choice([1, 1, 2, 3, 4, 5, 8, 9]))
    devices = count * int(rng.choice([1, 1, 2, 4]))
    batch = devices * int(rng.choice([1, 1, 2, 3, 5, 8]))
    cache = [None, 'loaded', 'batched'][rng.integers(3)]
    prefetch = [None, 1, 3, 'autotune'][rng.integers(4)]
    keep = int(rng.integers(2, 4)) if rng.random() < 0.25 else None
    seed = int(rng.integers(100)) if rng.random() < 0.3 else None
    info = f'{name}({a}, {b}) {split} over {count} processes, batch {batch}, cache={cache}, prefetch={prefetch}, filter={keep}'
    want = toyds.ids_of(name, split)
    parts = [len(toyds.ids_of(name, x)) for x in split.split('+')]
    kw = dict(variant=['test', 'validation', 'val', 'train_subset', 'train2'][rng.integers(5)], name=name, split=split, batch_size=batch, process=PROCESS,
              cache=cache, prefetch=prefetch, data_dir=ctx.scratch)
    if seed is not None:
      kw['shuffle_seed'] = seed
    if keep:
      kw['pre_filter_fn'] = lambda d: d['id'] % keep != 0
      want = [w for w in want if w % keep != 0]
      ctx.event('filtered')
    T.update(count=count, devices=devices)
    got, nums = [], []
    if min(parts) < count:  # TFDS refuses to read empty splits: some process has to fail loudly.
      ctx.event('fewer_examples_than_processes')
      T['index'] = count - 1
      try:
        consume(input_pipeline.get_dataset(**kw))
      except ValueError:
        pass
      return
    for p in range(count):
      T['index'] = p
      it = input_pipeline.get_dataset(**kw)
      batches = consume(it)
      nums.append(len(batches))
      ids = verify_batches(ctx, batches, batch // count, keep, f'{info}, process {p}')
      got += ids
      ctx.event('process_iterated')
      if rng.random() < 0.3:
        it.reset()
        again = verify_batches(ctx, consume(it), batch // count, keep, f'{info}, process {p}, second pass')
        ctx.check(sorted(again) == sorted(ids), f'{info}: process {p} yields other examples in the second pass')
        ctx.event('reiterated')
    c, w = collections.Counter(got), collections.Counter(want)
    ctx.check(c == w, lambda: f'{info}: missing examples {sorted((w - c).elements())[:10]}, additional {sorted((c - w).elements())[:10]}')
    ctx.check(len(set(nums)) == 1, f'{info}: processes have different numbers of batches: {nums}')
    if not keep and len(parts) == 1:
      most = max(-(-len(want) // count), 1)
      ctx.check(nums[0] == -(-most // (batch // count)), f'{info}: {nums[0]} batches for {len(want)} examples')
    total = input_pipeline.get_data_num_examples(ml_collections.ConfigDict({k: v for k, v in kw.items() if k != 'pre_filter_fn'}))
    ctx.check(keep or total == len(want), f'{info}: num_examples = {total}, expected {len(want)}')
    ctx.event('eval_config')
    ctx.distinct_case(info)
    ctx.sample(info)
    if devices > 1:
      bad = devices * int(rng.integers(1, 5)) + int(rng.integers(1, devices))
      try:
        input_pipeline.get_dataset(**(kw | dict(batch_size=bad)))
      except ValueError:
        ctx.event('bad_batch_rejected')
      else:
        ctx.check(False, f'batch size {bad} accepted with {devices} devices')

  def train_case(ctx, rng, i):
    name, a, _ = names[rng.integers(1, len(names))]
    count = int(rng.choice([1, 2, 3]))
    per = int(rng.integers(1, 9))
    buffer = int(rng.choice([1, 4, 1000]))
    cache = [None, 'loaded', 'batched'][rng.integers(3)]
    T.update(count=count, devices=count)
    everything = set(toyds.ids_of(name, 'train'))
    seen = []
    for p in range(count):
      T['index'] = p
      it = input_pipeline.get_dataset(variant='train', name=name, split='train', batch_size=per * count, process=PROCESS, cache=cache,
                                      shuffle_buffer=buffer, prefetch=[None, 2][rng.integers(2)], data_dir=ctx.scratch)
      own = -(-a // count)
      steps = 3 * own // per + 3
      mine = collections.Counter()
      for _ in range(steps):
        d = next(it)
        ctx.check(V not in d and d['id'].shape == (per,), f'train batches have keys {sorted(d)}, {d["id"].shape}')
        mine.update(int(x) for x in d['id'])
        ctx.event('train_example_seen', per)
      ctx.check(set(mine) <= everything, f'train data contains {sorted(set(mine) - everything)[:5]}')
      lim = -(-(steps * per + buffer) // max(own - 1, 1)) + 1
      ctx.check(max(mine.values()) <= lim, f'an example was repeated {max(mine.values())} times in {steps * per} draws of about {own} examples')
      if buffer == 1 and len(mine) < own - 1:
        ctx.check(False, f'only {len(mine)} of {own} examples were used in three epochs')
      seen.append(set(mine))
    for p in range(count):
      for q in range(p):
        ctx.check(not seen[p] & seen[q], f'processes {q} and {p} train with the same examples {sorted(seen[p] & seen[q])[:5]}')
    if buffer == 1:
      ctx.check(set().union(*seen) == everything, f'examples never used for training: {sorted(everything - set().union(*seen))[:5]}')
    ctx.event('train_config')

  def marked_case(ctx, rng, i):
    # Marks made by the preprocessing (e.g. examples without labels) are kept; several datasets of one configuration.
    from vmoe.data import pp_ops
    pp_ops.mark_by_id = lambda m: lambda d: d | {V: d['id'] % m != 0}
    config, want = {}, {}
    for variant in ['val', 'test', 'train_eval'][:1 + int(rng.integers(3))]:
      name, a, b = names[rng.integers(1, len(names))]
      m = int(rng.integers(2, 4))
      split = ['train', 'test'][rng.integers(2)]
      config[variant] = dict(name=name, split=split, batch_size=int(rng.integers(1, 9)), process=f'{PROCESS[:-1]}, "{V}")|mark_by_id({m})',
                             prefetch_device=int(rng.integers(3)), data_dir=ctx.scratch)
      want[variant] = (toyds.ids_of(name, split), m)
    T.update(index=0, count=1, devices=1)
    data = input_pipeline.get_datasets(ml_collections.ConfigDict(config))
    ctx.check(set(data) == set(config), f'datasets {sorted(data)} instead of {sorted(config)}')
    for variant, (ids, m) in want.items():
      got = [(int(k), bool(v)) for d in consume(data[variant]) for k, v in zip(d['id'], d[V])]
      ctx.check(sorted(x for x in got if x[0]) == sorted((k, k % m != 0) for k in ids), f'{config[variant]}: examples or their marks were altered')
      ctx.check(not any(v for k, v in got if not k), f'{config[variant]}: fake examples are marked as valid')
      ctx.event('marked', len(ids))
    ctx.distinct_case('marked', str(config))

  def dirs_case(ctx, rng, i):
    # Datasets of the same name in two directories are different datasets.
    toyds.TOPOLOGY.update(index=0, count=1, devices=1)
    want = {}
    for j in range(2):
      d = os.path.join(ctx.scratch, f'dir{i}_{j}')
      n, offset = int(rng.integers(3, 9)), 1 + 100 * j
      toyds.make(f'dup{i}', {'train': n}, d, num_shards=1, offset=offset)
      want[d] = list(range(offset, offset + n))
    for d in sorted(want, reverse=bool(rng.integers(2))):
      kw = dict(name=f'dup{i}', split='train', data_dir=d)
      batches = consume(input_pipeline.get_dataset(variant='test', batch_size=2, process=PROCESS, **kw))
      ids = sorted(int(x) for b in batches for x, ok in zip(b['id'], b[V]) if ok)
      ctx.check(ids == want[d], f'the data in {os.path.basename(d)} is {want[d]}, but evaluation used {ids}')
      num = input_pipeline.get_data_num_examples(ml_collections.ConfigDict(dict(kw, batch_size=2, process=PROCESS)))
      ctx.check(num == len(want[d]), f'{len(want[d])} examples in {os.path.basename(d)}, counted {num}')
      ctx.event('data_dir_checked')
    ctx.distinct_case('dirs', str(want.values()))

  def rank_case(ctx, rng, i):
    name, a, b = names[1 + i % (len(names) - 1)]
    split = ['train', 'train+test', 'test', f'train[{a // 3}:]'][i % 4]
    batch = jax.device_count() * (1 + i % 3)
    batches = consume(input_pipeline.get_dataset(variant='test', name=name, split=split, batch_size=batch, process=PROCESS, data_dir=ctx.scratch))
    ids = verify_batches(ctx, batches, batch // jax.process_count(), None, f'rank {spec["rank"]}')
    path = os.path.join(spec['shared_dir'], f'{i}_%d.json')
    with open(path % spec['rank'] + '.tmp', 'w') as fp:
      json.dump([len(batches), ids], fp)
    os.replace(path % spec['rank'] + '.tmp', path % spec['rank'])
    got, nums, t = [], [], time.time()
    for r in range(spec['procs']):
      while not os.path.exists(path % r) and time.time() - t < 120:
        time.sleep(0.05)
      with open(path % r) as fp:
        n, x = json.load(fp)
      nums.append(n)
      got += x
    ctx.check(sorted(got) == sorted(toyds.ids_of(name, split)), f'{name} {split}: real processes together do not yield each example once')
    ctx.check(len(set(nums)) == 1, f'real processes have different numbers of batches {nums}')
    ctx.event('real_multiprocess')
    ctx.distinct_case('ranks', name, split, batch)

  for i in range(spec['n']):
    if shared:
      ctx.run_case(f'r{i}', rank_case, i)
    else:
      ctx.run_case(f'{i}', case, i)
      if i % 4 == 0:
        ctx.run_case(f't{i}', train_case, i)
        ctx.run_case(f'm{i}', marked_case, i)
        ctx.run_case(f'd{i}', dirs_case, i)
