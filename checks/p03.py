"""P03: discovery of complete checkpoints on arbitrary directory contents."""
import os
import shutil

RULE = ('random directory contents: 0-8 steps (1 to 11 digits, so lexicographic and numeric order differ) x suffixes '
        '(none/.index/.data/.foo) x shard counts, with missing shards, missing suffixes, leftover temporary files of any '
        'suffix, and files of other prefixes that share a stem; every required-suffix set and both orders; removal with '
        'random predicates and pools; oracle is an independent model of the directory; distinct by directory content')
REQUIRED = {'discovery': 400, 'latest_found': 100, 'latest_none': 10, 'step_with_temp': 100,
            'step_with_missing_shard': 50, 'foreign_prefix_file': 100, 'file_removed': 100, 'file_kept': 100,
            'numeric_vs_lexicographic': 50, 'removal_failed': 100, 'interrupted_save': 40}


def specs(tier):
  n = 200 if tier == 'quick' else 6000
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(4)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  from multiprocessing.pool import ThreadPool
  from tensorflow.python.lib.io import file_io
  from vmoe.checkpoints import base
  pools = [ThreadPool(k) for k in (1, 4)]
  suffix_menu = ['', '.index', '.data', '.foo']

  def case(ctx, rng, i):
    d = os.path.join(ctx.scratch, f'd{i}', ['a', 'x_1', 'run_22.d'][rng.integers(3)])
    os.makedirs(d)
    stem = ['ckpt', 'checkpoint', 'model-v2', 'ck.pt', 'ckpt_3'][rng.integers(5)]
    prefix = os.path.join(d, stem)
    steps = {int(rng.integers(1, 10 ** int(rng.integers(1, 8) if rng.random() < 0.8 else rng.integers(8, 12)))) for _ in range(int(rng.integers(0, 8)))}
    if rng.random() < 0.3:
      steps.add(0)
    files, model = set(), {}
    shard_count = {s: (int(rng.integers(1, 5)) if rng.random() < 0.7 else 0) for s in suffix_menu}
    for step in steps:
      m = model[step] = dict(suffixes=set(), temp=False, missing=False)
      for s in suffix_menu:
        if rng.random() < 0.25:
          continue
        names = ([f'{stem}_{step}{s}'] if not shard_count[s] else
                 [f'{stem}_{step}{s}-{k:05d}-of-{shard_count[s]:05d}' for k in range(shard_count[s])])
        state = rng.random()
        if state < 0.15:      # a shard was being written
          k = rng.integers(len(names))
          files.add('.tmp.' + names[k])
          if rng.random() < 0.7:
            names.pop(k)
            m['missing'] |= bool(names)
          m['temp'] = True
        elif state < 0.3 and len(names) > 1:  # a shard was not started
          names.pop(rng.integers(len(names)))
          m['missing'] = True
        files.update(names)
        if names:
          m['suffixes'].add(s)
    for _ in range(int(rng.integers(0, 4))):   # other prefixes sharing a stem
      s = int(rng.integers(1, 10**7))
      files.add([f'{stem}_best_{s}.index', f'{stem}2_{s}.index', f'other_{s}.index',
                 f'.tmp.{stem}_best_{s}.index', f'{stem}_best_{s}', f'.tmp.other_{s}',
                 f'{stem}x', f'{stem}_best.index'][rng.integers(8)])
      ctx.event('foreign_prefix_file')
    for f in files:
      open(os.path.join(d, f), 'w').close()
    ctx.event('step_with_temp', sum(m['temp'] for m in model.values()))
    ctx.event('step_with_missing_shard', sum(m['missing'] for m in model.values()))
    if sorted(map(str, steps)) != list(map(str, sorted(steps))):
      ctx.event('numeric_vs_lexicographic')
    for _ in range(3):
      k = int(rng.integers(0, 4))
      req = list(rng.permutation(['.index', '.data', '.foo'])[:k]) if k else [None, []][rng.integers(2)]
      need = set(map(str, req)) if req else {''}
      want = sorted(s for s, m in model.items()
                    if not m['temp'] and not m['missing'] and need <= m['suffixes'])
      for decreasing in (False, True):
        got = list(base.iterate_complete_steps_for_prefix(prefix, suffixes=req, decreasing=decreasing))
        ctx.event('discovery')
        exp = want[::-1] if decreasing else want
        ctx.check(got == exp, lambda: f'directory {sorted(files)} prefix {stem!r} suffixes {req} decreasing='
                  f'{decreasing}: complete steps {got}, expected {exp}')
      got = base.find_latest_complete_checkpoint_for_prefix(prefix, suffixes=req)
      exp = f'{prefix}_{want[-1]}' if want else None
      ctx.event('latest_found' if want else 'latest_none')
      ctx.check(got == exp, lambda: f'directory {sorted(files)} suffixes {req}: latest {got}, expected {exp}')
    # Shard suffixes are added and removed losslessly.
    for f in files:
      p = os.path.join(d, f.split('-0')[0])
      c = int(rng.integers(1, 99999))
      k = int(rng.integers(c))
      full = base.add_shard_suffix(p, k, c)
      ctx.check(base.remove_shard_suffix(full) == p and base.remove_shard_suffix(p) == p,
                f'shard suffix of {full} is not removed exactly')
      ctx.check(full not in {base.add_shard_suffix(p, (k + 1) % c, c)} or c == 1, 'shard names collide')
    # Removal removes exactly the selected files.
    paths = [os.path.join(d, f) for f in sorted(files)]
    given = [p for p in paths if rng.random() < 0.8]
    doomed = {p for p in paths if rng.random() < 0.5}
    asked = []
    pool = [None, *pools][rng.integers(3)]
    base.remove_checkpoints(iter(given) if rng.random() < .5 else given,
                            lambda p: asked.append(p) or p in doomed, thread_pool=pool)
    left = {os.path.join(d, f) for f in os.listdir(d)}
    gone = set(paths) - left
    exp_gone = set(given) & doomed
    ctx.event('file_removed', len(gone))
    ctx.event('file_kept', len(left))
    ctx.check(gone == exp_gone, lambda: f'removed {sorted(gone)}, expected {sorted(exp_gone)}')
    # A selected file that cannot be removed is not passed over in silence.
    stuck = os.path.join(d, 'stuck')
    os.makedirs(os.path.join(stuck, 'x'))
    try:
      base.remove_checkpoints([*sorted(left), stuck], lambda p: p == stuck, thread_pool=pool)
      reported = False
    except Exception:  # pylint: disable=broad-except
      reported = True
    ctx.check(reported or not os.path.exists(stuck), 'a selected file was not removed, and nobody was told')
    ctx.event('removal_failed')
    ctx.distinct_case(tuple(sorted(files)), stem)
    ctx.sample(dict(prefix=stem, files=sorted(files)[:8], steps=sorted(steps)))
    shutil.rmtree(os.path.join(ctx.scratch, f'd{i}'))

  def in_progress(ctx, rng, i):
    # The directory as a crash in the middle of a real save (over an older version of the step, or not) leaves it.
    d = os.path.join(ctx.scratch, f'p{i}')
    os.makedirs(d)
    prefix = os.path.join(d, 'ckpt')
    step = int(rng.integers(1, 10**6))
    names = [f'{prefix}_{step}.index'] + [
        base.add_shard_suffix(f'{prefix}_{step}.data', k, 2) for k in range(2)]
    tree = lambda: {'x': rng.normal(size=int(rng.integers(1, 30)))}
    older = f'{prefix}_{step - 1}.index'
    base.save_checkpoint(older, tree())
    existed = bool(rng.random() < 0.7)
    victim = names[int(rng.integers(3))]
    for n in names:
      if existed or n != victim:
        base.save_checkpoint(n, tree())
    images = []
    orig = file_io.FileIO.write

    def write(fio, data):
      half = len(data) // 2
      orig(fio, data[:half])
      fio.flush()
      img = os.path.join(ctx.scratch, f'p{i}i{len(images)}')
      shutil.copytree(d, img)
      images.append(img)
      return orig(fio, data[half:])
    before = set(os.listdir(d))
    file_io.FileIO.write = write
    try:
      base.save_checkpoint(victim, tree(), overwrite=True)
    finally:
      file_io.FileIO.write = orig
    ctx.check(set(os.listdir(d)) == before | {os.path.basename(victim)}, 'a save leaves other files behind')
    for img in images:
      extra = set(os.listdir(img)) - before
      got = list(base.iterate_complete_steps_for_prefix(os.path.join(img, 'ckpt'), suffixes=['.index']))
      ctx.event('interrupted_save')
      if extra:
        ctx.check(got == [step - 1], lambda: f'{os.path.basename(victim)} was being written ({sorted(extra)}), but '
                  f'complete steps are {got}, expected {[step - 1]}')
      shutil.rmtree(img)
    want = [step - 1, step]
    got = list(base.iterate_complete_steps_for_prefix(prefix, suffixes=['.index']))
    ctx.check(got == want, f'after the save: complete steps {got}, expected {want}')
    shutil.rmtree(d)

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
    if i % 5 == 0:
      ctx.run_case(f'progress{i}', in_progress, i)
