"""P30: a train state starts from the last checkpoint, else from the pretrained arrays selected by rules plus a fresh initialization."""

RULE = ('random models, optimizers, seeds, meshes over 1-8 devices and sharding rules; workdirs empty or with several steps saved on another mesh; '
        'pretrained checkpoints in the V-MoE (current and old), ViT and Orbax formats with rules leaving some parameters out; oracle: arrays '
        'written to disk by the harness, fresh unsharded initialization, first matching sharding rule; distinct by (source, mesh, rules, seed)')
REQUIRED = {'state_checked': 22, 'leaf_checked': 343, 'sharding_checked': 343, 'from_scratch': 2, 'from_workdir': 2, 'from_vmoe': 2, 'from_vmoe_old': 2, 'from_vit': 1, 'from_orbax': 1, 'reused': 8, 'reused_leaf': 40, 'pretrained_leaf': 11, 'sharded_leaf': 55, 'workdir_precedence': 1, 'seed_changes': 5, 'unknown_rejected': 1, 'misfit_rejected': 5, 'bfloat16': 1}


def specs(tier):
  n = 8 if tier == 'quick' else 120
  return [dict(name=f'w{j}', devices=[8, 1, 4, 2, 8][j], n=n) for j in range(5)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import os
  import re
  import shutil
  import flax
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vlib import tinymodel
  from vmoe import checkpoints
  from vmoe import initialization
  from vmoe.train import trainer

  n_dev = len(jax.devices())
  PS, NS = jax.sharding.PartitionSpec, jax.sharding.NamedSharding

  def flat(tree):
    return flax.traverse_util.flatten_dict(flax.serialization.to_state_dict(tree), sep='/')

  def random_mesh(rng):
    a = int(rng.choice([d for d in (1, 2, 4, 8) if n_dev % d == 0]))
    return jax.sharding.Mesh(np.array(jax.devices()).reshape(a, -1), ('expert', 'replica'))

  def write_pretrained(rng, kind, path, arrays, mesh):
    """Writes `arrays` (flat, '/') in the given format."""
    if kind in ('vmoe', 'vmoe_old'):
      put = lambda x: jax.device_put(x, NS(mesh, PS('expert') if x.ndim and x.shape[0] % mesh.shape['expert'] == 0 and rng.random() < 0.5 else PS()))
      tree = flax.traverse_util.unflatten_dict({k: put(v) for k, v in arrays.items()}, sep='/')
      checkpoints.save_checkpoint_partitioned(path, tree, num_shards=int(rng.integers(1, 4))).get()
      if kind == 'vmoe_old':
        index = checkpoints.restore_checkpoint(path + '.index')
        del index['version']
        checkpoints.save_checkpoint(path + '.index', index)
      return dict(name='initialize_from_vmoe', prefix=path)
    if kind == 'vit':
      view = {k: (v.view('V2') if v.dtype == jnp.bfloat16 else v) for k, v in arrays.items()}  # As NumPy reads bfloat16.
      np.savez(path + '.npz', **view)
      return dict(name='initialize_from_vit', filepath=path + '.npz')
    # Orbax: the format with an aggregate file.
    import orbax.checkpoint as ocp
    tree = flax.traverse_util.unflatten_dict({k: jax.device_put(v, NS(mesh, PS())) for k, v in arrays.items()}, sep='/')
    ocp.Checkpointer(ocp.PyTreeCheckpointHandler(use_ocdbt=False)).save(path, tree)
    for f in ('_METADATA', '_sharding', 'array_metadatas'):
      p = os.path.join(path, f)
      if os.path.isdir(p):
        shutil.rmtree(p)
      elif os.path.exists(p):
        os.remove(p)
    agg = flax.traverse_util.unflatten_dict({k: 'PLACEHOLDER://' + k.replace('/', '.') for k in arrays}, sep='/')
    with open(os.path.join(path, 'checkpoint'), 'wb') as fp:
      fp.write(flax.serialization.msgpack_serialize(agg))
    return dict(name='initialize_from_orbax', directory=path)

  def setup(rng):
    hidden, classes = int(rng.choice([8, 16])), int(rng.choice([3, 8]))
    opt = [dict(name='adam', learning_rate=0.01), dict(name='sgd', learning_rate=0.1, momentum=0.9), dict(name='adam', learning_rate=0.01, mu_dtype='bfloat16'),
           dict(name='sgd', learning_rate=0.1, momentum=0.9, accumulator_dtype='bfloat16')][rng.integers(4)]
    keys = ('dropout',) if rng.random() < 0.5 else ('dropout', 'mixup', 'gating')
    seed = int(rng.integers(1000))
    mesh = random_mesh(rng)
    inp = (jax.ShapeDtypeStruct((8, 2, 2, 3), jnp.float32, sharding=NS(mesh, PS(('expert', 'replica')))),)
    make = lambda s: trainer.make_create_train_state_fn(
        model=tinymodel.Tiny(num_classes=classes, hidden=hidden), optimizer_config=opt, input_shape_dtypes=inp, train_steps=10, seed=s, extra_rng_keys=keys)
    rules = []
    if rng.random() < 0.7:
      rules.append(('Mlp/kernel', (None, 'expert')))
    if rng.random() < 0.5:
      rules.append(('Mlp/bias', (('expert', 'replica'),)) if hidden % n_dev == 0 else ('Mlp/bias', ('replica',) if hidden % mesh.shape['replica'] == 0 else ()))
    rules.append(('params/head/kernel', ('expert',) if hidden % mesh.shape['expert'] == 0 else ()))
    rules.append(('Mlp/.*', ()))
    return make, seed, keys, mesh, rules, dict(hidden=hidden, classes=classes, opt=opt, keys=keys, seed=seed, mesh=dict(mesh.shape), rules=rules)

  def want_spec(rules, key):
    for pat, ax in rules:
      if re.search(pat, key):
        return PS(*ax)
    return PS()

  def expected_init(make, seed, mesh):
    with mesh:
      return {k: np.asarray(v) for k, v in flat(jax.jit(make(seed))()).items() if hasattr(v, 'shape')}

  def check_state(ctx, info, st, want, rules, mesh, exact=()):
    got = flat(st)
    ctx.check(set(k for k, v in got.items() if hasattr(v, 'shape')) == set(want), lambda: f'{info}: the state has {sorted(set(got) ^ set(want))} missing or more')
    for k, w in want.items():
      x = got[k]
      ctx.check(isinstance(x, jax.Array), f'{info}: {k} is a {type(x)}')
      ctx.check(x.shape == w.shape and x.dtype == w.dtype, f'{info}: {k} is {x.dtype}{x.shape}, expected {w.dtype}{w.shape}')
      y = np.asarray(x)
      same = np.array_equal(y, w) if (k in exact or w.dtype.kind in 'iu') else np.allclose(y.astype(np.float64), w.astype(np.float64), rtol=1e-5, atol=1e-6)
      ctx.check(same, lambda: f'{info}: {k} is {y.ravel()[:4]}, expected {w.ravel()[:4]}')  # pylint: disable=cell-var-from-loop
      ctx.event('leaf_checked')
      sp = want_spec(rules, k)
      ctx.check(x.sharding.is_equivalent_to(NS(mesh, sp), x.ndim), f'{info}: {k} has sharding {x.sharding}, expected {sp}')
      ctx.event('sharding_checked')
      if not x.is_fully_replicated:
        ctx.event('sharded_leaf')
    ctx.event('state_checked')

  def manager(path, every=1):
    return trainer.create_checkpoint_manager(workdir=path, every_steps=every)

  def case(ctx, rng, i):
    make, seed, keys, mesh, rules, info = setup(rng)
    base = os.path.join(ctx.scratch, f'c{i}')
    os.makedirs(base)
    kind = ['scratch', 'workdir', 'vmoe', 'vit', 'orbax', 'scratch', 'both', 'vmoe'][(i + spec['devices']) % 8]
    info = f'{kind} {info}'
    ctx.distinct_case(info)
    init = expected_init(make, seed, mesh)
    ctx.check('params' not in ' '.join(k for k in init if k.startswith('rngs/')), f'{info}: the rng of the parameters is kept')
    ctx.check({k for k in init if k.startswith('rngs/')} == {f'rngs/{k}' for k in keys}, f'{info}: rngs of the state {sorted(init)}')
    ctx.check(len({v.tobytes() for k, v in init.items() if k.startswith('rngs/')}) == len(keys), f'{info}: two rngs are equal')
    other = expected_init(make, seed + int(rng.choice([1, 256, 1000, 2**16, 10**6, 2**30])), mesh)
    ctx.check(not np.array_equal(init['params/Mlp/kernel'], other['params/Mlp/kernel']) and not np.array_equal(init['rngs/dropout'], other['rngs/dropout']), f'{info}: two seeds give the same state')
    ctx.event('seed_changes')
    kw = {}
    want = dict(init)
    exact = set()
    workdir = os.path.join(base, 'work')
    if kind in ('workdir', 'both'):
      # A few steps, saved on another mesh.
      mesh0 = random_mesh(rng)
      m = manager(workdir)
      steps = sorted(rng.choice(30, size=int(rng.integers(1, 4)), replace=False).tolist())
      with mesh0:
        st0 = jax.jit(make(seed + 5), out_shardings=NS(mesh0, PS()))()
      for s in steps:
        st = jax.tree.map(lambda x: jax.device_put((np.asarray(x) + s).astype(x.dtype), x.sharding), st0).replace(step=jnp.asarray(s, jnp.int32))  # pylint: disable=cell-var-from-loop
        m.save(s, items={'state': st, 'dataset_iterator': {'last_seen_index': 100 + s}})
      m.wait_until_finished()
      m.close()
      want = {k: np.asarray(v) for k, v in flat(st).items() if hasattr(v, 'shape')}
      exact = set(want)
    if kind != 'workdir' and kind != 'scratch':
      fmt = kind if kind != 'both' else 'vmoe'
      arrays, mapped = {}, {}
      for k in [q for q in init if q.startswith('params/')]:
        if rng.random() < 0.35:
          continue
        a = rng.normal(size=init[k].shape).astype(np.float32)
        if fmt == 'vit' and rng.random() < 0.6:
          a = a.astype(jnp.bfloat16)
          ctx.event('bfloat16')
        arrays['target/' + k[len('params/'):]] = a
        mapped[k] = a.astype(np.float32)
      arrays['unused/x'] = np.ones((3,), np.float32)
      mapping_rules = [('^target/(.*)$', r'params/\1'), ('^unused', None)]
      kw['initialization_kwargs'] = dict(write_pretrained(rng, fmt, os.path.join(base, 'pre'), arrays, random_mesh(rng)), rules=mapping_rules, raise_if_target_unmatched=False)
      if rng.random() < 0.4:
        kw['initialization_kwargs']['axis_resources_regexes'] = [('Mlp/kernel', (None, 'expert'))]
      if kind != 'both':
        want.update(mapped)
        exact = set(mapped)
        ctx.event('from_' + kind)
        ctx.event('pretrained_leaf', len(mapped))
      else:
        ctx.event('workdir_precedence')
    m = manager(workdir)
    with mesh:
      got, idx = trainer.restore_or_create_train_state(ckpt_manager=m, initialize_fn=make(seed), axis_resources_regexes=rules, mesh=mesh, **kw)
    m.close()
    if kind in ('workdir', 'both'):
      ctx.check(idx == 100 + steps[-1] and int(got.step) == steps[-1], f'{info}: restored step {int(got.step)}, index {idx} with checkpoints {steps}')
      ctx.event('from_workdir')
    else:
      ctx.check(idx is None and int(got.step) == 0, f'{info}: step {int(got.step)}, index {idx} without checkpoints')
    if kind == 'scratch':
      ctx.event('from_scratch')
    check_state(ctx, info, got, want, rules, mesh, exact)
    shutil.rmtree(base, ignore_errors=True)

  def reuse(ctx, rng, i):
    make, seed, _, mesh, rules, info = setup(rng)
    info = f'reuse {info}'
    ctx.distinct_case(info)
    init = expected_init(make, seed, mesh)
    struct = jax.eval_shape(make(seed))
    want = dict(init)
    leaves, treedef = jax.tree_util.tree_flatten_with_path(struct)
    names = [k for k, v in flat(struct).items() if hasattr(v, 'shape')]
    given = {}
    for k in names:
      if rng.random() < 0.5:
        dt = init[k].dtype
        given[k] = (rng.normal(size=init[k].shape) * 10).astype(dt)
    def leaf(path, x):
      k = next(n for n in names if flat_path(path) == n)
      sh = NS(mesh, want_spec(rules, k))
      if k in given:
        return jax.device_put(given[k], sh)
      return jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=sh)
    # Names of the leaves by flattening a state with its own names.
    idx_tree = jax.tree_util.tree_unflatten(treedef, [np.full((), j) for j in range(len(leaves))])
    by_index = {int(v): k for k, v in flat(idx_tree).items() if hasattr(v, 'shape')}
    flat_path = lambda p: by_index[p]
    tree = jax.tree_util.tree_unflatten(treedef, [leaf(j, x) for j, (_, x) in enumerate(leaves)])
    st = trainer.create_or_reuse_train_state(train_state=tree, initialize_fn=make(seed), mesh=mesh)
    want.update(given)
    check_state(ctx, info, st, want, rules, mesh, exact=set(given))
    ctx.event('reused')
    ctx.event('reused_leaf', len(given))
    ctx.check(st.apply_fn is not None and st.tx is not None, f'{info}: functions were lost')

  def old(ctx, rng, i):
    # Checkpoints without version: the structure must be that of the target.
    mesh = random_mesh(rng)
    arrays = {k: rng.normal(size=(8, 2 + j)).astype(np.float32) for j, k in enumerate(['b/kernel', 'a/x', 'a/deep/y', 'c10', 'c9'][:int(rng.integers(2, 6))])}
    path = os.path.join(ctx.scratch, f'old{i}')
    kw = write_pretrained(rng, 'vmoe_old', path, arrays, random_mesh(rng))
    kw.pop('name')
    rules = [('b/kernel', ('expert',)), ('a/', (('expert', 'replica'),))]
    target = lambda keys: flax.traverse_util.unflatten_dict({k: jax.ShapeDtypeStruct(arrays[k].shape, np.float32, sharding=NS(mesh, want_spec(rules, k))) for k in keys}, sep='/')
    with mesh:
      out = initialization.initialize_from_vmoe(target=target(arrays), mesh=mesh, rules=[('^(.*)$', r'\1')], **kw)
    check_state(ctx, f'old checkpoint {sorted(arrays)}', out, arrays, rules, mesh, exact=set(arrays))
    ctx.event('from_vmoe_old')
    ok = False
    try:
      with mesh:
        initialization.initialize_from_vmoe(target=target(sorted(arrays)[1:]), mesh=mesh, rules=[('^(.*)$', r'\1')], raise_if_source_unmatched=False, **kw)
    except (ValueError, KeyError):
      ok = True
    ctx.check(ok, 'an old checkpoint with another structure was accepted')

  def unknown(ctx, rng):
    make, seed, _, mesh, rules, _ = setup(rng)
    m = manager(os.path.join(ctx.scratch, 'unknown'))
    ok = False
    try:
      with mesh:
        trainer.restore_or_create_train_state(ckpt_manager=m, initialize_fn=make(seed), axis_resources_regexes=rules, mesh=mesh, initialization_kwargs=dict(name='initialize_from_nowhere'))
    except ValueError:
      ok = True
    m.close()
    ctx.check(ok, 'an unknown initialization was accepted')
    ctx.event('unknown_rejected')

  def mismatch(ctx, rng, i):
    # Pretrained arrays which do not fit are an error, they are not cut, repeated or left out.
    make, seed, _, mesh, rules, info = setup(rng)
    base = os.path.join(ctx.scratch, f'mm{i}')
    os.makedirs(base)
    init = {k: v for k, v in expected_init(make, seed, mesh).items() if k.startswith('params/')}
    fmt = ['vmoe', 'vit', 'orbax'][int(rng.integers(3))]
    arrays = {'target/' + k[len('params/'):]: np.asarray(rng.normal(size=v.shape), np.float32) for k, v in init.items()}
    key = str(rng.choice(sorted(arrays)))
    a = arrays[key]
    kind = ['longer', 'shorter', 'one', 'name', 'missing', 'fits'][int(rng.integers(6))]
    if kind == 'longer':
      arrays[key] = np.concatenate([a, a], -1)
    elif kind == 'shorter':
      arrays[key] = a[..., :-1]
    elif kind == 'one':
      arrays[key] = a[..., :1]
    elif kind == 'name':
      arrays[key + '_x'] = arrays.pop(key)
    elif kind == 'missing':
      arrays.pop(key)
    kw = dict(write_pretrained(rng, fmt, os.path.join(base, 'pre'), arrays, mesh), rules=[('^target/(.*)$', r'params/\1'), ('^(step|rngs|opt_state)', None)])
    kw['raise_if_target_unmatched'] = False
    if kind == 'missing':
      kw.pop('raise_if_target_unmatched')
    m = manager(os.path.join(base, 'work'))
    ok = False
    try:
      with mesh:
        trainer.restore_or_create_train_state(ckpt_manager=m, initialize_fn=make(seed), axis_resources_regexes=rules, mesh=mesh, initialization_kwargs=kw)
    except Exception:  # pylint: disable=broad-except
      if kind == 'fits':
        raise
      ok = True
    m.close()
    ctx.check(ok or kind == 'fits', f'{fmt} {info}: a pretrained {key} of shape {a.shape} was accepted although it does not fit ({kind})')
    ctx.event('misfit_rejected')
    shutil.rmtree(base, ignore_errors=True)

  for i in range(spec['n']):
    ctx.run_case(f'c{i}', case, i)
    ctx.run_case(f'r{i}', reuse, i)
    if i % 2:
      ctx.run_case(f'm{i}', mismatch, i)
  for i in range(max(2, spec['n'] // 8)):
    ctx.run_case(f'old{i}', old, i)
  ctx.run_case('unknown', unknown)
