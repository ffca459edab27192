"""P18: parameter partitioning rules select, for each leaf, the first matching rule."""

RULE = ('random trees (dicts, FrozenDicts, lists, tuples, dataclasses, empty nodes, full TrainStates with optimizer state) with '
        'scalar, size-one, empty and large leaves, and random ordered lists of regexes (anchored, partial, overlapping, alternatives) '
        'with string/tuple/nested/None specs; oracle: independent path computation and first-match; distinct by (paths, rules)')
REQUIRED = {'leaf_checked': 1500, 'leaf_partitioned': 200, 'first_of_several': 50, 'scalar_unpartitioned': 50, 'train_state': 10,
            'structure_checked': 100, 'spec_parsed': 60, 'no_mesh_identity': 10, 'constrained': 8}


def specs(tier):
  n = 60 if tier == 'quick' else 1500
  return [dict(name=f'w{j}', devices=4, n=n) for j in range(4)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import re
  from typing import Any
  import flax
  import jax
  import jax.numpy as jnp
  import numpy as np
  import optax
  from vmoe import partitioning
  from vmoe.train import train_state
  PS = jax.sharding.PartitionSpec

  @flax.struct.dataclass
  class Box:
    alpha: Any
    beta: Any

  words = ['moe', 'Mlp', 'kernel', 'bias', 'encoderblock_1', 'encoderblock_11', 'Router', 'dense', 'x', 'moe2', 'a']

  def leaf(rng):
    shape = [(), (1,), (1, 1), (4,), (4, 2), (2, 4, 4), (0, 4), (8, 1)][rng.integers(8)]
    k = rng.integers(3)
    if k == 0:
      return np.zeros(shape, np.float32)
    if k == 1:
      return jax.ShapeDtypeStruct(shape, jnp.float32)
    return jnp.zeros(shape)

  def tree(rng, depth):
    if depth == 0 or rng.random() < 0.2:
      return leaf(rng)
    n = int(rng.integers(1, 4))
    k = rng.integers(6)
    kids = [tree(rng, depth - 1) for _ in range(n)]
    if k <= 2:
      return {w: c for w, c in zip(rng.choice(words, size=n, replace=False).tolist(), kids)} if rng.random() > .05 else {}
    if k == 3:
      return [*kids] if rng.random() < .5 else tuple(kids)
    if k == 4:
      return Box(alpha=kids[0], beta=tree(rng, depth - 1))
    return flax.core.freeze({w: c for w, c in zip(rng.choice(words, size=n, replace=False).tolist(), kids)})

  def path_str(path):
    return '/'.join(str(getattr(p, 'key', getattr(p, 'name', getattr(p, 'idx', None)))) for p in path)

  def rules(rng):
    out = []
    for _ in range(int(rng.integers(0, 5))):
      a, b = rng.choice(words, size=2).tolist()
      regex = [a, f'{a}/.*{b}', f'^{a}', f'{b}$', f'/{a}/', f'({a}|{b})', '.*', f'(?i){a.upper()}', f'{a}/{b}$'][rng.integers(9)]
      sp = ['expert', ('expert',), (None, 'replica'), (('expert', 'replica'),), None, (), ('expert', None, 'replica'), PS('replica')][rng.integers(8)]
      out.append((regex, sp))
    return out

  def parse(sp):
    if isinstance(sp, PS):
      return sp
    if not sp:
      return PS()
    return PS(sp) if isinstance(sp, str) else PS(*sp)

  def compare(t, rs, info):
    got = partitioning.tree_axis_resources_from_regexes(tree=t, axis_resources_regexes=rs)
    is_ps = lambda x: isinstance(x, PS)
    want_struct = jax.tree_util.tree_structure(t)
    leaves, struct = jax.tree_util.tree_flatten(got, is_leaf=is_ps)
    ctx.check(struct == want_struct, f'{info}: structure changed from {want_struct} to {struct}')
    ctx.event('structure_checked')
    for (path, value), ps in zip(jax.tree_util.tree_flatten_with_path(t)[0], leaves):
      key = path_str(path)
      matches = [parse(sp) for regex, sp in rs if re.search(regex, key)]
      size = int(np.prod(value.shape))
      want = matches[0] if matches and size > 1 else PS()
      ctx.check(ps == want, f'{info}: {key} with shape {value.shape} gets {ps}, expected {want} from rules {rs}')
      ctx.event('leaf_checked')
      if want != PS():
        ctx.event('leaf_partitioned')
      if size > 1 and len(set(map(str, matches))) > 1:
        ctx.event('first_of_several')
      if size <= 1 and matches and matches[0] != PS():
        ctx.event('scalar_unpartitioned')
    ctx.distinct_case(str(want_struct), str(rs))

  def case(ctx, rng, i):
    t = {w: tree(rng, 3) for w in rng.choice(words, size=3, replace=False).tolist()}
    rs = rules(rng)
    compare(t, rs, 'random tree')
    ctx.sample(dict(rules=str(rs)))
    for _ in range(2):
      sp = ['expert', ('expert',), (None, 'replica'), (('expert', 'replica'), None), None, (), '', PS('a'), ['expert', None]][rng.integers(9)]
      ctx.check(partitioning.parse_partition_spec(sp) == parse(sp) and isinstance(partitioning.parse_partition_spec(sp), PS),
                f'{sp!r} parsed as {partitioning.parse_partition_spec(sp)}')
      ctx.event('spec_parsed')
    if i % 3 == 0:
      params = {'Moe': {'Mlp': {'kernel': jnp.ones((4, 2)), 'bias': jnp.ones((4,))}, 'Router': {'dense': {'kernel': jnp.ones((2, 4))}}},
                'head': {'kernel': jnp.ones((2, 3)), 'bias': jnp.ones((1,))}}
      tx = [optax.adam(1e-3), optax.chain(optax.clip(1.0), optax.sgd(0.1, momentum=0.9)), optax.adafactor(1e-3, min_dim_size_to_factor=2)][rng.integers(3)]
      st = jax.eval_shape(lambda: train_state.TrainState.create(apply_fn=lambda: 0, params=params, tx=tx, rngs={'dropout': jax.random.PRNGKey(0)}))
      rs = [[('Moe/Mlp/.*$', ('expert',))], [('opt_state.*kernel', ('replica',)), ('kernel', ('expert',))],
            [('^params/.*', ('expert',)), ('rngs', 'replica')]][rng.integers(3)]
      compare(st, rs, 'train state')
      ctx.event('train_state')
    if i % 5 == 0:
      x = {'a': jnp.arange(8.), 'b': jnp.ones((4, 4))}
      ctx.check(partitioning.with_sharding_constraint(x, PS('expert')) is x, 'without a mesh the constraint is not the identity')
      ctx.event('no_mesh_identity')
      mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(2, 2), ('expert', 'replica'))
      with mesh:
        y = jax.jit(lambda v: partitioning.with_sharding_constraint(v, PS('expert')))(x)
        ctx.check(partitioning.with_sharding_constraint(x, None) is x, 'no specification is not the identity')
        z = jax.jit(lambda v: partitioning.with_sharding_constraint(v, PS()) + 0)(y['a'])
      ctx.check(z.sharding.is_fully_replicated, 'an empty specification does not replicate')
      for k, v in x.items():
        ctx.check(np.array_equal(v, y[k]), 'constraining changed the values')
        ctx.check(y[k].sharding.is_equivalent_to(jax.sharding.NamedSharding(mesh, PS('expert')), v.ndim), 'constraint ignored')
      ctx.event('constrained')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
