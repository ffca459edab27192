"""P11: the sparse mixture layer equals running each expert, with its own parameters, on its own items."""

RULE = ('random expert modules (one or two inputs, pytrees of outputs, auxiliary outputs, dropout-like random draws, '
        'batch statistics, parameter axis 0 or 1) lifted to E experts under einsum/indices dispatchers; oracle: Python loop over '
        'experts with sliced variables; on 8-device meshes with sharded parameters against the unsharded result, forward and '
        'gradients; distinct by (module kind, E, G, dispatcher, mesh)')
REQUIRED = {'layer_compared': 8, 'expert_applied': 60, 'distinct_init': 15, 'distributed_compared': 2, 'gradient_compared': 2,
            'aux_compared': 2, 'rng_split_checked': 8, 'axis_metadata': 4}


def specs(tier):
  n = 8 if tier == 'quick' else 200
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(5)] + [
      dict(name=f'mesh{j}', devices=8, n=4 if tier == 'quick' else 80, mesh=True) for j in range(3)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import flax.linen as nn
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmoe import moe
  NS, PS = jax.sharding.NamedSharding, jax.sharding.PartitionSpec

  class Mlp(nn.Module):
    two: bool = False
    aux: bool = False
    tree: bool = False
    draw: bool = False
    stats: bool = False

    @nn.compact
    def __call__(self, x, z=None):
      y = nn.Dense(6, name='in', bias_init=nn.initializers.normal())(x)
      y = jnp.tanh(y)
      if z is not None:
        y = y * nn.Dense(6, name='z')(z)
      y = nn.Dense(4, name='out')(y)
      if self.draw:
        y = y + jax.random.normal(self.make_rng('dropout'), y.shape[-1:])
      if self.stats:
        s = self.variable('stats', 'mean', lambda: jnp.zeros((4,)))
        s.value = y.mean(axis=0) + s.value
      out = {'a': y, 'b': 2 * x} if self.tree else y
      return (out, {'norm': (y**2).sum(), 'rows': y[:, 0]}) if self.aux else out

  def make_dispatcher(rng, name, g, s, e, k, pspec=None):
    gates = np.exp(rng.standard_normal((g, s, e)) * 2)
    gates = (gates / gates.sum(-1, keepdims=True)).astype(np.float32)
    return gates, lambda gt: jax.vmap(lambda q: moe.get_top_experts_per_item_dispatcher(
        q, name, k, False, capacity_factor=1.0, partition_spec=pspec))(gt)

  def take(tree, axis, x):
    return jax.tree_util.tree_map(lambda v: jnp.take(v, x, axis=axis), tree)

  def case(ctx, rng, i):
    e = int(rng.choice([2, 3, 4])) if not spec.get('mesh') else int(rng.choice([8, 4]))
    g, s, k = int(rng.choice([1, 2, 4, e])), int(rng.choice([4, 6])), int(rng.integers(1, 3))
    kind = dict(two=bool(rng.random() < .3), aux=bool(rng.random() < .4), tree=bool(rng.random() < .4),
                draw=bool(rng.random() < .5), stats=bool(rng.random() < .3))
    axis = 1 if rng.random() < 0.2 else 0
    if spec.get('mesh'):
      kind['draw'], axis = False, 0
    name = ['einsum', 'indices'][rng.integers(2)]
    split = bool(rng.random() < 0.6)
    gates, mk = make_dispatcher(rng, name, g, s, e, k)
    disp = mk(gates)
    layer_cls = moe.sparse_moe_spmd(Mlp, variable_axes={'params': axis, 'stats': 0},
                                    split_rngs={'params': True, 'dropout': split}, has_aux=kind['aux'])
    layer = layer_cls(**kind)
    x = rng.standard_normal((g, s, 5)).astype(np.float32)
    args = (x, rng.standard_normal((g, s, 3)).astype(np.float32)) if kind['two'] else (x,)
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    rngs = {'params': key, 'dropout': jax.random.fold_in(key, 1)}
    variables = jax.jit(layer.init)(rngs, disp, *args)
    kernel = np.asarray(variables['params']['in']['kernel'])
    ctx.check(kernel.shape[axis] == e, f'parameters have shape {kernel.shape}; expected {e} experts on axis {axis}')
    ks = np.moveaxis(kernel, axis, 0)
    ctx.check(all(not np.allclose(ks[a], ks[b]) for a in range(e) for b in range(a)),
              'different experts were initialised with the same parameters')
    ctx.event('distinct_init')
    variables = jax.tree_util.tree_map(
        lambda v: jnp.asarray(v + 0.3 * rng.standard_normal(v.shape).astype(np.float32)), dict(variables))
    out, new_vars = jax.jit(lambda v, d, *a: layer.apply(
        v, d, *a, rngs={'dropout': rngs['dropout']}, mutable=['stats']))(variables, disp, *args)
    info = f'{kind} axis={axis} E={e} G={g} {name}'
    # Loop over experts.
    bufs = [disp.dispatch(jnp.asarray(a)) for a in args]
    expert = Mlp(**kind)
    ref_out, ref_aux, ref_stats = [], [], []
    no_draw = not kind['draw']
    for x_ in range(e):
      v = {'params': take(variables['params'], axis, x_)}
      if 'stats' in variables:
        v['stats'] = take(variables['stats'], 0, x_)
      (o, nv) = expert.clone(draw=False).apply(v, *[b[x_] for b in bufs], mutable=['stats'])
      if kind['aux']:
        o, a = o
        ref_aux.append(a)
      ref_out.append(o)
      ref_stats.append(nv)
      ctx.event('expert_applied')
    stack = lambda ts: jax.tree_util.tree_map(lambda *q: jnp.stack(q), *ts)
    got = out[0] if kind['aux'] else out
    if no_draw:
      want = jax.tree_util.tree_map(disp.combine, stack(ref_out))
      for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
        ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-5),
                  lambda: f'{info}: the layer output differs from applying each expert to its items, max error '
                  f'{np.abs(np.asarray(a) - np.asarray(b)).max()}')
      if kind['aux']:
        for a, b in zip(jax.tree_util.tree_leaves(out[1]), jax.tree_util.tree_leaves(stack(ref_aux))):
          ctx.check(np.allclose(a, b, rtol=1e-4, atol=1e-5), f'{info}: auxiliary outputs are not those of each expert')
        ctx.event('aux_compared')
      if kind['stats']:
        for a, b in zip(jax.tree_util.tree_leaves(new_vars['stats']),
                        jax.tree_util.tree_leaves(stack([n['stats'] for n in ref_stats]))):
          ctx.check(np.allclose(a, b, rtol=1e-4, atol=1e-5), f'{info}: expert state was not kept per expert')
      ctx.event('layer_compared')
    else:
      # The draws of different experts differ iff the stream is split: recover them with zero parameters.
      zero = jax.tree_util.tree_map(jnp.zeros_like, variables)
      eye = moe.get_dense_einsum_dispatcher(jnp.asarray(np.tile(np.eye(e, dtype=np.float32)[None], (1, 1, 1))))
      z_args = tuple(jnp.zeros((1, e) + a.shape[2:]) for a in args)
      o = layer.apply(zero, eye, *z_args, rngs={'dropout': rngs['dropout']}, mutable=['stats'])[0]
      o = o[0] if kind['aux'] else o
      o = np.asarray(o['a'] if kind['tree'] else o)[0]  # row x: draw of expert x
      same = [np.allclose(o[a], o[b]) for a in range(e) for b in range(a)]
      ctx.check(not any(same) if split else all(same), f'{info}: random draws across experts with split={split}: equal={same}')
      ctx.event('rng_split_checked')
    # Distribution over devices does not change the result.
    if spec.get('mesh') and no_draw and axis == 0:
      shape = [(8,), (4, 2)][rng.integers(2)]
      mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(shape), ('expert', 'replica')[:len(shape)])
      _, mk2 = make_dispatcher(rng, name, g, s, e, k, PS('expert'))
      spec_p = PS('expert') if e % mesh.shape['expert'] == 0 else PS()
      sharded = jax.tree_util.tree_map(lambda v: jax.device_put(v, NS(mesh, spec_p)), variables['params'])
      others = {k_: v for k_, v in variables.items() if k_ != 'params'}

      def loss(mk_):
        def f(p, gt, a):
          o, _ = layer.apply({'params': p, **others}, mk_(gt), *a, mutable=['stats'])
          o = o[0] if kind['aux'] else o
          o = jax.tree_util.tree_leaves(o)
          return sum(jnp.sum(jnp.sin(q)) for q in o), o
        return jax.jit(jax.value_and_grad(f, argnums=(0, 1), has_aux=True))
      (l1, o1), g1 = loss(mk)(variables['params'], gates, args)
      in_sh = jax.tree_util.tree_map(
          lambda a: jax.device_put(a, NS(mesh, PS('expert') if a.shape[0] % mesh.shape['expert'] == 0 else PS())), args)
      gates_sh = jax.device_put(gates, NS(mesh, PS()))
      with mesh:
        (l2, o2), g2 = loss(mk2)(sharded, gates_sh, in_sh)
      for a, b in zip(jax.tree_util.tree_leaves((l1, o1)), jax.tree_util.tree_leaves((l2, o2))):
        ctx.check(np.allclose(a, b, rtol=1e-4, atol=1e-4), f'{info}: result on mesh {dict(mesh.shape)} differs from one device')
      ctx.event('distributed_compared')
      for a, b in zip(jax.tree_util.tree_leaves(g1), jax.tree_util.tree_leaves(g2)):
        ctx.check(np.allclose(a, b, rtol=1e-3, atol=1e-4), f'{info}: gradients on mesh {dict(mesh.shape)} differ')
      ctx.event('gradient_compared')
    if i % 3 == 0:
      # Gradients of an expert only depend on its own items.
      if no_draw and axis == 0:
        def only(p, x_):
          return jnp.sum(jnp.sin(jax.tree_util.tree_leaves(expert.clone(draw=False).apply(
              {'params': take(p, 0, x_), **({'stats': take(variables['stats'], 0, x_)} if 'stats' in variables else {})},
              *[b[x_] for b in bufs], mutable=['stats'])[0])[0]))
        gr = jax.grad(only)(variables['params'], 0)
        ctx.check(all(np.all(np.asarray(v)[1:] == 0) for v in jax.tree_util.tree_leaves(gr)), 'harness')
      # Named axes metadata.
      from flax.linen import partitioning as fp
      class Named(nn.Module):
        @nn.compact
        def __call__(self, x):
          w = fp.param_with_axes('w', nn.initializers.normal(), (x.shape[-1], 3), axes=('embed', 'mlp'))
          c = fp.variable_with_axes('cache', 'c', jnp.ones, (3, 2), axes=('mlp', 'two'))
          return (x @ w) * c.value[:, 0]
      ax_p, ax_c = int(rng.integers(0, 3)), int(rng.integers(0, 3))
      named = {'params': 'expert', 'cache': 'expert_c'}
      if rng.random() < 0.5:
        named = dict(reversed(list(named.items())))
      lay = moe.sparse_moe_spmd_with_axes(Named, variable_axes={'params': ax_p, 'cache': ax_c}, split_rngs={'params': True},
                                          partitioning_axis_names=named)()
      v = lay.init({'params': key}, disp, x)
      for col, leaf, base, shp, ax, tag in (('params', 'w', ['embed', 'mlp'], [5, 3], ax_p, 'expert'),
                                            ('cache', 'c', ['mlp', 'two'], [3, 2], ax_c, 'expert_c')):
        names = jax.tree_util.tree_leaves(v[col + '_axes'], is_leaf=lambda q: hasattr(q, 'names'))
        base.insert(ax, tag)
        shp.insert(ax, e)
        ctx.check(tuple(names[0].names) == tuple(base) and v[col][leaf].shape == tuple(shp),
                  lambda: f'axis names {names} for {col} of shape {v[col][leaf].shape}, expected {base}')
      ctx.event('axis_metadata')
    ctx.distinct_case(str(kind), e, g, s, k, name, axis, spec['name'][:4])
    ctx.sample(dict(kind=str(kind), E=e, G=g, K=k, dispatcher=name))

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
