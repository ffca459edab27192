"""P16: the V-MoE classifier computes the documented network, independently of batch composition."""

RULE = ('random architectures (depth, heads, q/k normalisation, MoE layer subsets, router options, position embeddings, classifier '
        'type, representation size, head) and images with random parameters; oracle: independent NumPy forward pass including '
        'greedy routing; single-image groups give batch-independent predictions; dropout only when not deterministic; '
        'auxiliary loss is the sum over MoE blocks; distinct by architecture')
REQUIRED = {'forward_compared': 8, 'moe_block': 8, 'dense_block': 5, 'batch_independent': 3, 'stochastic_checked': 3,
            'aux_loss_checked': 8, 'head_initialised': 8, 'external_model': 2, 'bad_config_rejected': 2,
            'training_modes': 6, 'router_noise_switch': 3, 'expert_rngs': 3, 'bfloat16': 2}


def specs(tier):
  n = 5 if tier == 'quick' else 120
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(7)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import flax
  import jax
  import numpy as np
  from vmoe.nn import models, vit_moe
  from vlib import moe_obs

  def smax(x):
    x = np.exp(x - x.max(-1, keepdims=True))
    return x / x.sum(-1, keepdims=True)

  def gelu(x):
    return 0.5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + 0.044715 * x**3)))

  def ln(x, p):
    m, v = x.mean(-1, keepdims=True), x.var(-1, keepdims=True)
    y = (x - m) / np.sqrt(v + 1e-6) * p['scale']
    return y + p['bias'] if 'bias' in p else y

  def dense(x, p):
    y = x @ p['kernel']
    return y + p['bias'] if 'bias' in p else y

  def mlp(x, p):
    return dense(gelu(dense(x, p['Dense_0'])), p['Dense_1'])

  def attention(q, kv, p):
    f = lambda x, n: np.einsum('btd,dhk->bthk', x, p[n]['kernel']) + p[n]['bias']
    a, b, c = f(q, 'query'), f(kv, 'key'), f(kv, 'value')
    if 'query_ln' in p:
      a, b = ln(a, p['query_ln']), ln(b, p['key_ln'])
    w = smax(np.einsum('bqhk,bthk->bhqt', a, b) / np.sqrt(a.shape[-1]))
    o = np.einsum('bhqt,bthk->bqhk', w, c)
    return np.einsum('bqhk,hkd->bqd', o, p['out']['kernel']) + p['out']['bias']

  def moe_layer(x, p, cfg, margins):
    b, t, d = x.shape
    xg = x.reshape(-1, cfg['group_size'], d)
    out = np.zeros_like(xg)
    gates = smax(xg @ p['Router']['dense']['kernel'])
    r = cfg['router']
    k, cap, bp = r['num_selected_experts'], r['dispatcher']['capacity'], r['dispatcher']['batch_priority']
    for g in range(xg.shape[0]):
      srt = np.sort(gates[g], -1)
      margins.append(np.diff(srt, axis=-1).min() if srt.shape[-1] > 1 else 1.0)
      if bp and len(srt) > 1:
        margins.append(np.diff(np.sort(srt[:, -1])).min())
      sel = moe_obs.greedy_assignment(gates[g], k, cap, bp)
      for e in range(gates.shape[-1]):
        y = mlp(xg[g], jax.tree_util.tree_map(lambda a, e=e: a[e], p['Mlp']))
        out[g] += y * (gates[g, :, e] * sel[:, e])[:, None]
    imp = np.array([(q.sum(0).std() / q.sum(0).mean())**2 for q in gates])
    return out.reshape(b, t, d), imp

  def reference(p, x, cfg, margins):
    ph, pw = cfg['patch_size']
    b, hh, ww, c = x.shape
    nh, nw = hh // ph, ww // pw
    z = x[:, :nh * ph, :nw * pw].reshape(b, nh, ph, nw, pw, c).transpose(0, 1, 3, 2, 4, 5).reshape(b, nh * nw, -1)
    z = z @ p['embedding']['kernel'].reshape(ph * pw * c, -1) + p['embedding']['bias']
    if cfg['classifier'] == 'token':
      z = np.concatenate([np.repeat(p['cls'], b, 0), z], 1)
    enc, pe = p['Encoder'], cfg['encoder'].get('position_emb', {})
    kind = pe.get('name', 'learned')
    d = z.shape[-1]
    if kind == 'learned':
      z = z + enc['posembed_input']['pos_embedding']
    elif kind == 'sincos2d':
      om = 1 / pe.get('temperature', 10000.)**(np.arange(d // 4) / (d // 4 - 1))
      yy, xx = np.meshgrid(np.arange(nh), np.arange(nw), indexing='ij')
      yo, xo = yy.ravel()[:, None] * om, xx.ravel()[:, None] * om
      emb = np.concatenate([np.sin(xo), np.cos(xo), np.sin(yo), np.cos(yo)], -1)
      if z.shape[1] == nh * nw + 1:
        emb = np.concatenate([np.zeros((1, d)), emb])
      z = z + emb
    imps = {}
    for i in range(cfg['encoder']['num_layers']):
      q = enc[f'encoderblock_{i}']
      a = ln(z, q['LayerNorm_0'])
      z = z + attention(a, a, q['SelfAttention'])
      y = ln(z, q['LayerNorm_1'])
      if i in cfg['encoder'].get('moe', {}).get('layers', ()):
        ctx.event('moe_block')
        y, imps[i] = moe_layer(y, q['Moe'], cfg['encoder']['moe'], margins)
      else:
        ctx.event('dense_block')
        y = mlp(y, q['Mlp'])
      z = z + y
    z = ln(z, enc['encoder_norm'])
    if cfg['classifier'] in ('token', '0'):
      z = z[:, 0]
    elif cfg['classifier'] == 'gap':
      z = z.mean(1)
    else:
      m = p['MapHead']
      v = attention(np.repeat(m['probe'], b, 0), z, m['MultiHeadDotProductAttention'])
      z = (v + mlp(ln(v, m['LayerNorm']), m['Mlp']))[:, 0]
    if cfg.get('representation_size'):
      z = np.tanh(dense(z, p['pre_logits']))
    if cfg.get('num_classes'):
      z = dense(z, p['head'])
    return z, imps

  def case(ctx, rng, i):
    layers = int(rng.integers(1, 4))
    hidden = int(rng.choice([8, 16]))
    classifier = ['token', '0', 'gap', 'map'][i % 4]
    ph = (int(rng.choice([2, 3])), 2)
    img = (ph[0] * int(rng.choice([1, 2])), ph[1] * 2, 3)
    tokens = (img[0] // ph[0]) * 2 + (classifier == 'token')
    b = int(rng.choice([2, 4]))
    per_image = bool(rng.random() < 0.6)
    e = int(rng.choice([2, 3, 4]))
    group = tokens if per_image else tokens * b
    moe_layers = tuple(int(q) for q in range(layers) if rng.random() < 0.6) if i % 5 != 1 else ()
    router = dict(num_selected_experts=int(rng.integers(1, e + 1)), noise_std=1.0, importance_loss_weight=1.0,
                  gshard_loss_weight=0.0, load_loss_weight=0.0,
                  dispatcher=dict(name=['einsum', 'indices'][rng.integers(2)], batch_priority=bool(rng.random() < .5),
                                  capacity=int(rng.integers(1, group + 1))))
    enc = dict(num_layers=layers, mlp_dim=int(rng.choice([4, 6])), num_heads=2, attention_qk_norm=bool(rng.random() < .4),
               dropout_rate=0.1, attention_dropout_rate=0.1)
    if moe_layers or rng.random() < .5:
      enc['moe'] = dict(layers=moe_layers, num_experts=e, group_size=group, split_rngs=True, router=router)
      if rng.random() < .5:
        enc['moe']['mlp_dim'] = 5
      if rng.random() < .4:  # Options written in the name of the router, overridden by the explicit ones.
        router['name'] = f'NoisyTopExpertsPerItemRouter(importance_loss_weight=0.5, num_selected_experts={1 + e % 2})'
    pe = [None, dict(name='learned'), dict(name='none'), dict(name='sincos2d', **([dict(temperature=50.)] + [{}])[rng.integers(2)])][rng.integers(4)]
    if pe:
      enc['position_emb'] = pe
    cfg = dict(num_classes=[5, None][int(rng.random() < .25)], patch_size=ph, hidden_size=hidden, encoder=enc, classifier=classifier,
               representation_size=[None, 7][rng.integers(2)], head_bias_init=float(rng.choice([-2.5, 0.0, 1.5])), head_kernel_zero_init=bool(rng.random() < .5))
    info = f'{cfg}'
    model = models.VisionTransformerMoe(deterministic=True, **cfg)
    x = rng.standard_normal((b,) + img).astype(np.float32)
    v = jax.jit(model.init)(jax.random.PRNGKey(int(rng.integers(1 << 30))), x)
    v = flax.core.unfreeze(v)
    if cfg['num_classes']:
      head = v['params']['head']
      ctx.check(np.all(np.asarray(head['bias']) == np.float32(cfg['head_bias_init'])), 'head bias not initialised as requested')
      ctx.check(bool(np.all(np.asarray(head['kernel']) == 0)) == cfg['head_kernel_zero_init'], 'head kernel not initialised as requested')
      ctx.event('head_initialised')
    def shapes(path, a):
      names = [str(getattr(q, 'key', q)) for q in path]
      if names[-2:] == ['Dense_0', 'bias'] and 'MapHead' not in names:
        want = enc['moe'].get('mlp_dim', enc['mlp_dim']) if 'Moe' in names else enc['mlp_dim']
        ctx.check(a.shape[-1] == want, f'{names} has {a.shape[-1]} hidden units instead of {want} for {info}')
    jax.tree_util.tree_map_with_path(shapes, v)
    attentions = [q['SelfAttention'] for n, q in v['params']['Encoder'].items() if n.startswith('encoderblock_')]
    attentions += [v['params']['MapHead']['MultiHeadDotProductAttention']] if classifier == 'map' else []
    ctx.check(all(('query_ln' in q) == enc['attention_qk_norm'] for q in attentions), f'query/key normalization differs from {info}')
    v = jax.tree_util.tree_map(lambda a: np.asarray(a) + 0.3 * rng.standard_normal(a.shape).astype(np.float32), v)
    fwd = jax.jit(model.apply)
    got, metrics = fwd(v, x)
    margins = []
    ref, imps = reference(jax.tree_util.tree_map(lambda a: a.astype(np.float64), v['params']), x.astype(np.float64), cfg, margins)
    if min(margins, default=1.0) > 1e-5:
      ctx.check(got.shape == ref.shape and np.allclose(got, ref, rtol=2e-3, atol=2e-3),
                lambda: f'outputs differ from the reference by {np.abs(np.asarray(got) - ref).max()} for {info}')
      ctx.event('forward_compared')
    for q, val in imps.items():
      m = metrics.get(f'encoderblock_{q}')
      ctx.check(m is not None and np.allclose(m['importance_loss'], val, rtol=2e-2, atol=1e-4), f'metrics of block {q} differ for {info}')
    total = sum((np.mean(val) for val in imps.values()), 0.0)
    ctx.check(np.allclose(np.mean(metrics['auxiliary_loss']), total, rtol=2e-2, atol=1e-4),
              f'auxiliary loss {metrics["auxiliary_loss"]}, sum over the blocks {total}')
    ctx.event('aux_loss_checked')
    if per_image or not moe_layers:
      y = np.array(x)
      y[1:] = rng.standard_normal(y[1:].shape)
      other, _ = fwd(v, y)
      ctx.check(np.allclose(other[0], got[0], rtol=1e-4, atol=1e-4), f'other images of the batch change the prediction of {info}')
      ctx.check(not np.allclose(other[1], got[1], atol=1e-6), 'the prediction does not depend on the image')
      ctx.event('batch_independent')
    if i % 2 == 0:
      train = models.VisionTransformerMoe(deterministic=False, **cfg)
      tf = jax.jit(lambda k, k2: train.apply(v, x, rngs={'dropout': k, 'gating': k2})[0])
      keys = jax.random.split(jax.random.PRNGKey(i), 2)
      a, a2, a3 = tf(keys[0], keys[1]), tf(keys[0], keys[1]), tf(keys[1], keys[1])
      ctx.check(np.array_equal(a, a2), 'same keys, different training outputs')
      ctx.check(not np.allclose(a, a3) and not np.allclose(a, got), f'no dropout in training mode for {info}')
      ctx.event('stochastic_checked')
    ctx.distinct_case(info)
    ctx.sample(info[:300])
    if i % 2 == 1:
      half = models.VisionTransformerMoe(deterministic=True, **dict(cfg, encoder=dict(enc, dtype='bfloat16')))
      if not moe_layers:
        low = np.asarray(jax.jit(half.apply)(v, x)[0], np.float32)
        ctx.check(low.shape == got.shape and np.allclose(low, got, rtol=0.2, atol=0.1 * np.abs(np.asarray(got)).max() + 0.1),
                  lambda: f'bfloat16 outputs differ by {np.abs(low - np.asarray(got)).max()} for {info}')
        ctx.event('bfloat16')

  def modes(ctx, rng, i):
    # Which randomness is used in which mode.
    b, e, layers = 2, int(rng.choice([2, 3])), int(rng.choice([1, 2]))
    moe_layers = [(0,), (layers - 1,), ()][i % 3]
    dropout, att = [(0., .5), (.5, 0.), (.5, .5), (0., .5), (0., 0.)][(i + int(spec['name'][1:])) % 5]
    router_det = [None, True, False][int(rng.integers(3))]
    det = bool(rng.random() < .3)
    moe_dropout = [None, None, 0.5][rng.integers(3)]
    router = dict(num_selected_experts=1, noise_std=2.0, dispatcher=dict(name='einsum', batch_priority=False, capacity=10))
    if router_det is not None:
      router['deterministic'] = router_det
    moe = dict(layers=moe_layers, num_experts=e, group_size=4 * b, router=router)
    if moe_dropout is not None:
      moe['dropout_rate'] = moe_dropout
    cfg = dict(num_classes=3, patch_size=(2, 2), hidden_size=8, classifier='gap', head_kernel_zero_init=False,
               encoder=dict(num_layers=layers, mlp_dim=16, num_heads=2, dropout_rate=dropout, attention_dropout_rate=att, moe=moe))
    info = f'deterministic={det} {cfg}'
    x = rng.standard_normal((b, 4, 4, 3)).astype(np.float32)
    v = jax.jit(models.VisionTransformerMoe(**dict(cfg, deterministic=True)).init)({'params': jax.random.PRNGKey(i), 'gating': jax.random.PRNGKey(1)}, x)
    v = jax.tree_util.tree_map(lambda a: np.asarray(a) + 0.5 * rng.standard_normal(a.shape).astype(np.float32), flax.core.unfreeze(v))
    run_ = jax.jit(lambda k, k2: models.VisionTransformerMoe(**dict(cfg, deterministic=det)).apply(v, x, rngs={'dropout': k, 'gating': k2})[0])
    ks = jax.random.split(jax.random.PRNGKey(i + 7), 4)
    base = run_(ks[0], ks[1])
    differs = lambda outs: any(not np.allclose(base, o, rtol=1e-5, atol=1e-6) for o in outs)
    drops = not det and bool(dropout or att or (moe_dropout and moe_layers))
    ctx.check(differs([run_(k, ks[1]) for k in ks[1:]]) == drops, f'dropout should be {"active" if drops else "inactive"} for {info}')
    noisy = bool(moe_layers) and not (det if router_det is None else router_det)
    gating = differs([run_(ks[0], jax.random.PRNGKey(100 + j)) for j in range(8)])
    ctx.check(gating == noisy, f'router noise should be {"active" if noisy else "inactive"} for {info}')
    if router_det is not None and moe_layers:
      ctx.event('router_noise_switch')
    ctx.event('training_modes')
    ctx.distinct_case('modes', info)

  def expert_rngs(ctx, rng, i):
    # Experts are initialized (and use dropout) with different keys exactly when asked to.
    split = [False, True, ('params',), ('dropout',), ('params', 'dropout'), ()][i % 6]
    e = int(rng.choice([2, 4]))
    layer = vit_moe.MlpMoeBlock(mlp_dim=32, num_experts=e, group_size=8, dropout_rate=0.5, deterministic=False, split_rngs=split,
                                router=dict(num_selected_experts=e, noise_std=0., dispatcher=dict(name='einsum', batch_priority=False, capacity=8)))
    x = rng.standard_normal((2, 8, 4)).astype(np.float32)
    keys = {n: jax.random.PRNGKey(int(rng.integers(1 << 30))) for n in ('params', 'dropout', 'gating')}
    v = layer.init(keys, x)
    want = {n: split is True or (split is not False and n in split) for n in ('params', 'dropout')}
    k = np.asarray(v['params']['Mlp']['Dense_0']['kernel'])
    same = all(np.array_equal(k[0], k[j]) for j in range(1, e))
    ctx.check(same != want['params'], f'split_rngs={split}: experts {"share" if same else "do not share"} their initial parameters')
    _, mut = layer.apply({'params': v['params']}, x, rngs=keys, mutable=['intermediates'],
                         capture_intermediates=lambda m, n: isinstance(m, flax.linen.Dropout))
    masks = [np.asarray(a) == 0 for a in jax.tree_util.tree_leaves(mut) if a.ndim == 3 and a.shape[0] == e and a.shape[-1] == 32]
    if masks:
      same = all(np.array_equal(masks[0][0], masks[0][j]) for j in range(1, e))
      ctx.check(masks[0].any() and same != want['dropout'], f'split_rngs={split}: experts {"share" if same else "do not share"} their dropout')
      ctx.event('expert_rngs')
    ctx.distinct_case('split', split, e)

  def external(ctx, rng, i):
    x = rng.standard_normal((2, 4, 4, 3)).astype(np.float32)
    cls = [models.VisionTransformer, models.MlpMixer][i % 2]
    kw = dict(num_classes=3, patches=dict(size=(2, 2)))
    if i % 2 == 0:
      kw.update(transformer=dict(num_heads=1, num_layers=1, mlp_dim=4, dropout_rate=0.5))
    else:
      kw.update(num_blocks=1, hidden_dim=4, tokens_mlp_dim=4, channels_mlp_dim=4)
    m = cls(deterministic=True, **kw)
    v = m.init(jax.random.PRNGKey(0), x)
    out = m.apply(v, x)
    ctx.check(isinstance(out, tuple) and len(out) == 2 and out[1] == {}, f'{cls.__name__} does not return (outputs, metrics)')
    ctx.check(np.array_equal(out[0], m.apply(v, x)[0]) and out[0].shape == (2, 3), 'deterministic external model is not deterministic')
    ctx.event('external_model')

  def bad(ctx, rng, i):
    kw = dict(num_classes=3, patch_size=(2, 2), hidden_size=8)
    enc = dict(num_layers=1, mlp_dim=4, num_heads=2)
    x = np.zeros((1, 4, 4, 3), np.float32)
    if i % 4 == 3:
      enc['moe'] = dict(layers=(0,), num_experts=2, group_size=3, router=dict(
          num_selected_experts=1, noise_std=0., dispatcher=dict(name='einsum', batch_priority=False, capacity=3)))
    elif i % 4 == 0:
      kw['classifier'] = 'nope'
    elif i % 4 == 1:
      enc['position_emb'] = dict(name='nope')
    else:
      enc['position_emb'] = dict(name='sincos2d')
      kw['hidden_size'] = 6
    try:
      models.VisionTransformerMoe(encoder=enc, deterministic=True, **kw).init(jax.random.PRNGKey(0), x)
    except (TypeError, ValueError):
      ctx.event('bad_config_rejected')
    else:
      ctx.check(False, f'accepted {kw} {enc}')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
    ctx.run_case(f'ext{i}', external, i)
    ctx.run_case(f'bad{i}', bad, i)
    ctx.run_case(f'modes{i}', modes, i)
    if i < 2 or ctx.thorough:
      ctx.run_case(f'rngs{i}', expert_rngs, i + 2 * int(spec['name'][1:]))
