"""P38: every shipped configuration describes a training (or attack) which runs, with the architecture it names."""
import re

RULE = ('every file with a get_config function under vmoe/**/configs, with every value of its model argument; full size: traced (no arithmetic) with the real '
        'preprocessing, model, loss, wrappers, optimizer and schedule; reduced in width, batch and dataset size only: really trained and evaluated by '
        'train_and_evaluate on toy datasets with the same feature names, fine-tuned from a checkpoint of the configuration it names; '
        'oracle: the architecture named by the description, the checkpoint; distinct by (configuration, part)')
REQUIRED = {'config_traced': 6, 'architecture_checked': 6, 'partition_checked': 600, 'schedule_checked': 6, 'step_traced': 6, 'split_checked': 5, 'upstream_checked': 200, 'training_run': 5, 'evaluation_seen': 8, 'parameter_initialized': 60, 'finite_metric': 100, 'invalid_rejected': 20, 'new_head': 1, 'soft_architecture': 5, 'optimizer_described': 6}

DESCRIPTION = re.compile(r'ViT-(?P<v>.)/(?P<p>\d+), E=(?P<e>\d+), K=(?P<k>\d+), (?P<where>Every|Last) (?P<n>\d+), (?P<epochs>\d+) Epochs')
UPSTREAM = {  # Released checkpoint -> the configuration which describes how it was trained.
    'vmoe_b16_imagenet21k_randaug_strong': 'vmoe.configs.vmoe_paper.pretrain_imagenet21k',
    'vmoe_s32_last2_ilsvrc2012_randaug_light1': 'vmoe.configs.vmoe_paper.vmoe_s32_last2_ilsvrc2012_randaug_light1',
    'vmoe_b16_imagenet21k_randaug_strong_ft_ilsvrc2012': 'vmoe.configs.vmoe_paper.vmoe_b16_imagenet21k_randaug_strong_ft_ilsvrc2012',
}
P = 'vmoe.configs.vmoe_paper.'
SOFT = [f'vmoe.projects.soft_moe.configs.pretrain_{d}:{t}-{b}' for d in ('jft4b', 'laion') for t in ('soft', 'ec', 'vit') for b in ('s16', 's14', 'b16', 'l16', 'h14')]


def specs(tier):
  q = tier == 'quick'
  s = [dict(name='i21k', devices=8, trace=[P + 'pretrain_imagenet21k', P + 'vmoe_b16_imagenet21k_randaug_strong_ft_cifar10'], train=[P + 'pretrain_imagenet21k']),
       dict(name='cifar', devices=8, trace=['vmoe.configs.eee_paper.eee_s32_last2_ilsvrc2012_ft_cifar100'], train=[P + 'vmoe_b16_imagenet21k_randaug_strong_ft_cifar10'] + ([] if q else ['vmoe.configs.eee_paper.eee_s32_last2_ilsvrc2012_ft_cifar100'])),
       dict(name='ilsvrc', devices=8, trace=[P + 'vmoe_s32_last2_ilsvrc2012_randaug_light1', P + 'vmoe_s32_last2_ilsvrc2012_randaug_light1_ft_ilsvrc2012'],
            train=[P + 'vmoe_s32_last2_ilsvrc2012_randaug_light1', P + 'vmoe_s32_last2_ilsvrc2012_randaug_light1_ft_ilsvrc2012']),
       dict(name='attack', devices=8, trace=[P + 'vmoe_b16_imagenet21k_randaug_strong_ft_ilsvrc2012', 'vmoe.projects.adversarial_attacks.configs.attack.ilsvrc2012'], train=[] if q else [P + 'vmoe_b16_imagenet21k_randaug_strong_ft_ilsvrc2012']),
       dict(name='soft', devices=8, trace=['vmoe.projects.soft_moe.configs.pretrain_jft4b:soft-s16'], train=['vmoe.projects.soft_moe.configs.pretrain_jft4b:soft-s16']),
       dict(name='laion', devices=8, trace=['vmoe.projects.soft_moe.configs.pretrain_laion:ec-s16'], train=['vmoe.projects.soft_moe.configs.pretrain_laion:ec-s16'])]
  if q:
    return s + [dict(name='variants', devices=1, trace=SOFT, sample=2, train=[]), dict(name='functions', devices=1, trace=[], train=[])]
  return s + [dict(name=f'soft{i}', devices=8, trace=SOFT[i::4], train=SOFT[i::4]) for i in range(4)] + [dict(name='functions', devices=1, trace=[], train=[])]


def stand_ins():
  """Text tokenisation and RandAugment come from packages which are not installed: stand-ins with their interface."""
  # pylint: disable=import-outside-toplevel
  import sys
  import types
  import types
  import tensorflow as tf
  def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    parent, _, last = name.rpartition('.')
    if parent:
      if parent not in sys.modules:
        module(parent, __path__=[])
      setattr(sys.modules[parent], last, m)
    return m
  module('cloud_tpu.models.efficientnet.autoaugment', distort_image_with_randaugment=lambda image, n, m: tf.cast(image, tf.uint8))
  general = types.SimpleNamespace(
      get_setdefault=lambda key, default: lambda d: d,
      get_choice=lambda key: lambda d: {key: d[key][0] if d[key].shape.rank else d[key]})
  def tokenize(txt, tokenizer, max_len, pad_value, force_eos, multi_text):
    ids = tf.cast(tf.io.decode_raw(txt, tf.uint8), tf.int32)[:max_len]
    return tf.ensure_shape(tf.pad(ids, [[0, max_len - tf.shape(ids)[0]]], constant_values=int(pad_value)), (max_len,))
  module('big_vision.pp.ops_text', create_tokenizer=lambda model, add_eos: types.SimpleNamespace(string_to_id=lambda s: 0), tokenize=tokenize, ops_general=general)


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import importlib
  import os
  import shutil
  from unittest import mock
  import types
  import tensorflow as tf
  import tensorflow_datasets as tfds
  from vlib import toyds
  from vlib import trainrun
  toyds.install_builders()
  stand_ins()
  import flax
  import jax
  import jax.numpy as jnp
  import ml_collections
  import numpy as np
  from vmoe import partitioning
  from vmoe import utils
  from vmoe.checkpoints import partitioned
  from vmoe.data import input_pipeline
  from vmoe.data import pjit_utils
  from vmoe.projects.contrastive import trainer as contrastive_trainer
  from vmoe.train import optimizer
  from vmoe.train import schedule
  from vmoe.train import trainer as standard_trainer

  # --- one toy dataset with all features, used for every name --------------------------------------------------------
  def toy():
    tfds.disable_progress_bar()
    def split(start, n):
      def gen():
        rng = np.random.default_rng(start)
        for i in range(n):
          h, w = rng.integers(24, 60, size=2)
          yield dict(image=rng.integers(0, 256, size=(h, w, 3)).astype(np.uint8), label=i % 2, labels=[i % 2] + [2] * (i % 3 == 0),
                     real_label=[i % 2] * (i % 5 != 0), text=f'a text {i}')
      return tf.data.Dataset.from_generator(gen, output_signature=dict(
          image=tf.TensorSpec((None, None, 3), tf.uint8), label=tf.TensorSpec((), tf.int64), labels=tf.TensorSpec((None,), tf.int64),
          real_label=tf.TensorSpec((None,), tf.int64), text=tf.TensorSpec((), tf.string)))
    f = tfds.features
    return tfds.dataset_builders.store_as_tfds_dataset(
        name='anything', version='1.0.0', data_dir=os.path.join(ctx.scratch, 'data'),
        split_datasets=dict(train=split(0, 64), test=split(100, 12), validation=split(200, 12), full=split(300, 64)),
        features=f.FeaturesDict(dict(image=f.Image(shape=(None, None, 3), encoding_format='jpeg'), label=f.ClassLabel(num_classes=2), labels=f.Sequence(tf.int64),
                                     real_label=f.Sequence(tf.int64), text=f.Text())))

  class Any(dict):
    def __missing__(self, key):
      if None not in self:
        self[None] = toy()
      return self[None]
  toyds._BUILDERS = Any()  # pylint: disable=protected-access

  # --- configurations ------------------------------------------------------------------------------------------------
  def load(name):
    module, _, arg = name.partition(':')
    fn = importlib.import_module(module).get_config
    return fn(arg) if arg else fn()

  def vit_of(model):
    return model.image if 'image' in model else model

  def shrink(c, n_dev, depth=2):
    """Depth (the last blocks), widths, batch and dataset sizes, shuffle buffers; nothing else."""
    models = [m for m in (c.model, c.model.get('image'), c.model.get('text')) if m and 'hidden_size' in m]
    for m in models:
      with m.unlocked():
        m.hidden_size = 16
        if m.get('representation_size'):
          m.representation_size = 16
        if 'encoder' in m:
          m.encoder.num_heads = 2
          m.encoder.mlp_dim = 8
          drop = m.encoder.num_layers - depth
          m.encoder.num_layers = depth
          m.encoder.moe.layers = tuple(i - drop for i in m.encoder.moe.layers if i >= drop)
    if c.model.get('text'):
      c.model.text.num_classes = 16
    for v in list(c.dataset.values()) if 'name' not in c.dataset else [c.dataset]:
      v.batch_size = 8 * n_dev
      v.split = v.split.split('[')[0]
      if 'shuffle_buffer' in v:
        v.shuffle_buffer = 16
    if 'fewshot' in c:
      f = c.fewshot
      f.batch_size = 8 * n_dev
      keep = {k: (v[0], 'train', 'test') for k, v in f.datasets.items() if k in ('imagenet', 'uc_merced')}
      with f.unlocked():
        del f.datasets
        f.datasets = keep
    with c.unlocked():
      if 'train_epochs' in c:
        del c.train_epochs
      c.train_steps = 2
    for k in ('warmup_steps', 'cooldown_steps'):
      if k in c.get('optimizer', {}).get('learning_rate', {}):
        c.optimizer.learning_rate[k] = 1
    return c

  # --- full size, traced ---------------------------------------------------------------------------------------------
  def interval(split, total=10**7):
    m = re.fullmatch(r'(\w+)(?:\[([^:]*):([^:]*)\])?', split.strip())
    at = lambda x, d: d if not x else (int(x[:-1]) * total // 100 if x.endswith('%') else int(x))
    lo, hi = at(m.group(2), 0), at(m.group(3), total)
    lo, hi = [x + total if x < 0 else x for x in (lo, hi)]
    return m.group(1), lo, hi

  def trace(ctx, rng, name):
    c = load(name)
    info = f'configuration {name}'
    attack = 'restore' in c
    ctx.distinct_case(info, 'trace')
    mesh = partitioning.get_auto_logical_mesh(c.num_expert_partitions, jax.devices())
    variants = {'adversarial': c.dataset} if attack else dict(c.dataset.items())
    if not attack:
      ctx.check('train' in variants, f'{info} has no training data')
      for k, v in variants.items():
        if k != 'train' and v.name == variants['train'].name:
          a, b = interval(variants['train'].split), interval(v.split)
          ctx.check(a[0] != b[0] or max(a[1], b[1]) >= min(a[2], b[2]), f'{info}: variant {k!r} uses {v.split!r}, which overlaps the training data {variants["train"].split!r}')
          ctx.event('split_checked')
    contrastive = 'image' in c.model
    tr = contrastive_trainer if contrastive else standard_trainer
    steps = c.get('train_steps') or (c.train_epochs * 10**6 // c.dataset.train.batch_size if not attack else 10)
    shapes = {}
    with mesh:
      for k, v in variants.items():
        v = v.to_dict()
        for q in ('prefetch_device', 'cache', 'prefetch', 'shuffle_buffer'):
          v.pop(q, None)
        v['split'] = v['split'].split('[')[0]
        shapes[k] = pjit_utils.get_dataset_shape_dtype_struct(input_pipeline.get_dataset(variant=k, **v))
        want = {'image', 'text'} if contrastive else {'image', 'labels'}
        ctx.check(want <= set(shapes[k]), f'{info}: the examples of {k!r} have {sorted(shapes[k])}, not {want}')
        ctx.check(shapes[k]['image'].shape[0] == v['batch_size'] and shapes[k]['image'].dtype == np.float32, f'{info}: images of {k!r} are {shapes[k]["image"]}')
        ctx.check(shapes[k]['image'].shape == tuple((v['batch_size'],) + next(iter(shapes.values()))['image'].shape[1:]), f'{info}: images of {k!r} are {shapes[k]["image"].shape}, others {[x["image"].shape for x in shapes.values()]}')
      first = next(iter(shapes.values()))
      inputs = (first['image'],) + ((first['text'],) if contrastive else ())
      opt = c.get('optimizer') or ml_collections.ConfigDict(dict(name='sgd', learning_rate=dict(schedule='constant', value=0.1)))
      # One image per group of the devices is what the smallest batch allows; the batch of the configuration is used.
      init = standard_trainer.make_create_train_state_fn(
          model=standard_trainer.create_flax_model(config=c.model, deterministic=False), optimizer_config=opt.to_dict(), input_shape_dtypes=inputs,
          train_steps=steps, extra_rng_keys=tuple(c.extra_rng_keys), seed=c.get('seed', 0))
      state = jax.eval_shape(init)
      flat = {'/'.join(k): v for k, v in flax.traverse_util.flatten_dict(flax.core.unfreeze(state.params)).items()}
      spec_tree = partitioning.tree_axis_resources_from_regexes(tree=state, axis_resources_regexes=c.params_axis_resources)
      p_specs = {'/'.join(k): v for k, v in flax.traverse_util.flatten_dict(flax.core.unfreeze(spec_tree.params)).items()}

      # Partitions: expert parameters and nothing else, along the experts.
      vit = vit_of(c.model)
      experts = vit.get('encoder', {}).get('moe', {}).get('num_experts')
      blocks = set()
      for k, v in flat.items():
        expert = re.search(r'/Moe/Mlp/', k)
        sp = tuple(p_specs[k])
        if expert:
          blocks.add(int(re.search(r'encoderblock_(\d+)/', k).group(1)))
          ctx.check(v.shape[0] == experts and v.shape[0] % mesh.shape['expert'] == 0 and sp and sp[0] in ('expert', ('expert',)) and not any(sp[1:]),
                    f'{info}: the expert parameter {k} of shape {v.shape} is partitioned as {sp} over {dict(mesh.shape)}')
        else:
          ctx.check(not any(sp), f'{info}: {k} is not an expert parameter, and is partitioned as {sp}')
        ctx.event('partition_checked')
      want_layers = set(vit.get('encoder', {}).get('moe', {}).get('layers', ()))
      ctx.check(blocks == want_layers, f'{info}: experts are in the blocks {sorted(blocks)}, the configuration names {sorted(want_layers)}')
      # The state of the optimizer is partitioned as the parameters.
      for path, s in jax.tree_util.tree_flatten_with_path(spec_tree.opt_state)[0]:
        key = jax.tree_util.keystr(path)
        if 'Moe' in key and "'Mlp'" in key:
          ctx.check(tuple(s) and tuple(s)[0] in ('expert', ('expert',)), f'{info}: the optimizer state {key} is partitioned as {s}')
          ctx.event('partition_checked')

      # Architecture named by the description.
      d = DESCRIPTION.match(c.get('description', '') or '')
      soft = re.search(r':(vit|ec|soft)-([sblh])(\d+)$', name)
      n_layers = len({k.split('encoderblock_')[1].split('/')[0] for k in flat if 'encoderblock_' in k and not k.startswith('txt')})
      emb = next(v for k, v in flat.items() if k.endswith('embedding/kernel') and not k.startswith('txt'))
      if d or soft:
        v_, p_ = (d.group('v'), int(d.group('p'))) if d else (soft.group(2).upper(), int(soft.group(3)))
        width, layers = ({'S': (512, 8), 'B': (768, 12), 'L': (1024, 24), 'H': (1280, 32)} if d else {'S': (384, 12), 'B': (768, 12), 'L': (1024, 24), 'H': (1280, 32)})[v_]
        ctx.check(emb.shape == (p_, p_, 3, width) and n_layers == layers, f'{info}: patches are embedded by {emb.shape}, there are {n_layers} layers')
        if d:
          odd = [i for i in range(layers) if i % 2]
          n = int(d.group('n'))
          where = {i for i in range(layers) if (i + 1) % n == 0} if d.group('where') == 'Every' else set(odd[-n:])
          ctx.check(blocks == where and experts == int(d.group('e')) and vit.encoder.moe.router.num_selected_experts == int(d.group('k')),
                    f'{info} ({c.description}): {experts} experts in the blocks {sorted(blocks)}')
          ctx.check('train_epochs' not in c or c.train_epochs == int(d.group('epochs')), f'{info} ({c.description}) is trained for {c.get("train_epochs")} epochs')
        else:
          last = {'S': 6, 'B': 6, 'L': 12, 'H': 16}[v_] if soft.group(1) != 'vit' else 0
          ctx.check(blocks == set(range(layers - last, layers)) and (soft.group(1) == 'vit' or experts == {14: 256, 16: 128}[p_]), f'{info}: {experts} experts in the blocks {sorted(blocks)}')
          # Experts choose among, or slots mix, the tokens of one image; all experts together have about one slot per token.
          if last:
            size = first['image'].shape[1]
            ctx.check(vit.encoder.moe.group_size == (size // p_)**2, f'{info}: groups of {vit.encoder.moe.group_size} tokens, images have {(size // p_)**2}')
        ctx.event('architecture_checked')

      # One training step.
      if not attack:
        if contrastive:
          fn = lambda s, *x: tr.train_step(s, *x, loss_fn=tr.sigmoid_loss, microsteps=c.get('microsteps'), summarizer=tr.create_tree_summarizer(c.get('summarize_arrays')))
          data = inputs
        else:
          loss_fn, eval_loss, label_pred = tr.get_loss_fn(**c.loss)
          fn = lambda s, *x: tr.train_step(s, *x, loss_fn=loss_fn, microsteps=c.get('microsteps'), summarizer=tr.create_tree_summarizer(c.get('summarize_arrays')))
          if c.get('mixup'):
            fn = tr.wrap_train_step_with_mixup(fn, partition_spec=jax.sharding.PartitionSpec(mesh.axis_names,), **c.mixup.to_dict())
          data = inputs + (first['labels'],)
          out, _ = jax.eval_shape(lambda p, x: tr.create_flax_model(config=c.model, deterministic=True).apply({'params': p}, x), state.params, inputs[0])
          m = vit.encoder.moe.get('ensemble_size', 1)
          ctx.check(out.shape == (m * first['labels'].shape[0],) + first['labels'].shape[1:], f'{info}: the model returns {out.shape} for labels {first["labels"].shape}')
          for k, v in shapes.items():
            ctx.check(v['labels'].shape[1:] == first['labels'].shape[1:], f'{info}: labels of {k!r} are {v["labels"].shape}')
            b = v['labels'].shape[0]
            el = jax.eval_shape(eval_loss, jax.ShapeDtypeStruct((m * b,) + out.shape[1:], out.dtype), v['labels'])
            ctx.check(el.shape == (b,), f'{info}: the evaluation loss of {b} examples of {k!r} is {el.shape}')
        new, metrics = jax.eval_shape(fn, state, *data)
        same = jax.tree_util.tree_map(lambda a, b: (a.shape, a.dtype) == (b.shape, b.dtype), state, new)
        ctx.check(all(jax.tree_util.tree_leaves(same)), f'{info}: a step changes shapes or types: {[jax.tree_util.keystr(p) for p, x in jax.tree_util.tree_flatten_with_path(same)[0] if not x]}')
        ctx.check({'main_loss', 'total_loss'} <= set(metrics), f'{info}: metrics of a step are {sorted(metrics)}')
        ctx.event('step_traced')
        ctx.check(all(k in c.extra_rng_keys for k in (['gating'] if vit.encoder.moe.get('router', {}).get('noise_std') else []) + (['mixup'] if c.get('mixup') else [])), f'{info}: random keys {c.extra_rng_keys}')
        # The learning rate.
        lr = c.optimizer.learning_rate.to_dict()
        f = schedule.create_learning_rate_schedule(total_steps=steps, **lr)
        w = lr['warmup_steps']
        ctx.check(w < steps, f'{info}: {w} warmup steps in {steps}')
        at = np.array([float(f(s)) for s in [0, 1, w // 2, w, (w + steps) // 2, steps]])
        ctx.check(np.all(np.isfinite(at)) and np.all(at >= 0) and np.isclose(at[3], lr['peak_value'], rtol=1e-4) and np.all(at <= lr['peak_value'] * 1.0001) and
                  at[0] <= 1e-9 + lr['peak_value'] / w * 1.01 and np.isclose(at[5], lr.get('end_value', 0.0), atol=1e-7 + 0.01 * lr.get('end_value', 0)),
                  f'{info}: learning rates {at} of {lr} over {steps} steps')
        ctx.event('schedule_checked')
      ctx.event('config_traced')

      # What it starts from.
      prefix = (c.restore.prefix if attack else c.get('initialization', {}).get('prefix', '')).split('/')[-1]
      if prefix in UPSTREAM:
        up = load(UPSTREAM[prefix])
        size = int(re.search(r'crop\((\d+)', up.dataset.train.process).group(1))
        x = jax.ShapeDtypeStruct((8, size, size, 3), np.float32)
        um = standard_trainer.create_flax_model(config=up.model, deterministic=True)
        ups = jax.eval_shape(lambda: um.init(utils.make_rngs(('params',) + tuple(up.extra_rng_keys), 0), jnp.zeros((32, size, size, 3))))['params']
        del x
        uf = {'/'.join(k): v for k, v in flax.traverse_util.flatten_dict(flax.core.unfreeze(ups)).items()}
        for k, v in flat.items():
          if k.startswith('head') and not attack:
            continue
          ctx.check(k in uf and (uf[k].shape == v.shape or k.endswith('pos_embedding')), f'{info}: parameter {k} {v.shape} is {uf.get(k)} in the checkpoint {prefix} it starts from')
          ctx.event('upstream_checked')

  for name in (spec['trace'] if not spec.get('sample') else [spec['trace'][i] for i in ctx.rng('sample').permutation(len(spec['trace']))[:spec['sample']]]):
    ctx.run_case('trace ' + name, trace, name)

  # --- reduced, really trained ---------------------------------------------------------------------------------------
  def train(ctx, rng, name):
    info = f'training with configuration {name}, reduced'
    ctx.distinct_case(info)
    c = load(name)
    vit = vit_of(c.model)
    moe = vit.get('encoder', {}).get('moe', {})
    # Few devices: the groups of tokens are those of a device with the smallest batch.
    n_dev = 2 if not moe.get('ensemble_size') else 1
    devices = jax.devices()[:n_dev]
    mesh = jax.sharding.Mesh(np.array(devices).reshape(n_dev, 1), ('expert', 'replica'))
    c = shrink(c, n_dev)
    if moe.get('ensemble_size'):
      c.dataset.train.batch_size = c.dataset.val.batch_size = c.dataset.test.batch_size = 128
    work = os.path.join(ctx.scratch, 'work')
    os.makedirs(work)
    contrastive = 'image' in c.model
    tr = contrastive_trainer if contrastive else standard_trainer
    upstream = None
    prefix = c.get('initialization', {}).get('prefix', '').split('/')[-1]
    if prefix:
      if prefix in UPSTREAM:
        up = load(UPSTREAM[prefix])
        up_model, size = shrink(up, 1).model, int(re.search(r'crop\((\d+)', up.dataset.train.process).group(1))
      else:  # The released checkpoint has no configuration here: the same model, at the resolution in the comments.
        up_model, size = ml_collections.ConfigDict(c.model.to_dict()), 224
        up_model.num_classes = 1000
        up_model.encoder.moe.group_size = 2 * 128 * 50
      m = standard_trainer.create_flax_model(config=up_model, deterministic=True)
      n = up_model.encoder.moe.group_size // ((size // up_model.patch_size[0])**2 + 1)
      n = n // up_model.encoder.moe.get('ensemble_size', 1)
      shapes = jax.eval_shape(lambda: m.init(utils.make_rngs(('params', 'gating', 'dropout'), 0), jnp.zeros((n, size, size, 3))))['params']
      upstream = jax.tree_util.tree_map(lambda x: rng.normal(size=x.shape).astype(np.float32) * 0.1, flax.core.unfreeze(shapes))
      path = os.path.join(ctx.scratch, 'upstream')
      with mesh:
        arrays = jax.tree_util.tree_map(jnp.asarray, upstream)
        partitioned.save_checkpoint(prefix=path, tree=arrays).get()
      c.initialization.prefix = path
    writer = trainrun.Writer()
    saved = []
    orig = tr.create_checkpoint_manager
    def create(**kw):
      mgr = orig(**kw)
      save = mgr.save
      def monitored(step, *a, **k):
        items = k.get('items') or a[0]
        saved.append((int(step), jax.tree_util.tree_map(np.asarray, items['state'].params), jax.tree_util.tree_map(lambda x: x.sharding.spec, items['state'].params)))
        return save(step, *a, **k)
      mgr.save = monitored
      return mgr
    try:
      with mock.patch.object(tr, 'create_checkpoint_manager', create), mock.patch.object(jax, 'device_count', lambda *a: n_dev), mesh:
        tr.train_and_evaluate(c, work, mesh, writer)
    finally:
      shutil.rmtree(work, ignore_errors=True)
    steps = sorted({s for s, _, _ in saved})
    ctx.check(0 in steps and 2 in steps, f'{info}: 2 steps, checkpoints of {steps}')
    flatten = lambda t: {'/'.join(k): v for k, v in flax.traverse_util.flatten_dict(flax.core.unfreeze(t)).items()}
    first, last = [next(p for s, p, _ in (saved if i == 0 else saved[::-1]) if s == i) for i in (0, 2)]
    first, last = flatten(first), flatten(last)
    for k, v in last.items():
      ctx.check(np.all(np.isfinite(v)), f'{info}: {k} is not finite after two steps')
    for k, sp in flatten(saved[0][2]).items():
      ctx.check((tuple(sp)[:1] == ('expert',)) == ('/Moe/Mlp/' in k), f'{info}: parameter {k} is partitioned as {sp}')
    for s, m in writer.log:
      for k, v in m.items():
        ctx.check(np.isfinite(v) or 'similarity' in k, f'{info}: {k} = {v} at step {s}')
        ctx.event('finite_metric')
    names = {k for _, m in writer.log for k in m}
    ctx.check({'train/main_loss', 'train/total_loss'} <= names, f'{info} reported {sorted(names)}')
    ctx.event('training_run')
    for v in c.dataset:
      if v != 'train':
        ctx.check(any(k.startswith(f'{v}/') for k in names), f'{info}: nothing reported for {v!r}: {sorted(names)}')
        got = writer.metric(f'{v}/loss')
        ctx.check(sorted(s for s, _ in got) == [1, 2], f'{info}: {v!r} was evaluated at {got}')
        ctx.event('evaluation_seen')
    if 'fewshot' in c:
      for k in c.fewshot.datasets:
        ctx.check(any(f'fewshot/{k}' in q for q in names), f'{info}: nothing reported for few-shot {k!r}: {sorted(names)}')
        ctx.event('evaluation_seen')
    if moe.get('router', {}).get('name', '').endswith('SoftRouter') and 'summarize_arrays' in c:
      ctx.check(any('Router/scale' in k for k in names), f'{info}: {sorted(names)}')
    if 'summarize_arrays' in c:
      ctx.check(any('learning_rate' in k for k in names), f'{info}: {sorted(names)}')
    # Fine-tuning starts from the checkpoint.
    if upstream is not None:
      uf = flatten(upstream)
      for k, v in first.items():
        if k.startswith('head') or k.startswith('pre_logits'):
          if k in uf and v.shape == uf[k].shape:
            ctx.check(not np.allclose(v, uf[k]), f'{info}: {k} starts from the checkpoint, it should be new')
            ctx.event('new_head')
          continue
        if k.endswith('pos_embedding'):
          ctx.check(np.allclose(v[:, 0], uf[k][:, 0]), f'{info}: the position embedding of the class token is not that of the checkpoint')
          w = uf[k][0, 1:].reshape((int(np.sqrt(uf[k].shape[1] - 1)),) * 2 + (-1,))
          g = v[0, 1:].reshape((int(np.sqrt(v.shape[1] - 1)),) * 2 + (-1,))
          corners = lambda x: np.stack([x[0, 0], x[0, -1], x[-1, 0], x[-1, -1]])
          ctx.check(np.allclose(corners(w), corners(g), atol=1e-5), f'{info}: the zoomed position embeddings do not keep the corners')
        else:
          ctx.check(k in uf and np.array_equal(v.reshape(-1), uf[k].reshape(-1)), f'{info}: {k} does not start from the checkpoint')
        ctx.event('parameter_initialized')

  for name in spec['train']:
    ctx.run_case('train ' + name, train, name)

  # --- the functions which build the models of a description -----------------------------------------------------------
  def described(ctx, rng, i):
    v = 'SBLH'[rng.integers(4)]
    width, layers, heads, mlp = {'S': (512, 8, 8, 2048), 'B': (768, 12, 12, 3072), 'L': (1024, 24, 16, 4096), 'H': (1280, 32, 16, 5120)}[v]
    p = int(rng.choice([14, 16, 32]))
    e, k, n, ep = int(rng.choice([2, 4, 8, 32])), int(rng.integers(1, 3)), int(rng.integers(1, 5)), int(rng.integers(1, 400))
    where = ['Every', 'Last'][rng.integers(2)]
    text = f'ViT-{v}/{p}, E={e}, K={k}, {where} {n}, {ep} Epochs'
    size, classes = p * int(rng.integers(2, 6)), int(rng.integers(2, 30))
    from vmoe.configs.vmoe_paper import common
    from vmoe.configs.vmoe_paper import pretrain_imagenet21k
    from vmoe.projects.adversarial_attacks.configs import common as attack_common
    c, which = [(lambda: common.get_vmoe_config(text, size, classes), 'vmoe_paper'), (lambda: attack_common.get_vmoe_config(text, classes, size), 'adversarial'),
                (lambda: pretrain_imagenet21k.get_vmoe_params(text, size), 'pretrain_imagenet21k')][i % 3]
    c = c()
    info = f'{which} model of {text!r}, {size} px'
    ctx.distinct_case(info)
    ctx.check(common.get_num_epochs(text) == ep, lambda: f'{text!r}: {common.get_num_epochs(text)} epochs')
    odd = [j for j in range(layers) if j % 2]
    blocks = {j for j in range(layers) if (j + 1) % n == 0} if where == 'Every' else set(odd[-n:])
    b = 8 * int(rng.integers(1, 4))
    m = standard_trainer.create_flax_model(config=c, deterministic=False)
    (out, metrics), variables = jax.eval_shape(lambda: m.init_with_output(utils.make_rngs(('params', 'gating', 'dropout'), 0), jnp.zeros((b, size, size, 3))))
    flat = {'/'.join(q): x for q, x in flax.traverse_util.flatten_dict(flax.core.unfreeze(variables['params'])).items()}
    ctx.check(out.shape == (b, c.num_classes), f'{info}: logits {out.shape}')
    got = {int(re.search(r'encoderblock_(\d+)/', q).group(1)) for q in flat if '/Moe/' in q}
    ctx.check(got == blocks, f'{info}: experts in {sorted(got)}, not in {sorted(blocks)}')
    ctx.check(all(x.shape[0] == e for q, x in flat.items() if '/Moe/Mlp/' in q), f'{info}: {[(q, x.shape) for q, x in flat.items() if "/Moe/Mlp/" in q][:4]}')
    ctx.check(flat['embedding/kernel'].shape == (p, p, 3, width), f'{info}: patches are embedded by {flat["embedding/kernel"].shape}')
    ctx.check(len({q.split('encoderblock_')[1].split('/')[0] for q in flat if 'encoderblock_' in q}) == layers, f'{info}: layers')
    q = next(q for q in flat if q.endswith('MultiHeadDotProductAttention_0/query/kernel') or q.endswith('query/kernel'))
    ctx.check(flat[q].shape == (width, heads, width // heads), f'{info}: {q} is {flat[q].shape}')
    ctx.check(any(x.shape[-1] == mlp for q, x in flat.items() if q.endswith('kernel')), f'{info}: no layer of width {mlp}')
    r = c.encoder.moe.router
    ctx.check(r.num_selected_experts == k, f'{info}: {r.num_selected_experts} experts per token')
    losses = [r.get(w, 0.0) for w in ('importance_loss_weight', 'load_loss_weight', 'gshard_loss_weight')]
    ctx.check(any(x > 0 for x in losses), f'{info}: no auxiliary loss')
    if which == 'adversarial' and e == 2:
      ctx.check(losses[1] == 0, f'{info}: load loss with two experts')
    ctx.event('architecture_checked')
    for bad in (text.replace('ViT', 'vit'), text.replace('E=', 'E= '), text.replace(f', {ep} Epochs', '')):
      for f in (lambda x: common.get_vmoe_config(x, size, classes), common.get_num_epochs, common.get_optimizer_config):
        try:
          f(bad)
        except (ValueError, KeyError):
          ctx.event('invalid_rejected')
        else:
          ctx.check(False, f'{bad!r} is accepted')

  def soft_described(ctx, rng, i):
    v = ['Ti', 'S', 'B', 'L', 'H'][(i + int(rng.integers(5))) % 5] if ctx.thorough else ['H', 'Ti', 'S', 'B', 'L'][i % 5]
    width, layers, heads, mlp = {'Ti': (192, 12, 3, 768), 'S': (384, 12, 6, 1536), 'B': (768, 12, 12, 3072), 'L': (1024, 24, 16, 4096), 'H': (1280, 32, 16, 5120)}[v]
    p, side, classes, e, last = int(rng.choice([14, 16, 32])), int(rng.integers(2, 6)), [None, int(rng.integers(2, 50))][rng.integers(2)], int(rng.choice([2, 4, 8])), int(rng.integers(1, 7))
    from vmoe.projects.soft_moe.configs import common
    kind = ['vit', 'ec', 'soft'][int(rng.integers(3))]
    size = p * side
    kw = dict(image_size=size, num_experts=e, last_n=last)
    slots = int(rng.integers(1, 4))
    c = {'vit': lambda: common.get_vit_config(v, p, classes), 'ec': lambda: common.get_vmoe_experts_choose_config(v, p, classes, **kw),
         'soft': lambda: common.get_vmoe_soft_router_config(v, p, classes, capacity_factor=None, num_slots=slots, **kw)}[kind]()
    info = f'soft_moe {kind} model of ViT-{v}/{p}, {size} px, {classes} classes, last {last}, {e} experts'
    ctx.distinct_case(info)
    m = standard_trainer.create_flax_model(config=c, deterministic=False)
    (out, _), variables = jax.eval_shape(lambda: m.init_with_output(utils.make_rngs(('params', 'gating', 'dropout'), 0), jnp.zeros((2, size, size, 3))))
    flat = {'/'.join(q): x for q, x in flax.traverse_util.flatten_dict(flax.core.unfreeze(variables['params'])).items()}
    ctx.check(out.shape == (2, classes or width), f'{info}: outputs {out.shape}')
    got = {int(re.search(r'encoderblock_(\d+)/', q).group(1)) for q in flat if '/Moe/' in q}
    ctx.check(got == (set() if kind == 'vit' else set(range(layers - last, layers))), f'{info}: experts in {sorted(got)}')
    ctx.check(all(x.shape[0] == e for q, x in flat.items() if '/Moe/Mlp/' in q), f'{info}: {[(q, x.shape) for q, x in flat.items() if "/Moe/Mlp/" in q][:4]}')
    ctx.check(flat['embedding/kernel'].shape == (p, p, 3, width), f'{info}: patches are embedded by {flat["embedding/kernel"].shape}')
    ctx.check(len({q.split('encoderblock_')[1].split('/')[0] for q in flat if 'encoderblock_' in q}) == layers, f'{info}: layers')
    q = next(q for q in flat if q.endswith('query/kernel'))
    ctx.check(flat[q].shape == (width, heads, width // heads), f'{info}: {q} is {flat[q].shape}')
    hidden = {x.shape[-1] for q, x in flat.items() if '/Mlp' in q and q.endswith('kernel')}
    ctx.check(hidden == {width, mlp}, f'{info}: MLPs of width {hidden}')
    ctx.event('soft_architecture')

  def optimizers(ctx, rng):
    # The sizes for which there are published hyperparameters.
    from vmoe.configs.vmoe_paper import common
    for v, p in (('S', 32), ('B', 32), ('B', 16), ('L', 32), ('L', 16), ('H', 14)):
      o = common.get_optimizer_config(f'ViT-{v}/{p}, E=8, K=2, Last 2, 7 Epochs').to_dict()
      tx = optimizer.create_optimizer(**o, total_steps=20_000)
      w = {'a': jnp.ones((3,))}
      st = tx.init(w)
      u, _ = tx.update({'a': jnp.ones((3,))}, st, w)
      ctx.check(np.all(np.isfinite(np.asarray(u['a']))), f'optimizer of ViT-{v}/{p}: {u}')
      lr = schedule.create_learning_rate_schedule(**o['learning_rate'], total_steps=20_000)
      ctx.check(0 < float(lr(10_000)) < 0.01 and float(lr(20_000)) < float(lr(10_000)) and float(lr(0)) < float(lr(10_000)), f'learning rate of ViT-{v}/{p}')
      ctx.event('optimizer_described')

  if spec['name'] == 'functions':
    ctx.run_case('optimizers', optimizers)
    for i in range(40 if ctx.thorough else 5):
      ctx.run_case(f'soft {i}', soft_described, i)
    for i in range(60 if ctx.thorough else 4):
      ctx.run_case(f'described {i}', described, i)
