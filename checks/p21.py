"""P21: preprocessing ops do what they say to the key they are told, and compose in order."""

RULE = ('random images (uint8/float32, odd sizes, constant, unique pixels), labels (scalar, multi, repeated, empty), keys and arguments for '
        'every op, eagerly and inside tf.data; random process strings of 1-6 ops; oracle: NumPy definitions; distinct by (op, arguments, shapes)')
REQUIRED = {'crop': 40, 'resize': 40, 'resize_small': 40, 'random_crop': 60, 'area_checked': 60, 'flip': 30, 'onehot': 60, 'value_range': 40, 'keys': 30,
            'valid': 20, 'composed': 30, 'in_graph': 30, 'untouched': 200, 'jpeg': 8, 'decode': 20, 'randomness': 4}


def specs(tier):
  n = 40 if tier == 'quick' else 1000
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(5)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import struct
  import numpy as np
  import tensorflow as tf
  from vmoe.data import input_pipeline
  from vmoe.data import pp_ops
  V = '__valid__'

  def image(rng, lo=3, hi=40, channels=3, dtype=None):
    h, w = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    if rng.random() < 0.05:
      h, w = 3 * h + 20, 5 * w + 31
    a = rng.integers(0, 256, size=(h, w, channels))
    return a.astype(dtype or [np.uint8, np.float32][rng.integers(2)])

  def apply(ctx, rng, op, data, args, kwargs, info):
    """Runs an op on a copy of the data, eagerly or in a graph."""
    src = {k: tf.convert_to_tensor(v) for k, v in data.items()}
    fn = getattr(pp_ops, op)(*args, **kwargs)
    if rng.random() < 0.4:
      out = next(iter(tf.data.Dataset.from_tensors(src).map(lambda d: fn(dict(d)))))
      ctx.event('in_graph')
    else:
      out = fn(dict(src))
    ctx.distinct_case(op, repr(args), repr(kwargs), str([np.shape(v) for v in data.values()]))
    return {k: np.asarray(v) for k, v in out.items()}

  def with_keys(ctx, rng, op, x, args=(), default='image', **kwargs):
    """Runs a single-input single-output op under a random choice of keys."""
    mode = int(rng.integers(4))
    other = rng.normal(size=(2, 3)).astype(np.float32)
    if mode == 0:
      data, kw, outkey = {default: x, 'other': other}, {}, default
    elif mode == 1:
      data, kw, outkey = {'foo': x, 'other': other, default: other}, dict(key='foo'), 'foo'
    elif mode == 2:
      data, kw, outkey = {'foo': x, 'other': other, default: other}, dict(inkey='foo', outkey='bar'), 'bar'
    else:
      data, kw, outkey = {default: x, 'other': other}, dict(outkey='bar'), 'bar'
    out = apply(ctx, rng, op, data, args, kwargs | kw, op)
    want_keys = set(data) | {outkey}
    ctx.check(set(out) == want_keys, f'{op} {kw}: keys {sorted(out)} instead of {sorted(want_keys)}')
    for k in data:
      if k != outkey:
        ctx.check(np.array_equal(out[k], data[k]) and out[k].dtype == data[k].dtype, f'{op} {kw} altered {k}')
        ctx.event('untouched')
    return out[outkey]

  def bilinear(x, h, w):
    """Half pixel centers, without antialiasing."""
    def axis(n_in, n_out):
      c = (np.arange(n_out) + 0.5) * n_in / n_out - 0.5
      f = np.floor(c)
      return np.clip(f, 0, n_in - 1).astype(int), np.clip(f + 1, 0, n_in - 1).astype(int), (c - f)
    x = x.astype(np.float64)
    y0, y1, dy = axis(x.shape[0], h)
    x0, x1, dx = axis(x.shape[1], w)
    dy, dx = dy[:, None, None], dx[None, :, None]
    top = x[y0][:, x0] * (1 - dx) + x[y0][:, x1] * dx
    bot = x[y1][:, x0] * (1 - dx) + x[y1][:, x1] * dx
    return top * (1 - dy) + bot * dy

  def same_image(a, b, dtype):
    a, b = a.astype(np.float64), b.astype(np.float64)
    return a.shape == b.shape and np.all(np.abs(a - b) <= (1.01 if dtype == np.uint8 else 0.02))

  def find_window(x, out):
    """The window of x equal to out, or None."""
    h, w = out.shape[:2]
    if h > x.shape[0] or w > x.shape[1] or not h or not w:
      return None
    ys, xs = np.nonzero(np.all(x[:x.shape[0] - h + 1, :x.shape[1] - w + 1] == out[0, 0], axis=-1))
    for y, z in zip(ys, xs):
      if np.array_equal(x[y:y + h, z:z + w], out):
        return int(y), int(z)
    return None

  def unique_image(rng):
    h, w = int(rng.integers(12, 60)), int(rng.integers(12, 60))
    ids = np.arange(h * w)
    return np.stack([ids % 256, ids // 256, ids % 7], -1).reshape(h, w, 3).astype(np.uint8)

  def bmp_of(x):
    h, w = x.shape[:2]
    pad = b'\0' * (-3 * w % 4)
    body = b''.join(row[:, ::-1].tobytes() + pad for row in x[::-1])
    return (b'BM' + struct.pack('<IHHI', 54 + len(body), 0, 0, 54) + struct.pack('<IiiHHIIiiII', 40, w, h, 1, 24, 0, len(body), 0, 0, 0, 0)
            + body)

  def area_ok(x, out, lo, hi):
    # The boxes are sampled by TF with integer sizes: allow one pixel in each direction.
    total = x.shape[0] * x.shape[1]
    h, w = out.shape[:2]
    return (h + 1) * (w + 1) >= lo / 100 * total and (h - 1) * (w - 1) <= hi / 100 * total

  def case(ctx, rng, i):
    # Central crop.
    x = image(rng)
    h, w = int(rng.integers(1, x.shape[0] + 1)), int(rng.integers(1, x.shape[1] + 1))
    size = min(h, w) if rng.random() < 0.3 else ([h, w] if rng.random() < 0.5 else (h, w))
    if isinstance(size, int):
      h = w = size
    out = with_keys(ctx, rng, 'central_crop', x, (size,))
    y0, x0 = (x.shape[0] - h) // 2, (x.shape[1] - w) // 2
    ctx.check(np.array_equal(out, x[y0:y0 + h, x0:x0 + w]), f'central_crop({size}) of {x.shape} is not the central window')
    ctx.event('crop')

    # Resize.
    x = image(rng)
    h, w = (int(rng.integers(1, 60)), int(rng.integers(1, 60))) if rng.random() < 0.8 else x.shape[:2]
    size = h if rng.random() < 0.3 else [[h, w], (h, w)][rng.integers(2)]
    if isinstance(size, int):
      w = h
    method = ['bilinear', 'nearest', 'bicubic', 'area', None][rng.integers(5)]
    out = with_keys(ctx, rng, 'resize', x, (size,) + ((method,) if method else ()))
    ctx.check(out.shape == (h, w, 3) and out.dtype == x.dtype, f'resize({size}, {method}) of {x.shape} {x.dtype} gives {out.shape} {out.dtype}')
    if method in (None, 'bilinear'):
      ctx.check(same_image(out, bilinear(x, h, w), x.dtype), f'resize({size}) of {x.shape} is not the bilinear interpolation')
    elif method == 'nearest':
      yy = np.minimum(np.floor((np.arange(h) + 0.5) * x.shape[0] / h + 1e-6), x.shape[0] - 1).astype(int)
      xx = np.minimum(np.floor((np.arange(w) + 0.5) * x.shape[1] / w + 1e-6), x.shape[1] - 1).astype(int)
      ctx.check(np.mean(np.all(x[yy][:, xx] == out, axis=-1)) > 0.8, f'resize({size}, nearest) of {x.shape} is not the nearest pixel')
    else:
      ref = tf.image.resize(x, (h, w), method).numpy()
      if x.dtype == np.uint8:  # No pixel may wrap around.
        ref = np.clip(ref, 0, 255)
        ctx.event('overshoot', int(method == 'bicubic'))
      ctx.check(same_image(out, ref, x.dtype), f'resize({size}, {method}) of {x.shape} differs from tf.image.resize, within the range of {x.dtype}')
    if (h, w) == x.shape[:2]:
      ctx.check(same_image(out, x, x.dtype), f'resizing to the same size with {method} changed the image')
    ctx.event('resize')

    # Resize the smaller side.
    x = image(rng)
    small = int(rng.integers(1, 50))
    if rng.random() < 0.4:
      f = int(rng.integers(1, 4))
      x = np.repeat(np.repeat(x, f, 0), f, 1)
      small = min(x.shape[:2]) // f
    out = with_keys(ctx, rng, 'resize_small', x, (small,))
    ratio = small / min(x.shape[:2])
    want = [d * ratio for d in x.shape[:2]]
    ctx.check(min(out.shape[:2]) == small, f'resize_small({small}) of {x.shape} gives {out.shape}')
    ctx.check(all(abs(o - t) <= 0.5 + 1e-3 for o, t in zip(out.shape, want)), f'resize_small({small}) of {x.shape} gives {out.shape}: aspect ratio')
    ctx.check(out.min() >= x.min() - 1e-2 and out.max() <= x.max() + 1e-2 and abs(out.mean() - x.mean()) < 40, f'resize_small({small}): values out of range')
    if small == min(x.shape[:2]):
      ctx.check(np.allclose(out, x, atol=1e-2), 'resize_small to the same size changed the image')
    elif all(d % o == 0 for d, o in zip(x.shape, out.shape)) and x.shape[0] // out.shape[0] == x.shape[1] // out.shape[1]:
      f = x.shape[0] // out.shape[0]
      blocks = x.astype(np.float64).reshape(out.shape[0], f, out.shape[1], f, 3).mean((1, 3))
      ctx.check(np.allclose(out, blocks, atol=0.05), f'resize_small({small}) of {x.shape} is not the mean of the areas')
    ctx.event('resize_small')

    # Random crops.
    x = unique_image(rng)
    lo = int(rng.choice([5, 8, 30, 60]))
    hi = int(rng.choice([v for v in (10, 40, 70, 100) if v > lo]))
    kw = dict(area_min=lo, area_max=hi) if rng.random() < 0.7 else {}
    if not kw:
      lo, hi = 5, 100
    for _ in range(2):
      out = with_keys(ctx, rng, 'inception_crop', x, **kw)
      pos = find_window(x, out)
      ctx.check(pos is not None, f'inception_crop({kw}) of {x.shape} gives {out.shape}, which is no window of the image')
      full = out.shape == x.shape  # TF uses the entire image if no valid box was found.
      ctx.check(full or area_ok(x, out, lo, hi), f'inception_crop({kw}) of {x.shape} gives {out.shape}: outside of [{lo}, {hi}] % of the area')
      ratio = out.shape[1] / out.shape[0]
      slack = 1 + 1.5 / min(out.shape[:2])
      ctx.check(full or 0.75 / slack <= ratio <= 4 / 3 * slack, f'inception_crop of {x.shape} gives {out.shape}: aspect ratio {ratio}')
      ctx.event('area_checked')
      ctx.event('random_crop')
    size = int(rng.integers(4, 30))
    x = np.full((17, 23, 3), int(rng.integers(0, 256)), np.uint8)
    out = with_keys(ctx, rng, 'inception_crop', x, (size,), **kw)
    ctx.check(out.shape == (size, size, 3) and out.dtype == x.dtype and np.all(np.abs(out.astype(int) - x[0, 0, 0]) <= 1),
              f'inception_crop({size}) of a constant image gives {out.shape} with values {np.unique(out)[:5]}')

    # Flips.
    x = unique_image(rng).astype([np.uint8, np.float32, np.int32][rng.integers(3)])
    out = with_keys(ctx, rng, 'flip_lr', x)
    ctx.check(out.dtype == x.dtype, f'flip_lr changed {x.dtype} to {out.dtype}')
    ctx.check(np.array_equal(out, x) or np.array_equal(out, x[:, ::-1]), 'flip_lr gives neither the image nor its mirror image')
    ctx.event('flip')

    # One-hot labels.
    depth = int(rng.integers(1, 12))
    on, off = [(1.0, 0.0), (0.9, 0.1), (1.0, -1.0), (2.0, 0.5), (0.0, 1.0)][rng.integers(5)]
    kw = dict(on=on, off=off) if (on, off) != (1.0, 0.0) or rng.random() < 0.5 else {}
    kind = rng.integers(3)
    dtype = [np.int64, np.int32][rng.integers(2)]
    if kind == 0:
      lab = np.asarray(rng.integers(-1, depth), dtype)
      multi = bool(rng.integers(2))
      want = np.where(np.arange(depth) == lab, on, off)
    else:
      lab = rng.integers(0, depth, size=int(rng.integers(0, 6))).astype(dtype)
      multi = kind == 1
      want = (np.where(np.isin(np.arange(depth), lab), on, off) if multi else np.where(np.arange(depth)[None] == lab[:, None], on, off))
    if not multi or rng.random() < 0.5:
      kw['multi'] = multi
    out = with_keys(ctx, rng, 'onehot', lab, (depth,), default='labels', **kw)
    ctx.check(out.shape == want.shape and np.allclose(out, want, atol=1e-6) and out.dtype == np.float32, f'onehot({depth}, {kw}) of {lab} gives {out}')
    ctx.event('onehot')

    # Value range.
    x = image(rng, dtype=[np.uint8, np.float32, np.int32][rng.integers(3)])
    vmin, vmax = [(-1, 1), (0, 1), (-0.5, 0.5), (2, 7), (0, 255)][rng.integers(5)]
    kw = {}
    a, b = 0.0, 255.0
    r = rng.integers(3)
    if r == 1:
      a, b = float(rng.integers(0, 50)), float(rng.integers(100, 300))
      kw = dict(in_min=a, in_max=b)
    elif r == 2:
      a, b = np.array([0., 10., 20.]), np.array([255., 128., 99.])
      kw = dict(in_min=[0, 10, 20], in_max=[255, 128, 99])
    clip = bool(rng.integers(2))
    if clip:
      kw['clip_values'] = True
    want = vmin + (x.astype(np.float64) - a) / (b - a) * (vmax - vmin)
    want = np.clip(want, vmin, vmax) if clip else want
    out = with_keys(ctx, rng, 'value_range', x, (vmin, vmax), **kw)
    ctx.check(out.dtype == np.float32 and np.allclose(out, want, atol=1e-3), f'value_range({vmin}, {vmax}, {kw}) is wrong by {np.abs(out - want).max() if out.shape == want.shape else out.shape}')
    ctx.event('value_range')

    # Reshape.
    x = image(rng)
    new = [(-1,), (x.shape[1], x.shape[0], 3), (3, x.shape[0] * x.shape[1]), (x.size // 3, 3)][rng.integers(4)]
    out = with_keys(ctx, rng, 'reshape', x, (new,))
    ctx.check(np.array_equal(out, x.reshape(new)) and out.dtype == x.dtype, f'reshape({new}) of {x.shape} moved values')

    # Ops on the dictionary.
    data = {k: rng.normal(size=(2,)).astype(np.float32) for k in ('a', 'b', 'image', 'labels', V)[int(rng.integers(0, 2)):]}
    keys = rng.choice(['a', 'b', 'image', 'labels', 'missing'], size=int(rng.integers(0, 4)), replace=False).tolist()
    out = apply(ctx, rng, 'keep', data, tuple(keys), {}, 'keep') if any(k in data for k in keys) or V in data else data
    want = {k for k in data if k in keys or k == V} if out is not data else set(data)
    ctx.check(set(out) == want and all(np.array_equal(out[k], data[k]) for k in want), f'keep{tuple(keys)} of {sorted(data)} gives {sorted(out)}')
    src, dst = 'b', ['a', 'new', 'b', 'image'][rng.integers(4)]
    out = apply(ctx, rng, 'copy', data, (src, dst), {}, 'copy')
    ctx.check(set(out) == set(data) | {dst} and np.array_equal(out[dst], data[src]) and all(np.array_equal(out[k], data[k]) for k in data if k != dst),
              f'copy({src}, {dst}) gives {sorted(out)}')
    nested = pp_ops.flatten()({'a': {'b': 1, 'c': {'d': 2}}, 'e': 3})
    ctx.check(nested == {'a/b': 1, 'a/c/d': 2, 'e': 3}, f'flatten gives {nested}')
    ctx.event('keys')

    # Examples without labels are marked as invalid, and others keep their mark.
    n_lab = int(rng.integers(0, 3))
    prior = [None, True, False][rng.integers(3)]
    one = rng.random() < 0.2  # A single label, not a list.
    n_lab = 1 if one else n_lab
    data = {'labels': np.int64(3) if one else np.arange(n_lab).astype(np.int64)} | ({} if prior is None else {V: np.asarray(prior)})
    out = apply(ctx, rng, 'ignore_no_labels', data, (), {}, 'ignore_no_labels')
    ctx.check(bool(out[V]) == (n_lab > 0 and prior is not False), f'{n_lab} labels, valid={prior}: marked {out[V]}')
    ctx.check(np.array_equal(out['labels'], data['labels']), 'ignore_no_labels altered the labels')
    ctx.event('valid')

    # Decoding.
    x = unique_image(rng)
    png = tf.io.encode_png(x).numpy()
    out = with_keys(ctx, rng, 'decode', np.asarray(png, object))
    ctx.check(np.array_equal(out, x) and out.dtype == np.uint8, 'decode does not restore a PNG image')
    bmp = bmp_of(x)
    out = with_keys(ctx, rng, 'decode', np.asarray(bmp, object))
    ctx.check(np.array_equal(out, x) and out.dtype == np.uint8, 'decode does not restore a BMP image')
    gray = tf.io.encode_png(x[..., :1]).numpy()
    out = with_keys(ctx, rng, 'decode', np.asarray(gray, object))
    ctx.check(np.array_equal(out, np.repeat(x[..., :1], 3, -1)), 'decode does not expand gray images')
    out = with_keys(ctx, rng, 'decode', np.asarray(gray, object), channels=1)
    ctx.check(np.array_equal(out, x[..., :1]), 'decode(channels=1) is wrong')
    ctx.event('decode')

    if i % 4 == 0:
      h, w = int(rng.integers(24, 64)), int(rng.integers(24, 64))
      yy, xx = np.meshgrid(np.arange(h), np.arange(w), indexing='ij')
      x = np.stack([yy * 4 % 256, xx * 4 % 256, 0 * xx + 100], -1).astype(np.uint8)
      jpg = tf.io.encode_jpeg(x, quality=100, chroma_downsampling=False).numpy()
      full = tf.io.decode_image(jpg, channels=3).numpy().astype(int)
      lo, hi = [(5, 100), (40, 60), (10, 30)][rng.integers(3)]
      out = with_keys(ctx, rng, 'decode_jpeg_and_inception_crop', np.asarray(jpg, object), area_min=lo, area_max=hi).astype(int)
      ctx.check(out.shape == full.shape or area_ok(full, out, lo, hi), f'jpeg crop of {full.shape} gives {out.shape}: outside of [{lo}, {hi}] %')
      best = min((np.abs(full[a:a + out.shape[0], b:b + out.shape[1]] - out).mean() for a in range(h - out.shape[0] + 1) for b in range(w - out.shape[1] + 1)),
                 default=1e9)
      ctx.check(best < 6, f'jpeg crop of {full.shape} gives {out.shape}, no window of the image ({best})')
      out = with_keys(ctx, rng, 'decode_jpeg_and_inception_crop', np.asarray(jpg, object), (12,))
      ctx.check(out.shape == (12, 12, 3), f'jpeg crop with resize gives {out.shape}')
      ctx.event('jpeg')

    # Process strings apply their ops in order.
    steps = []
    for _ in range(int(rng.integers(1, 7))):
      k = rng.integers(5)
      if k == 0:
        lo, hi = sorted(rng.choice(50, size=2, replace=False).tolist())
        steps.append((f'value_range({lo}, {hi}, in_min=1, in_max=3)', lambda d, lo=lo, hi=hi: d | {'image': lo + (d['image'] - 1) / 2 * (hi - lo)}))
      elif k == 1:
        steps.append(('copy("image", outkey="c%d")' % len(steps), lambda d, j=len(steps): d | {f'c{j}': d['image']}))
      elif k == 2:
        steps.append(('reshape((-1,))', lambda d: d | {'image': d['image'].reshape(-1)}))
      elif k == 3:
        steps.append((' value_range( -1,1 , key = "z") ', lambda d: d | {'z': -1 + d['z'] / 255. * 2}))
      else:
        steps.append(("copy('z', 'image')", lambda d: d | {'image': d['z']}))
    string = '|'.join(s.strip() if rng.random() < 0.5 else s.strip() + ' ' for s, _ in steps)
    src = {'image': rng.normal(size=(2, 3)).astype(np.float32), 'z': rng.normal(size=(4,)).astype(np.float32)}
    want = {k: v.astype(np.float64) for k, v in src.items()}
    for _, f in steps:
      want = f(want)
    fn = input_pipeline.get_data_process_fn(string)
    out = fn({k: tf.constant(v) for k, v in src.items()})
    ctx.check(set(out) == set(want), f'{string}: keys {sorted(out)}')
    for k in want:
      scale = max(1.0, np.abs(want[k]).max())
      ctx.check(out[k].shape == want[k].shape and np.allclose(out[k], want[k], rtol=1e-3, atol=1e-4 * scale), f'{string}: {k} is {out[k]}, expected {want[k]}')
    ctx.event('composed')
    ctx.sample(string)

  def random_case(ctx, rng):
    """Random ops are random: across draws all outcomes appear."""
    x = unique_image(rng)
    ds = tf.data.Dataset.from_tensors({'image': x}).repeat(100)
    flips = [np.array_equal(d['image'], x) for d in ds.map(pp_ops.flip_lr()).as_numpy_iterator()]
    ctx.check(20 <= sum(flips) <= 80, f'flip_lr left {sum(flips)} of 100 images as they are')
    crops = [find_window(x, d['image']) + d['image'].shape for d in ds.map(pp_ops.inception_crop()).as_numpy_iterator()]
    ctx.check(len(set(crops)) > 30, f'inception_crop gives only {len(set(crops))} distinct windows in 100')
    ctx.event('randomness')

  for i in range(spec['n']):
    ctx.run_case(f'{i}', case, i)
  ctx.run_case('random', random_case)
