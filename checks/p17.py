"""P17: the logical device mesh uses every device once and keeps processes contiguous."""
import json
import os
import time

RULE = ('random CPU/GPU hosts x devices and TPU (core,x,y,z) topologies with rectangular per-process blocks and shuffled device '
        'lists, every feasible and infeasible number of partitions; plus real multi-process jobs where every rank must compute the '
        'same mesh; oracle: bijection, shape, names, brute-force contiguity; distinct by (topology, process block, partitions)')
REQUIRED = {'mesh_built': 300, 'bijection_checked': 300, 'contiguous_checked': 250, 'infeasible_rejected': 60,
            'contiguity_predicate': 300, 'tiled_by_process': 10, 'ranks_agree': 2, 'within_process': 40, 'clamped': 10}


def specs(tier):
  n = 60 if tier == 'quick' else 2000
  return [dict(name=f'w{j}', devices=2, n=n) for j in range(4)] + [
      dict(name='mp2', devices=4, procs=2, n=3), dict(name='mp3', devices=2, procs=3, n=3)]


class Dev:
  """A stand-in for a device of another topology."""
  device_kind = 'fake'

  def __init__(self, i, process, platform, core=None, coords=None):
    self.id, self.process_index, self.platform = i, process, platform
    if platform == 'tpu':
      self.core_on_chip, self.coords = core, coords

  def __repr__(self):
    return f'D{self.id}@{self.process_index}'


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import itertools
  import jax
  import numpy as np
  from vmoe import partitioning
  multi = bool(spec.get('shared'))

  def brute_contiguous(devs, p):
    mask = np.vectorize(lambda d: d.process_index == p, otypes=[bool])(devs)
    idx = np.argwhere(mask)
    lo, hi = idx.min(0), idx.max(0)
    return int(np.prod(hi - lo + 1)) == len(idx)

  def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]

  def check_mesh(mesh, devices, parts, info):
    ctx.event('mesh_built')
    ctx.check(tuple(mesh.axis_names) == ('expert', 'replica'), f'{info}: axis names {mesh.axis_names}')
    ctx.check(mesh.devices.shape == (parts, len(devices) // parts), f'{info}: mesh of shape {mesh.devices.shape}')
    ctx.check(sorted(d.id for d in mesh.devices.flatten()) == sorted(d.id for d in devices),
              f'{info}: the mesh does not contain every device exactly once')
    ctx.event('bijection_checked')

  def fake_case(ctx, rng, i):
    tpu = bool(i % 2)
    if tpu:
      v4 = rng.random() < 0.5
      shape = (int(rng.choice([1, 2])), int(rng.choice([1, 2, 4])), int(rng.choice([1, 2, 4])), int(rng.choice([2, 4])) if v4 else 1)
      local = (shape[0],) + tuple(int(rng.choice([x for x in divisors(s) if x <= 2])) for s in shape[1:])
    else:
      shape = (int(rng.choice([1, 2, 4, 8, 6, 3])), int(rng.choice([1, 2, 3, 4])))
      local = (shape[0], 1)
    grid = tuple(s // l for s, l in zip(shape, local))
    devices = []
    order = list(itertools.product(*map(range, grid)))
    rng.shuffle(order)
    proc_of = {tuple(g): p for p, g in enumerate(order)} if tpu else {g: g[1] for g in itertools.product(*map(range, grid))}
    per = {}
    for c in itertools.product(*map(range, shape)):
      p = proc_of[tuple(a // l for a, l in zip(c, local))]
      k = per.get(p, 0)
      per[p] = k + 1
      nloc = int(np.prod(local))
      if tpu:
        devices.append(Dev(p * nloc + k, p, 'tpu', c[0], c[1:]))
      else:
        devices.append(Dev(p * nloc + c[0], p, 'gpu'))
    devices = [devices[j] for j in rng.permutation(len(devices))]
    n = len(devices)
    me = [d for d in devices if d.process_index == 0]
    saved = jax.local_device_count, jax.local_devices
    jax.local_device_count, jax.local_devices = (lambda *a, **k: len(me)), (lambda *a, **k: list(me))
    try:
      for parts in sorted({int(rng.integers(1, n + 1)), *rng.choice(divisors(n), size=3).tolist(), n + int(rng.integers(0, 3))}):
        info = f'{"TPU" if tpu else "GPU"} topology {shape}, process block {local}, {parts} partitions'
        want = min(parts, n)
        if parts > n:
          ctx.event('clamped')
        try:
          mesh = partitioning.get_auto_logical_mesh(int(parts), devices)
        except ValueError:
          # Allowed only if the count cannot be factored over the axes by filling them in some order, or a process
          # block straddles partitions and replicas.
          ctx.event('infeasible_rejected')
          ctx.check(n % want != 0 or want not in (1, n), f'{info}: rejected')
          if not tpu:
            d = want if want <= shape[0] else shape[0]
            ok = shape[0] % d == 0 and want % d == 0 and shape[1] % (want // d) == 0
            ctx.check(not ok, f'{info}: rejected although it can be factored')
          continue
        check_mesh(mesh, devices, want, info)
        if not tpu and want <= shape[0]:
          for col in mesh.devices.T:
            ctx.check(len({d.process_index for d in col}) == 1,
                      f'{info}: the experts of one replica are spread over processes although one process has enough devices')
          ctx.event('within_process')
        for p in per:
          ctx.check(brute_contiguous(mesh.devices, p), f'{info}: devices of process {p} are not contiguous: {mesh.devices.tolist()}')
        ctx.event('contiguous_checked')
        hw = partitioning.get_hardware_mesh_tpu(devices) if tpu else partitioning.get_hardware_mesh_other(devices)
        ctx.check(hw.shape == shape and all(partitioning.get_device_coords(hw[c]) == c for c in itertools.product(*map(range, shape))),
                  f'{info}: hardware mesh has devices at other coordinates')
        lshape = partitioning.get_hardware_mesh_local_shape(me)
        ctx.check(lshape == local, f'{info}: local shape {lshape}')
        partitioning.log_logical_mesh(mesh)
        ctx.distinct_case(tpu, shape, local, want)
        ctx.sample(info)
    finally:
      jax.local_device_count, jax.local_devices = saved

  def explicit_case(ctx, rng, i):
    """Explicit partitions of each hardware axis."""
    nd = int(rng.choice([2, 4]))
    shape = tuple(int(rng.choice([1, 2, 2, 4, 6])) for _ in range(nd))
    local = tuple(int(rng.choice([x for x in divisors(s) if x <= 3])) for s in shape)
    hw = np.empty(shape, object)
    grid = tuple(s // l for s, l in zip(shape, local))
    perm = rng.permutation(int(np.prod(grid)))
    devices = []
    for j, c in enumerate(itertools.product(*map(range, shape))):
      g = tuple(a // l for a, l in zip(c, local))
      p = int(perm[np.ravel_multi_index(g, grid)])
      hw[c] = Dev(j, p, 'tpu', c[0], c[1:]) if nd == 4 else Dev(j, p, 'gpu')
      hw[c].xy = c
      devices.append(hw[c])
    parts = tuple(int(rng.choice(divisors(s))) for s in shape)
    info = f'hardware {shape}, process block {local}, partitions {parts}'
    def coords(d):
      return d.xy
    saved = partitioning.get_device_coords, jax.local_devices
    partitioning.get_device_coords = coords
    jax.local_devices = lambda *a, **k: [d for d in devices if d.process_index == 0]
    try:
      mesh = partitioning.get_logical_mesh(parts, hw)
    except ValueError:
      ctx.event('infeasible_rejected')
      ctx.check(any(p % l and (s // p) % l for p, s, l in zip(parts, shape, local)), f'{info}: rejected')
      return
    finally:
      partitioning.get_device_coords, jax.local_devices = saved
    check_mesh(mesh, devices, int(np.prod(parts)), info)
    for p in {d.process_index for d in devices}:
      ctx.check(brute_contiguous(mesh.devices, p), f'{info}: devices of process {p} are not contiguous')
    ctx.event('contiguous_checked')
    if any(1 < l for l in local):
      ctx.event('tiled_by_process')
    # Devices of one partition differ only in their replica coordinates along each axis.
    for row in mesh.devices:
      for ax in range(nd):
        k = len({d.xy[ax] for d in row})
        ctx.check(k == shape[ax] // parts[ax], f'{info}: a partition covers {k} coordinates along axis {ax}')
    ctx.distinct_case('explicit', shape, local, parts)

  def predicate_case(ctx, rng, i):
    for _ in range(5):
      sh = tuple(int(rng.integers(1, 5)) for _ in range(int(rng.integers(1, 4))))
      procs = int(rng.integers(1, 4))
      if rng.random() < 0.5:
        a = np.sort(rng.integers(0, procs, size=int(np.prod(sh)))).reshape(sh)
      else:
        a = rng.integers(0, procs, size=sh)
      devs = np.vectorize(lambda p: Dev(0, int(p), 'gpu'), otypes=[object])(a)
      present = sorted(set(a.ravel().tolist()))
      each = {p: brute_contiguous(devs, p) for p in present}
      for p in present:
        ctx.check(bool(partitioning.process_has_contiguous_device_slice(devs, p)) == each[p],
                  f'contiguity of process {p} in {a.tolist()} misjudged')
      ctx.check(bool(partitioning.processes_have_contiguous_device_slices(devs)) == all(each.values()),
                f'contiguity of {a.tolist()} misjudged')
      ctx.event('contiguity_predicate')

  def real_case(ctx, rng, i):
    n = jax.device_count()
    parts = divisors(n)[i % len(divisors(n))]
    try:
      mesh = partitioning.get_auto_logical_mesh(parts)
      ids = mesh.devices.tolist()
      ids = [[d.id for d in row] for row in ids]
      check_mesh(mesh, jax.devices(), parts, f'{jax.process_count()} real processes, {parts} partitions')
      for p in range(jax.process_count()):
        ctx.check(brute_contiguous(mesh.devices, p), f'devices of process {p} are not contiguous: {ids}')
    except ValueError:
      ids = 'rejected'
    base = os.path.join(spec['shared_dir'], f'mesh_{i}_')
    with open(base + f'{spec["rank"]}.tmp', 'w') as fp:
      json.dump(ids, fp)
    os.rename(base + f'{spec["rank"]}.tmp', base + str(spec['rank']))
    t = time.time()
    for r in range(spec['procs']):
      while not os.path.exists(base + str(r)):
        if time.time() - t > 60:
          return
        time.sleep(0.02)
      with open(base + str(r)) as fp:
        ctx.check(json.load(fp) == ids, f'ranks {r} and {spec["rank"]} build different meshes for {parts} partitions')
    ctx.event('ranks_agree')
    ctx.distinct_case('real', n, parts, spec['procs'])

  for i in range(spec['n']):
    if multi:
      ctx.run_case(f'real{i}', real_case, i)
    else:
      ctx.run_case(f'fake{i}', fake_case, i)
      ctx.run_case(f'explicit{i}', explicit_case, i)
      ctx.run_case(f'pred{i}', predicate_case, i)
