"""P36: configuration strings resolve to exactly the named callable with literal arguments; the shared helpers keep their contracts."""

RULE = ('random call strings (names, dotted names, nested literals, keywords) and hostile ones (calls, attributes, operators, names, starred and '
        'lambda arguments, nested calls), iterators of random lengths, regex lists, partially applied classes, random key trees, configs; '
        'oracle: the generated callable and arguments, a canary for executed code, Python zip/any, distinctness of keys; distinct by input')
REQUIRED = {'call_parsed': 40, 'nested_literal': 25, 'dotted': 25, 'hostile_rejected': 40, 'zip_equal': 20, 'zip_unequal': 15, 'match_checked': 200, 'partial_checked': 30,
            'keys_checked': 20, 'config_checked': 20, 'lazy': 20}


def specs(tier):
  n = 40 if tier == 'quick' else 3000
  return [dict(name=f'w{j}', devices=1, n=n) for j in range(4)]


def run(ctx, spec):
  # pylint: disable=import-outside-toplevel
  import re
  import sys
  import types
  import flax
  import jax
  import ml_collections
  import numpy as np
  from vmoe import utils
  from vmoe.train import trainer

  canary = []
  mods = {}
  for name in ('vcanary', 'vcanary.sub', 'vcanary.sub.deep'):
    m = types.ModuleType(name)
    m.__path__ = []
    for f in ('foo', 'Bar', 'baz_1', 'fire'):
      def fn(*a, _who=(name, f), **k):
        canary.append((_who, a, k))
        return 1
      fn.who = (name, f)
      setattr(m, f, fn)
    sys.modules[name] = m
    mods[name] = m
  mods['vcanary'].sub = mods['vcanary.sub']
  mods['vcanary.sub'].deep = mods['vcanary.sub.deep']

  def literal(rng, depth=0):
    k = rng.integers(11 if depth < 3 else 7)
    if k == 0:
      return int(rng.integers(-10**9, 10**9))
    if k == 1:
      return float(rng.normal() * 10.0**rng.integers(-8, 8))
    if k == 2:
      return ['a', 'foo.bar(1)', "it's", '"', 'x=1, y=2', 'ñandú 漢', '', '__import__("os")', 'a|b', '#no'][rng.integers(10)]
    if k == 3:
      return [True, False][rng.integers(2)]
    if k == 4:
      return None
    if k == 5:
      return bytes(rng.integers(0, 256, size=3).tolist())
    if k == 6:
      return -abs(int(rng.integers(9)))
    sub = [literal(rng, depth + 1) for _ in range(rng.integers(0, 4))]
    if k == 7:
      return sub
    if k == 8:
      return tuple(sub)
    if k == 9:
      return {f'k{j}': v for j, v in enumerate(sub)}
    return {(j, 'x'): v for j, v in enumerate(sub)}

  def rejects(fn, kinds=Exception):
    try:
      fn()
    except kinds:
      return True
    return False

  def calls(ctx, rng, i):
    where = ['', 'vcanary.', 'vcanary.sub.', 'vcanary.sub.deep.'][rng.integers(4)]
    name = ['foo', 'Bar', 'baz_1'][rng.integers(3)]
    args = [literal(rng) for _ in range(rng.integers(0, 4))]
    kwargs = {k: literal(rng) for k in ['a', 'b', 'name', 'x1'][:rng.integers(0, 5)]}
    sp = [' ', ''][rng.integers(2)]
    text = where + name
    if args or kwargs or rng.random() < 0.3:
      text += '(' + (',' + sp).join([repr(a) for a in args] + [f'{k}{sp}={sp}{v!r}' for k, v in kwargs.items()]) + ')'
    default = [mods['vcanary.sub'], 'vcanary.sub'][rng.integers(2)]
    canary.clear()
    got, a, k = utils.parse_call(text, default)
    who = ((where or 'vcanary.sub.')[:-1], name)
    ctx.check(got.who == who, f'{text!r} gave {got.who}, expected {who}')
    ctx.check(a == tuple(args) and [type(v) for v in a] == [type(v) for v in args] and k == kwargs and list(k) == list(kwargs), f'{text!r} gave arguments {a} {k}')
    ctx.check(not canary, f'parsing {text!r} called {canary}')
    ctx.event('call_parsed')
    if any(isinstance(v, (list, dict, tuple)) for v in args + list(kwargs.values())):
      ctx.event('nested_literal')
    if where:
      ctx.event('dotted')
    ctx.distinct_case(text)

  hostile = ['vcanary.fire()()', 'vcanary.fire().foo', 'vcanary.sub.fire().foo(1)', 'foo(vcanary.fire())', 'foo(fire())', 'foo(a=fire())', 'foo([fire()])', 'foo(x)', 'foo(a=x)',
             'foo(lambda: 1)', 'foo(*[1, 2])', 'foo(1 if fire() else 2)', 'foo[1]', 'foo[fire()]', '1', '"foo"', 'lambda: fire()', '[fire() for _ in (1,)]', 'foo(f"{fire()}")', 'vcanary.sub[0].foo',
             'foo(1)(2)', 'foo(1).bar', '(fire(), foo)', 'foo + fire()', '-foo', 'foo; fire()', 'foo(', '', 'foo(1) or fire()', 'foo({1: fire()})', 'nosuchname', 'nosuchmodule_x.foo', 'vcanary.nosuch',
             'vcanary.nosuch.foo', 'foo(__import__("vcanary").fire())', 'x := fire()', '(x := fire())', 'foo((x := fire()))', 'vcanary.sub.deep.fire().foo()', '(lambda: fire()).foo', 'foo(1 + fire())',
             'foo(a=(1).__class__)', 'foo(().__class__.__base__)', 'foo(a=[x for x in (1,)])', 'foo([x for x in (1,)])', 'foo(a=(1).bit_length())', 'foo((1).bit_length())', 'foo(a=1 if 1 else 2)',
             'foo(a=lambda: 1)', 'foo(a=(lambda: 1)())', 'foo(a=2 * 3)', 'foo(2 * 3)', 'foo(a=[1, 2][0])', 'foo(a={x: 1 for x in (1,)})', 'foo(a="%s" % 1)', 'foo(a=not 1)', 'foo(a=1 < 2)']

  def hostile_calls(ctx, rng, i):
    text = hostile[(i * 7 + int(spec['name'][1:]) * 11) % len(hostile)]
    canary.clear()
    ctx.check(rejects(lambda: utils.parse_call(text, mods['vcanary'])), f'{text!r} was accepted')
    ctx.check(not canary, f'parsing {text!r} executed {canary}')
    ctx.event('hostile_rejected')

  def zips(ctx, rng, i):
    n = int(rng.integers(1, 5))
    base = int(rng.integers(0, 6))
    equal = rng.random() < 0.45 or n == 1
    lens = [base] * n
    if not equal:
      lens[rng.integers(n)] = base + int(rng.integers(1, 4))
    data = [[None if rng.random() < 0.1 else int(rng.integers(100)) for _ in range(k)] for k in lens]
    pulled = [0] * n

    def source(j):
      for v in data[j]:
        pulled[j] += 1
        yield v

    its = [source(j) if rng.random() < 0.6 else data[j] for j in range(n)]
    use_map = rng.random() < 0.4
    it = utils.safe_map(lambda *a: ('m',) + a, *its) if use_map else utils.safe_zip(*its)
    out, failed = [], None
    try:
      for v in it:
        out.append(v[1:] if use_map else v)
        ctx.check(max(pulled) <= len(out), f'safe zip over {lens} pulled {pulled} elements for {len(out)} results')
      ctx.event('lazy')
    except Exception as e:  # pylint: disable=broad-except
      failed = e
    want = list(zip(*data))
    ctx.check(out == want, f'safe zip over {data} gave {out}')
    ctx.check((failed is None) == (len(set(lens)) == 1), f'safe zip over lengths {lens} ended with {failed!r}')
    if failed is not None:
      ctx.check(isinstance(failed, utils.SafeZipIteratorError), f'safe zip over lengths {lens} raised {failed!r}')
    ctx.event('zip_equal' if failed is None else 'zip_unequal')
    ctx.distinct_case('zip', tuple(lens), use_map, i)

  def matches(ctx, rng, i):
    pieces = ['a', 'b|c', '^a', 'c$', 'a.b', '(a)(b)', 'x|', 'head', '.*kernel$', '[ab]+', r'Moe/.*', '^$'][0:12]
    regexes = [pieces[rng.integers(len(pieces))] for _ in range(rng.integers(0, 4))]
    arg = regexes
    if len(regexes) == 1 and rng.random() < 0.5:
      arg = regexes[0]
    fn = utils.make_match_fn_from_regex_list(arg if arg else [None, (), ''][rng.integers(3)])
    if not regexes:
      ctx.check(fn is None, 'no regexes gave a function')
      return
    for s in ['', 'a', 'b', 'c', 'ab', 'a/b', 'head/kernel', 'Moe/Mlp', 'zzz', 'kernels', 'xac', 'head/kernel/x']:
      want = any(re.search(r, s) for r in regexes)
      ctx.check(fn(s) is want or fn(s) == want, f'{regexes} on {s!r}: {fn(s)}')
      ctx.event('match_checked')

  def partials(ctx, rng, i):
    class Base:

      def __init__(self, *a, **k):
        self.a, self.k = a, k

    a0, k0 = tuple(literal(rng) for _ in range(rng.integers(0, 3))), {k: int(rng.integers(9)) for k in 'abc' if rng.random() < 0.5}
    a1, k1 = tuple(literal(rng) for _ in range(rng.integers(0, 3))), {k: int(rng.integers(9)) for k in 'bcd' if rng.random() < 0.5}
    copy = dict(k0)
    cls = utils.partialclass(Base, *a0, **k0)
    for _ in range(2):
      o = cls(*a1, **k1)
      ctx.check(o.a == a0 + a1 and o.k == {**copy, **k1} and isinstance(o, Base) and issubclass(cls, Base), f'partial class: {o.a} {o.k}')
    o = cls()
    ctx.check(o.a == a0 and o.k == copy, f'partial class: {o.a} {o.k} after other instances')
    ctx.event('partial_checked')

  def keys(ctx, rng, i):
    names = tuple(f'n{j}' for j in range(rng.integers(0, 6)))
    seed = int(rng.integers(1 << 30))
    r = utils.make_rngs(names, seed)
    ctx.check(set(r) == set(names), f'make_rngs{names}: {sorted(r)}')
    data = [tuple(np.asarray(v).tolist()) for v in r.values()]
    ctx.check(len(set(data)) == len(names) and all(np.array_equal(v, utils.make_rngs(names, seed)[k]) for k, v in r.items()), f'make_rngs{names} repeats keys or depends on history')
    if names:
      other = utils.make_rngs(names, seed + 1)
      ctx.check(not {tuple(np.asarray(v).tolist()) for v in other.values()} & set(data), f'make_rngs: seeds {seed} and {seed + 1} share keys')
    tree = {'x': r, 'y': [jax.random.PRNGKey(seed + 5)]}
    if rng.random() < 0.3:
      tree = flax.core.freeze(tree)
    n = int(rng.integers(1, 5))
    out = utils.tree_rngs_split(tree, n) if n != 2 or rng.random() < 0.5 else utils.tree_rngs_split(tree)
    ctx.check(len(out) == n and all(jax.tree.structure(o) == jax.tree.structure(tree) for o in out), f'splitting a tree of keys in {n}: {len(out)} trees')
    leaves = [tuple(np.asarray(v).tolist()) for o in out for v in jax.tree.leaves(o)] + [tuple(np.asarray(v).tolist()) for v in jax.tree.leaves(tree)]
    ctx.check(len(set(leaves)) == len(leaves), f'splitting a tree of keys in {n} repeated a key')
    # Independent of what else is in the tree.
    alone = utils.tree_rngs_split({'y': [jax.random.PRNGKey(seed + 5)]}, n)
    ctx.check(all(np.array_equal(a['y'][0], o['y'][0]) for a, o in zip(alone, out)), 'the split of a key depends on the others')
    ctx.event('keys_checked')

  def configs(ctx, rng, i):
    base = ml_collections.ConfigDict(dict(name='m', a=1, encoder=dict(layers=2, moe=dict(experts=4, router=dict(noise=1.0)))))
    over = [None, {}, dict(a=5), dict(encoder=dict(moe=dict(router=dict(noise=0.0)))), dict(b=3), dict(encoder=dict(layers=7))][rng.integers(6)]
    if over and rng.random() < 0.5:
      over = ml_collections.ConfigDict(over)
    if rng.random() < 0.5:
      base.lock()
    before = base.to_json()
    locked = base.is_locked
    out = trainer.override_base_config(base, over)

    def merge(a, b):
      a = dict(a)
      for k, v in b.items():
        a[k] = merge(a[k], v) if isinstance(v, dict) and isinstance(a.get(k), dict) else v
      return a

    want = merge(base.to_dict(), over.to_dict() if isinstance(over, ml_collections.ConfigDict) else (over or {}))
    ctx.check(out.to_dict() == want, f'overriding with {over}: {out.to_dict()}, expected {want}')
    ctx.check(base.to_json() == before and base.is_locked == locked, f'overriding with {over} changed the base configuration')
    with out.unlocked():
      out.encoder.moe.experts = 99
    ctx.check(base.encoder.moe.experts == 4, 'the overridden configuration shares parts with the base')
    ctx.event('config_checked')

  for i in range(spec['n']):
    ctx.run_case(f'c{i}', calls, i)
    ctx.run_case(f'h{i}', hostile_calls, i)
    ctx.run_case(f'z{i}', zips, i)
    ctx.run_case(f'm{i}', matches, i)
    ctx.run_case(f'p{i}', partials, i)
    if i % 2 == 0:
      ctx.run_case(f'k{i}', keys, i)
      ctx.run_case(f'o{i}', configs, i)
