"""C06 masked."""
from core import *
from generic import *

def table_mask(py, **kw):
  """Mask record of a real mask pytree (booleans at its leaves)."""
  flat, _ = jax.tree_util.tree_flatten_with_path(py)
  return {'fn': 'table', 'm': [{'path': [ir._key(k) for k in path], 'sel': bool(b)} for path, b in flat], '_py': kw.get('real', py)}

def leaf(c, b, traced=True):
  """The forms a boolean of a mask comes in."""
  return c.rng.choice([bool, bool, np.bool_, np.asarray] + ([jnp.asarray] if traced else []))(b)

def forms(c, py, traced=True):
  return tm(lambda b: leaf(c, b, traced), py)

def from_plan(m):
  if len(m) == 1: return m[0]['sel']
  if len(m) == 2: return {'a': m[0]['sel'], 'b': m[1]['sel']}
  return {'a': {'x': m[0]['sel'], 'y': m[1]['sel']}, 'b': m[2]['sel']}

def T(x, y, z): return {'a': {'x': jnp.asarray(float(x)), 'y': jnp.asarray(float(y))}, 'b': jnp.asarray(float(z))}

@job('64', shards=4)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_mask'], lambda p: str(p['m']))):
    py = from_plan(g[0]['m'])
    for real in (py, lambda t, py=py: py):
      r = c.run('mask=%s callable=%s' % (py, callable(real)),
                {'k': 'masked', 'mask': table_mask(py, real=real), 'in': probe_cfg(2, True, True)})
      r.init(T(3, 5, -1))
      trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(T(*x), T(a, 2 * a, a - 3), a, b))

def rand_mask(c, tree, prefix=False):
  """A random boolean pytree matching (or being a prefix of) tree."""
  rng = c.rng
  def rec(t):
    if t is None: return None
    if prefix and rng.random() < .3: return rng.random() < .5
    if isinstance(t, dict): return {k: rec(v) for k, v in t.items()}
    if isinstance(t, tuple) and hasattr(t, '_fields'): return type(t)(*[rec(v) for v in t])
    if isinstance(t, (list, tuple)): return type(t)(rec(v) for v in t)
    return rng.random() < .5
  return rec(tree)

@job(shards=3)
def histories(c):
  for i in c.each(27):
    dt = c.rng.choice(c.dtypes())
    p = c.params(dt)
    kind = i % 4
    if kind == 3: mask = {'fn': c.rng.choice(['rank_ne_1', 'rank_eq_0', 'all', 'none'])}
    else:
      py = rand_mask(c, p, prefix=kind == 2)
      # (a callable that makes device arrays under jit would give tracers)
      real = forms(c, py, traced=kind != 1)
      mask = table_mask(py, real=(lambda t, real=real: real) if kind == 1 else real)
    sel = lambda t: True
    inner = inner_tx(c, dt)
    if c.rng.random() < .3 and dt == c.f(): inner = probe_cfg(2, True, True)
    cfg = {'k': 'masked', 'mask': mask, 'in': inner}
    r = c.run('%s %s' % (inner['k'], kind), cfg, jit=i % 6 != 5)
    wp = None if c.rng.random() < .5 else True
    # leaves outside the selection may hold anything, NaN included
    def g(i):
      t = c.like(p, modes=gmodes(dt))
      return c.poison(t) if c.rng.random() < .15 and dt == 'float64' else t
    drive(c, r, p, 5 if r.jit else 3, g=g, with_params=wp)

@job('64')
def two_masks(c):
  """Complementary masks in a chain, masks inside masks, params dependence."""
  for i in c.each(6):
    p = c.params('float64', struct=c.rng.choice(['nested', 'dict', 'deep', 'none']))
    py = rand_mask(c, p)
    inv = tm(lambda b: not b, py)
    cfg = {'k': 'chain', 'm': [{'k': 'masked', 'mask': table_mask(py, real=forms(c, py)), 'in': inner_tx(c, 'float64')},
                               {'k': 'masked', 'mask': table_mask(inv), 'in': inner_tx(c, 'float64')},
                               {'k': 'masked', 'mask': {'fn': 'rank_ne_1'}, 'in': {'k': 'wd', 'c': N(.1)}}]}
    drive(c, c.run('chain', cfg), p, 4)

@job('64')
def no_params(c):
  """Works without params, and inner transformations that need them complain."""
  p = c.params('float64', struct='nested')
  for inner in ({'k': 'trace', 'decay': N(.9), 'nesterov': True, 'acc': ''}, {'k': 'wd', 'c': N(.1)}, {'k': 'trust', 'min': N(0.)}):
    for mask in ({'fn': 'rank_ne_1'}, {'fn': 'all'}, {'fn': 'none'}):
      r = c.run(inner['k'] + mask['fn'], {'k': 'masked', 'mask': mask, 'in': inner}, jit=False)
      drive(c, r, p, 2, with_params=False)
      r.upd(c.like(p), p)

@job('64')
def compiled_loop(c):
  p = c.params('float64', struct='nested')
  r = c.run('scan', {'k': 'masked', 'mask': {'fn': 'rank_ne_1'}, 'in': {'k': 'a_adamw', **TX['a_adamw'](c)}})
  r.init(p)
  gs = [c.like(p) for _ in range(6)]
  r.scan(gs, [c.like(p) for _ in gs])

suite(lambda c, i: {'k': 'masked', 'mask': {'fn': c.rng.choice(['rank_ne_1', 'rank_eq_0'])}, 'in': inner_tx(c, c.f(), 0)}, n=(6, 2, 2, 2))
