"""Jobs, contexts and random generators shared by the property harnesses."""
import json, random, zlib
from collections import OrderedDict, namedtuple
import numpy as np
import optaxir as ir
from optaxir import jax, jnp, optax, N, num, enc, X64

JOBS = {}          # name -> (fn, precision, shards)

def job(prec='both', shards=1):
  """Registers a generator fn(ctx).  prec: '64', '32' or 'both'."""
  def deco(fn):
    JOBS[fn.__name__] = (fn, prec, shards)
    return fn
  return deco

def job_units(prec):
  return [(n, s) for n, (_, p, k) in JOBS.items() if p in ('both', prec) for s in range(k)]


class Ctx:
  def __init__(self, prop, tier, seed, name, shard, rec, plans):
    self.prop, self.tier, self.seed, self.name, self.shard = prop, tier, seed, name, shard
    self.shards = JOBS[name][2]
    self.rec, self.plans = rec, plans
    self.thorough = tier == 'thorough'
    h = zlib.crc32(('%s/%s/%d/%d' % (prop, name, shard, X64)).encode()) ^ (seed * 2654435761 % 2**32)
    self.rng = random.Random(h)
    self.np = np.random.RandomState(h % 2**32)
    self.k = 0

  def n(self, quick, thorough=None):
    """How many cases (split over shards)."""
    t = thorough if thorough is not None else quick * 8
    m = t if self.thorough else quick
    return len(range(self.shard, m, self.shards))

  def each(self, quick, thorough=None):
    """This shard's cases, numbered over all shards."""
    m = (thorough if thorough is not None else quick * 8) if self.thorough else quick
    return range(self.shard, m, self.shards)

  def mine(self, seq):
    return [x for i, x in enumerate(seq) if i % self.shards == self.shard]

  def run(self, label, cfg=None, **kw):
    self.k += 1
    p = 'f64' if X64 else 'f32'
    id = '%s/%s/%s#%d.%d/%s' % (self.prop, self.name, p, self.shard, self.k, label)
    return self.rec.run(id, cfg or {'k': 'identity'}, **kw)

  # ---------------------------------------------------------------- values --
  def value(self, shape, dtype, mode='normal'):
    r = self.np
    if mode == 'normal': a = r.randn(*shape)
    elif mode == 'pos': a = np.abs(r.randn(*shape)) + 0.05
    elif mode == 'int': a = r.randint(-4, 5, size=shape)
    elif mode == 'zero': a = np.zeros(shape)
    elif mode == 'sparse': a = r.randn(*shape) * (r.rand(*shape) < 0.5)
    elif mode == 'tiny': a = r.randn(*shape) * (1e-60 if X64 and dtype == 'float64' else 1e-12)
    elif mode == 'small': a = r.randn(*shape) * 1e-4
    elif mode == 'big': a = r.randn(*shape) * 1e3
    elif mode == 'huge': a = r.randn(*shape) * (1e60 if X64 and dtype == 'float64' else 1e12)
    elif mode == 'spread': a = r.randn(*shape) * 10. ** r.randint(-6, 6, size=shape)
    elif mode == 'nan': a = np.where(r.rand(*shape) < 0.4, np.nan, r.randn(*shape))
    elif mode == 'inf': a = np.where(r.rand(*shape) < 0.4, np.inf * np.sign(r.randn(*shape)), r.randn(*shape))
    elif mode == 'naninf':
      u = r.rand(*shape)
      a = np.where(u < .25, np.nan, np.where(u < .5, np.inf, np.where(u < .7, -np.inf, r.randn(*shape))))
    else: raise KeyError(mode)
    return jnp.asarray(np.asarray(a), dtype=dtype)

  def like(self, tree, mode='normal', modes=None):
    """Random tree with the structure of `tree`; modes: choose per leaf."""
    def f(x):
      m = self.rng.choice(modes) if modes else mode
      return self.value(x.shape, str(x.dtype), m)
    return jax.tree_util.tree_map(f, tree)

  def poison(self, tree, kinds=('nan', 'inf', '-inf'), leaf=None, entry=None):
    """One entry of one leaf replaced by a special value."""
    leaves, td = jax.tree_util.tree_flatten(tree)
    cand = [i for i, x in enumerate(leaves) if x.size]
    i = self.rng.choice(cand) if leaf is None else leaf
    a = np.array(leaves[i], dtype=np.float64)
    j = self.rng.randrange(a.size) if entry is None else entry
    a.reshape(-1)[j] = float(self.rng.choice(kinds))
    leaves[i] = jnp.asarray(a, dtype=leaves[i].dtype)
    return jax.tree_util.tree_unflatten(td, leaves)

  SHAPES = [(), (1,), (3,), (4,), (2, 3), (3, 1), (1, 4), (1, 1), (2, 1, 3), (2, 2, 2), (1, 2, 2, 3), (2, 1, 2, 2)]

  def shape(self, ranks=None, maxn=8):
    c = [s for s in self.SHAPES if ranks is None or len(s) in ranks]
    return self.rng.choice(c)

  def dtypes(self):
    """Floating dtypes exercised in this process."""
    return ['float64', 'float64', 'float64', 'float32'] if X64 else ['float32', 'float32', 'float32', 'bfloat16', 'float16']

  def f(self):
    return 'float64' if X64 else 'float32'

  def params(self, dtype=None, shapes=None, struct=None, mode='normal', maxl=4):
    """A random parameter tree."""
    dtype = dtype or self.f()
    struct = struct or self.rng.choice(STRUCTS)
    nl = {'leaf': 1, 'dict': self.rng.randint(1, maxl), 'tuple': self.rng.randint(1, maxl),
          'list': self.rng.randint(1, maxl), 'nt': 2, 'nested': 4, 'nested2': 3, 'none': 2, 'deep': 3,
          'odict': 3, 'box': 4, 'holes': 2, 'ints': 3}[struct]
    ls = []
    for i in range(nl):
      s = shapes[i % len(shapes)] if shapes else self.shape()
      d = dtype if isinstance(dtype, str) else dtype[i % len(dtype)]
      ls.append(self.value(s, d, mode))
    return assemble(struct, ls)

NT = namedtuple('NT', ['w', 'b'])
@jax.tree_util.register_pytree_node_class
class Box:
  """A container the library has never heard of, with static data."""
  def __init__(self, a, b, tag='t'): self.a, self.b, self.tag = a, b, tag
  def tree_flatten(self): return (self.b, self.a), self.tag
  @classmethod
  def tree_unflatten(cls, tag, ch): return cls(ch[1], ch[0], tag)
STRUCTS = ['leaf', 'dict', 'tuple', 'list', 'nt', 'nested', 'nested2', 'none', 'deep']

def assemble(struct, l):
  """Containers; dict keys are inserted in unsorted order on purpose."""
  if struct == 'leaf': return l[0]
  if struct == 'dict': return {k: x for k, x in zip(['z', 'b', 'y', 'a'], l)}
  if struct == 'tuple': return tuple(l)
  if struct == 'list': return list(l)
  if struct == 'nt': return NT(*l[:2])
  if struct == 'nested': return {'layer2': {'w': l[0], 'b': l[1]}, 'layer1': (l[2], [l[3]])}
  if struct == 'nested2': return [{'w': l[0]}, (l[1], {'k': l[2]})]
  if struct == 'none': return {'x': l[0], 'n': None, 'a': [l[1], None]}
  if struct == 'deep': return ((({'w': l[0]},), [NT(l[1], l[2])]),)
  if struct == 'odict': return OrderedDict([('z', l[0]), ('a', OrderedDict([('y', l[1]), ('b', l[2])]))])
  if struct == 'box': return {'m': Box(l[0], [l[1], Box(l[2], None, 'u')]), 'k': Box({}, l[3])}
  if struct == 'holes': return {'e': {}, 'w': (l[0], (), [None, l[1]]), 'f': []}
  if struct == 'ints': return {10: l[0], 9: {2: l[1], 1: l[2]}}
  raise KeyError(struct)

def tm(f, *ts): return jax.tree_util.tree_map(f, *ts)
def leaves(t): return jax.tree_util.tree_leaves(t)

def table(vs):
  return {'s': 'table', 'vs': [num(v) for v in vs]}

def probe_cfg(a=2, needs=False, couple=False, st=''):
  return {'k': 'probe', 'a': a, 'needs': needs, 'couple': couple, '_st': st}


# ------------------------------------------------------ random configurations
def _mom(c): return [N(c.rng.choice([0.9, 0.5, 0.0]))] if c.rng.random() < .6 else []
def lr(c, const=False):
  r = c.rng
  if const or r.random() < .5: return N(r.choice([0.1, 1.0, 0.003, 2.5, -0.2]))
  return rand_sched(c)

ALLSCHED = ['table', 'poly', 'expo', 'cosine', 'pconst']
def rand_sched(c, kinds=None):
  r = c.rng
  # (the other kinds divide counts in float32 even in x64 mode: C12, C14, C17)
  k = r.choice(kinds or ['table', 'table', 'pconst'])
  v = lambda *a: num(r.choice(a))
  if k == 'table': return table([r.choice([.5, 1., .25, 2., -.5, 0.]) for _ in range(r.randint(1, 6))])
  if k == 'poly': return {'s': 'poly', 'init': v(1., .5), 'end': v(.1, .01), 'power': v(1., 2.), 'steps': r.choice([3, 5, 10]), 'begin': r.choice([0, 2])}
  if k == 'expo': return {'s': 'expo', 'init': v(1., .3), 'steps': r.choice([2, 4]), 'rate': v(.5, .9), 'begin': r.choice([0, 1]), 'stair': r.random() < .5, 'end': r.choice([[], [num(.05)]])}
  if k == 'cosine': return {'s': 'cosine', 'init': v(1., .2), 'steps': r.choice([4, 9]), 'alpha': v(0., .1)}
  return {'s': 'pconst', 'init': v(1., .3), 'bs': [[2, num(.5)], [4, num(.1)]]}

_B1 = (0.9, 0.5, 0.0)
_B2 = (0.99, 0.9, 0.5)
def adam_fields(c):
  r = c.rng
  return {'b1': N(r.choice(_B1)), 'b2': N(r.choice(_B2)), 'eps': N(r.choice([1e-8, 1e-3, 0.25])), 'root': N(r.choice([0.0, 1e-6, 0.25]))}

TX = {
  'identity': lambda c: {},
  'scale': lambda c: {'c': N(c.rng.choice([-1.0, 0.5, 3.0, -0.01]))},
  'clip': lambda c: {'c': N(c.rng.choice([0.5, 1.0, 2.0]))},
  'cgn': lambda c: {'c': N(c.rng.choice([0.5, 1.0, 100.0]))},
  'agc': lambda c: {'c': N(c.rng.choice([0.1, 0.5, 2.0])), 'eps': N(c.rng.choice([1e-3, 0.2]))},
  'wd': lambda c: {'c': N(c.rng.choice([0.0, 0.1, 0.5]))},
  'trust': lambda c: {'min': N(c.rng.choice([0.0, 0.3]))},
  'centralize': lambda c: {},
  'nonneg': lambda c: {},
  'zero_nans': lambda c: {},
  'trace': lambda c: {'decay': N(c.rng.choice([0.9, 0.5])), 'nesterov': c.rng.random() < .5, 'acc': ''},
  'ema': lambda c: {'decay': N(c.rng.choice([0.9, 0.5])), 'debias': c.rng.random() < .5, 'acc': ''},
  'rss': lambda c: {'init': N(c.rng.choice([0.1, 0.0, 3.0])), 'eps': N(c.rng.choice([1e-7, 0.25]))},
  'rms': lambda c: {'decay': N(c.rng.choice([0.9, 0.5])), 'eps': N(c.rng.choice([1e-8, 0.25])), 'init': N(c.rng.choice([0.0, 0.5, 3.0]))},
  'stddev': lambda c: {'decay': N(c.rng.choice([0.9, 0.5])), 'eps': N(c.rng.choice([1e-3, 0.25])), 'init': N(c.rng.choice([0.0, 0.5, 3.0]))},
  'adam': adam_fields,
  'belief': lambda c: dict(adam_fields(c), root=N(1e-6)),
  'yogi': lambda c: dict(adam_fields(c), init=N(1e-2), rule='deviation', b2=N(0.9), root=N(1e-3)),
  'radam': lambda c: dict(adam_fields(c), b2=N(c.rng.choice([.9, .99])), thr=N(5.0)),
  'sched': lambda c: {'fn': rand_sched(c), 'neg': c.rng.random() < .5},
  'apply_every': lambda c: {'every': c.rng.randint(1, 4)},
  'sm3': lambda c: {'b1': N(c.rng.choice([0.9, 0.5])), 'b2': N(c.rng.choice([1.0, 0.9])), 'eps': N(1e-8)},
  'probe': lambda c: {'a': c.rng.choice([2, -1]), 'needs': c.rng.random() < .5, 'couple': c.rng.random() < .5, '_st': c.rng.choice(['', 'tuple', 'list', 'dict'])},
  'a_sgd': lambda c: {'lr': lr(c), 'momentum': _mom(c), 'nesterov': c.rng.random() < .5},
  'a_adam': lambda c: dict(adam_fields(c), lr=lr(c)),
  'a_adamw': lambda c: dict(adam_fields(c), lr=lr(c), wd=N(c.rng.choice([0.1, 1e-4]))),
  'a_adagrad': lambda c: {'lr': lr(c), 'init': N(c.rng.choice([0.1, 2.0])), 'eps': N(c.rng.choice([1e-7, 0.25]))},
  'a_adabelief': lambda c: {'lr': lr(c), 'b1': N(0.9), 'b2': N(0.9), 'eps': N(1e-3)},
  'a_rmsprop': lambda c: {'lr': lr(c), 'decay': N(0.9), 'eps': N(c.rng.choice([1e-3, 0.25])), 'init': N(c.rng.choice([0.1, 2.0])), 'centered': c.rng.random() < .5, 'momentum': _mom(c), 'nesterov': c.rng.random() < .5},
  'a_lamb': lambda c: dict(adam_fields(c), eps=N(1e-3), lr=lr(c), wd=N(0.1)),
  'a_fromage': lambda c: {'lr': lr(c, True), 'min': N(0.0)},
  'a_sm3': lambda c: {'lr': lr(c, True), 'momentum': N(0.9)},
  'a_radam': lambda c: dict(adam_fields(c), b2=N(.9), thr=N(5.0), lr=lr(c)),
}
ELEMENTWISE = ['identity', 'scale', 'clip', 'zero_nans', 'trace', 'ema', 'rss', 'rms', 'stddev', 'adam', 'belief',
               'sched', 'apply_every', 'a_sgd', 'a_adam', 'a_adagrad', 'a_rmsprop']
PARAMS = ['agc', 'wd', 'trust', 'nonneg', 'a_adamw', 'a_lamb', 'a_fromage']
COUPLED = ['cgn', 'probe']
ANY = [k for k in TX if k not in ('yogi',)]

def needs_params(cfg):
  k = cfg['k']
  if k in PARAMS: return True
  if k == 'probe': return cfg['needs']
  if k == 'chain': return any(needs_params(m) for m in cfg['m'])
  if k == 'lookahead': return True
  return needs_params(cfg['in']) if 'in' in cfg else False

DIRECTIONS = ['rms', 'rss', 'stddev', 'adam', 'belief', 'yogi', 'radam', 'sm3', 'trust', 'agc', 'a_adam', 'a_adamw', 'a_adagrad', 'a_adabelief',
              'a_rmsprop', 'a_lamb', 'a_fromage', 'a_sm3', 'a_radam']
def tame(cfg, seen=None):
  """A composition without a centralize before a transformation that blows
  differences of equal entries (rounding noise) up to full size."""
  seen = seen if seen is not None else []
  if cfg['k'] == 'chain':
    return dict(cfg, m=[tame(m, seen) for m in reversed(cfg['m'])][::-1])
  if cfg['k'] in DIRECTIONS: seen.append(1)
  if cfg['k'] == 'centralize' and seen: return {'k': 'scale', 'c': N(.5)}
  return cfg

def rand_tx(c, kinds=None, depth=0):
  k = c.rng.choice(kinds or ANY)
  if depth > 0 and c.rng.random() < .4:
    return tame({'k': 'chain', 'm': [rand_tx(c, kinds, depth - 1) for _ in range(c.rng.randint(1, 3))]})
  return dict({'k': k}, **TX[k](c))

BENIGN32 = ['identity', 'scale', 'clip', 'wd', 'trace', 'ema', 'rss', 'a_sgd', 'a_adam', 'probe', 'apply_every', 'sched', 'zero_nans']
BENIGN16 = ['identity', 'scale', 'clip', 'trace', 'a_sgd', 'zero_nans']
def inner_tx(c, dtype, depth=1, extra=()):
  """A random inner transformation whose rounding stays small in dtype."""
  if dtype == 'float64': return rand_tx(c, ANY + list(extra), depth)
  if dtype == 'float32': return rand_tx(c, BENIGN32 + list(extra), 0)
  return rand_tx(c, BENIGN16, 0)
def gmodes(dtype):
  return {'float64': ['normal', 'normal', 'sparse', 'small', 'big', 'int'], 'float32': ['normal', 'sparse', 'int'],
          'float16': ['normal', 'int'], 'bfloat16': ['normal', 'int']}[dtype]

# the rectification factor of RAdam cancels in float32 just past its threshold
RADAM32 = {} if X64 else {'float32': '3e-2'}

def drive(c, r, p, steps, g=None, with_params=None, modes=None, move=True, obs_every=1):
  """init and `steps` updates of fresh random gradients along moving params."""
  wp = needs_params(r.cfg) if with_params is None else with_params
  r.init(p)
  for i in range(steps):
    gi = g(i) if g else c.like(p, modes=modes or ['normal', 'normal', 'sparse', 'small', 'big'])
    r.upd(gi, p if wp else None)
    if move and wp: p = c.like(p)
  return p

def trie_replay(run, hists, feed):
  """Replays histories sharing prefixes; the state after d steps is in slot d+1."""
  prev = []
  for h in sorted(hists):
    k = 0
    while k < len(prev) and k < len(h) and prev[k] == h[k]: k += 1
    for d in range(k, len(h)): feed(run, h[d], d + 1, d + 2)
    prev = h

def replay_steps(c, plans, params=False, **kw):
  """Replays one-step plans [cfg, u, p]: a run per configuration and shapes."""
  key = lambda p: json.dumps([p['cfg'], [x['sh'] for x in p['u']['l']]])
  for g in c.mine(group(plans, key)):
    r = c.run(g[0]['cfg']['k'], g[0]['cfg'], **kw)
    r.init(ir.dec(g[0]['p']))
    for p in g: r.upd(ir.dec(p['u']), ir.dec(p['p']) if params else None, 1, 2)

def group(plans, key):
  g = {}
  for p in plans: g.setdefault(str(key(p)), []).append(p)
  return [g[k] for k in sorted(g)]

# ------------------------------------------------------------------- noise --
def noise_draws(tree, seed, n):
  """The unit normals add_noise draws at its first n updates on this tree."""
  tx = optax.add_noise(1., 0., seed)
  z = tm(jnp.zeros_like, tree)
  s = tx.init(z)
  out = []
  up = jax.jit(tx.update)
  for _ in range(n):
    u, s = up(z, s); out.append(enc(u))
  return out

def dp_draws(tree, seed, n):
  """The unit normals of private aggregation (tree: aggregated shapes)."""
  tx = optax.differentially_private_aggregate(1., 1., seed)
  z = tm(lambda x: jnp.zeros((1,) + x.shape, x.dtype), tree)
  s = tx.init(tree)
  out = []
  up = jax.jit(tx.update)
  for _ in range(n):
    u, s = up(z, s); out.append(enc(u))
  return out

def batched(c, p, B, modes=None):
  """Per-example gradients for the params p."""
  f = lambda x: c.value((B,) + x.shape, str(x.dtype), c.rng.choice(modes or ['normal', 'normal', 'sparse', 'int']))
  return tm(f, p)
