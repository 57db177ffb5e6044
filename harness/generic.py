"""Histories every transformation has to get right, whatever it computes.

suite(make) registers, for the configurations make(c, i) returns:
  models      several models (other shapes, containers, values) trained in
              turns with one transformation object;
  shared      one transformation object used several times in a composition;
  vmapped     many sessions at once under jax.vmap;
  large       big tensors and many leaves;
  scaled      gradients and parameters of tiny and huge magnitude;
  counted     runs that have already made many updates (counts far beyond 8
              and 16 bits), where make's configuration counts.
"""
from core import *
LP = optax.LookaheadParams

def is_look(cfg): return cfg['k'] == 'lookahead'

def start(c, r, cfg, p, dst=1):
  """init on the params p."""
  if is_look(cfg): r.init(LP(fast=p, slow=c.like(p)), dst, fast=p)
  else: r.init(p, dst)

def pars(c, cfg, p, wp):
  if is_look(cfg): return LP(fast=c.like(p), slow=c.like(p))
  return c.like(p) if wp else None

def step(c, r, cfg, p, wp, src=1, dst=None, modes=None):
  r.upd(c.like(p, modes=modes or gmodes(dtype_of(p))), pars(c, cfg, p, wp), src, dst)

def dtype_of(p): return str(leaves(p)[0].dtype)

def reshaped(c, p):
  """Another model: the same containers, other shapes."""
  l, td = jax.tree_util.tree_flatten(p)
  for _ in range(20):
    n = [c.value(c.shape(), str(x.dtype)) for x in l]
    if [x.shape for x in n] != [x.shape for x in l]: break
  return jax.tree_util.tree_unflatten(td, n)

def transposed(c, p):
  """The same entries in other shapes: equal sizes, other axes."""
  return tm(lambda x: jnp.reshape(c.value(x.shape, str(x.dtype)), x.shape[::-1]), p)

def run_models(c, cfg, jit, steps=9):
  dt = c.f()
  wp = needs_params(cfg) or c.rng.random() < .4
  p = c.params(dt, struct=c.rng.choice(['dict', 'list', 'nt']), maxl=3)
  ps = [p, transposed(c, p) if jit and c.rng.random() < .3 else reshaped(c, p), c.like(p)]
  if not jit or c.thorough: ps += [c.params(dt, maxl=2), transposed(c, p)]
  r = c.run('models %s' % cfg['k'], cfg, jit=jit)
  order = list(range(len(ps))); c.rng.shuffle(order)
  for i in order: start(c, r, cfg, ps[i], i + 1)
  for t in range(steps):
    i = order[t % len(order)] if t < len(order) else c.rng.randrange(len(ps))
    step(c, r, cfg, ps[i], wp, i + 1)
  # a later init does not disturb the sessions under way
  start(c, r, cfg, c.like(ps[0]), 10)
  for i in (0, 1): step(c, r, cfg, ps[i], wp, i + 1)

_SID = [0]
def sid(cfg):
  _SID[0] += 1
  return dict(cfg, _sid=_SID[0])

def compositions(c, cfg):
  """cfg's object used more than once."""
  x = sid(cfg)
  half = {'k': 'scale', 'c': N(.5)}
  yield {'k': 'chain', 'm': [x, x]}
  yield {'k': 'chain', 'm': [half, x, half, {'k': 'masked', 'mask': {'fn': 'rank_ne_1'}, 'in': x}]}
  yield {'k': 'chain', 'm': [{'k': 'chain', 'm': [x, half]}, {'k': 'chain', 'm': [half, x]}]}
  yield {'k': 'chain', 'm': [{'k': 'aif', 'max': 1, 'in': x}, {'k': 'maybe', 'pred': table([0, 1, 0, 1]), 'in': x}]}

def run_vmapped(c, cfg, B=3, steps=4):
  """B sessions advanced together; each is recorded as its own run."""
  dt = c.f()
  wp = needs_params(cfg) or c.rng.random() < .4
  p = c.params(dt)
  tx = ir.build_tx(cfg)
  stack = lambda ts: tm(lambda *x: jnp.stack(x), *ts)
  row = lambda t, i: tm(lambda x: x[i], t)
  rs = []
  for b in range(B):
    r = c.run('vmap %s row %d' % (cfg['k'], b), cfg); r.tx = tx
    rs.append(r)
  ps = [c.like(p) for _ in range(B)]
  first = [LP(fast=q, slow=q) if is_look(cfg) else q for q in ps]
  st = jax.vmap(tx.init)(stack(first))
  for b, r in enumerate(rs):
    r.evs.append({'op': 'init', 'dst': 1, 'p': enc(ps[b]), 'err': '', 'out': [], 'obs': r._obs(row(st, b)), 'dtypes': True})
  up = jax.jit(jax.vmap(tx.update)) if wp or is_look(cfg) else jax.jit(jax.vmap(lambda g, s: tx.update(g, s)))
  for t in range(steps):
    gs = [c.like(p, modes=gmodes(dt)) for _ in range(B)]
    qs = [pars(c, cfg, p, wp) for _ in range(B)]
    us, st = up(stack(gs), st, stack(qs)) if wp or is_look(cfg) else up(stack(gs), st)
    for b, r in enumerate(rs):
      r.evs.append({'op': 'upd', 'src': 1, 'dst': 1, 'g': enc(gs[b]), 'p': opt1(qs[b]), 'err': '',
                    'out': [enc(row(us, b))], 'obs': r._obs(row(st, b)), 'dtypes': True})

opt1 = ir.opt1

def run_large(c, cfg, i=0, steps=3, poison=()):
  """A big matrix with a long row; many leaves.  poison: kinds of special
  values put somewhere (the first, the last, any entry)."""
  dt = c.f()
  wp = needs_params(cfg) or c.rng.random() < .4
  if i % 2 == 0:
    p = {'w': c.value((17, 18), dt), 'b': c.value((270,), dt), 's': c.value((), dt)}
  else:
    p = [{'w%d' % i: c.value(c.rng.choice([(), (2,), (1, 2)]), dt)} for i in range(26)]
  r = c.run('large %s' % cfg['k'], cfg)
  start(c, r, cfg, p)
  n = len(leaves(p))
  for t in range(steps + 3 * bool(poison)):
    g = c.like(p, modes=['normal', 'sparse', 'int'])
    if poison and t != 2: g = c.poison(g, poison, leaf=[0, n - 1, None, None][t % 4], entry=[None, 0, -1][t % 3])
    r.upd(g, pars(c, cfg, p, wp))

def times(t, k): return tm(lambda x: x * 10. ** k, t)

def run_scaled(c, cfg, i, steps=4):
  """Everything tiny or huge: no hidden absolute thresholds."""
  wp = needs_params(cfg) or c.rng.random() < .4
  k = [-20, 9, -9, 20][(i + c.seed) % 4]
  kp = k if is_look(cfg) else c.rng.choice([k, k, 0, -k])
  p = times(c.params('float64', struct=c.rng.choice(['dict', 'list', 'nested'])), kp)
  r = c.run('scaled %d %d %s' % (k, kp, cfg['k']), cfg, floor=ir.EXACT0)
  start(c, r, cfg, p)
  for _ in range(steps):
    q = None
    if is_look(cfg): q = LP(fast=times(c.like(p), kp), slow=times(c.like(p), kp))
    elif wp: q = times(c.like(p), kp)
    r.upd(times(c.like(p), k), q)

# Shapes of rank 5 and 6, and shapes without entries.
HIGH = [(2, 1, 2, 1, 2), (1, 2, 1, 2, 1, 1), (1, 1, 1, 1, 3)]
VOID = [(0,), (2, 0), (0, 3, 1)]
# The stacked axes of an sm3 accumulator need entries; unit-wise norms are
# defined up to rank 4.
def kinds_in(cfg): return [cfg['k']] + [k for m in cfg.get('m', [cfg['in']] if 'in' in cfg else []) for k in kinds_in(m)]

def run_odd(c, cfg, i, steps=4):
  """Unfamiliar containers, array types, ranks and scalar types."""
  wp = needs_params(cfg) or c.rng.random() < .5
  has = kinds_in(cfg)
  i += c.seed
  struct = ['odict', 'box', 'holes', 'ints'][i % 4]
  shapes = None
  cfg = dict(cfg)
  if i % 3 == 0 and 'agc' not in has: shapes = HIGH + [(3,), ()]
  if i % 3 == 1 and 'sm3' not in has and 'a_sm3' not in has: shapes = VOID + [(2,), ()]
  if shapes: c.rng.shuffle(shapes)
  if i % 5 in (1, 3): cfg['_hpt'] = ['np', 'jnp', 'np0d', 'int'][i % 4]
  elif i % 5 == 2: cfg['_pos'] = True
  p = c.params('float64', struct=struct, shapes=shapes)
  arr = (lambda t: tm(lambda x: np.array(x), t)) if i % 2 else (lambda t: t)
  r = c.run('odd %s %s' % (struct, cfg['k']), cfg, jit=i % 7 == 3)
  p = arr(p)
  keep = []
  def kept(t):
    keep.extend((x, np.array(x)) for x in jax.tree_util.tree_leaves(t))
    return t
  if is_look(cfg): r.init(kept(LP(fast=p, slow=arr(c.like(p)))), fast=p)
  else: r.init(kept(p))
  for _ in range(steps): r.upd(kept(arr(c.like(p, modes=['normal', 'sparse', 'int']))), kept(arr(c.like(p)) if not is_look(cfg) else LP(fast=arr(c.like(p)), slow=arr(c.like(p)))) if wp or is_look(cfg) else None)
  r.call('same', a=[x.tobytes().hex() for _, x in keep], b=[np.asarray(x).tobytes().hex() for x, _ in keep], what='arguments unchanged')

def widened(c, cfg):
  """The configuration with constants from the whole of their ranges."""
  r = c.rng
  mag = lambda lo, hi: 10 ** r.uniform(lo, hi)
  unit = lambda: r.choice([0., r.uniform(0, 1), r.uniform(0, 1), r.uniform(.9, .9999)])
  sign = lambda: r.choice([1, 1, -1])
  k = cfg['k']
  if k == 'inject': return cfg
  draw = {'c': lambda: mag(-3, 3) * (sign() if k in ('scale', 'wd') else 1), 'lr': lambda: sign() * mag(-4, 2), 'wd': lambda: mag(-4, 1.5),
          'b1': unit, 'b2': unit, 'decay': unit, 'momentum': unit, 'eps': lambda: mag(-2 if k == 'stddev' else -4, 2),
          'root': lambda: mag(-6, 1), 'init': lambda: mag(-3, 2), 'min': lambda: r.choice([0., mag(-2, 2)]), 'thr': lambda: r.uniform(4.5, 30),
          'alpha': lambda: r.uniform(-.5, 2)}
  new = lambda v, x: {'s': 'num', 'v': num(float('%.4g' % x))}
  out = {}
  for f, v in cfg.items():
    num_ = isinstance(v, dict) and v.get('s') == 'num'
    if num_ and f in draw and r.random() < .8: out[f] = new(v, draw[f]())
    elif f == 'momentum' and isinstance(v, list) and v: out[f] = [new(v[0], unit())]
    elif f == 'in': out[f] = widened(c, v)
    elif f == 'm': out[f] = [widened(c, m) for m in v]
    else: out[f] = v
  return out

def run_wide(c, cfg, i, steps=5):
  cfg = widened(c, cfg)
  wp = needs_params(cfg) or c.rng.random() < .4
  p = c.params('float64', maxl=3)
  r = c.run('wide %s' % cfg['k'], cfg, jit=i % 3 == 2)
  start(c, r, cfg, p)
  for _ in range(steps): step(c, r, cfg, p, wp)

STARTS = [126, 254, 998, 4094, 9998, 32766, 40000, 65534, 10 ** 6, 2 ** 24 - 1, 2 ** 31 - 9]
def run_counted(c, cfg, steps=4):
  dt = c.f()
  wp = needs_params(cfg) or c.rng.random() < .4
  p = c.params(dt, struct='dict', maxl=2)
  r = c.run('counted %s' % cfg['k'], cfg)
  start(c, r, cfg, p)
  for n in sorted(c.rng.sample(STARTS, 6)):
    r.setc(n)
    for _ in range(steps): step(c, r, cfg, p, wp)

def suite(make, prec='64', n=(4, 3, 2, 2, 3), counted=None, only=None, tag='g', odd=6, wide=8, poison=()):
  """Registers the jobs; n: configurations per job in the quick tier."""
  want = lambda x: only is None or x in only
  def reg(name, k, body):
    if not want(name) or not k: return
    def fn(c):
      for i in range(c.n(k, 3 * k)): body(c, i)
    fn.__name__ = tag + '_' + name
    job(prec)(fn)
  reg('models', n[0], lambda c, i: run_models(c, make(c, i), jit=i % 2 == 0))
  def shared(c, i):
    cfg = make(c, i)
    if is_look(cfg): return
    comps = list(compositions(c, cfg))
    x = comps[(i + c.seed) % len(comps)]
    drive(c, c.run('shared %s' % cfg['k'], x), c.params(c.f()), 5, modes=gmodes(c.f()), with_params=True)
  reg('shared', n[1], shared)
  reg('vmapped', n[2], lambda c, i: run_vmapped(c, make(c, i)))
  reg('large', n[3], lambda c, i: run_large(c, make(c, i), i, poison=poison))
  if prec == '64': reg('odd', odd, lambda c, i: run_odd(c, make(c, i), i))
  if prec == '64': reg('wide', wide, lambda c, i: run_wide(c, make(c, i), i))
  if prec == '64': reg('scaled', 4, lambda c, i: run_scaled(c, make(c, i), i))
  if counted: reg('counted', n[4], lambda c, i: run_counted(c, counted(c, i)))
