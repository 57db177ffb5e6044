"""C33 differentiating through transformations and training runs."""
import copy
from decimal import Decimal
from core import *
from polys import *
LP = optax.LookaheadParams
F = jnp.float64

def is_num(x): return isinstance(x, dict) and x.get('s') == 'num'
# discrete settings, and settings factories use in Python conditions
FIXED = {'every', 'thr'}
SCHED_VARS = {'table': ['vs'], 'pconst': ['init'], 'poly': ['init', 'end'], 'expo': ['init'], 'cosine': ['init', 'alpha']}
def move(cfg, rng, prob=.7, only=None):
  """A configuration whose constants are variables; the same moved by +-1e-15
  along random tangents; the constants' values and tangents."""
  cp, cm, vs, ts = None, None, [], []
  nudge = lambda v, i, h: str(Decimal(v) + Decimal(repr(ts[i])) * Decimal(h))
  def walk(c, h):
    if not isinstance(c, dict): return c
    out = {}
    vv = c.get('_vars', {})
    for k, v in c.items():
      if k in vv: out[k] = nudge(v, vv[k], h); continue
      if k == 'vs' and vv: out[k] = [nudge(x, vv[i], h) if i in vv else x for i, x in enumerate(v)]; continue
      if is_num(v) and k not in FIXED and '_var' in v and h is not None:
        out[k] = {'s': 'num', 'v': nudge(v['v'], v['_var'], h)}
      elif isinstance(v, dict): out[k] = walk(v, h)
      elif isinstance(v, list): out[k] = [walk({'x': y}, h)['x'] for y in v]
      else: out[k] = v
    return out
  def mark(c):
    out = {}
    fixed = FIXED | ({'b2', 'momentum', 'lr'} if c.get('k') in ('sm3', 'a_sm3') else set())
    for k, v in c.items():
      if is_num(v) and k not in fixed and (rng.random() < prob if only is None else k == only):
        out[k] = dict(v, _var=len(vs)); vs.append(float(v['v'])); ts.append(1. if only else round(rng.uniform(-1, 1), 3))
      elif k in ('lr', 'fn') and isinstance(v, dict) and v.get('s') in SCHED_VARS and only is None and prob:
        vv = {}
        for n, x in [(n, v[n]) for n in SCHED_VARS[v['s']] if n != 'vs'] + (list(enumerate(v['vs'])) if v['s'] == 'table' else []):
          vv[n] = len(vs); vs.append(float(x)); ts.append(round(rng.uniform(-1, 1), 3))
        out[k] = dict(v, _vars=vv)
      elif k in ('in',): out[k] = mark(v)
      elif k == 'm': out[k] = [mark(x) for x in v]
      elif k == 'momentum' and k not in fixed and isinstance(v, list) and v: out[k] = [mark({'x': v[0]})['x']]
      else: out[k] = v
    return out
  real = mark(cfg)
  return real, ir.clean(walk(real, '1e-15')), ir.clean(walk(real, '-1e-15')), vs, ts

def zeros(t): return tm(jnp.zeros_like, t)
def dotp(a, b): return sum(jnp.vdot(x, y) for x, y in zip(leaves(a), leaves(b)))

def derive(fn, args, tans, cot, reverse):
  """Forward-mode derivative, and its pairing with cot in reverse mode."""
  def both(args, tans, cot):
    _, out = jax.jvp(fn, args, tans)
    if not reverse: return out, jnp.zeros(())
    _, vjp = jax.vjp(fn, *args)
    return out, dotp(list(vjp(cot)), list(tans))
  return jax.jit(both)(args, tans, cot)

def history(cfg):
  """The updates returned by a history, as a function of everything."""
  def fn(theta, p0, gs, ps):
    ir.VARS[:] = list(theta)
    tx = ir.build_tx(cfg)
    if cfg['k'] == 'lookahead': s = tx.init(LP(fast=p0, slow=p0))
    else: s = tx.init(p0)
    out = []
    for i, g in enumerate(gs):
      u, s = tx.update(g, s, ps[i]) if ps else tx.update(g, s)
      out.append(u)
    return out
  return fn

def meta(r, c, cfg, p0, gs, ps, tans=None, what='', reverse=True, only=None, prob=.7):
  real, cp, cm, vs, ts = move(cfg, c.rng, prob, only)
  dp0, dgs, dps = tans or (c.like(p0), [c.like(g) for g in gs], [c.like(q) for q in ps])
  got, dots, err, cot = [], [], '', []
  try:
    fn = history(real)
    args = ([jnp.asarray(v, F) for v in vs], p0, gs, ps)
    tn = ([jnp.asarray(v, F) for v in ts], dp0, dgs, dps)
    shapes = jax.eval_shape(fn, *args)
    cot = [tm(lambda x: c.value(x.shape, 'float64'), u) for u in shapes]
    got, dot = derive(fn, args, tn, cot, reverse)
    dots = [num(float(dot))] if reverse else []
    got, cot = [enc(u) for u in got], [enc(u) for u in cot]
  except Exception as e: err = ir.errtext(e)
  n = len(gs)
  opt = lambda ts: [[enc(t)] for t in ts] if ts else [[]] * n
  r.call('meta', err=err, cp=cp, cm=cm, p=enc(p0), dp=enc(dp0), gs=[enc(g) for g in gs], dgs=[enc(g) for g in dgs],
         ps=opt(ps), dps=opt(dps), got=got, cot=cot, dots=dots, what=what or cfg['k'])

RT = {'float64': '1e-6'}
FL = dict(ir.FLOOR, float64='1e-9')

@job('64', shards=2)
def replay(c):
  """Histories of the bounded model."""
  pl = c.plans['MC_meta']
  k = 5 if c.thorough else 47
  for x in c.mine(pl[c.seed % k::k]):
    cfg = x['cfg']
    r = c.run('model %s' % cfg['k'], rtol=RT, floor=FL)
    S = lambda v: jnp.asarray(float(v), F)
    n = len(x['h'])
    meta(r, c, cfg, S(1), [S(h['g']) for h in x['h']], [S(2)] * n,
         tans=(S(0), [S(h['d']) for h in x['h']], [S(3)] * n), only=x['moved'] or '-')

KINDS = [k for k in TX if k != 'sm3' and k != 'a_sm3'] + ['sm3', 'a_sm3', 'a_yogi']
def config(c, k):
  if k == 'a_yogi': cfg = {'k': k, 'lr': lr(c), 'b1': N(.9), 'b2': N(.9), 'eps': N(1e-3), 'rule': 'deviation'}
  else: cfg = dict({'k': k}, **TX[k](c))
  if 'eps' in cfg: cfg['eps'] = N(c.rng.choice([1e-3, .05]))
  if 'root' in cfg: cfg['root'] = N(c.rng.choice([1e-3, .01]))
  if 'init' in cfg and is_num(cfg['init']): cfg['init'] = N(c.rng.choice([.1, .3]))
  if k in ('a_lamb', 'a_fromage', 'trust'): pass
  return cfg

def tree(c, n=7, ranks=None):
  while True:
    p = c.params('float64', shapes=[c.shape(ranks) for _ in range(4)], maxl=3)
    if 0 < sum(x.size for x in leaves(p)) <= n * 3: return p

@job('64', shards=4)
def every_kind(c):
  """Every transformation: along gradients, params, initial params and constants."""
  for i, k in enumerate(c.mine(KINDS * (1 if not c.thorough else 8))):
    cfg = config(c, k)
    p = tree(c)
    wp = needs_params(cfg) or c.rng.random() < .3
    T = c.rng.choice([2, 3, 4])
    r = c.run(k, rtol=RT, floor=FL)
    meta(r, c, cfg, p, [c.like(p) for _ in range(T)], [c.like(p) for _ in range(T)] if wp else [])

@job('64', shards=2)
def composed(c):
  """Compositions and wrappers."""
  W = ['chain', 'flatten', 'aif', 'multi', 'masked', 'maybe', 'lookahead', 'inject']
  for i in c.each(16, 128):
    w = W[(i + c.seed) % len(W)]
    a, b = (config(c, c.rng.choice(['trace', 'adam', 'rms', 'a_adam', 'a_sgd', 'cgn', 'clip', 'wd', 'ema', 'a_adamw', 'rss'])) for _ in range(2))
    cfg = {'chain': {'k': 'chain', 'm': [a, b]}, 'flatten': {'k': 'flatten', 'in': a}, 'aif': {'k': 'aif', 'max': 1, 'in': a},
           'multi': {'k': 'multi', 'every': N(2), 'mean': i % 2 == 0, 'in': a}, 'masked': {'k': 'masked', 'mask': {'fn': 'rank_ne_1'}, 'in': a},
           'maybe': {'k': 'maybe', 'pred': table([1, 0, 1]), 'in': a},
           'lookahead': {'k': 'lookahead', 'period': 2, 'alpha': N(.5), 'reset': i % 2 == 0, 'in': a},
           'inject': {'k': 'inject', 'in': {'k': 'a_adam', 'lr': N(.1), 'b1': N(.9), 'b2': N(.99), 'eps': N(1e-3), 'root': N(1e-3)},
                      'scheds': {}, 'consts': {'lr': '0.1', 'b1': '0.9', 'b2': '0.99', 'eps': '0.001', 'root': '0.001'}, 'names': ['lr', 'b1', 'b2', 'eps', 'root']}}[w]
    p = tree(c, 3)
    T = 4
    ps = [c.like(p) for _ in range(T)] if needs_params(cfg) else []
    if w == 'lookahead': ps = [LP(fast=c.like(p), slow=c.like(p)) for _ in range(T)]
    meta(c.run('%s %s' % (w, a['k']), rtol=RT, floor=FL), c, cfg, p, [c.like(p) for _ in range(T)], ps, prob=0 if w == 'inject' else .5)

@job('64')
def zero_gradients(c):
  """The derivative exists at zero gradients (eps_root, eps), zero params and
  zero updates (safe norms)."""
  Z = [{'k': 'adam', 'b1': N(.9), 'b2': N(.99), 'eps': N(1e-3), 'root': N(1e-2)}, {'k': 'belief', 'b1': N(.9), 'b2': N(.9), 'eps': N(1e-3), 'root': N(1e-2)},
       {'k': 'yogi', 'b1': N(.9), 'b2': N(.9), 'eps': N(1e-3), 'root': N(1e-2), 'init': N(.1), 'rule': 'deviation'},
       {'k': 'radam', 'b1': N(.9), 'b2': N(.9), 'eps': N(1e-3), 'root': N(1e-2), 'thr': N(5.)},
       {'k': 'rms', 'decay': N(.9), 'eps': N(1e-2), 'init': N(0.)}, {'k': 'rss', 'init': N(.1), 'eps': N(1e-2)},
       {'k': 'stddev', 'decay': N(.9), 'eps': N(1e-2), 'init': N(0.)},
       {'k': 'a_adam', 'lr': N(.1), 'b1': N(.9), 'b2': N(.99), 'eps': N(1e-3), 'root': N(1e-2)},
       {'k': 'a_adamw', 'lr': N(.1), 'b1': N(.9), 'b2': N(.99), 'eps': N(1e-3), 'root': N(1e-2), 'wd': N(.1)}]
  for cfg in Z:
    p = c.params('float64', struct='dict', shapes=[(2,), ()], maxl=2)
    T = 3
    gs = [tm(lambda x: x * (c.np.rand(*x.shape) < .4), c.like(p)) for _ in range(T)]
    meta(c.run('zero ' + cfg['k'], rtol=RT, floor=FL), c, cfg, p, gs, [c.like(p) for _ in range(T)])
  for k in ('trust', 'a_lamb', 'a_fromage'):
    for mn in (0., .3):
      cfg = config(c, k)
      if 'min' in cfg: cfg['min'] = N(mn)
      elif mn: continue
      p = {'a': c.value((2,), 'float64'), 'z': c.value((3,), 'float64')}
      for what in ('params', 'updates') if k != 'a_lamb' else ('params',):
        q, g = c.like(p), c.like(p); dq, dg = c.like(p), c.like(p)
        (q if what == 'params' else g)['z'] = jnp.zeros(3, F); (dq if what == 'params' else dg)['z'] = jnp.zeros(3, F)
        meta(c.run('zero norm %s %s' % (what, k), rtol=RT, floor=FL), c, cfg, q, [g], [q], tans=(dq, [dg], [dq]), only='-')

# ------------------------------------------------------------ unrolled runs --
def quad(c, n):
  q, _ = np.linalg.qr(c.np.randn(n, n)); A = (q @ np.diag(c.np.uniform(.5, 2, n)) @ q.T).round(4)
  f = [{'c': num(float(.5 * A[i, j])), 'e': [(k == i) + (k == j) for k in range(n)]} for i in range(n) for j in range(n)]
  f += [{'c': num(float(v)), 'e': [int(k == i) for k in range(n)]} for i, v in enumerate(c.np.uniform(-2, 2, n).round(3))]
  return f + [{'c': num(.2), 'e': [0] * k + [3] + [0] * (n - 1 - k)} for k in range(n)]

def unroll(cfg, prob, evs):
  CE = [arrays(f, F) for f in prob]
  look = cfg['k'] == 'lookahead'
  def loss(fast, bs):
    x = jnp.concatenate([jnp.reshape(l, (-1,)) for l in leaves(fast)])
    return sum(evaluate(C, E, x) for C, E in bs) / len(bs)
  def fn(theta, p):
    ir.VARS[:] = list(theta)
    tx = ir.build_tx(cfg)
    s = tx.init(p)
    out = []
    for e in evs:
      g = jax.grad(loss)(p.fast if look else p, CE if e['b'] == 0 else [CE[e['b'] - 1]])
      u, s = tx.update(g, s, p)
      p = optax.apply_updates(p, u)
      out.append(p)
    return out
  return fn

@job('64')
def schedules(c):
  """Along the values of learning-rate schedules."""
  for i, s in enumerate(['table', 'pconst', 'poly', 'expo', 'cosine', 'table']):
    k = ['a_sgd', 'sched', 'a_adam', 'a_adamw', 'a_rmsprop', 'a_lamb'][(i + c.seed) % 6]
    cfg = config(c, k)
    cfg['fn' if k == 'sched' else 'lr'] = rand_sched(c, [s])
    p = tree(c, 2)
    T = 5
    coarse = s in ('poly', 'expo', 'cosine')     # their counts are float32
    meta(c.run('%s %s' % (s, k), rtol={'float64': '1e-4'} if coarse else RT, floor=dict(FL, float64='1e-6') if coarse else FL), c, cfg, p,
         [c.like(p) for _ in range(T)], [c.like(p) for _ in range(T)] if needs_params(cfg) else [], prob=.3, reverse=not coarse)

def unzero(cfg):
  if isinstance(cfg, dict):
    if cfg.get('s') == 'table': return dict(cfg, vs=[v if float(v) else num(.3) for v in cfg['vs']])
    if cfg.get('s') == 'num' and 'lr' not in cfg: return cfg
    return {k: {'s': 'num', 'v': num(.3)} if k in ('lr', 'c') and isinstance(x, dict) and x.get('s') == 'num' and not float(x['v']) else unzero(x) for k, x in cfg.items()}
  return [unzero(x) for x in cfg] if isinstance(cfg, list) else cfg

@job('64', shards=3)
def training(c):
  """Unrolled training: the final parameters as a function of the initial ones
  and of the hyperparameters."""
  O = ['a_sgd', 'a_adam', 'a_adamw', 'a_adagrad', 'a_rmsprop', 'a_adabelief', 'a_lamb', 'a_radam', 'a_yogi', 'a_fromage']
  for i in c.each(18, 90):
    cfg = config(c, O[(i + c.seed) % len(O)])
    if is_num(cfg['lr']): cfg['lr'] = N(c.rng.choice([.1, .05]))
    w = ['', 'multi', 'aif', 'lookahead', '', 'nonneg'][i % 6]
    if w == 'multi': cfg = {'k': 'multi', 'every': N(2), 'mean': True, 'in': cfg}
    if w == 'aif': cfg = {'k': 'aif', 'max': 2, 'in': cfg}
    if w == 'lookahead': cfg = {'k': 'lookahead', 'period': 2, 'alpha': N(.5), 'reset': False, 'in': cfg}
    # (an entry held at zero by a step of length zero sits on the kink)
    if w == 'nonneg': cfg = {'k': 'chain', 'm': [unzero(cfg), {'k': 'nonneg'}]}
    p = c.params('float64', struct=c.rng.choice(['dict', 'list', 'leaf']), shapes=[(2,), (), (1, 2)], maxl=2)
    if w == 'nonneg': p = tm(jnp.abs, p)
    dp = c.like(p)
    n = len(flat(p))
    if w == 'lookahead': p, dp = LP(fast=p, slow=c.like(p)), LP(fast=dp, slow=c.like(dp))
    prob = [quad(c, n) for _ in range(2)]
    evs = [{'k': 'step', 'b': c.rng.choice([0, 1, 2])} for _ in range(4)]
    real, cp, cm, vs, ts = move(cfg, c.rng)
    got, dots, err, cot = [], [], '', []
    try:
      fn = unroll(real, prob, evs)
      cot = [c.like(p) for _ in evs]
      got, dot = derive(fn, ([jnp.asarray(v, F) for v in vs], p), ([jnp.asarray(v, F) for v in ts], dp), cot, i % 2 == 0)
      dots = [num(float(dot))] if i % 2 == 0 else []
      got, cot = [enc(u) for u in got], [enc(u) for u in cot]
    except Exception as e: err = ir.errtext(e)
    c.run('%s %s' % (w, cfg['k']), rtol=RT, floor=FL).call('meta_train', err=err, cp=cp, cm=cm, prob=prob, p=enc(p), dp=enc(dp), evs=evs,
                                                          got=got, cot=cot, dots=dots, what='training')
