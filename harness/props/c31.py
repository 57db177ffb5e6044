"""C31 closed training loops."""
import pickle
from core import *
from polys import *
LP = optax.LookaheadParams
F = jnp.float64 if X64 else jnp.float32

class Loop:
  """A real training loop over polynomial mini-batch losses."""
  def __init__(self, cfg, prob, jit=True):
    self.cfg, self.jit = cfg, jit
    m = max(len(f) for f in prob)
    self.n = len(prob[0][0]['e'])
    pad = [f + [{'c': '0', 'e': [0] * self.n}] * (m - len(f)) for f in prob]
    self.CE = [arrays(f, F) for f in pad]
    self.build()

  def build(self):
    tx = self.tx = ir.build_tx(self.cfg)
    look = self.cfg['k'] == 'lookahead'
    def loss(fast, batches):
      x = jnp.concatenate([jnp.reshape(l, (-1,)) for l in leaves(fast)])
      return jnp.mean(jnp.stack([evaluate(C, E, x.astype(F)) for C, E in batches]))
    def step(params, state, batches, spoil):
      fast = params.fast if look else params
      g = jax.grad(loss)(fast, batches)
      l, td = jax.tree_util.tree_flatten(g)
      if spoil is not None: l[0] = jnp.reshape(l[0], (-1,)).at[0].set(spoil).reshape(l[0].shape)
      u, state = tx.update(jax.tree_util.tree_unflatten(td, l), state, params)
      return optax.apply_updates(params, u), state
    self.step = jax.jit(step) if self.jit else step

  def start(self, p):
    look = self.cfg['k'] == 'lookahead'
    self.params = LP.init_synced(p) if look else p
    self.state = self.tx.init(self.params)
    self.save()

  def save(self):
    l, self.td = jax.tree_util.tree_flatten((self.params, self.state))
    self.blob = pickle.dumps([np.asarray(x) for x in l])

  def crash(self, rebuild=True):
    if rebuild: self.build()
    self.params, self.state = jax.tree_util.tree_unflatten(self.td, [jnp.asarray(x) for x in pickle.loads(self.blob)])

  def event(self, e, rebuild=False):
    if e['k'] == 'save': self.save()
    elif e['k'] == 'crash': self.crash(rebuild)
    else:
      bs = self.CE if e['b'] == 0 else [self.CE[e['b'] - 1]]
      bad = jnp.asarray(float(e['x']), F) if e['k'] == 'bad' else None
      self.params, self.state = self.step(self.params, self.state, bs, bad)
    return self.params

def train(r, cfg, prob, p, evs, loop=None, jit=True, reach=None, rebuild=False, what=''):
  got, err = [], ''
  p0 = p
  try:
    lp = loop or Loop(cfg, prob, jit)
    lp.start(p); p0 = lp.params
    for e in evs: got.append(enc(lp.event(e, rebuild)))
  except Exception as e: err = ir.errtext(e)
  r.call('train', err=err, cfg=ir.clean(cfg), prob=prob, p=enc(p0), evs=evs, got=got, reach=[reach] if reach else [], what=what or cfg['k'])

STEP = lambda b=0: {'k': 'step', 'b': b}
def quad(a, b):
  return [{'c': '0.5', 'e': [2, 0]}, {'c': num(-a), 'e': [1, 0]}, {'c': num(.5 * a * a), 'e': [0, 0]},
          {'c': '2', 'e': [0, 2]}, {'c': num(-4 * b), 'e': [0, 1]}, {'c': num(2 * b * b), 'e': [0, 0]}]
PROB = [quad(2., .5), quad(0., -1.5)]
P0 = lambda: {'w': jnp.asarray(3., F), 'z': jnp.asarray(2., F)}
RT = {'float64': '1e-7'} if X64 else {'float32': '3e-3'}
FL = dict(ir.FLOOR, float64='1e-9', float32='1e-4')

def real(cfg):
  """Configuration of a plan with buildable masks."""
  if isinstance(cfg, dict) and cfg.get('fn') == 'table':
    return dict(cfg, _py={m['path'][0]: m['sel'] for m in cfg['m']})
  if isinstance(cfg, dict): return {k: real(v) for k, v in cfg.items()}
  return [real(v) for v in cfg] if isinstance(cfg, list) else cfg

@job(shards=4)
def replay(c):
  """Every history of the bounded model; the long runs come near the minimum."""
  pl = c.plans['MC_train']
  for g in c.mine(group(pl, lambda x: [x['mode'], x['cfg']])):
    cfg = real(g[0]['cfg'])
    r = c.run('%s %s' % (g[0]['mode'], cfg['k']), rtol=RT, floor=FL)
    loop = Loop(cfg, PROB)
    hs = [x['h'] for x in g]
    if g[0]['mode'] == 'branch' and not c.thorough:
      k = 7 if X64 else 29
      hs = hs[c.seed % k::k]
    for h in hs: train(r, cfg, PROB, P0(), h, loop)

def convex(c, n):
  """A few mini-batch quadratics whose mean has curvatures in [.5, 4]."""
  q, _ = np.linalg.qr(c.np.randn(n, n))
  A = q @ np.diag(c.np.uniform(.5, 4, n)) @ q.T
  prob = []
  for _ in range(c.rng.randint(1, 3)):
    a = c.np.uniform(-2, 2, n).round(3); B = A.round(4)
    f = [{'c': num(float(.5 * B[i, j])), 'e': [(k == i) + (k == j) for k in range(n)]} for i in range(n) for j in range(n)]
    v = B @ a
    f += [{'c': num(float(-v[i])), 'e': [int(k == i) for k in range(n)]} for i in range(n)]
    f += [{'c': num(float(.5 * a @ B @ a)), 'e': [0] * n}]
    prob.append(f)
  return prob

def events(c, nb, n, bad=False):
  out = []
  for _ in range(n):
    u = c.rng.random()
    if bad and u < .2: out.append({'k': 'bad', 'b': c.rng.randint(0, nb), 'x': c.rng.choice(['nan', 'inf', '-inf'])})
    elif u < .3: out.append({'k': 'save'})
    elif u < .4: out.append({'k': 'crash'})
    else: out.append(STEP(c.rng.randint(0, nb)))
  return out

SMALL = {'lr': lambda c: {'s': 'num', 'v': num(c.rng.choice([.1, .03, .2]))}}
def opt(c, f32=False, i=None):
  ks = (['a_sgd', 'a_adam', 'a_adagrad'] if f32 else
                   ['a_sgd', 'a_sgd', 'a_adam', 'a_adamw', 'a_adagrad', 'a_adabelief', 'a_rmsprop', 'a_lamb', 'a_sm3', 'a_radam'])
  k = ks[(i // 2 + c.seed) % len(ks)] if i is not None else c.rng.choice(ks)
  cfg = dict({'k': k}, **TX[k](c))
  if c.rng.random() < .6 or k == 'a_sm3': cfg['lr'] = N(c.rng.choice([.1, .03, .2]))
  if 'eps' in cfg: cfg['eps'] = N(1e-3)
  return cfg

WRAPS = ['', 'multi', 'aif', 'lookahead', 'masked', 'maybe', 'flatten', 'multi', 'chain', 'nonneg', 'clip', 'every']
def wrapped(c, cfg, i):
  w = WRAPS[(i + c.seed) % len(WRAPS)]
  r = c.rng
  if w == 'aif': return {'k': 'aif', 'max': r.choice([0, 1, 3]), 'in': cfg}
  if w == 'multi': return {'k': 'multi', 'every': r.choice([N(2), N(3), table([3, 2, 1, 4]), table([1, 3, 2])]), 'mean': r.random() < .7, 'in': cfg}
  # (leaves outside the selection make plain gradient steps)
  if w == 'masked': return {'k': 'chain', 'm': [{'k': 'scale', 'c': N(-.05)}, {'k': 'masked', 'mask': {'fn': r.choice(['rank_ne_1', 'rank_eq_0'])}, 'in': {'k': 'trace', 'decay': N(.5), 'nesterov': r.random() < .5, 'acc': ''}}]}
  if w == 'maybe': return {'k': 'chain', 'm': [cfg, {'k': 'maybe', 'pred': table([0, 1, 1, 0, 1]), 'in': {'k': 'scale', 'c': N(.5)}}]}
  if w == 'lookahead': return {'k': 'lookahead', 'period': r.choice([1, 2, 3]), 'alpha': N(.5), 'reset': r.random() < .5, 'in': cfg}
  if w == 'flatten': return {'k': 'flatten', 'in': cfg}
  if w == 'chain': return {'k': 'chain', 'm': [{'k': 'wd', 'c': N(.01)}, cfg]}
  if w == 'nonneg': return {'k': 'chain', 'm': [cfg, {'k': 'nonneg'}]}
  if w == 'clip': return {'k': 'chain', 'm': [{'k': 'cgn', 'c': N(1.)}, cfg]}
  if w == 'every': return {'k': 'chain', 'm': [cfg, {'k': 'apply_every', 'every': 2}]}
  return cfg

@job(shards=3)
def histories(c):
  """Random trees, losses, optimisers, wrappers and event histories."""
  for i in c.each(24, 240):
    p = c.params(c.f(), shapes=[c.shape((0, 1, 2)) for _ in range(4)], maxl=3)
    while sum(x.size for x in leaves(p)) > 9: p = c.params(c.f(), shapes=[c.rng.choice([(), (2,), (1, 2), (3,)]) for _ in range(4)], maxl=3)
    prob = convex(c, len(flat(p)))
    if i % 3 == 1:     # a coordinate no loss depends on: its gradient is exactly zero
      j = c.rng.randrange(len(flat(p)))
      prob = [[m for m in f if not m['e'][j]] for f in prob]
    cfg = wrapped(c, opt(c, not X64, i), i)
    bad = cfg['k'] == 'aif' and c.rng.random() < .8
    if bad: cfg['max'] = 20
    evs = events(c, len(prob), 14 if X64 else 8, bad)
    r = c.run('%s' % cfg['k'], rtol=RT, floor=FL)
    train(r, cfg, prob, p, evs, jit=i % 5 != 4, rebuild=i % 3 == 0)

@job('64', shards=2)
def defaults(c):
  """The named optimisers with nothing but a learning rate, for many steps."""
  pl = c.plans['MC_train']
  D = {'a_adam': {'b1': N(.9), 'b2': N(.999), 'eps': N(1e-8), 'root': N(0.), '_omit': ['b1', 'b2', 'eps', 'eps_root']},
       'a_adamw': {'b1': N(.9), 'b2': N(.999), 'eps': N(1e-8), 'root': N(0.), 'wd': N(1e-4), '_omit': ['b1', 'b2', 'eps', 'eps_root', 'weight_decay']},
       'a_adagrad': {'init': N(.1), 'eps': N(1e-7), '_omit': ['initial_accumulator_value', 'eps']},
       'a_sgd': {'momentum': [], 'nesterov': False, '_omit': ['momentum', 'nesterov']}}
  for i, (k, d) in enumerate(c.mine(sorted(D.items()))):
    for l in (N(.1), {'s': 'pconst', 'init': '0.2', 'bs': [[20, '0.5'], [40, '0.5']]}):
      cfg = dict(d, k=k, lr=l)
      p = c.params('float64', struct='nested2', shapes=[(2,), (), (1, 2)])
      prob = convex(c, len(flat(p)))
      train(c.run(k, rtol=RT, floor=FL), cfg, prob, p, [STEP()] * 80, reach=None)

@job('64')
def compiled_run(c):
  """The whole run inside one compiled loop."""
  for cfg in ({'k': 'a_adam', **TX['a_adam'](c)}, {'k': 'multi', 'every': N(2), 'mean': True, 'in': {'k': 'a_sgd', 'lr': N(.1), 'momentum': [N(.9)], 'nesterov': True}}):
    p = c.params('float64', struct='dict', shapes=[(2,), ()])
    prob = convex(c, len(flat(p))); n = 12
    lp = Loop(cfg, prob, jit=False)
    r = c.run('scan ' + cfg['k'], rtol=RT, floor=FL)
    got, err = [], ''
    try:
      lp.start(p)
      def body(ps, _):
        ps = lp.step(ps[0], ps[1], lp.CE, None)
        return ps, ps[0]
      _, out = jax.lax.scan(body, (lp.params, lp.state), None, length=n)
      got = [enc(tm(lambda x: x[i], out)) for i in range(n)]
    except Exception as e: err = ir.errtext(e)
    r.call('train', err=err, cfg=ir.clean(cfg), prob=prob, p=enc(p), evs=[STEP()] * n, got=got, reach=[], what='scan')
