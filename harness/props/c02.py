"""C02 purity and resumption."""
from core import *
from generic import *
import copy, pickle

def everything(c):
  """One configuration of every transformation, wrapper and alias."""
  out = [dict({'k': k}, **TX[k](c)) for k in TX]
  a = dict({'k': 'a_adam'}, **TX['a_adam'](c))
  w = dict({'k': 'a_adamw'}, **TX['a_adamw'](c))
  out += [
      {'k': 'chain', 'm': [dict({'k': 'cgn'}, **TX['cgn'](c)), a, {'k': 'wd', 'c': N(.1)}]},
      {'k': 'flatten', 'in': a}, {'k': 'aif', 'max': 1, 'in': a}, {'k': 'multi', 'every': N(2), 'mean': True, 'in': w},
      {'k': 'masked', 'mask': {'fn': 'rank_ne_1'}, 'in': w}, {'k': 'maybe', 'pred': table([1, 0, 1, 0]), 'in': a},
      {'k': 'lookahead', 'period': 2, 'alpha': N(.5), 'reset': True, 'in': a},
      {'k': 'lookahead', 'period': 3, 'alpha': N(.5), 'reset': False, 'in': w},
      {'k': 'inject', 'in': dict(a, lr=N(.1)), 'scheds': {'b1': table([.9, .5, .2])}, 'consts': {'lr': num(.1)}, 'names': ['b1', 'lr']},
      {'k': 'noise', 'eta': N(.1), 'gamma': N(.55), '_seed': 3},
      {'k': 'dp', 'clip': N(1.), 'mult': N(.5), '_seed': 4},
      {'k': 'a_noisy_sgd', 'lr': N(.1), 'eta': N(.1), 'gamma': N(.55), '_seed': 5},
      {'k': 'a_dpsgd', 'lr': N(.1), 'clip': N(1.), 'mult': N(.5), '_seed': 6, 'momentum': [N(.9)], 'nesterov': False},
      {'k': 'chain', 'm': [{'k': 'noise', 'eta': N(.1), 'gamma': N(.55), '_seed': 3}, a]},
      {'k': 'multi', 'every': N(2), 'mean': False, 'in': {'k': 'noise', 'eta': N(.1), 'gamma': N(.55), '_seed': 3}},
  ]
  return out

def is_dp(cfg): return cfg['k'] in ('dp', 'a_dpsgd')
def label(cfg): return cfg['k'] + ('(' + label(cfg['in']) + ')' if 'in' in cfg else '')

def inputs(c, cfg, p, n):
  """n updates and params for cfg around params p."""
  gs, ps = [], []
  for _ in range(n):
    if is_dp(cfg): gs.append(tm(lambda x: c.value((3,) + x.shape, str(x.dtype)), p))
    else: gs.append(c.like(p, modes=['normal', 'sparse']))
    q = c.like(p)
    ps.append(optax.LookaheadParams(q, c.like(p)) if cfg['k'] == 'lookahead' else q)
  return gs, ps

def first(cfg, p): return optax.LookaheadParams(p, p) if cfg['k'] == 'lookahead' else p

class Session:
  """Calls without specification of values: only relations are recorded."""
  def __init__(self, c, cfg, lab, jit):
    self.cfg = cfg
    self.r = c.run(lab, {'k': 'identity'})
    self.tx = ir.build(copy.deepcopy(cfg))
    self.update = jax.jit(self.tx.update) if jit else self.tx.update
  def same(self, a, b, what): self.r.call('same', a=a, b=b, what=what)

def snap(t):
  return [str(jax.tree_util.tree_structure(t))] + [[str(np.asarray(x).dtype), list(np.shape(x)), np.asarray(x).tobytes().hex()]
          for x in jax.tree_util.tree_leaves(t)]

@job(shards=4)
def calls(c):
  """Repeated calls agree bitwise and alter no argument; interleaved sessions."""
  for cfg in c.mine(everything(c)):
    for jit in ((False, True) if X64 or c.thorough else (True,)):
      dt = c.f()
      p = c.params(dt, struct=c.rng.choice(['dict', 'nested', 'list', 'nt', 'none']))
      s = Session(c, cfg, label(cfg) + (' jit' if jit else ''), jit)
      gs, ps = inputs(c, cfg, p, 3)
      p0 = first(cfg, p)
      before = snap(p0)
      st0 = s.tx.init(p0)
      s.same(snap(p0), before, 'params after init')
      s.same(snap(s.tx.init(p0)), snap(st0), 'second init')
      st, hist = st0, []
      for g, q in zip(gs, ps):
        fz = snap(st), snap(g), snap(q)
        u, n = s.update(g, st, q)
        s.same([snap(st), snap(g), snap(q)], list(fz), 'arguments of update')
        hist.append((g, st, q, snap(u), snap(n), fz[0]))
        st = n
      # every earlier call again, in another order, after a fresh init
      s.tx.init(tm(lambda x: x + 1, p0))
      for g, st, q, u, n, f in reversed(hist):
        v, m = s.update(g, st, q)
        s.same([snap(v), snap(m)], [u, n], 'repeated update')
        s.same(snap(st), f, 'state after later calls')
      # a second transformation built from the same arguments
      t2 = ir.build(copy.deepcopy(cfg))
      up2 = jax.jit(t2.update) if jit else t2.update
      s.same(snap(t2.init(p0)), snap(st0), 'init of a rebuilt transformation')
      for g, st, q, u, n, f in hist:
        v, m = up2(g, st, q)
        s.same([snap(v), snap(m)], [u, n], 'update of a rebuilt transformation')

@job(shards=4)
def resume(c):
  """Save at every step, rebuild, continue: the same updates, bitwise."""
  for cfg in c.mine(everything(c)):
    p = c.params(c.f(), struct=c.rng.choice(['dict', 'nested', 'leaf', 'deep']))
    s = Session(c, cfg, label(cfg), True)
    T = 5
    gs, ps = inputs(c, cfg, p, T)
    st, us, blobs = s.tx.init(first(cfg, p)), [], []
    for g, q in zip(gs, ps):
      l, td = jax.tree_util.tree_flatten(st)
      blobs.append((pickle.dumps([np.asarray(x) for x in l]), td))
      u, st = s.update(g, st, q)
      us.append(snap(u))
    tx = ir.build(copy.deepcopy(cfg)); up = jax.jit(tx.update)
    for k in range(T):
      st = jax.tree_util.tree_unflatten(blobs[k][1], [jnp.asarray(x) for x in pickle.loads(blobs[k][0])])
      for i in range(k, T):
        u, st = up(gs[i], st, ps[i])
        s.same(snap(u), us[i], 'update %d resumed at %d' % (i, k))

@job('64', shards=4)
def exhaustive(c):
  """Every short interleaving of init, update and restore over two slots."""
  kinds = [probe_cfg(2), {'k': 'trace', **TX['trace'](c)}, {'k': 'adam', **TX['adam'](c)},
           {'k': 'apply_every', 'every': 2}, {'k': 'maybe', 'pred': table([0, 1, 1, 0]), 'in': probe_cfg(2)},
           {'k': 'multi', 'every': N(2), 'mean': True, 'in': probe_cfg(2)}, {'k': 'sched', 'fn': table([1., 2., 4.]), 'neg': True},
           {'k': 'inject', 'in': {'k': 'scale', 'c': N(2.)}, 'scheds': {'c': table([1., 2., 4.])}, 'consts': {}, 'names': ['c']}]
  lead = {}
  hs = sorted(p['h'] for p in c.plans['MC_store'])
  for i, h in enumerate(hs):
    if i % c.shards != c.shard: continue
    j = (i // c.shards) % len(kinds)
    r = c.run('%s %s' % (kinds[j]['k'], i), kinds[j])
    if j in lead: r.share(lead[j])
    else: lead[j] = r
    age = {}
    for op, a, b in h:
      if op == 'init': r.init(jnp.asarray(3.), b); age[b] = 0
      elif op == 'upd': r.upd(jnp.asarray(2. + age[a]), None, a, b); age[b] = age[a] + 1
      else: r.restore(a, b, rebuild=False); age[b] = age[a]

@job('64', shards=2)
def interleaved(c):
  """Long random interleavings of several sessions, checked by value."""
  for i in c.each(8):
    cfg = rand_tx(c, None, 1)
    r = c.run('interleaved', cfg)
    p = c.params('float64')
    live = []
    for t in range(14):
      x = c.rng.random()
      if not live or x < .15: d = c.rng.randint(1, 4); r.init(c.like(p), d); live = sorted(set(live + [d]))
      elif x < .3 and t % 2: s, d = c.rng.choice(live), c.rng.randint(1, 4); r.restore(s, d, rebuild=c.rng.random() < .2); live = sorted(set(live + [d]))
      else:
        s, d = c.rng.choice(live), c.rng.choice([0, c.rng.randint(1, 4)])
        r.upd(c.like(p), c.like(p), s, d or s); live = sorted(set(live + [d or s]))

def any_cfg(c, i):
  ok = [x for x in everything(c) if x['k'] not in ('noise', 'dp', 'a_noisy_sgd', 'a_dpsgd', 'yogi') and 'noise' not in json.dumps(x)]
  return c.rng.choice(ok)
suite(any_cfg, n=(10, 4, 2, 2))
