"""C05 MultiSteps."""
from core import *
from generic import *

def cfg_of(inner, every, mean=True): return {'k': 'multi', 'every': every, 'mean': mean, 'in': inner}
PAR = lambda i: jnp.asarray(10. + i)

@job('64', shards=4)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_multi'], lambda p: (p['mean'], p['ks']))):
    r = c.run('mean=%s ks=%s' % (g[0]['mean'], g[0]['ks']), cfg_of(probe_cfg(2, True), {'s': 'table', 'vs': g[0]['ks']}, g[0]['mean']))
    r.init(jnp.asarray(3.0))
    trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(jnp.asarray(float(x)), PAR(a), a, b))

@job(shards=3)
def histories(c):
  for i in c.each(24):
    dt = c.rng.choice(c.dtypes())
    inner = inner_tx(c, dt)
    if c.rng.random() < .6: every = N(c.rng.choice([1, 2, 3, 4, 5]))
    else: every = table([c.rng.choice([1, 2, 3, 5]) for _ in range(c.rng.randint(1, 4))])
    mean = c.rng.random() < .6
    cfg = cfg_of(inner, every, mean)
    if mean and c.rng.random() < .5: cfg['_omit'] = ['mean']
    p = c.params(dt)
    r = c.run('%s every=%s mean=%s' % (inner['k'], every, mean), cfg, jit=i % 8 != 7)
    drive(c, r, p, 12 if r.jit else 4, modes=gmodes(dt), with_params=None if c.rng.random() < .5 else True)

@job()
def independent_windows(c):
  """A non-finite or huge mini-batch affects its own window only."""
  for bad in ('nan', 'inf', 'huge'):
    for mean in (True, False):
      for k in (2, 3):
        cfg = cfg_of({'k': 'scale', 'c': N(-0.5)}, N(k), mean)
        p = c.params(c.f(), mode='int')
        r = c.run('%s k=%d' % (bad, k), cfg, rtol={'anynf': '1'} if bad == 'inf' else None)
        drive(c, r, p, 3 * k, g=lambda i: c.like(p, bad if i == k else 'normal'))

@job('64')
def compiled_loop(c):
  for i in c.each(4):
    p = c.params('float64')
    r = c.run('scan', cfg_of(inner_tx(c, 'float64'), c.rng.choice([N(3), table([2, 1, 3])]), c.rng.random() < .5))
    r.init(p)
    gs = [c.like(p) for _ in range(9)]
    r.scan(gs, [c.like(p) for _ in gs])

@job('64')
def nested(c):
  """Under and above other wrappers."""
  p = c.params('float64', struct='nested')
  for cfg in (cfg_of({'k': 'aif', 'max': 1, 'in': probe_cfg(2)}, N(2)),
              {'k': 'chain', 'm': [{'k': 'scale', 'c': N(2)}, cfg_of(probe_cfg(2, True), N(3)), {'k': 'wd', 'c': N(.1)}]},
              cfg_of(cfg_of(probe_cfg(2), N(2)), N(3)),
              cfg_of({'k': 'flatten', 'in': {'k': 'cgn', 'c': N(1)}}, N(2), False)):
    r = c.run('nested', cfg)
    drive(c, r, p, 8, g=lambda i: c.poison(c.like(p)) if i in (2, 5) and cfg['k'] == 'multi' else c.like(p))

def cyc(vs): return {'s': 'cyc', 'vs': [num(v) for v in vs]}
suite(lambda c, i: cfg_of(inner_tx(c, c.f(), 0), N(c.rng.choice([1, 2, 3])), c.rng.random() < .6), n=(5, 2, 2, 2, 3),
      counted=lambda c, i: cfg_of(inner_tx(c, c.f(), 0), cyc([c.rng.choice([1, 2, 3]) for _ in range(3)]), c.rng.random() < .6))

@job('64')
def long_window(c):
  """Windows longer than 8 bits, in a compiled loop."""
  for k, mean in ((129, True), (257, False), (300, True)):
    r = c.run('k=%d' % k, cfg_of({'k': 'scale', 'c': N(-1.)}, N(k), mean))
    r.init(jnp.ones((2,)))
    r.scan([c.like(jnp.ones((2,)), 'int') for _ in range(k + 3)])
    r.upd(jnp.ones((2,)))
