"""C07 maybe_update."""
from core import *
from generic import *

def cfg_of(inner, bits): return {'k': 'maybe', 'pred': table(bits), 'in': inner}

@job('64', shards=4)
def exhaustive(c):
  for p in c.mine(c.plans['MC_maybe']):
    r = c.run('pred=%s' % ''.join(p['pred']), cfg_of(probe_cfg(2, True), [int(x) for x in p['pred']]))
    r.init(jnp.asarray(3.0))
    for i, x in enumerate(p['h']): r.upd(jnp.asarray(float(x)), jnp.asarray(11. + i))

@job(shards=3)
def histories(c):
  for i in c.each(24):
    dt = c.rng.choice(c.dtypes())
    inner = inner_tx(c, dt)
    kind = i % 4
    bits = ([int(t % 3 == 2) for t in range(30)] if kind == 0 else [int(t < 4) for t in range(30)] if kind == 1 else
            [int(t >= 3) for t in range(30)] if kind == 2 else [c.rng.randint(0, 1) for _ in range(30)])
    p = c.params(dt)
    r = c.run('%s %d' % (inner['k'], kind), cfg_of(inner, bits), jit=i % 8 != 7)
    def g(t):
      u = c.like(p, modes=gmodes(dt))
      return c.poison(u) if c.rng.random() < .1 and not bits[t] and dt == 'float64' else u
    drive(c, r, p, 14 if r.jit else 4, g=g, with_params=None if c.rng.random() < .5 else True)

@job()
def compiled_loop(c):
  for i in c.each(3):
    p = c.params(c.f())
    r = c.run('scan', cfg_of(inner_tx(c, c.f(), 0), [1, 0, 0, 1, 0, 1, 1, 0, 1]))
    r.init(p)
    gs = [c.like(p) for _ in range(9)]
    r.scan(gs, [c.like(p) for _ in gs])

@job('64')
def nested(c):
  p = c.params('float64', struct='nested')
  for cfg in (cfg_of(cfg_of(probe_cfg(2, True), [1, 0, 1]), [1, 1, 0, 1]),
              {'k': 'chain', 'm': [cfg_of({'k': 'scale', 'c': N(2)}, [0, 1, 0, 1, 1]), cfg_of(probe_cfg(2), [1, 0, 0, 1])]},
              cfg_of({'k': 'masked', 'mask': {'fn': 'rank_ne_1'}, 'in': {'k': 'wd', 'c': N(.3)}}, [0, 1, 1, 0])):
    drive(c, c.run('nested', cfg), p, 8)

@job('64')
def resume(c):
  p = c.params('float64')
  r = c.run('resume', cfg_of({'k': 'a_adam', **TX['a_adam'](c)}, [0, 1, 0, 0, 1, 1, 0, 1]))
  r.init(p)
  for _ in range(3): r.upd(c.like(p))
  r.restore(1, 2)
  for _ in range(5): r.upd(c.like(p), None, 2)
  for _ in range(2): r.upd(c.like(p), None, 1)

def cyc(vs): return {'s': 'cyc', 'vs': [num(v) for v in vs]}
suite(lambda c, i: cfg_of(inner_tx(c, c.f(), 0), [1, 0, 1, 1, 0]), n=(5, 2, 2, 2, 4),
      counted=lambda c, i: {'k': 'maybe', 'pred': cyc(c.rng.choice([[1, 0], [0, 0, 1], [1, 1, 0, 1, 0]])), 'in': inner_tx(c, c.f(), 0)})

@job('64')
def long_loop(c):
  """A compiled loop longer than 8 bits can count."""
  r = c.run('loop', {'k': 'maybe', 'pred': cyc([0, 1, 1, 0, 0, 0, 1]), 'in': {'k': 'trace', 'decay': N(.5), 'nesterov': False, 'acc': ''}})
  r.init(jnp.ones((2,)))
  r.scan([c.like(jnp.ones((2,)), 'int') for _ in range(300)])
