"""C08 flatten."""
from core import *
from generic import *

@job('64', shards=4)
def exhaustive(c):
  def whole(sizes, d):
    n, out = 0, []
    for z in sizes:
      out.append(jnp.asarray([float((d + n + i) ** 2 - 3) for i in range(1, z + 1)], 'float64')); n += z
    return out
  for p in c.mine(c.plans['MC_flat']):
    r = c.run('sizes=%s' % p['sizes'], {'k': 'flatten', 'in': p['in']}, jit=False)
    r.init(whole(p['sizes'], 1))
    for i in (0, 1): r.upd(whole(p['sizes'], 5 + i), whole(p['sizes'], i))

@job(shards=3)
def histories(c):
  for i in c.each(30):
    dt = c.rng.choice(c.dtypes())
    inner = inner_tx(c, dt)
    if i % 5 == 0 and dt == 'float64': inner = {'k': 'cgn', 'c': N(c.rng.choice([.5, 2.]))}
    if i % 5 == 1 and dt == 'float64': inner = dict({'k': 'trust'}, **TX['trust'](c))
    if i % 5 == 2 and dt == 'float64': inner = dict({'k': 'agc'}, **TX['agc'](c))
    if i % 5 == 3 and dt == 'float64': inner = {'k': 'centralize'}
    p = c.params(dt)
    r = c.run('%s' % inner['k'], {'k': 'flatten', 'in': inner}, jit=i % 3 != 2)
    drive(c, r, p, 5 if r.jit else 3, modes=gmodes(dt), with_params=None if c.rng.random() < .5 else True)

@job('64')
def transparent(c):
  """Elementwise transformations: recorded against the unwrapped specification."""
  for k in ELEMENTWISE:
    inner = dict({'k': k}, **TX[k](c))
    p = c.params('float64')
    r = c.run(k, inner)
    r.tx = optax.flatten(ir.build(inner)); r._upd = jax.jit(r.tx.update); r.obs = False
    drive(c, r, p, 4)

@job('64')
def compiled_loop(c):
  p = c.params('float64', struct='nested')
  r = c.run('scan', {'k': 'flatten', 'in': {'k': 'a_lamb', **TX['a_lamb'](c)}})
  r.init(p)
  gs = [c.like(p) for _ in range(6)]
  r.scan(gs, [c.like(p) for _ in gs])

@job('64')
def nested(c):
  p = c.params('float64', struct='nested')
  for cfg in ({'k': 'flatten', 'in': {'k': 'multi', 'every': N(2), 'mean': True, 'in': {'k': 'cgn', 'c': N(1.)}}},
              {'k': 'aif', 'max': 1, 'in': {'k': 'flatten', 'in': {'k': 'cgn', 'c': N(1.)}}},
              {'k': 'masked', 'mask': {'fn': 'rank_ne_1'}, 'in': {'k': 'flatten', 'in': probe_cfg(2, True, True)}},
              {'k': 'flatten', 'in': {'k': 'chain', 'm': [{'k': 'cgn', 'c': N(1.)}, {'k': 'a_adamw', **TX['a_adamw'](c)}]}}):
    drive(c, c.run('nested', cfg), p, 5, with_params=True)

suite(lambda c, i: {'k': 'flatten', 'in': c.rng.choice([inner_tx(c, c.f(), 0), {'k': 'cgn', 'c': N(1.)}, {'k': 'trust', 'min': N(0.)}])}, n=(6, 2, 2, 3))
