"""C10 apply_every."""
from core import *
from generic import *

def cfg_of(k): return {'k': 'apply_every', 'every': k}

@job('64', shards=4)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_every'], lambda p: p['k'])):
    r = c.run('k=%d' % g[0]['k'], cfg_of(g[0]['k']))
    r.init(jnp.asarray(3.0))
    trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(jnp.asarray(float(x)), None, a, b))

@job(shards=3)
def histories(c):
  for i in c.each(24):
    dt = c.rng.choice(c.dtypes())
    k = c.rng.choice([1, 2, 3, 4, 5, 7])
    p = c.params(dt)
    r = c.run('k=%d' % k, cfg_of(k), jit=i % 4 != 3)
    def g(t):
      x = c.like(p, modes=gmodes(dt) if c.rng.random() < .8 else ['tiny', 'huge'] if dt == 'float64' else ['normal'])
      return c.poison(x) if c.rng.random() < .1 else x
    drive(c, r, p, 16 if r.jit else 6, g=g)

@job()
def independent_windows(c):
  for k in (1, 2, 3, 4):
    for bad in ('nan', 'inf', 'huge'):
      for at in range(k):
        p = c.params(c.f())
        drive(c, c.run('k=%d %s at %d' % (k, bad, at), cfg_of(k), rtol={'anynf': '1'} if bad == 'inf' else None), p, 3 * k + 1,
              g=lambda i: c.like(p, bad if i == at else 'normal'))

@job('64')
def long(c):
  for k in (1, 3, 10, 50):
    p = c.params('float64', struct='leaf', shapes=[(2,)])
    drive(c, c.run('k=%d' % k, cfg_of(k)), p, 120)

@job('64')
def in_context(c):
  """After an optimiser, in a chain, in a loop; params are ignored."""
  for i in range(4):
    p = c.params('float64')
    cfg = {'k': 'chain', 'm': [inner_tx(c, 'float64'), cfg_of(3)]}
    drive(c, c.run('chain', cfg), p, 7, with_params=True)
  p = c.params('float64', struct='nested')
  r = c.run('scan', cfg_of(4)); r.init(p)
  r.scan([c.like(p) for _ in range(13)])
  r = c.run('default', dict(cfg_of(1), _omit=['k'])); drive(c, r, p, 4)

suite(lambda c, i: cfg_of(c.rng.choice([1, 2, 3])), n=(6, 2, 2, 2))

@job('64')
def long_windows(c):
  """Windows longer than 8 bits, and more calls than 8 bits, in a loop."""
  for k in (129, 257, 300, 7):
    one = jnp.ones((2,))
    r = c.run('k=%d' % k, cfg_of(k)); r.init(one)
    r.scan([c.like(one, 'int') for _ in range(k + 3 if k > 7 else 400)])
    r.upd(one)

@job('64')
def very_long(c):
  """Runs of any length: where the state counts all the updates made so far,
  the run is continued from close to the largest int32, at the same place of
  its window (a position within the window is left alone)."""
  for k in (2, 3, 5, 7):
    p = c.params('float64', struct='dict', maxl=2)
    r = c.run('k=%d' % k, cfg_of(k))
    for extra in (1, k - 1):
      r.init(p)
      n = 2 * k + extra
      for _ in range(n): r.upd(c.like(p))
      s = r.store[1]
      x = getattr(s, 'count', None)
      if x is not None and np.shape(x) == () and int(x) == n:
        top = 2**31 - 1 - k
        r.store[1] = s._replace(count=jnp.asarray(top - (top - n) % k, x.dtype))
      for _ in range(3 * k + 1): r.upd(c.like(p))
