"""C04 apply_if_finite."""
from core import *
from generic import *

def wrap(inner, m): return {'k': 'aif', 'max': m, 'in': inner}

@job('64', shards=4)
def exhaustive(c):
  byk = {}
  for p in c.plans['MC_aif']: byk.setdefault(p['max'], []).append(p['h'])
  for m in c.mine(sorted(byk)):
    r = c.run('max=%d' % m, wrap(probe_cfg(2), m))
    r.init(jnp.asarray(3.0))
    trie_replay(r, byk[m], lambda r, x, a, b: r.upd(jnp.asarray(float(x)), None, a, b))

BAD = ['nan', 'inf', '-inf']

@job(shards=3)
def histories(c):
  for i in c.each(24):
    dt = c.rng.choice(c.dtypes())
    inner = inner_tx(c, dt)
    m = c.rng.choice([0, 1, 1, 2, 3, 5])
    p = c.params(dt)
    r = c.run('%s max=%d' % (inner['k'], m), wrap(inner, m), jit=i % 8 != 7)
    r.init(p)
    wp = needs_params(r.cfg) or c.rng.random() < .3
    bad_p = c.rng.choice([.2, .5, .8])
    for t in range(c.rng.choice([6, 12, 20]) if i % 8 != 7 else 4):
      g = c.like(p, modes=gmodes(dt))
      if c.rng.random() < bad_p:
        g = c.poison(g, BAD)
        if m < 3 and c.rng.random() < .3: g = c.poison(g, BAD)
      r.upd(g, c.like(p) if wp else None)

@job()
def one_bad_entry(c):
  """Every leaf position and every kind of non-finite value is noticed."""
  for struct in ('nested', 'none', 'deep'):
    p = c.params(c.f(), struct=struct, shapes=[(2, 3), (), (1,), (3,)])
    r = c.run(struct, wrap(probe_cfg(2, couple=True), 2))
    r.init(p)
    for leaf in range(len(leaves(p))):
      for kind in BAD:
        r.upd(c.poison(c.like(p, 'int'), [kind], leaf))
        r.upd(c.like(p, 'int'))

@job()
def finite_extremes(c):
  """Finite updates of any magnitude are not errors."""
  big = 1.7e308 if X64 else 3.3e38
  p = {'w': jnp.zeros((3,), c.f()), 'b': jnp.zeros((2, 2), c.f())}
  r = c.run('extremes', wrap({'k': 'identity'}, 1))
  r.init(p)
  for s in (big, -big, 1e-300 if X64 else 1e-37, 0.0, big):
    r.upd(tm(lambda x: jnp.full(x.shape, s, x.dtype), p))
    r.upd({'w': jnp.asarray([big, -big, big], c.f()), 'b': jnp.full((2, 2), -big, c.f())})

@job('64')
def long_runs(c):
  """Long runs of errors: the limit is on consecutive errors, and counting goes on."""
  for m in (4, 30):
    r = c.run('max=%d' % m, wrap(dict({'k': 'trace'}, **{'decay': N(.5), 'nesterov': False, 'acc': ''}), m))
    r.init(jnp.ones((2,)))
    for n in (3, m, m + 2, 1, 2 * m + 3):
      for _ in range(n): r.upd(jnp.asarray([1.0, c.rng.choice([float('nan'), float('inf')])]))
      for _ in range(2): r.upd(c.like(jnp.ones((2,))))

@job()
def compiled_loop(c):
  for i in c.each(4):
    p = c.params(c.f())
    r = c.run('scan', wrap(rand_tx(c, ['a_adam', 'trace', 'a_sgd', 'ema']), c.rng.choice([0, 1, 2])))
    r.init(p)
    r.scan([c.poison(c.like(p), BAD) if c.rng.random() < .5 else c.like(p) for _ in range(10)])

WITHPAR = lambda c, i: wrap(inner_tx(c, c.f(), 0), c.rng.choice([0, 1, 2]))
suite(WITHPAR, n=(5, 2, 2, 4), poison=BAD)

@job(shards=2)
def long_totals(c):
  """Totals and lengths of runs far beyond 8 and 16 bits."""
  for m in c.mine([1, 120, 250, 300, 33000, 65530, 70000]):
    p = c.params(c.f(), struct='dict', maxl=2)
    r = c.run('max=%d' % m, wrap({'k': 'trace', 'decay': N(.5), 'nesterov': False, 'acc': ''}, m))
    r.init(p)
    r.upd(c.like(p))
    for n in (m - 2, 250, 32765, 65533, 10 ** 6):
      if n < 0: continue
      r.setc(n, 1, 2)
      for bad in (1, 1, 1, 1, 0, 1, 0): r.upd(c.poison(c.like(p, 'int'), BAD) if bad else c.like(p, 'int'), None, 2)

@job('64')
def long_loop(c):
  """A real run of 400 updates, mostly bad."""
  r = c.run('loop', wrap({'k': 'trace', 'decay': N(.5), 'nesterov': False, 'acc': ''}, 300))
  r.init(jnp.ones((2,)))
  gs = [c.like(jnp.ones((2,)), 'int') if t < 10 or t > 330 else jnp.asarray([1., float('nan')]) for t in range(340)]
  r.scan(gs)
  r.upd(jnp.asarray([1., 2.]))
