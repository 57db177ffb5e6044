"""C18 Clipping."""
from core import *
from generic import *

@job('64', shards=4)
def exhaustive(c):
  for k in ('clip', 'cgn', 'agc'):
    replay_steps(c, [p for p in c.plans['MC_clip'] if p['cfg']['k'] == k], params=k == 'agc')

def agc_shape(c):
  return c.rng.choice([(), (1,), (4,), (1, 3), (3, 1), (2, 3), (1, 1), (2, 3, 2), (2, 1, 3), (1, 2, 2), (1, 1, 3), (3, 1, 1),
                       (2, 2, 2, 3), (1, 2, 1, 2), (3, 1, 1, 1), (1, 1, 1, 4), (1, 1, 2, 3), (2, 1, 1, 3), (3, 2, 1, 1), (1, 3, 2, 1)])

def thresholds(c, k, g, p):
  """A threshold on a random side of the tree's own norms."""
  L = [np.asarray(x, np.float64) for x in leaves(g)]
  if k == 'clip': base = max([float(np.max(np.abs(x))) for x in L if x.size] + [0.]) or 1.
  elif k == 'cgn': base = float(np.sqrt(sum(np.sum(x * x) for x in L))) or 1.
  else:
    P = [np.asarray(x, np.float64) for x in leaves(p)]
    base = (float(np.linalg.norm(L[0])) or 1.) / (float(np.linalg.norm(P[0])) or 1.)
  return base * c.rng.choice([.3, .9, .999, 1.001, 1.1, 3., 100.])

@job(shards=4)
def trees(c):
  """Random trees, thresholds on both sides of their norms."""
  for i in c.each(150):
    k = ['clip', 'cgn', 'agc'][i % 3]
    dt = c.rng.choice(c.dtypes())
    p = c.params(dt, shapes=[agc_shape(c) for _ in range(4)] if k == 'agc' else None, mode=c.rng.choice(['normal', 'normal', 'zero', 'sparse']))
    ms = ['normal', 'sparse', 'int', 'zero']
    if dt == 'float64': ms += ['small', 'big']
    g = c.like(p, modes=ms) if c.rng.random() < .5 else c.like(p, c.rng.choice(ms))
    th = thresholds(c, k, g, p)
    if dt in ('float16', 'bfloat16'): th = float(jnp.asarray(th, dt))
    f = {'k': k, 'c': N(th)}
    if k == 'agc': f['eps'] = N(c.rng.choice([1e-3, .5]))
    # all-zero updates below any threshold
    if k == 'cgn' and th == 0.: continue
    r = c.run(k, f, jit=i % 3 == 0, floor=ir.EXACT0 if dt in ('float64', 'float32') else None)
    r.init(p)
    for _ in range(3):
      r.upd(g, p if k == 'agc' else None)
      g = c.like(p, modes=ms)
      if k == 'cgn' and not any(np.any(np.asarray(x, np.float64)) for x in leaves(g)): g = c.like(p)

@job(shards=2)
def mixed_dtypes(c):
  """Leaves of different dtypes are coupled by the global norm."""
  ds = ['float64', 'float32'] if X64 else ['float32', 'float16', 'bfloat16']
  for _ in range(c.n(8)):
    p = c.params(ds, struct=c.rng.choice(['dict', 'nested', 'tuple']))
    r = c.run('cgn', {'k': 'cgn', 'c': N(c.rng.choice([.5, 2., 50.]))}, rtol={'float64': '1e-5', 'float32': '1e-2' if not X64 else '1e-5'})
    r.init(p)
    for _ in range(3): r.upd(c.like(p))

@job('64')
def extremes(c):
  """Huge and tiny entries, infinities."""
  for k, th in (('clip', 1.), ('clip', 1e-30), ('cgn', 1.), ('cgn', 1e30)):
    for mode in ('huge', 'tiny', 'spread'):
      p = c.params('float64', struct='dict')
      r = c.run('%s %s %s' % (k, th, mode), {'k': k, 'c': N(th)}, floor=ir.EXACT0)
      r.init(p); r.upd(c.like(p, mode)); r.upd(c.like(p, modes=[mode, 'normal']))
  p = c.params('float64', struct='dict')
  r = c.run('clip inf', {'k': 'clip', 'c': N(2.)}); r.init(p)
  for m in ('nan', 'inf', 'naninf'): r.upd(c.like(p, m))

@job('64')
def boundary(c):
  """Norms exactly at the threshold (3-4-5 tensors)."""
  for v in ([3., 4.], [0., 5.], [-5., 0.], [3., -4.]):
    g = {'a': jnp.asarray(v), 'b': jnp.asarray(0.)}
    for th in (5., 4.999999, 5.000001):
      r = c.run('cgn at', {'k': 'cgn', 'c': N(th)}); r.init(g); r.upd(g)
      q = {'a': jnp.asarray([5., 0.]), 'b': jnp.asarray(1.)}
      r = c.run('agc at', {'k': 'agc', 'c': N(th / 5), 'eps': N(1e-3)}); r.init(q); r.upd(g, q)

@job()
def agc_ranks(c):
  """Every rank and pattern of unit axes; default eps."""
  for sh in [(), (1,), (3,), (1, 1), (1, 3), (3, 1), (3, 2), (1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2),
             (1, 1, 1, 1), (2, 1, 1, 1), (1, 1, 1, 2), (2, 1, 1, 2), (1, 2, 2, 1), (2, 2, 1, 1), (2, 2, 2, 2), (1, 2, 1, 2)]:
    p = c.value(sh, c.f())
    f = {'k': 'agc', 'c': N(c.rng.choice([.2, 1.])), 'eps': N(1e-3), '_omit': ['eps']}
    r = c.run('agc %s' % (sh,), f, jit=False); r.init(p)
    for m in ('normal', 'normal', 'sparse'): r.upd(c.value(sh, c.f(), m), c.value(sh, c.f()))
    r.upd(c.value(sh, c.f()), c.value(sh, c.f(), 'zero'))

CLIPS = lambda c, i: dict({'k': ['cgn', 'agc', 'clip'][i % 3]}, **TX[['cgn', 'agc', 'clip'][i % 3]](c))
suite(CLIPS, n=(5, 2, 3, 3))
