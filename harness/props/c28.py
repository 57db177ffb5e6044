"""C28 Linear algebra: global norm, power iteration, inverse p-th roots, safe norm."""
import functools
from core import *
from optax._src import numerics

def mat(a): return [[num(x) for x in r] for r in np.asarray(a, np.float64).tolist()]
def vec(a): return [num(x) for x in np.asarray(a, np.float64).reshape(-1).tolist()]
def guarded(f):
  try: return f(), ''
  except Exception as e: return None, ir.errtext(e)

def gnorm(r, t, what, f=None, rt=None):
  o, err = guarded(lambda: np.asarray((f or optax.global_norm)(t)))
  t = tm(lambda x: jnp.stack([x.real, x.imag]) if jnp.iscomplexobj(x) else x, t)
  r.call('global_norm', t=enc(t), out='' if err else num(o), sh=[] if err else list(o.shape), err=err, what=what,
         rt=rt or ('1e-9' if X64 else '2e-5'))

GN = jax.jit(lambda t: optax.global_norm(t))

@job(shards=2)
def norms(c):
  for i in c.each(60):
    dt = c.rng.choice(['float64'] if X64 else ['float32', 'float32', 'float16', 'bfloat16'])
    m = c.rng.choice(['normal', 'sparse', 'zero', 'int', 'small'] + (['spread', 'huge', 'tiny', 'big'] if dt == 'float64' else ['big'] if dt == 'float32' else []))
    if dt in ('float16', 'bfloat16'): m = c.rng.choice(['normal', 'sparse', 'zero', 'int'])
    t = c.params(dt, mode=m)
    gnorm(c.run('%s %s' % (dt, m)), t, dt, GN if i % 3 == 0 else None, rt={'float16': '1e-2', 'bfloat16': '5e-2'}.get(dt))

@job()
def norm_cases(c):
  r = c.run('cases')
  for t in ({}, [], {'a': jnp.zeros((0,))}, {'a': jnp.zeros((2, 0)), 'b': jnp.asarray([3., 4.])}, jnp.asarray(-7.),
            {'a': None, 'b': jnp.asarray(2.)}, {'a': np.asarray([1., 2.], np.float32), 'b': 2.}, {'i': jnp.asarray([3, -4])}, 5.):
    gnorm(r, t, str(t)[:40])
  t = {'a': jnp.asarray([1., jnp.nan]), 'b': jnp.asarray(1.)}; gnorm(r, t, 'nan')
  gnorm(r, {'a': jnp.asarray([1., -jnp.inf])}, 'inf')
  r = c.run('mixed')
  for i in c.each(8):
    gnorm(r, c.params([c.rng.choice(['float32', 'float64'] if X64 else ['float32', 'bfloat16', 'float16']) for _ in range(4)], mode='int'), 'mixed', rt='1e-2')
  r = c.run('large')
  for t in (c.value((1500,), c.f()), [c.value((3, 700), c.f()), c.value((70, 2, 2), c.f())], [c.value((2,), c.f()) for _ in range(150)], {'a': jnp.ones((70000,), c.f()) * 0 + 2} if c.thorough else 1.):
    for f in (None, GN): gnorm(r, t, 'large', f, rt=None if X64 else '1e-4')
  # every single leaf and entry counts
  p = c.params(c.f(), struct='nested', mode='zero')
  ls, td = jax.tree_util.tree_flatten(p)
  for i in range(len(ls)):
    for j in {0, ls[i].size - 1}:
      q = list(ls); a = np.zeros(ls[i].shape); a.reshape(-1)[j] = -3.; q[i] = jnp.asarray(a, ls[i].dtype)
      gnorm(r, jax.tree_util.tree_unflatten(td, q), 'one entry')

# ----------------------------------------------------------- symmetric ones --
def rot(c, n):
  q, _ = np.linalg.qr(c.np.randn(n, n)) if n > 1 else (np.ones((1, 1)), 0)
  return q
def sym(q, d):
  a = (q * d) @ q.T
  return (a + a.T) / 2

PI = jax.jit(lambda a: optax.power_iteration(a))
def power(c, r, A, lam, what, f=None, reps=3, **kw):
  """Three attempts: the iteration starts from a random vector."""
  def go():
    outs = []
    for _ in range(reps):
      np.random.seed(c.rng.randrange(2 ** 31))
      v, s = (f or optax.power_iteration)(A, **kw)
      outs.append({'v': vec(v), 's': num(s)})
    return outs
  o, err = guarded(go)
  r.call('power_iteration', m=mat(A), lam=num(lam), out=o or [], err=err, what=what,
         rt='1e-4', vt='1e-2')

ROOT = functools.lru_cache(None)(lambda p, kw: jax.jit(lambda a, p_: optax.matrix_inverse_pth_root(a, p, **dict(kw)), static_argnums=1))
def root(c, r, A, p, lam, what, exact=(), ridge=1e-6, f=None, reps=1, loose=False, **kw):
  def go():
    outs = []
    for _ in range(reps):
      np.random.seed(c.rng.randrange(2 ** 31))
      h, e = (f or optax.matrix_inverse_pth_root)(A, p, **kw)
      outs.append({'h': mat(h), 'e': num(np.asarray(e)), 'dt': str(h.dtype)})
    return outs
  o, err = guarded(go)
  r.call('pth_root', m=mat(A), p=int(p), lam=num(lam), ridge=num(ridge), root=exact or [], tol='1e-5' if A.dtype == jnp.float64 and 'error_tolerance' not in kw and not loose else '5e-3',
         out=o or [], dt=str(A.dtype), err=err, what=what)

@job(shards=4)
def exact(c):
  """Matrices of MC_linalg with exactly known spectra."""
  pl = c.plans['MC_linalg']
  if not c.thorough: pl = [x for i, x in enumerate(pl) if (i + c.seed) % 3 == 0]
  for x in c.mine(pl):
    A = jnp.asarray([[float(v) for v in row] for row in x['a']], c.f())
    r = c.run('model')
    if x['sep'] and float(x['lam']) >= .1: power(c, r, A, float(x['lam']), 'power', f=PI)
    root(c, r, A, x['p'], float(x['lam']), 'root', exact=x['root'], f=ROOT(x['p'], ()))

@job(shards=4)
def roots(c):
  """Random orientations and spectra; exponents, ridges and iteration limits."""
  for i in c.each(48):
    n = c.rng.choice([1, 2, 2, 3, 4, 5, 6])
    dt = c.rng.choice(['float64', 'float64', 'float32']) if X64 else 'float32'
    d = np.exp(c.np.uniform(0, np.log(c.rng.choice([2., 10., 50.])), n)) * c.rng.choice([1., .01, 30., 1e3])
    d[-1] = d[:-1].max() / .6 if n > 1 else d[-1]
    A = jnp.asarray(sym(rot(c, n), d), dt)
    p = c.rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16])
    kw = {}
    ridge = 1e-6
    if i % 3 == 0: ridge = kw['ridge_epsilon'] = c.rng.choice([0., .1, 1e-2, .5])
    if i % 4 == 1: kw['error_tolerance'] = c.rng.choice([1e-6, 1e-5])
    if i % 5 == 2: kw['num_iters'] = c.rng.choice([60, 200])
    lam = float(d.max())
    r = c.run('n=%d p=%d %s %s' % (n, p, dt, kw))
    root(c, r, A, p, lam, 'root', ridge=ridge, reps=3, loose='error_tolerance' in kw, f=ROOT(p, tuple(sorted(kw.items()))) if i % 2 and ridge < .01 else None, **({} if i % 2 and ridge < .01 else kw))

@job(shards=2)
def dominant(c):
  for i in c.each(32):
    n = c.rng.choice([1, 2, 3, 4, 6, 10])
    d = c.np.uniform(0, .6, n) * (c.np.rand(n) < .8); d[c.rng.randrange(n)] = 1.
    lam = c.rng.choice([.1, 1., 7., 1e3])
    A = jnp.asarray(sym(rot(c, n), d * lam), c.f())
    kw = {} if i % 2 else {'num_iters': 200, 'error_tolerance': 1e-9}
    power(c, c.run('n=%d %s' % (n, kw)), A, lam, 'power', f=None if kw else PI, **kw)

# ------------------------------------------------------------------ safe norm --
SN = jax.jit(lambda x, m: (numerics.safe_norm(x, m), jax.grad(numerics.safe_norm)(x, m)))
@job()
def bounded_below(c):
  for i in c.each(60):
    sh = c.rng.choice([(1,), (3,), (4,), (7,), (2, 3), (1, 4)])
    mode = c.rng.choice(['normal', 'zero', 'sparse', 'small', 'int', 'big'])
    x = c.value(sh, c.f(), mode)
    nrm = float(jnp.linalg.norm(x))
    m = c.rng.choice([0., 1e-6, .5, 2., nrm * .9, nrm * 1.1, 1e4])
    r = c.run('%s %g' % (mode, m))
    f = SN if i % 2 else lambda x, m: (numerics.safe_norm(x, m), jax.grad(numerics.safe_norm)(x, m))
    o, err = guarded(lambda: f(x, m))
    r.call('safe_norm', x=vec(x), min=num(m), out=[] if err else [num(o[0])] + vec(o[1]), err=err, what='safe_norm',
           rt='1e-9' if X64 else '1e-5', at='1e-9' if X64 else '1e-6')

@job('64')
def large(c):
  """Larger matrices."""
  for n, p in ((16, 2), (24, 4), (12, 7)):
    d = np.exp(c.np.uniform(0, np.log(10.), n)); d[-1] = d[:-1].max() / .6
    A = jnp.asarray(sym(rot(c, n), d)); r = c.run('n=%d p=%d' % (n, p))
    root(c, r, A, p, float(d.max()), 'root', ridge=1e-6, f=ROOT(p, ()))
    d = c.np.uniform(0, .6, n); d[c.rng.randrange(n)] = 1.
    power(c, r, jnp.asarray(sym(rot(c, n), d * 3.)), 3., 'power', f=PI)
