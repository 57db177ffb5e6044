"""C32 multi_normal is the diagonal Gaussian of its location and log-scale."""
from sge import *

def grec(m, s): return {'msh': list(np.shape(m)), 'm': nums(m), 'ssh': list(np.shape(s)), 's': nums(s)}
def pshape(m, s): return tuple(np.broadcast_shapes(np.shape(m), np.shape(s)))
def guard(f):
  try: return f(), ''
  except Exception as e: return None, ir.errtext(e)
def vals(x): return [] if x is None else nums(x)

def std(ps, batch, key):
  """The standard normals behind a sample."""
  d = MVN(jnp.zeros(ps, F), jnp.zeros(ps, F))
  return d.sample(batch, seed=key)

def check(r, m, s, batch, key, how='', xs=None):
  g, ps = grec(m, s), pshape(m, s); d = MVN(m, s)
  e, err = guard(lambda: std(ps, batch, key))
  if err: r.call('gauss', m='sample', g=g, x=[], out=[], sh=[], batch=list(batch), err=err, what='standard ' + how, **TOL); return
  smp = d.sample
  if how == 'jit': smp = jax.jit(lambda shape, seed: MVN(m, s).sample(shape, seed=seed), static_argnums=0)
  x, err = guard(lambda: smp(batch, seed=key))
  r.call('gauss', m='sample', g=g, x=nums(e), out=vals(x), sh=list(np.shape(x)), batch=list(batch), err=err, what='sample ' + how, **TOL)
  if xs is None: xs = x
  if xs is None or not np.all(np.isfinite(np.asarray(xs, np.float64))): return
  lp = d.log_prob
  if how == 'jit': lp = jax.jit(lambda x: MVN(m, s).log_prob(x))
  if how == 'vmap' and batch:
    lp = d.log_prob
    for _ in batch: lp = jax.vmap(lp)
  l, err = guard(lambda: lp(xs))
  r.call('gauss', m='log_prob', g=g, x=nums(xs), out=vals(l), sh=list(np.shape(l)), batch=list(batch), err=err, what='log_prob ' + how, **TOL)
  sc, err = guard(lambda: jax.grad(lambda p: jnp.sum(MVN(*p).log_prob(xs)))((m, s)))
  r.call('gauss_score', g=g, x=nums(xs), out=[] if sc is None else nums(sc[0]) + nums(sc[1]), err=err, what='score ' + how, **TOL)
  r.call('same', a=enc([m, s]), b=enc(list(d.params)), what='params')
  r.call('same', a=enc(s), b=enc(d.log_scale), what='log_scale')

@job(shards=2)
def exhaustive(c):
  """Every distribution of MC_gauss, and its density at the model's points."""
  for i, x in enumerate(c.mine(c.plans['MC_gauss'])):
    g = x['g']
    m, s = (jnp.asarray(np.array([float(v) for v in g[a]]).reshape(g[b]), F) for a, b in (('m', 'msh'), ('s', 'ssh')))
    ps = pshape(m, s); r = c.run('%s %s' % (m.shape, s.shape))
    pts = jnp.asarray(np.array([float(v) for v in x['eps']]).reshape((2,) + ps), F)
    check(r, m, s, (2,), jax.random.PRNGKey(i), ['', 'jit', 'vmap'][i % 3], pts * jnp.exp(s) + m if i % 2 else None)

@job(shards=2)
def random(c):
  """Random ranks, broadcasts, scales, batch shapes and keys."""
  for i in c.each(40, 300):
    r = c.rng; full = [r.choice([1, 2, 3]) for _ in range(r.randint(0, 3))]
    def part():
      sh = [n if r.random() < .7 else 1 for n in full]
      return tuple(sh[r.randint(0, len(sh)):]) if r.random() < .3 else tuple(sh)
    m, s = c.value(part(), c.f()), c.value(part(), c.f())
    k = r.choice([0, 1, 2, 3])
    if k == 1: s = s * 4
    if k == 2: m = m * 1e3
    if k == 3: s = s * .1 - 3.
    batch = r.choice([(), (1,), (4,), (2, 3), (1, 2), (2, 1, 2), (0,)] if not i % 3 else [(), (5,), (2, 2)])
    run = c.run('%s %s %s' % (m.shape, s.shape, batch))
    if 0 in batch:
      x, err = guard(lambda: MVN(m, s).sample(batch, seed=jax.random.PRNGKey(1)))
      run.call('gauss', m='sample', g=grec(m, s), x=[], out=vals(x), sh=list(np.shape(x)), batch=list(batch), err=err, what='empty', **TOL)
    else: check(run, m, s, batch, jax.random.PRNGKey(r.randrange(2 ** 31)), r.choice(['', 'jit', 'vmap']))

@job('64')
def tails(c):
  """Points far from the location, tiny and huge scales."""
  for ls in (-30., -8., 0., 8., 30.):
    for far in (0., 1., 12., 1e4):
      m, s = jnp.asarray([1., -2.]) * min(1., math.exp(ls)), jnp.asarray([ls, ls + 1.])
      r = c.run('log-scale %g, %g scales away' % (ls, far))
      check(r, m, s, (2,), jax.random.PRNGKey(3), xs=jnp.stack([m + far * jnp.exp(s), m - 2 * far * jnp.exp(s)]))

@job('64', shards=2)
def laws(c):
  """The samples are independent standard normals after the affine map; the key alone decides."""
  for i, sh in enumerate(c.mine([(), (2,), (2, 2), (3,)])):
    k = 5 + 100 * i + c.seed; n = 1200
    m, s = c.value(sh, 'float64') * 3, c.value(sh, 'float64')
    r = c.run('shape %s' % (sh,)); d = MVN(m, s)
    z = lambda x: np.asarray((x - m) / jnp.exp(s)).reshape(-1)
    a, b = d.sample((n,), seed=jax.random.PRNGKey(k)), d.sample((n,), seed=jax.random.PRNGKey(k + 1))
    r.call('normal', z=nums(z(a)), distinct=True, what='sample')
    r.call('indep', a=nums(z(a)), b=nums(z(b)), what='two keys')
    cols = z(a).reshape(n, -1)
    for u in range(cols.shape[1]):
      r.call('normal', z=nums(cols[:, u]), distinct=True, what='coordinate %d' % u)
      for v in range(u): r.call('indep', a=nums(cols[:, u]), b=nums(cols[:, v]), what='coordinates %d and %d' % (u, v))
    g2 = d.sample((30, 40), seed=jax.random.PRNGKey(k + 2))
    r.call('normal', z=nums(z(g2)), distinct=True, what='two batch axes')
    r.call('same', a=enc(a), b=enc(MVN(m, s).sample((n,), seed=jax.random.PRNGKey(k))), what='the same key')
    d.log_prob(a); r.call('same', a=enc(a), b=enc(d.sample((n,), jax.random.PRNGKey(k))), what='the same key later')

@job('64')
def pathwise(c):
  """Samples are differentiable in the parameters: d/dloc = 1, d/dlog_scale = x - loc."""
  for i in range(6):
    m, s = c.value((2,), c.f()), c.value((2,) if i % 2 else (), c.f()); key = jax.random.PRNGKey(i)
    r = c.run('%s' % (s.shape,))
    f = lambda p: MVN(*p).sample((), seed=key)
    J, err = guard(lambda: jax.jacobian(f)((m, s)))
    x = f((m, s))
    r.call('close', err=err, a=enc(jnp.eye(2)), b=enc(J[0]) if J else enc(x), what='d sample / d loc')
    w = jnp.diag(x - m) if s.ndim else x - m
    r.call('close', err=err, a=enc(w), b=enc(J[1]) if J else enc(x), what='d sample / d log-scale')
