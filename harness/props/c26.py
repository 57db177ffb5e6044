"""C26 Gradient estimators: the per-sample estimate for the drawn samples."""
from sge import *
ESTS = ['score', 'path', 'mv', 'mvfree']

@job('64', shards=2)
def exhaustive(c):
  """The functions and parameters of MC_sge through every estimator."""
  for i, x in enumerate(c.mine(c.plans['MC_sge'])):
    prm = tuple(jnp.asarray([float(v) for v in p]) for p in x['prm'])
    f = x['f']; ms = f['ms'] + [{'c': '0', 'e': [0, 0]}] * (4 - len(f['ms']))   # one shape: one compilation
    r = c.run('f')
    for e in ESTS: estimate(r, e, poly(ms), 'normal', prm, jax.random.PRNGKey(c.seed * 100 + i), 6)

@job('64', shards=3)
def functions(c):
  """Random polynomials, dimensions, parameters and keys."""
  for i in c.each(15, 160):
    d = [1, 2, 3, 2, 5][i % 5]
    f = poly(rand_poly(c, d, 5, 4)); prm = normal_params(c, d)
    r = c.run('d=%d' % d)
    for e in ESTS: estimate(r, e, f, 'normal', prm, jax.random.PRNGKey(c.rng.randrange(2 ** 31)), 4)

@job(shards=2)
def families(c):
  """Other distributions; scalar, vector and matrix parameters; no smoothness needed for the score."""
  for i in c.each(16, 80):
    fam = ['expo', 'bern', 'normal'][i % 3]
    sh = [(), (3,), (2, 2)][i % 3 if fam != 'normal' else 1] if i % 2 else (2,)
    d = int(np.prod(sh))
    if fam == 'normal': prm = normal_params(c, d)
    elif fam == 'expo': prm = (c.value(sh, c.f(), 'pos') + .5,)
    else: prm = (c.value(sh, c.f()),)
    key = jax.random.PRNGKey(c.rng.randrange(2 ** 31)); r = c.run('%s %s' % (fam, sh))
    f = poly(rand_poly(c, d, 4, 3 if X64 else 2))
    estimate(r, 'score', f, fam, prm, key, 5)
    estimate(r, 'score', {'k': 'step', 'i': c.rng.randint(1, d), 'thr': '0.4'}, fam, prm, key, 5)
    if fam != 'bern': estimate(r, 'path', f, fam, prm, key, 5, eager=i % 4 == 0)
    if fam == 'normal':
      estimate(r, 'mv', {'k': 'step', 'i': c.rng.randint(1, d), 'thr': '0.4'}, fam, prm, key, 5)

@job()
def singles(c):
  """One sample; many samples; constant functions have zero pathwise and measure-valued estimates."""
  prm = normal_params(c, 2)
  for n in (1, 2, 64):
    r = c.run('n=%d' % n)
    for e in ESTS:
      estimate(r, e, poly([{'c': '3', 'e': [0, 0]}]), 'normal', prm, jax.random.PRNGKey(n), n)
      estimate(r, e, poly([{'c': '2', 'e': [1, 0]}, {'c': '-1', 'e': [0, 1]}]), 'normal', prm, jax.random.PRNGKey(n), n)

@job('64')
def far(c):
  """Far locations, small and large scales."""
  f = poly([{'c': '2', 'e': [1, 0]}, {'c': '-1', 'e': [0, 1]}, {'c': '0.5', 'e': [1, 1]}])
  for loc in ([500., -500.], [-1e4, 3e3], [0., -150.]):
    for ls in ([0., .5], [3., -2.], [-4., 6.]):
      r = c.run('loc=%s log-scale=%s' % (loc, ls))
      for e in ESTS: estimate(r, e, f, 'normal', (jnp.asarray(loc), jnp.asarray(ls)), jax.random.PRNGKey(c.rng.randrange(2 ** 31)), 8)

@job('64')
def eager(c):
  prm = normal_params(c, 3); f = poly(rand_poly(c, 3, 4, 3)); r = c.run('eager')
  for e in ESTS: estimate(r, e, f, 'normal', prm, jax.random.PRNGKey(3), 3, eager=True)

def z_of(u): return stats.norm.ppf(np.clip(u, 1e-300, 1 - 1e-16))
@job('64', shards=2)
def draw_laws(c):
  """The draws have the laws that make the estimator unbiased (see MC_sge), and are independent of the samples."""
  n = 4000 if not c.thorough else 20000
  for est in c.mine(['mv', 'mvfree']):
    prm = (jnp.asarray([.5, -1.]), jnp.asarray([.2, -.3])); key = jax.random.PRNGKey(11 + c.seed)
    w = draws(est, prm, key, n); xs = samples('normal', prm, key, n)
    z = (xs - np.asarray(prm[0])) / np.exp(np.asarray(prm[1]))
    r = c.run(est)
    ray = lambda v: z_of(stats.chi2.cdf(v ** 2, 2))
    dsm = lambda v: np.sign(v) * stats.norm.isf(.5 * stats.chi2.sf(v ** 2, 3))
    zs = {'sample': z, 'w+': ray(w['wp']), 'm': dsm(w['m'])}
    if est == 'mvfree': zs.update({'w-': ray(w['wm']), 'n': w['n']})
    else: zs['u'] = z_of(w['n'] / w['m'])
    for k, v in zs.items():
      r.call('normal', z=nums(v), distinct=False, what='%s %s' % (est, k))
      for q in (0, 1): r.call('normal', z=nums(v[:, q]), distinct=False, what='%s %s[%d]' % (est, k, q))
      r.call('indep', a=nums(v[:, 0]), b=nums(v[:, 1]), what='%s coordinates of %s' % (est, k))
    for k in ('wp', 'wm'): r.call('nonneg', p=enc(jnp.zeros_like(w[k])), a=enc(jnp.asarray(w[k] + 1e-9)), what='Weibull draws')
    ks = sorted(zs)
    for i, a in enumerate(ks):
      for b in ks[:i]:
        if {a, b} in ({'m', 'w+'}, {'n', 'w-'}, {'u', 'w+'}, {'n', 'w+'}, {'m', 'w-'}, {'u', 'm'}): continue  # used in different estimates
        for q in (0, 1): r.call('indep', a=nums(zs[a][:, 0]), b=nums(zs[b][:, q]), what='%s %s vs %s[%d]' % (est, a, b, q))
    if est == 'mvfree': r.call('differ', a=nums(w['wp']), b=nums(w['wm']), what='uncoupled draws')
    if est == 'mv':
      r.call('close', a=enc(jnp.asarray(w['wp'])), b=enc(jnp.asarray(w['wm'])), what='coupled draws')

@job()
def log_probs(c):
  for i in c.each(8):
    d = c.rng.randint(1, 4); prm = normal_params(c, d); xs = c.value((5, d), c.f()) * 3
    r = c.run('d=%d' % d)
    for how, f in [('mapped', jax.vmap(MVN(*prm).log_prob)), ('batched', MVN(*prm).log_prob)]:
      out, err = [], ''
      try: out = nums(f(xs))
      except Exception as e: err = ir.errtext(e)
      r.call('log_prob', out=out, err=err, prm=prm_rec(prm), xs=[nums(x) for x in xs], what=how, **TOL)

@job('64')
def seeds(c):
  """The key alone determines the samples; different keys differ."""
  prm = normal_params(c, 2); r = c.run('keys')
  f = poly([{'c': '1', 'e': [1, 0]}, {'c': '1', 'e': [0, 2]}])
  for e in ESTS:
    o = [jacs(compiled(e, 'normal', 8)(*arrays(f['ms'], F), prm, jax.random.PRNGKey(k)), 8) for k in (1, 1, 2)]
    r.call('same', a=o[0], b=o[1], what=e + ' same key')
    a, b = ([v for k in x for v in k[1]] for x in (o[0], o[2]))
    r.call('differ', a=a, b=b, what=e + ' other key')

@job('64')
def rejects(c):
  """measure_valued_jacobians knows diagonal Gaussians only."""
  prm = normal_params(c, 2); r = c.run('builders')
  for name, b, p in [('expo', Expo, (jnp.asarray([1., 2.]),)), ('lambda', lambda m, s: MVN(m, s), prm), ('class', type(MVN(*prm)), prm)]:
    for cpl in (True, False):
      err = ''
      try: optax.measure_valued_jacobians(lambda x: jnp.sum(x), p, b, jax.random.PRNGKey(0), 3, coupling=cpl)
      except Exception as e: err = ir.errtext(e)
      if name == 'expo': r.call('rejected', err=err, what='measure-valued estimator for ' + name)

@job('64')
def large(c):
  """Many dimensions, many samples."""
  for d, n in ((14, 3), (2, 80)):
    f = poly(rand_poly(c, d, 6, 3)); prm = normal_params(c, d)
    r = c.run('d=%d n=%d' % (d, n))
    for e in ESTS: estimate(r, e, f, 'normal', prm, jax.random.PRNGKey(c.rng.randrange(2 ** 31)), n)
