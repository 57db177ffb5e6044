"""C27 Control variates: unbiased corrections with a consistent baseline."""
from sge import *
ESTS = ['score', 'path', 'mv']
ARGS = [(.9, True, False), (.99, True, True), (.5, False, False), (.9, False, True)]

@job('64', shards=3)
def exhaustive(c):
  """The functions and parameters of MC_sge, both variates, every estimator."""
  pl = c.plans['MC_sge']
  if not c.thorough: pl = [x for i, x in enumerate(pl) if (i + c.seed) % 2 == 0]
  for i, x in enumerate(c.mine(pl)):
    prm = tuple(jnp.asarray([float(v) for v in p]) for p in x['prm'])
    ms = x['f']['ms'] + [{'c': '0', 'e': [0, 0]}] * (4 - len(x['f']['ms']))
    r = c.run('f')
    for e in ESTS:
      for cv in ('delta', 'base'):
        cv_jacobians(r, e, cv, poly(ms), prm, jax.random.PRNGKey(c.seed * 77 + i), 4, st=(1.5, 3), coefs=i % 2 == 0, ncoef=5)

@job('64')
def baselines(c):
  """Every history of batch means of MC_base through the update function."""
  pl = c.plans['MC_base']
  if not c.thorough: pl = [x for i, x in enumerate(pl) if (i * 5 + c.seed) % 6 == 0]
  f = poly([{'c': '1', 'e': [1]}])
  ups = {}
  for i, x in enumerate(pl):
    if i % 40 == 0: r = c.run('histories')
    k = (x['decay'], x['deb'], x['heur'])
    if k not in ups: ups[k] = jax.jit(optax.moving_avg_baseline(lambda x: x[0], float(k[0]), k[1], k[2])[2])
    st = (jnp.asarray(0.), jnp.asarray(0, jnp.int32))
    for m in x['h']:
      xs = jnp.asarray([[float(m) - 1], [float(m) + 1.5], [float(m) - .5]])
      st = update(r, ups[k], f, (jnp.zeros(1), jnp.zeros(1)), xs, st, (float(k[0]), k[1], k[2]))
      if st is None: break

def update(r, up, f, prm, xs, st, args, what='baseline', fns=None):
  out, err, s1 = [], '', None
  try:
    s1 = up(prm, xs, st)
    out = [num(float(s1[0])), num(float(s1[1]))]
    a, b = fns[:2] if fns else (None, None)
    out += [num(float(a(prm, xs[0], s1))), num(float(b(prm, s1)))] if fns else [out[0]] * 2
  except Exception as e: err = ir.errtext(e); s1 = None
  r.call('baseline', out=out, err=err, f=f, xs=[nums(x) for x in xs], st={'v': num(float(st[0])), 'i': int(st[1])},
         decay=num(args[0]), deb=args[1], heur=args[2], what=what, **TOL)
  return s1

@job(shards=2)
def averages(c):
  """Longer histories, random decays, vector samples; the variate and its expectation are the stored value."""
  for i in c.each(8, 60):
    d = c.rng.randint(1, 3); ms = rand_poly(c, d, 4, 2)
    C, E = arrays(ms, F); fn = lambda x: evaluate(C, E, x)
    args = (c.rng.choice([.9, .99, .5, .1, 0.]), c.rng.random() < .5, c.rng.random() < .5)
    r = c.run('%s' % (args,))
    try: fns = optax.moving_avg_baseline(fn, decay=args[0], zero_debias=args[1], use_decay_early_training_heuristic=args[2])
    except Exception as e: r.call('accepted', err=ir.errtext(e), what='moving_avg_baseline'); continue
    up = jax.jit(fns[2]); st = (jnp.asarray(0., F), jnp.asarray(0, jnp.int32)); prm = normal_params(c, d)
    for t in range(12):
      st = update(r, up, poly(ms), prm, c.value((c.rng.choice([1, 4, 4]), d), c.f()), st, args, fns=fns)
      if st is None: break
    for n in c.rng.sample([8, 98, 998, 9998, 65534], 2):     # a run that has been going on for long
      st = (jnp.asarray(c.value((), c.f())), jnp.asarray(n, jnp.int32))
      for t in range(3):
        st = update(r, up, poly(ms), prm, c.value((4, d), c.f()), st, args, fns=fns, what='late baseline')
        if st is None: break
  # defaults: decay .99, debiased, early-training heuristic
  r = c.run('defaults'); fns = optax.moving_avg_baseline(lambda x: x[0]); st = (jnp.asarray(0., F), 0)
  for t in range(4):
    st = update(r, fns[2], poly([{'c': '1', 'e': [1]}]), normal_params(c, 1), c.value((3, 1), c.f()), st, (.99, True, True), fns=fns)
    if st is None: break

@job('64', shards=2)
def constants(c):
  """A constant function has a constant debiased baseline, forever."""
  for dec in c.mine([.5, .9, .99, .999]):
    for heur in (False, True):
      r = c.run('%g %s' % (dec, heur)); fns = optax.moving_avg_baseline(lambda x: 7. + 0 * x[0], dec, True, heur)
      st = (jnp.asarray(0.), jnp.asarray(0, jnp.int32)); up = jax.jit(fns[2])
      for t in range(60):
        st = up((jnp.zeros(1), jnp.zeros(1)), jnp.zeros((2, 1)), st)
        r.call('close', err='', a=enc(jnp.asarray(st[0])), b=enc(jnp.asarray(7.)), what='baseline of a constant')

@job(shards=2)
def deltas(c):
  """The Taylor variate and its expectation."""
  for i in c.each(12, 60):
    d = c.rng.randint(1, 4); ms = rand_poly(c, d, 5, 4 if X64 else 3); prm = normal_params(c, d)
    C, E = arrays(ms, F); fn = lambda x: evaluate(C, E, x); xs = c.value((4, d), c.f())
    r = c.run('d=%d' % d); out, err = [], ''
    try:
      a, b, u = optax.control_delta_method(fn)
      out = [num(float(jax.jit(a)(prm, x, None))) for x in xs[:2]] + nums(jax.vmap(lambda x: a(prm, x, None))(xs[2:])) + [num(float(b(prm, None)))]
      assert u(prm, xs, None) is None and u(prm, xs, (1,)) == (1,), 'the delta method keeps no state'
    except Exception as e: err = ir.errtext(e)
    r.call('delta', out=out, err=err, f=poly(ms), prm=prm_rec(prm), xs=[nums(x) for x in xs], what='delta', **TOL)

@job('64', shards=6)
def corrections(c):
  """Random functions, all estimators and variates, with and without estimated coefficients."""
  for i in c.each(16, 96):
    d = [1, 2, 3][i // 4 % 3]; prm = normal_params(c, d); f = poly(rand_poly(c, d, 5, 3))
    est = (ESTS + ['mvfree'])[i % 4]; r = c.run('d=%d' % d)
    args = c.rng.choice(ARGS)
    for cv in ('delta', 'base'):
      for co in (False, True):
        cv_jacobians(r, est, cv, f, prm, jax.random.PRNGKey(c.rng.randrange(2 ** 31)), 4, st=(c.rng.choice([0., 2.5]), c.rng.choice([0, 1, 7])), args=args, coefs=co, ncoef=6)

@job('64')
def training(c):
  """The baseline state threaded through several steps, as in training; eager too."""
  for est, co in (('score', False), ('score', True)):
    for args in ARGS:
      prm = normal_params(c, 2); f = poly(rand_poly(c, 2, 4, 2) + [{'c': '4', 'e': [0, 0]}]); r = c.run('%s %s' % (est, args)); st = (0., 0)
      for t in range(4): st = cv_jacobians(r, est, 'base', f, prm, jax.random.PRNGKey(t), 5, st=st, args=args, coefs=co, ncoef=8)
  prm = normal_params(c, 2); f = poly(rand_poly(c, 2, 3, 3)); r = c.run('eager')
  for cv in ('delta', 'base'):
    run = lambda C, E, p, k, s: optax.control_variates_jacobians(lambda x: evaluate(C, E, x), CVS[cv](ARGS[0]), REAL['score'], p, MVN, k, 3, s)
    cv_jacobians(r, 'score', cv, f, prm, jax.random.PRNGKey(5), 3, st=(1., 2), run=run)

@job('64')
def default_coefs(c):
  """By default the coefficient is one; 20 samples estimate it otherwise."""
  prm = normal_params(c, 2); f = poly(rand_poly(c, 2, 4, 3)); r = c.run('defaults')
  J = lambda **k: lambda C, E, p, key, s: optax.control_variates_jacobians(lambda x: evaluate(C, E, x), CVS['delta'](None), REAL['path'], p, MVN, key, 4, **k)
  cv_jacobians(r, 'path', 'delta', f, prm, jax.random.PRNGKey(1), 4, run=J())
  cv_jacobians(r, 'path', 'delta', f, prm, jax.random.PRNGKey(1), 4, coefs=True, ncoef=20, run=J(estimate_cv_coeffs=True))

@job('64')
def large(c):
  """Many dimensions, many samples, many coefficient samples."""
  for d, n, m, est in ((8, 2, 5, 'path'), (2, 30, 6, 'score'), (2, 2, 48, 'score')):
    prm = normal_params(c, d); f = poly(rand_poly(c, d, 5, 3)); r = c.run('d=%d n=%d coefs=%d' % (d, n, m))
    for cv in ('delta', 'base'):
      cv_jacobians(r, est, cv, f, prm, jax.random.PRNGKey(c.rng.randrange(2 ** 31)), n, st=(.5, 2), args=ARGS[0], coefs=m > 6, ncoef=m)
