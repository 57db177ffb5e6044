"""Driving the real gradient estimators and control variates."""
import functools, math
from core import *
from polys import *
from scipy import stats

MVN = optax.multi_normal
F = jnp.float64 if X64 else jnp.float32
TOL = dict(rt='1e-8', at='1e-9') if X64 else dict(rt='2e-3', at='2e-3')
REAL = {'score': optax.score_function_jacobians, 'path': optax.pathwise_jacobians,
        'mv': optax.measure_valued_jacobians,
        'mvfree': functools.partial(optax.measure_valued_jacobians, coupling=False)}

class Expo:
  """Independent exponentials with rates r."""
  def __init__(self, r): self.r = r
  def sample(self, shape, seed): return -jnp.log1p(-jax.random.uniform(seed, shape + self.r.shape, self.r.dtype)) / self.r
  def log_prob(self, x): return jnp.sum(jnp.log(self.r) - self.r * x)
class Bern:
  """Independent Bernoullis with logits t (discrete: score function only)."""
  def __init__(self, t): self.t = t
  def sample(self, shape, seed): return (jax.random.uniform(seed, shape + self.t.shape, self.t.dtype) < jax.nn.sigmoid(self.t)).astype(self.t.dtype)
  def log_prob(self, x): return jnp.sum(x * self.t - jax.nn.softplus(self.t))
BUILD = {'normal': MVN, 'expo': Expo, 'bern': Bern}

def fn_of(f):
  """A spec function record as a real one."""
  if f['k'] == 'step': return lambda x: jnp.where(jnp.reshape(x, (-1,))[f['i'] - 1] > float(f['thr']), 1., 0.).astype(F)
  C, E = arrays(f['ms'], F)
  return lambda x: evaluate(C, E, jnp.reshape(x, (-1,)))

@functools.lru_cache(None)
def compiled(est, fam, n):
  return jax.jit(lambda C, E, prm, key: REAL[est](lambda x: evaluate(C, E, jnp.reshape(x, (-1,))), prm, BUILD[fam], key, n))

def samples(fam, prm, key, n): return np.asarray(BUILD[fam](*prm).sample((n,), seed=key), np.float64).reshape(n, -1)

@functools.lru_cache(None)
def _probe(est, n, d):
  def f(prm, key):
    a = REAL[est](lambda x: jnp.sum(x), prm, MVN, key, n)
    b = REAL[est](lambda x: jnp.sum((x - prm[0]) ** 2), prm, MVN, key, n)
    return a, b
  return jax.jit(f)

def draws(est, prm, key, n):
  """The draws of the measure-valued estimator, revealed by f = sum x and f = sum (x - mean)^2."""
  (a1, a2), (b1, b2) = _probe(est, n, len(prm[0]))(prm, key)
  a1, a2, b1, b2, sc = (np.asarray(x, np.float64) for x in (a1, a2, b1, b2, np.exp(np.asarray(prm[1], np.float64))))
  s = a1 * math.sqrt(2 * math.pi); d = b1 / a1 / sc          # w+ + w-, w+ - w-
  t = a2 / sc; u = b2 / a2 / sc                              # m - n, m + n
  return {'wp': (s + d) / 2, 'wm': (s - d) / 2, 'm': (u + t) / 2, 'n': (u - t) / 2}

def wrec(w, n):
  """Per-sample draw records."""
  if w is None: return [{} for _ in range(n)]
  return [{k: nums(v[i]) for k, v in w.items()} for i in range(n)]

def jacs(out, n):
  """out[k][j][i] of a list of (n,)+shape jacobians."""
  js = [np.asarray(x, np.float64).reshape(n, -1) for x in out]
  return [[nums(j[k]) for j in js] for k in range(n)]

def prm_rec(prm): return [nums(p) for p in prm]
def is_mv(est): return est.startswith('mv')

def estimate(r, est, f, fam, prm, key, n, eager=False, what=''):
  out, err = [], ''
  xs = samples(fam, prm, key, n)
  ws = draws(est, prm, key, n) if is_mv(est) else None
  try:
    if eager or f['k'] == 'step': o = REAL[est](fn_of(f), prm, BUILD[fam], key, n)
    else: o = compiled(est, fam, n)(*arrays(f['ms'], F), prm, key)
    if len(o) != len(prm): err = '%d jacobians for %d parameters' % (len(o), len(prm))
    elif any(np.shape(a) != (n,) + np.shape(p) for a, p in zip(o, prm)): err = 'shapes %s' % [np.shape(a) for a in o]
    else: out = jacs(o, n)
  except Exception as e: err = ir.errtext(e)
  r.call('estimate', out=out, err=err, est='mv' if is_mv(est) else est, f=f, fam=fam, prm=prm_rec(prm),
         xs=[nums(x) for x in xs], ws=wrec(ws, n), what=what or '%s %s' % (est, fam), **TOL)

def poly(ms): return {'k': 'poly', 'ms': ms}
def normal_params(c, d):
  return (c.value((d,), c.f()), c.value((d,), c.f()) * .4)

CVS = {'delta': lambda a: optax.control_delta_method,
       'base': lambda a: (lambda f: optax.moving_avg_baseline(f, decay=a[0], zero_debias=a[1], use_decay_early_training_heuristic=a[2]))}
@functools.lru_cache(None)
def compiled_cv(est, cv, n, args, coefs, ncoef):
  def run(C, E, prm, key, st):
    return optax.control_variates_jacobians(lambda x: evaluate(C, E, x), CVS[cv](args), REAL[est], prm, MVN, key, n,
                                            st, estimate_cv_coeffs=coefs, estimate_cv_coeffs_num_samples=ncoef)
  return jax.jit(run)

def cv_jacobians(r, est, cv, f, prm, key, n, st=(0., 0), args=(.9, True, False), coefs=False, ncoef=20, what='', run=None):
  """Records one call; returns the new state."""
  xs = samples('normal', prm, key, n)
  ckey = jax.random.split(key)[0]
  ws = draws(est, prm, key, n) if is_mv(est) else None
  cws = draws(est, prm, ckey, ncoef) if is_mv(est) and coefs else None
  cxs = samples('normal', prm, ckey, ncoef) if coefs else np.zeros((0, 1))
  out, err, st1 = [], '', st
  s0 = (jnp.asarray(st[0], F), jnp.asarray(st[1], jnp.int32)) if cv == 'base' else None
  try:
    o, st1 = (run or compiled_cv(est, cv, n, args, coefs, ncoef))(*arrays(f['ms'], F), prm, key, s0)
    out = jacs(o, n)
    if [np.shape(a) for a in o] != [(n,) + p.shape for p in prm]: err = 'shapes'
  except Exception as e: err = ir.errtext(e)
  rec = lambda s: {'v': num(float(s[0])), 'i': int(s[1])} if cv == 'base' and not err else {'v': '0', 'i': 0}
  r.call('cv_jacobians', out=out, err=err, est='mv' if is_mv(est) else est, cv=cv, f=f, prm=prm_rec(prm),
         xs=[nums(x) for x in xs], ws=wrec(ws, n), cxs=[nums(x) for x in cxs], cws=wrec(cws, len(cxs)),
         st=rec(st), st1=rec(st1 if cv == 'base' else st), decay=num(args[0]), deb=args[1], heur=args[2], coefs=coefs,
         what=what or '%s %s%s' % (est, cv, ' coefs' if coefs else ''), **TOL)
  return st1
