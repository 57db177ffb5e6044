"""C25 Hessian and Fisher diagnostics are the exact derivatives."""
from core import *
from polys import *

# the monomials index the leaves' entries in flattening order, then inputs, targets
def loss_of(C, E):
  def loss(params, inputs, targets):
    parts = [jnp.reshape(x, (-1,)) for x in leaves(params)] + [jnp.reshape(inputs, (-1,)), jnp.reshape(targets, (-1,))]
    return evaluate(C, E, jnp.concatenate(parts))
  return loss
J = {'hvp': jax.jit(lambda C, E, v, p, a, b: optax.hvp(loss_of(C, E), v, p, a, b)),
     'hessian_diag': jax.jit(lambda C, E, p, a, b: optax.hessian_diag(loss_of(C, E), p, a, b)),
     'fisher_diag': jax.jit(lambda C, E, p, a, b: optax.fisher_diag(loss_of(C, E), p, a, b))}
TOL = dict(rt='1e-9', at='1e-11') if X64 else dict(rt='1e-4', at='1e-5')

def diagnose(r, f, p, a, b, v=None, eager=None, what=''):
  """Records the three diagnostics; eager: a python loss to use uncompiled."""
  C, E = arrays(f, ir.jnp.float64 if X64 else jnp.float32)
  x = flat(p, a, b); n = len(flat(p))
  calls = [('hessian_diag', ()), ('fisher_diag', ())] + ([] if v is None else [('hvp', (v,))])
  for fn, extra in calls:
    o, err = [], ''
    try:
      if eager is None: y = J[fn](C, E, *extra, p, a, b)
      else: y = getattr(optax, fn)(eager, *extra, p, a, b)
      if fn == 'hvp': y = np.concatenate([np.reshape(t, (-1,)) for t in leaves(y)])  # a tree like params
      if np.shape(y) != (n,): err = 'shape %s' % (np.shape(y),)
      o = nums(y)
    except Exception as e: err = ir.errtext(e)
    r.call(fn, out=o, err=err, f=f, x=x, n=n, v=nums(v) if fn == 'hvp' else [], what=what or fn, **TOL)

@job('64', shards=2)
def exhaustive(c):
  """Every pair of monomials of MC_hess, at every point."""
  pl = c.plans['MC_hess']
  if not c.thorough: pl = [x for i, x in enumerate(pl) if (i * 11 + c.seed) % 5 == 0]
  r = None
  for i, x in enumerate(c.mine(pl)):
    if i % 50 == 0: r = c.run('monomials')
    t = [float(v) for v in x['x']]
    p = [{'b': jnp.asarray(t[0]), 'c': jnp.asarray([t[1]])}, {'w': jnp.asarray(t[0]), 'b': jnp.asarray([t[1]])}][i % 2]
    f = x['f']
    if i % 2:  # sorted keys: b (second entry) comes first
      f = [dict(m, e=[m['e'][1], m['e'][0]] + m['e'][2:]) for m in f]
    diagnose(r, f, p, jnp.asarray([t[2]]), jnp.asarray([t[3]]), jnp.asarray([2., -1.]))

@job(shards=3)
def trees(c):
  """Random polynomials over random parameter trees; compiled and eager."""
  for i in c.each(30, 160):
    p = c.params(c.f(), shapes=[c.shape((0, 1, 2)) for _ in range(4)], maxl=3)
    a, b = c.value((2,), c.f(), 'int'), c.value((1, 2), c.f(), 'int')
    n = len(flat(p))
    f = rand_poly(c, n + 4, 6, 4 if X64 else 3) + [{'c': '0.5', 'e': [2 * (j == k % n) for j in range(n + 4)]} for k in range(2)]
    v = c.value((n,), c.f())
    L = lambda q, s, t: explicit(f, jnp.concatenate([jnp.reshape(x, (-1,)) for x in leaves(q)] + [jnp.reshape(s, (-1,)), jnp.reshape(t, (-1,))]))
    diagnose(c.run('n=%d' % n), f, p, a, b, v, eager=None if i % 5 else L)

@job()
def probes(c):
  """Every unit vector: hvp is each column of the Hessian in turn."""
  p = {'w': c.value((2, 2), c.f()), 'b': c.value((2,), c.f()), 'a': c.value((), c.f())}
  a, b = c.value((2,), c.f(), 'int'), c.value((1,), c.f(), 'int')
  f = rand_poly(c, 10, 8, 3) + [{'c': '1', 'e': [1, 1] + [0] * 8}, {'c': '-2', 'e': [0, 0, 1, 0, 0, 1] + [0] * 4}]
  r = c.run('columns')
  for k in range(7): diagnose(r, f, p, a, b, jnp.eye(7, dtype=c.f())[k])
  diagnose(r, f, p, a, b, jnp.zeros(7, c.f())); diagnose(r, f, p, a, b, 100 * jnp.ones(7, c.f()))

@job()
def regressions(c):
  """A batch least-squares loss over a linear model: the usual use."""
  d, B = 3, 4
  for k in range(c.n(4, 20)):
    w = c.value((d,), c.f()); X = c.value((B, d), c.f(), 'int'); y = c.value((B,), c.f(), 'int')
    p = {'w': w, 'b': c.value((), c.f())}     # flattened: b, w
    f, n = [], 4 + B * d + B                    # sum_i (b + w.X_i - y_i)^2 expanded
    def e(*idx):
      z = [0] * n
      for i in idx: z[i] += 1
      return z
    for i in range(B):
      terms = [((0,), 1.)] + [((1 + j, 4 + i * d + j), 1.) for j in range(d)] + [((4 + B * d + i,), -1.)]
      f += [{'c': num(s * t), 'e': e(*(u + v))} for u, s in terms for v, t in terms]
    L = lambda q, s, t: jnp.sum((s @ q['w'] + q['b'] - t) ** 2)
    diagnose(c.run('least squares'), f, p, X, y, c.value((4,), c.f()), eager=L if k % 2 == 0 else None)

@job('64')
def wide(c):
  """More parameters than samples; single scalar parameter."""
  for n in (1, 12, 30, 90):
    p = {'x': c.value((n,), 'float64')} if n > 1 else c.value((), 'float64')
    f = rand_poly(c, n + 2, 10, 4)
    diagnose(c.run('n=%d' % n), f, p, c.value((1,), 'float64'), c.value((1,), 'float64'), c.value((n,), 'float64'))
