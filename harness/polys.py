"""Polynomials shared by the specification and real differentiable functions."""
from core import *

MAXE = 5
def powers(x):
  """x^0..x^MAXE stacked along a new last axis (products, so that derivatives stay exact)."""
  ps = [jnp.ones_like(x)]
  for _ in range(MAXE): ps.append(ps[-1] * x)
  return jnp.stack(ps, -1)

def evaluate(C, E, x):
  """Sum_k C[k] prod_i x[i]^E[k, i] for traced C, E, x (one compilation per shape)."""
  t = jnp.take_along_axis(powers(x)[None, :, :], jnp.asarray(E)[:, :, None], axis=2)[:, :, 0]
  return jnp.sum(jnp.asarray(C) * jnp.prod(t, axis=1))

def explicit(f, x):
  """The same with plain products of the entries of a flat vector."""
  tot = 0.
  for m in f:
    t = float(m['c'])
    for i, e in enumerate(m['e']):
      for _ in range(e): t = t * x[i]
    tot = tot + t
  return tot

def arrays(f, dt=None):
  return (jnp.asarray([float(m['c']) for m in f], dt), jnp.asarray([m['e'] for m in f], jnp.int32))

def rand_poly(c, n, k, deg, coefs=(1., -2., .5, 3., -1.)):
  """k random monomials in n variables of total degree at most deg."""
  out = []
  for _ in range(k):
    e = [0] * n
    for _ in range(c.rng.randint(0, deg)):
      e[c.rng.randrange(n)] += 1
    out.append({'c': num(c.rng.choice(coefs)), 'e': e})
  return out

def nums(x): return [num(float(v)) for v in np.asarray(x, dtype=np.float64).reshape(-1)]
def flat(*ts):
  return [v for t in ts for x in leaves(t) for v in nums(x)]
