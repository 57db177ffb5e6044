"""Recording real schedules evaluated at step counts (C12, C13)."""
from core import *

def scale_of(h):
  """Largest magnitude a schedule takes around its settings."""
  m = [abs(float(h[k])) for k in ('init', 'end', 'peak', 'v') if k in h and isinstance(h[k], str)]
  if h.get('end') and isinstance(h['end'], list): m.append(abs(float(h['end'][0])))
  if 'bs' in h and h['s'] in ('pinterp', 'pconst'):
    v = abs(float(h['init']))
    for _, x in sorted(h['bs']): v *= float(x); m.append(v)
  m += [scale_of(x) for x in h.get('parts', []) + h.get('cycles', [])]
  return max(m + [1e-30])

def tol(h):
  slow = h['s'] == 'poly' and float(h['power']) < 1
  return {'rt': '1e-4', 'at': repr((3e-4 if slow else 3e-6) * scale_of(h))}

HOW = ('int', 'np', 'jnp', 'jit', 'vec', 'vecjit')
def evaluate(h, ns, how, f=None):
  f = f or ir.build_sched(h)
  i32 = lambda n: jnp.asarray(n, jnp.int32)
  if how == 'int': out = [f(n) for n in ns]
  elif how == 'np': out = [f(np.int32(n)) for n in ns]
  elif how == 'jnp': out = [f(i32(n)) for n in ns]
  elif how == 'jit': g = jax.jit(f); out = [g(i32(n)) for n in ns]
  elif how == 'vec': out = np.broadcast_to(np.asarray(f(i32(ns))), (len(ns),))
  elif how == 'vecjit': out = np.broadcast_to(np.asarray(jax.jit(f)(i32(ns))), (len(ns),))
  elif how == 'vmap': out = np.asarray(jax.vmap(lambda n: jnp.asarray(f(n), jnp.float32))(i32(ns)))
  for x in out: assert np.shape(x) == (), 'a scalar count gives shape %s' % (np.shape(x),)
  return [num(float(x)) for x in out]

def call(r, h, ns, how, fn='sched'):
  ns = [int(n) for n in ns]
  outs, err = [], ''
  try: outs = evaluate(h, ns, how)
  except Exception as e: err = ir.errtext(e)
  r.call(fn, err=err, h=ir.clean(h), ns=[str(n) for n in ns], outs=outs, what='%s(%s)' % (h['s'], how), **tol(h))

BIG = [10 ** 3, 10 ** 4 + 7, 10 ** 6, 2 ** 24, 2 ** 30, 2 ** 31 - 2, 2 ** 31 - 1]

def shared(c, makes, hows=('int', 'jnp', 'jit', 'vecjit', 'int', 'vec')):
  """Two schedules built from the same container, evaluated alternately; the container is unchanged."""
  import copy
  for mk in makes:
    for _ in range(c.n(2, 8)):
      h = mk(); r = c.run('shared %s' % h['s']); box = container(h); before = repr(box); err = ''
      fs = []
      try: fs = [from_container(h, box), from_container(h, box)]
      except Exception as e: err = ir.errtext(e)
      ns = sorted(c.rng.sample(range(0, 40), 10))
      for k, how in enumerate(hows):
        outs = []
        try: outs = evaluate(h, ns, how, (fs or [None])[k % 2 if fs else 0])
        except Exception as e: err = ir.errtext(e)
        r.call('sched', err=err, h=ir.clean(h), ns=[str(n) for n in ns], outs=outs, what='%s(%s, shared settings)' % (h['s'], how), **tol(h))
        # a fresh one from the same container, after the others have been used
        if k == 3: fs = [from_container(h, box), fs[0]]
      r.call('same', a=repr(box), b=before, what='settings after use', err='')

def container(h):
  if h['s'] in ('pconst', 'pinterp'): return {int(b): float(x) for b, x in h['bs'][::-1]}
  if h['s'] == 'join': return [ir.build_sched(x) for x in h['parts']], list(h['bounds'])
  return [dict(init_value=float(x['init']), peak_value=float(x['peak']), warmup_steps=x['warm'], decay_steps=x['steps'], end_value=float(x['end'])) for x in h['cycles']]

def from_container(h, box):
  if h['s'] == 'pconst': return optax.piecewise_constant_schedule(float(h['init']), box)
  if h['s'] == 'pinterp': return optax.piecewise_interpolate_schedule(h['type'], float(h['init']), box)
  if h['s'] == 'join': return optax.join_schedules(*box)
  return optax.sgdr_schedule(box)
