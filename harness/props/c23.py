"""C23 Applying, averaging and periodically copying parameters."""
import functools
from core import *

def err_of(f):
  try: return f(), ''
  except Exception as e: return None, ir.errtext(e)

def out1(o): return [] if o is None else [enc(o)]
def apply(r, p, u, what='apply', f=None):
  pe, ue = enc(p), enc(u)
  o, err = err_of(lambda: (f or optax.apply_updates)(p, u))
  r.call('apply', out=out1(o), err=err, p=pe, u=ue, what=what)
  return o
def incremental(r, new, old, step, what='incremental', f=None, typed=False):
  ne, oe = enc(new), enc(old)
  o, err = err_of(lambda: (f or optax.incremental_update)(new, old, step))
  r.call('incremental', out=out1(o), err=err, new=ne, old=oe, step=num(step), typed=typed, what=what)
  return o
def periodic(r, new, old, steps, period, what='periodic', f=None):
  ne, oe = enc(new), enc(old)
  o, err = err_of(lambda: (f or optax.periodic_update)(new, old, steps, period))
  r.call('periodic', out=out1(o), err=err, new=ne, old=oe, steps=int(steps), period=int(period), what=what)
  return o

JA = jax.jit(lambda p, u: optax.apply_updates(p, u))
JI = jax.jit(lambda n, o, s: optax.incremental_update(n, o, s))
JP = jax.jit(lambda n, o, t, k: optax.periodic_update(n, o, t, k))
JPS = functools.lru_cache(None)(lambda k: jax.jit(lambda n, o, t: optax.periodic_update(n, o, t, k)))

@job('64', shards=4)
def exhaustive(c):
  """Every training loop of MC_update."""
  pl = c.plans['MC_update']
  if not c.thorough: pl = [x for i, x in enumerate(pl) if (i * 7 + c.seed) % 6 == 0]
  else: pl = pl[c.seed % 8::8]
  for x in c.mine(pl):
    r = c.run('loop')
    p = {'x': jnp.asarray([1., -2.])}; avg = {'x': jnp.asarray([0., 8.])}; slow = avg
    for i, u in enumerate(x['h']):
      p = apply(r, p, {'x': jnp.asarray([float(u), 2.])}, f=JA)
      avg = incremental(r, p, avg, float(x['tau']), f=JI)
      t = x['start'] + i + 1
      slow = periodic(r, p, slow, jnp.asarray(t, jnp.int32), x['per'], f=lambda n, o, s, k: JPS(k)(n, o, s))
      if p is None or avg is None or slow is None: break

DT64 = [('float64', 'float64'), ('float64', 'float32'), ('float32', 'float64'), ('float32', 'float32'), ('float64', 'int32')]
DT32 = [('float32', 'float32'), ('bfloat16', 'float32'), ('float16', 'float32'), ('float32', 'bfloat16'),
        ('float16', 'float16'), ('bfloat16', 'bfloat16'), ('int32', 'float32'), ('int32', 'int32'), ('float32', 'int32')]

@job(shards=2)
def applying(c):
  """Every tree, every pair of dtypes, eager and compiled."""
  for i in c.each(72):
    dp, du = (DT64 if X64 else DT32)[i % (5 if X64 else 9)]
    mode = 'int' if 'int' in dp else 'normal'
    p = c.params(dp, mode=mode)
    u = tm(lambda x: c.value(x.shape, du, c.rng.choice(['int'] if 'int' in du else ['normal', 'sparse', 'zero'] + (['big', 'spread', 'huge'] if dp == 'float64' else []))), p)
    apply(c.run('%s+%s' % (dp, du)), p, u, f=JA if i % 3 == 0 else None)

@job()
def mixed_trees(c):
  """Leaves of different dtypes keep their own."""
  ds = ['float64', 'float32', 'float16'] if X64 else ['float32', 'bfloat16', 'float16', 'int32']
  for i in c.each(12):
    d = [c.rng.choice(ds) for _ in range(4)]
    p = c.params(d, mode='int'); r = c.run('mixed')
    apply(r, p, tm(lambda x: c.value(x.shape, c.f(), 'int'), p))
    apply(r, p, tm(lambda x: c.value(x.shape, c.rng.choice(ds), 'int'), p), f=JA)

@job()
def scalars(c):
  """Python scalars and numpy arrays as leaves; empty trees and tensors."""
  r = c.run('scalars')
  apply(r, {'a': 1.5, 'b': np.float32(2)}, {'a': .25, 'b': .5})
  apply(r, [np.ones((2, 3), np.float32)], [jnp.full((2, 3), .5, jnp.float32)])
  apply(r, 3., jnp.asarray(-1., jnp.float32))
  apply(r, {}, {})
  apply(r, {'a': jnp.zeros((0, 3)), 'b': None}, {'a': jnp.zeros((0, 3)), 'b': None})
  p = {'z': jnp.asarray([1., jnp.nan, jnp.inf]), 'a': jnp.asarray(-jnp.inf)}
  apply(r, p, tm(lambda x: jnp.ones_like(x), p))
  apply(r, p, tm(lambda x: -x, p))

@job(shards=2)
def averaging(c):
  for i in c.each(48):
    dt = c.rng.choice(c.dtypes())
    new = c.params(dt); old = c.like(new)
    st = c.rng.choice([0., 1., .5, .1, .01, .999, 1. / 3, 2., -1., c.rng.random()])
    kind = i % 4
    f = JI if kind == 1 else None
    step = st if kind < 2 else jnp.asarray(st, c.f()) if kind == 2 else np.float32(st)
    incremental(c.run('%s %g %d' % (dt, st, kind)), new, old, step, f=f, typed=kind < 2)

@job()
def scaled(c):
  """Parameters and updates of every magnitude (no hidden absolute threshold)."""
  for k in ((-30, -12, -8, -3, 3, 8, 12, 30) if X64 else (-20, -9, -4, 4, 9, 20)):
    t = lambda x: tm(lambda y: y * 10. ** k, x)
    r = c.run('1e%d' % k, floor=ir.EXACT0)
    p = c.params(c.f(), struct='dict'); a = t(p)
    for j in range(2):
      incremental(r, t(c.like(p)), a, c.rng.choice([.5, .1, 1e-3, 1.]), f=JI if j else None)
      apply(r, a, t(c.like(p)), f=JA if j else None); apply(r, p, t(c.like(p)))
      periodic(r, t(c.like(p)), a, j, 2)

@job()
def polyak_history(c):
  """A long average stays the average (only its own recorded past matters)."""
  new = c.params(c.f(), struct='nested'); old = c.like(new)
  r = c.run('history')
  for i in range(20):
    old = incremental(r, c.like(new), old, .1, f=JI)
    if old is None: break
  p = c.params(c.f(), struct='dict'); u = c.like(p)
  r = c.run('fixpoint'); incremental(r, p, p, .3); incremental(r, p, u, 1.); incremental(r, p, u, 0.)
  incremental(r, {'i': jnp.asarray([3, 4])}, {'i': jnp.asarray([1, 2])}, .5)

STEPS = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 100, 119, 120, 999, 1000, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 31 - 2, 2 ** 31 - 1]
@job(shards=2)
def copying(c):
  """Every step count against every period, however the count is given."""
  for k in c.mine([1, 2, 3, 4, 5, 7, 10, 12, 1000, 2 ** 24, 2 ** 30, 2 ** 31 - 1]):
    new = c.params(c.f(), struct='nested', mode='naninf'); old = c.like(new)
    r = c.run('period %d' % k)
    for t in STEPS + [k - 1, k, min(k + 1, 2 ** 31 - 1)] + [k * m for m in (2, 3, 7) if k * m < 2 ** 31]:
      periodic(r, new, old, jnp.asarray(t, jnp.int32), k, f=lambda n, o, s, q: JP(n, o, s, jnp.asarray(q, jnp.int32)))
      periodic(r, new, old, jnp.asarray(t, jnp.int32), k, f=lambda n, o, s, q: JPS(q)(n, o, s))
    for t in (0, k, 1, 5):
      periodic(r, new, old, t, k, 'periodic (python int)'); periodic(r, new, old, np.int32(t), k, 'periodic (numpy)')

@job()
def copying_dtypes(c):
  for i in c.each(10):
    dt = c.rng.choice(c.dtypes() + ['int32'])
    new = c.params(dt, mode='int'); old = c.like(new, 'int')
    r = c.run(dt)
    for t in range(4): periodic(r, new, old, t, 2)

@job()
def in_loops(c):
  """Inside a compiled training loop."""
  p = c.params(c.f(), struct='dict'); us = [c.like(p) for _ in range(7)]
  def body(s, u):
    p, a, q, t = s
    p = optax.apply_updates(p, u); a = optax.incremental_update(p, a, .25); q = optax.periodic_update(p, q, t, 3)
    return (p, a, q, t + 1), (p, a, q)
  z = tm(jnp.zeros_like, p)
  _, ys = jax.lax.scan(body, (p, z, z, jnp.asarray(1, jnp.int32)), tm(lambda *x: jnp.stack(x), *us))
  r = c.run('scan'); at = lambda y, i: tm(lambda x: x[i], y)
  pp, aa, qq = p, z, z
  for i, u in enumerate(us):
    p1, a1, q1 = (at(y, i) for y in ys)
    r.call('apply', out=[enc(p1)], p=enc(pp), u=enc(u), what='scan')
    r.call('incremental', out=[enc(a1)], new=enc(p1), old=enc(aa), step='0.25', typed=True, what='scan')
    r.call('periodic', out=[enc(q1)], new=enc(p1), old=enc(qq), steps=i + 1, period=3, what='scan')
    pp, aa, qq = p1, a1, q1

@job()
def arguments(c):
  """Unfamiliar containers and array types; no argument is altered."""
  for i in c.each(16):
    struct = ['odict', 'box', 'holes', 'ints'][i % 4]
    a = c.params(c.f(), struct=struct, shapes=[(2, 3), (1,), (2, 1, 1, 1, 2), (4,), (0, 2)][i % 3:])
    arr = (lambda t: tm(lambda x: np.array(x), t)) if i % 8 < 4 else (lambda t: t)
    a, b, d = arr(a), arr(c.like(a)), arr(c.like(a))
    was = [np.array(x) for t in (a, b, d) for x in leaves(t)]
    r = c.run(struct)
    apply(r, a, b); apply(r, a, d)
    incremental(r, a, b, .25); incremental(r, d, a, .5)
    periodic(r, b, a, i, 2); periodic(r, b, d, i + 1, 2)
    now = [np.asarray(x) for t in (a, b, d) for x in leaves(t)]
    r.call('same', a=[x.tobytes().hex() for x in was], b=[x.tobytes().hex() for x in now], what='arguments unchanged')

@job()
def batched_use(c):
  """Under vmap: one step count per row, one tree per row."""
  B = 5
  for i in c.each(4):
    new, old = c.params(c.f(), struct='dict', shapes=[(B, 2), (B,), (B, 2, 3)]), None
    old = c.like(new); ts = jnp.asarray(c.np.randint(0, 9, size=B), jnp.int32); k = c.rng.choice([1, 2, 3])
    st = jnp.asarray(c.np.rand(B), c.f())
    P = jax.vmap(lambda n, o, t: optax.periodic_update(n, o, t, k))(new, old, ts)
    I = jax.vmap(optax.incremental_update)(new, old, st)
    A = jax.vmap(optax.apply_updates)(new, old)
    at = lambda y, j: tm(lambda x: x[j], y)
    r = c.run('rows')
    for j in range(B):
      n, o = enc(at(new, j)), enc(at(old, j))
      r.call('periodic', out=[enc(at(P, j))], new=n, old=o, steps=int(ts[j]), period=k, what='vmap')
      r.call('incremental', out=[enc(at(I, j))], new=n, old=o, step=num(float(st[j])), typed=False, what='vmap')
      r.call('apply', out=[enc(at(A, j))], p=n, u=o, what='vmap')
