"""C19 Constraints."""
from core import *
from generic import *

IN = lambda x: {'a': jnp.asarray([float(x[0]), float(x[1])]), 'b': jnp.asarray(float(x[2]))}

@job()
def exhaustive(c):
  for g in group(c.plans['MC_constr'], lambda p: json.dumps(p['cfg'])):
    k = g[0]['cfg']['k']
    r = c.run(k, g[0]['cfg'], floor=ir.EXACT0)
    par = {1: IN(['2', '1', '0'])}
    r.init(par[1])
    def feed(r, x, a, b):
      out = r.upd(IN(x), par[a] if k == 'nonneg' else None, a, b)
      par[b] = optax.apply_updates(par[a], out) if k == 'nonneg' else par[a]
    trie_replay(r, [p['h'] for p in g], feed)

@job(shards=3)
def nonneg(c):
  """Walks of non-negative parameters: the recorded sums never turn negative."""
  for i in c.each(36):
    dt = c.rng.choice(c.dtypes())
    p = c.params(dt, mode=c.rng.choice(['pos', 'pos', 'zero']))
    r = c.run('walk %s' % dt, {'k': 'nonneg'}, jit=i % 3 != 2, floor=ir.EXACT0)
    r.init(p)
    for t in range(6 if r.jit else 3):
      g = c.like(p, modes=['normal', 'sparse', 'zero', 'tiny', 'big'] + (['naninf'] if t % 3 == 2 else []))
      if t % 3 == 2: g = tm(lambda x: jnp.where(jnp.isnan(x), -x * 0 - 1, x), g)     # infinities only
      if t == 1 and i % 2: g = tm(lambda x: -x * (1 + jnp.finfo(x.dtype).eps * 2 ** c.rng.randint(0, 6)), p)  # just beyond
      if t == 4: g = tm(lambda x: -x, p)                                             # exactly to zero
      out = r.upd(g, p)
      if out is None: break
      new = optax.apply_updates(p, out)
      r.call('nonneg', p=enc(p), a=enc(new), what='applied parameters')
      p = tm(lambda x: jnp.where(jnp.isfinite(x), x, jnp.ones_like(x)), new)

@job(shards=2)
def nonneg_any(c):
  """Parameters of any sign, NaNs included."""
  for i in c.each(16):
    dt = c.rng.choice(c.dtypes())
    p = c.params(dt)
    r = c.run('any %s' % dt, {'k': 'nonneg'}, jit=i % 2 == 0, floor=ir.EXACT0)
    r.init(p)
    for m in ('normal', 'naninf', 'small'): r.upd(c.like(p, m), c.like(p, modes=['normal', 'int', 'zero']))

@job(shards=3)
def zero_nans(c):
  """NaNs come and go in any position of any leaf."""
  for i in c.each(48):
    dt = c.rng.choice(c.dtypes())
    p = c.params(dt)
    r = c.run('nans %s' % dt, {'k': 'zero_nans'}, jit=i % 3 != 2, floor=ir.EXACT0)
    r.init(p)
    for t in range(6 if r.jit else 4):
      m = c.rng.choice(['nan', 'naninf', 'inf', 'normal', 'one', 'one', 'zero'])
      r.upd(c.poison(c.like(p), ['nan']) if m == 'one' else c.like(p, m))

@job()
def empty(c):
  p = {'a': jnp.zeros((0, 2)), 'b': jnp.ones(())}
  for k in ('nonneg', 'zero_nans'):
    r = c.run(k + ' empty', {'k': k}); r.init(p)
    for _ in range(2): r.upd({'a': jnp.zeros((0, 2)), 'b': jnp.asarray(c.rng.choice([-3., float('nan')]))}, p)

@job('64')
def scan(c):
  for k in ('nonneg', 'zero_nans'):
    p = c.params('float64', struct='nested')
    r = c.run(k + ' scan', {'k': k}); r.init(p)
    gs = [c.poison(c.like(p), ['nan']) if i % 2 and k == 'zero_nans' else c.like(p) for i in range(6)]
    r.scan(gs, [c.like(p, 'pos') for _ in range(6)] if k == 'nonneg' else None)

@job('64')
def inside(c):
  """In a chain after other transformations, and inside wrappers."""
  for _ in range(6):
    cfg = {'k': 'chain', 'm': [{'k': 'zero_nans'}, {'k': 'scale', 'c': N(-1.)}, {'k': 'trace', 'decay': N(.5), 'nesterov': False, 'acc': ''}, {'k': 'nonneg'}]}
    p = c.params('float64', mode='pos')
    r = c.run('chain', cfg); r.init(p)
    for t in range(5):
      out = r.upd(c.like(p, c.rng.choice(['nan', 'normal'])), p)
      new = optax.apply_updates(p, out)
      r.call('nonneg', p=enc(p), a=enc(new), what='applied parameters')
      p = new

suite(lambda c, i: {'k': ['nonneg', 'zero_nans'][i // 2 % 2 if X64 else 1]}, n=(4, 3, 3, 4), poison=['nan'])
