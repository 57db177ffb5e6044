"""C21 Private aggregation."""
from core import *
RT = {'float64': '2e-6'}

def bat(xs):
  a = np.array([[float(v) for v in x] for x in xs])
  return {'a': jnp.asarray(a[:, :2]), 'b': jnp.asarray(a[:, 2])}
P0 = {'a': jnp.zeros((2,)), 'b': jnp.zeros(())}
BAD = [{'a': jnp.ones((2,)), 'b': jnp.ones(())}, {'a': jnp.ones(()), 'b': jnp.ones((2,))}, {'a': jnp.ones((2, 2)), 'b': jnp.ones((3,))},
       {'a': jnp.ones((1, 2)), 'b': jnp.ones((2,))}]

@job('64', shards=4)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_dp'], lambda p: json.dumps(p['cfg']))):
    cfg = dict(g[0]['cfg'], _seed=5, draws=dp_draws(P0, 5, 2))
    r = c.run(cfg['k'], cfg); r.init(P0)
    trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(bat(x), None, a, b))
    for b in BAD: r.upd(b, None, 1, 9)
    r.upd(bat([['3', '0', '-4']]), None, 1, 9)

def fields(c):
  r = c.rng
  return {'k': 'dp', 'clip': N(r.choice([1., .1, 3., 10., 1e-3])), 'mult': N(r.choice([0., 0., .5, 1.1, 4.])), '_seed': r.choice([0, 1, 42, r.randrange(10**6), 2 ** 31 - 1])}

@job(shards=4)
def batches(c):
  """Random trees, batch sizes, clips; norms on both sides of the clip."""
  for i in c.each(48):
    dt = c.rng.choice(c.dtypes()) if i % 2 else c.f()
    p = c.params(dt)
    f = fields(c); f['draws'] = dp_draws(p, f['_seed'], 5); Bs = [c.rng.choice([1, 2, 3, 5, 8]) for _ in range(2)]
    if dt in ('float16', 'bfloat16'): f['clip'] = N(1.)
    r = c.run('dp %s' % dt, f, rtol=None if dt != 'bfloat16' else {'bfloat16': '1e-1'}, jit=i % 4 != 3); r.init(p)
    for t in range(4):
      B = Bs[t % 2]
      ms = ['normal', 'sparse', 'int', 'zero'] + (['small', 'big'] if dt == 'float64' else [])
      g = batched(c, p, B, ms if c.rng.random() < .5 else [c.rng.choice(ms)])
      # some examples zero, some far larger than the rest
      k = np.array([c.rng.choice([0., 1., 1., .01, 30.] if dt.endswith('32') or dt.endswith('64') else [0., 1., 1., 2.]) for _ in range(B)])
      g = tm(lambda x: (x * k.reshape((B,) + (1,) * (x.ndim - 1))).astype(x.dtype), g)
      if t == 2: r.upd(tm(lambda x: x[0], g) if c.rng.random() < .5 else c.params(dt, struct='leaf', shapes=[()]), None, 1, 9) if shapes_bad(tm(lambda x: x[0], g)) else None
      r.upd(g, p if c.rng.random() < .2 else None)

def shapes_bad(t):
  s = [x.shape for x in leaves(t)]
  return any(x == () for x in s) or len({x[0] for x in s}) > 1

@job(shards=2)
def mixed(c):
  ds = ['float64', 'float32'] if X64 else ['float32', 'float16']
  for _ in range(c.n(6)):
    p = c.params(ds, struct=c.rng.choice(['dict', 'nested']))
    f = {'k': 'dp', 'clip': N(1.), 'mult': N(0.), '_seed': 0, 'draws': []}
    r = c.run('mixed dtypes', f, rtol={'float64': '1e-5', 'float32': '1e-2' if not X64 else '1e-5'}); r.init(p)
    for _ in range(3): r.upd(batched(c, p, 3))

@job('64')
def sensitivity(c):
  """One example scaled without bound: its contribution stays below clip / B."""
  for i in range(8):
    p = c.params('float64')
    f = {'k': 'dp', 'clip': N(c.rng.choice([.5, 2.])), 'mult': N(0.), '_seed': 0, 'draws': []}
    r = c.run('sensitivity', f); r.init(p)
    B = c.rng.randint(1, 4); g = batched(c, p, B)
    for s in (1., 1e3, 1e9, 1e-9):
      r.upd(tm(lambda x: x.at[B - 1].multiply(s), g), None, 1, 2)

@job(shards=2)
def malformed(c):
  """Leaves without a shared batch axis are rejected, and consume nothing."""
  for i in c.each(10):
    p = {'w': c.value((2, 3), c.f()), 'b': c.value((), c.f()), 'a': c.value((2,), c.f())}
    f = fields(c); f['draws'] = dp_draws(p, f['_seed'], 4)
    r = c.run('malformed', f, jit=c.rng.random() < .5); r.init(p)
    good = batched(c, p, 2)
    r.upd(good)
    for k in ('w', 'b', 'a'):
      r.upd(dict(good, **{k: c.value((), c.f())}))
      r.upd(dict(good, **{k: c.value((3,) + p[k].shape, c.f())}))
      r.upd(dict(good, **{k: c.value((1,) + p[k].shape, c.f())}))
    r.upd(good); r.upd(batched(c, p, 4))

@job(shards=2)
def normal(c):
  """Moments and independence of the noise; no coupling to the batch."""
  tree = {'a': jnp.zeros((20, 20)), 'b': jnp.zeros((400,)), 'd': jnp.zeros((400,))}
  for sd in ([0, 9] if c.shard == 0 else [1000 + c.seed]):
    d = dp_draws(tree, sd, 4)
    r = c.run('seed %d' % sd)
    L = [[l['v'] for l in e['l']] for e in d]
    F = [[v for l in e['l'] for v in l['v']] for e in d]
    for t in range(4): r.call('normal', z=F[t], distinct=X64, what='step %d' % (t + 1))
    for t in range(4):
      for j in range(3):
        for k in range(j): r.call('indep', a=L[t][j], b=L[t][k], what='leaves')
        for s in range(t): r.call('indep', a=L[t][j], b=L[s][j], what='steps %d and %d' % (t, s))
        for s in range(t): r.call('indep', a=L[t][j], b=L[s][(j + 1) % 3], what='next leaf, steps %d and %d' % (t, s))
    for o in (1, sd + 1, sd + 2**20):
      if o != sd: r.call('indep', a=F[0], b=dp_draws(tree, o, 1)[0]['l'][0]['v'] + dp_draws(tree, o, 1)[0]['l'][1]['v'], what='seeds')

@job('64')
def calibrated(c):
  """The standard deviation is clip * multiplier / batch size."""
  for clip, mult, B in ((2., .5, 4), (.3, 2., 1), (5., 1.1, 3)):
    tx = optax.differentially_private_aggregate(clip, mult, 3); z = jnp.zeros((B, 1500)); s = tx.init(z[0])
    r = c.run('clip %s mult %s B %d' % (clip, mult, B))
    for n in range(3):
      u, s = tx.update(z, s)
      r.call('normal', z=[num(v) for v in np.asarray(u / (clip * mult / B))], distinct=True, what='update %d' % n)

@job('64')
def sessions(c):
  """Interleaved sessions, restores and rebuilt objects see the same noise."""
  for i in range(4):
    p = c.params('float64', struct='dict')
    f = {'k': 'dp', 'clip': N(1.), 'mult': N(.7), '_seed': i, 'draws': dp_draws(p, i, 5)}
    r = c.run('sessions', f); r.init(p, 1); r.init(p, 2)
    r.upd(batched(c, p, 2), None, 1, 1); r.upd(batched(c, p, 3), None, 2, 2); r.upd(batched(c, p, 2), None, 1, 1)
    r.restore(1, 3); r.upd(batched(c, p, 1), None, 3, 3); r.upd(batched(c, p, 4), None, 2, 4); r.upd(batched(c, p, 2), None, 2, 2)

@job(shards=2)
def large_batches(c):
  """Batches of many examples, with norms on both sides of the clip."""
  for i in c.each(6, 30):
    p = c.params(c.f(), struct='dict', shapes=[(), (2,), (2, 2)])
    f = fields(c); f['draws'] = dp_draws(p, f['_seed'], 3)
    if not X64: f['clip'] = N(1.)
    r = c.run('many examples', f, jit=i % 2 == 0); r.init(p)
    for B in (c.rng.choice([17, 33, 40]), c.rng.choice([64, 100, 129])):
      k = np.array([c.rng.choice([0., 1., 1., .01, 30.]) for _ in range(B)])
      r.upd(tm(lambda x: (x * k.reshape((B,) + (1,) * (x.ndim - 1))).astype(x.dtype), batched(c, p, B)))
