"""C22 add_noise."""
from core import *

IN = lambda x: {'x': jnp.asarray(float(x)), 'y': jnp.asarray(-float(x))}
RT = {'float64': '2e-6'}

@job('64', shards=2)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_noise'], lambda p: json.dumps(p['cfg']))):
    p = IN(7)
    cfg = dict(g[0]['cfg'], _seed=5, draws=noise_draws(p, 5, len(g[0]['h'])))
    r = c.run('noise', cfg, rtol=RT); r.init(p)
    trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(IN(x), None, a, b))

def flat(e): return [v for l in e['l'] for v in l['v']]

@job(shards=4)
def histories(c):
  """Random trees, settings and seeds; the same draws whatever the gradients."""
  for i in c.each(48):
    dt = c.rng.choice(c.dtypes()) if i % 2 else c.f()
    p = c.params(dt)
    seed = c.rng.choice([0, 1, 2, 42, 12345, 2**31 - 1, c.rng.randrange(10**6)])
    f = {'k': 'noise', 'eta': N(c.rng.choice([0., .01, .25, 1., 4., 100. if X64 else 9.])), 'gamma': N(c.rng.choice([0., .55, 1., 2., .3])), '_seed': seed}
    f['draws'] = noise_draws(p, seed, 8)
    r = c.run('%s seed=%d' % (dt, seed), f, rtol=RT, jit=i % 4 != 3)
    drive(c, r, p, 8 if r.jit else 4, modes=['normal', 'zero', 'sparse', 'int'], with_params=c.rng.random() < .2)

@job(shards=2)
def counts(c):
  """Annealing at every count: far steps, the int32 limit."""
  for i in c.each(10):
    p = c.params(c.f(), struct=c.rng.choice(['leaf', 'dict']))
    f = {'k': 'noise', 'eta': N(c.rng.choice([1., .01, 4.])), 'gamma': N(c.rng.choice([0., .55, 1., .25])), '_seed': i}
    f['draws'] = noise_draws(p, i, 8)
    r = c.run('counts', f, rtol=dict(RT), floor=ir.EXACT0); r.init(p)
    z = tm(jnp.zeros_like, p)
    for n in (9, 99, 12345, 2**24 - 1, 2**31 - 2, 2**31 - 1):
      r.setc(n); r.upd(z)

@job(shards=2)
def seeds(c):
  """Sessions on one object and on rebuilt objects: seed and step decide."""
  for i in c.each(6):
    p = c.params(c.f(), struct=c.rng.choice(['dict', 'nested']))
    seed = c.rng.randrange(1000)
    d = noise_draws(p, seed, 5)
    r = c.run('again', {'k': 'identity'})
    r.call('same', a=noise_draws(p, seed, 5), b=d, what='same seed, same noise')
    r.call('same', a=noise_draws(p, seed, 3), b=d[:3], what='same seed, same prefix')
    f = {'k': 'noise', 'eta': N(.25), 'gamma': N(.5), '_seed': seed, 'draws': d}
    r = c.run('interleaved', f, rtol=RT)
    r.init(p, 1); r.init(c.like(p), 2)
    for _ in range(2):
      r.upd(c.like(p), None, 1, 1); r.upd(c.like(p), None, 2, 2)
    r.restore(1, 3); r.upd(c.like(p), None, 3, 3); r.upd(c.like(p), None, 1, 1)
    r.scan([c.like(p) for _ in range(2)], src=2, dst=4)

def tree400(k=400): return {'a': jnp.zeros((20, k // 20)), 'b': jnp.zeros((k,)), 'c': jnp.zeros((4, k // 8, 2)), 'd': jnp.zeros((k,))}

@job(shards=2)
def normal(c):
  """Moments of the noise, and independence between entries, leaves and steps."""
  for sd in ([0, 7] if c.shard == 0 else [123456]):
    sd += c.seed * 1000 if c.shard else 0
    d = noise_draws(tree400(), sd, 4)
    r = c.run('seed %d' % sd)
    L = [[l['v'] for l in e['l']] for e in d]
    for t, e in enumerate(d): r.call('normal', z=flat(e), distinct=X64, what='step %d' % (t + 1))
    for t in range(4):
      for j in range(4):
        for k in range(j): r.call('indep', a=L[t][j], b=L[t][k], what='leaves %d and %d of step %d' % (j, k, t))
        for s in range(t): r.call('indep', a=L[t][j], b=L[s][j], what='steps %d and %d' % (t, s))
        for s in range(t): r.call('indep', a=L[t][j], b=L[s][(j + 1) % 4], what='leaf %d of step %d and the next of %d' % (j, t, s))
    for o in (1, 2, sd + 1, sd + 2**20):
      if o == sd: continue
      r.call('indep', a=flat(d[0]), b=flat(noise_draws(tree400(), o, 1)[0]), what='seeds %d and %d' % (sd, o))

@job()
def long_run(c):
  """One scalar over many steps is a normal sample too (no cycles)."""
  d = noise_draws({'x': jnp.zeros(())}, 11, 1200)
  r = c.run('long'); z = [flat(e)[0] for e in d]
  r.call('normal', z=z, distinct=X64, what='1200 steps')
  for lag in (2, 3, 5, 64): r.call('indep', a=z[lag:], b=z[:-lag], what='lag %d' % lag)

@job('64')
def annealed(c):
  """The noise itself at a setting away from 1: variance eta / n^gamma."""
  for eta, gamma in ((.04, .5), (9., 1.)):
    tx = optax.add_noise(eta, gamma, 3); z = jnp.zeros((1500,)); s = tx.init(z)
    r = c.run('eta %s gamma %s' % (eta, gamma))
    for n in (1, 2, 3, 4):
      u, s = tx.update(z, s)
      r.call('normal', z=[num(v) for v in np.asarray(u / np.sqrt(eta / n ** gamma))], distinct=True, what='update %d' % n)

@job('64')
def in_chain(c):
  """Two noisy members of one chain, and inside wrappers."""
  p = c.params('float64', struct='dict')
  n = lambda s: {'k': 'noise', 'eta': N(.25), 'gamma': N(1.), '_seed': s, 'draws': noise_draws(p, s, 8)}
  r = c.run('chain', {'k': 'chain', 'm': [n(1), {'k': 'scale', 'c': N(2.)}, n(2)]}, rtol=RT)
  drive(c, r, p, 5)
  r = c.run('aif', {'k': 'aif', 'in': n(4), 'max': 3}, rtol=RT)
  drive(c, r, p, 7, g=lambda i: c.poison(c.like(p)) if i in (1, 4) else c.like(p))
  q = {'b': p[sorted(p)[0]]}
  m = {'k': 'noise', 'eta': N(.25), 'gamma': N(1.), '_seed': 6, 'draws': noise_draws(p, 6, 8)}
  r = c.run('multi', {'k': 'multi', 'in': m, 'every': N(2.), 'mean': True}, rtol=RT)
  drive(c, r, p, 6)
