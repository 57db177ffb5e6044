"""C30 Adagrad, RMS, centred RMS and SM3 rescaling."""
from core import *
from generic import *
KINDS = ['rss', 'rms', 'stddev', 'sm3']
MAT = {'scalar': lambda x: [x[0]], 'vec': lambda x: x, 'mat': lambda x: [x[0], x[1], x[1], 0.]}
SHAPE = {'scalar': (), 'vec': (2,), 'mat': (2, 2)}

@job('64', shards=4)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_acc'], lambda p: json.dumps([p['cfg'], p['shape']]))):
    sh = g[0]['shape']
    mk = lambda x: jnp.asarray(np.array(MAT[sh]([float(v) for v in x])).reshape(SHAPE[sh]))
    r = c.run('%s %s' % (g[0]['cfg']['k'], sh), g[0]['cfg'])
    r.init(mk([7., 7.]))
    trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(mk(x), None, a, b))

def fields(c, k):
  r = c.rng
  if k == 'rss': return {'k': k, 'init': N(r.choice([0., .1, 1., 4.])), 'eps': N(r.choice([1e-7, .1, 0.]))}
  if k == 'sm3': return {'k': k, 'b1': N(r.choice([0., .5, .9])), 'b2': N(r.choice([1., .9, .5])), 'eps': N(r.choice([1e-8, .1]))}
  return {'k': k, 'decay': N(r.choice([0., .5, .9, .99])), 'eps': N(r.choice([1e-8, 1e-3, .1]) if k == 'rms' else r.choice([1e-3, .1])), 'init': N(r.choice([0., .5, 1., 4.]))}

@job(shards=4)
def histories(c):
  for i in c.each(100):
    k = KINDS[i % 4]
    p = c.params(c.f())
    f = fields(c, k)
    modes = ['normal', 'sparse', 'small', 'big', 'int', 'zero'] if X64 else ['normal', 'int', 'sparse']
    if not X64 and 'eps' in f and k != 'sm3': f['eps'] = N(.1)
    if c.rng.random() < .3: modes = [c.rng.choice(modes)]
    if k == 'stddev':      # (the variance q - m^2 cancels against epsilon)
      modes = [m for m in modes if m != 'big'] or ['normal']
    r = c.run(k, f, jit=(i // 4) % 5 != 4, rtol={'float64': '1e-6'} if k == 'stddev' else None)
    drive(c, r, p, 10 if r.jit else 5, with_params=c.rng.random() < .2, modes=modes)

@job(shards=2)
def sm3_ranks(c):
  """Tensors of every rank, including sizes one."""
  for sh in c.mine([(), (1,), (5,), (2, 3), (3, 1), (1, 4), (1, 1), (2, 2, 2), (3, 1, 2), (2, 1, 2, 2), (1, 2, 1, 2, 2), (3, 4)]):
    for b2 in (1., .9):
      p = c.value(sh, c.f())
      f = {'k': 'sm3', 'b1': N(c.rng.choice([0., .9])), 'b2': N(b2), 'eps': N(1e-8)}
      drive(c, c.run('%s' % (sh,), f), p, 6, modes=['normal', 'sparse'])

@job('64')
def sm3_cover(c):
  """Row and column structure of the gradients (only some rows active)."""
  for _ in range(4):
    p = {'m': c.value((3, 4), 'float64'), 's': c.value((), 'float64'), 'v': c.value((4,), 'float64')}
    def g(i):
      m = np.zeros((3, 4)); m[c.rng.randrange(3), :] = c.np.randn(4); m[:, c.rng.randrange(4)] += c.np.randn(3)
      return {'m': jnp.asarray(m), 's': c.value((), 'float64', c.rng.choice(['zero', 'normal'])), 'v': c.value((4,), 'float64', 'sparse')}
    drive(c, c.run('rows', fields(c, 'sm3')), p, 8, g=g)

@job('64')
def magnitudes(c):
  for k in KINDS:
    # (centred: the variance q - m^2 cancels against epsilon at large magnitudes)
    for mode in ('tiny', 'huge', 'spread', 'zero') if k != 'stddev' else ('tiny', 'zero', 'small'):
      f = fields(c, k)
      if k == 'rss': f['init'] = N(0.)
      p = c.params('float64')
      drive(c, c.run('%s %s' % (k, mode), f, floor=ir.EXACT0 if k not in ('stddev', 'sm3') else None), p, 5, modes=[mode])

@job()
def defaults(c):
  p = c.params(c.f(), struct='nested')
  om = ['initial_accumulator_value', 'eps', 'decay', 'initial_scale', 'b1', 'b2']
  for cfg in ({'k': 'rss', 'init': N(.1), 'eps': N(1e-7)}, {'k': 'rms', 'decay': N(.9), 'eps': N(1e-8), 'init': N(0.)},
              {'k': 'sm3', 'b1': N(.9), 'b2': N(1.), 'eps': N(1e-8)}):
    drive(c, c.run(cfg['k'], dict(cfg, _omit=om)), p, 6, modes=['normal'])
  # the first centred step divides by sqrt(.1 - .01) |g|
  drive(c, c.run('stddev', dict({'k': 'stddev', 'decay': N(.9), 'eps': N(1e-8), 'init': N(0.)}, _omit=om)), p, 5, modes=['normal'])

@job(shards=2)
def loops(c):
  for k in c.mine(KINDS):
    p = c.params(c.f(), struct='nested')
    f = fields(c, k)
    if not X64: f['eps'] = N(.1)
    r = c.run(k, f); r.init(p)
    r.scan([c.like(p) for _ in range(7)])

@job('64')
def long_history(c):
  for k in KINDS:
    p = c.params('float64', struct='leaf', shapes=[(2, 2)])
    drive(c, c.run(k, fields(c, k)), p, 60 if not c.thorough else 300, modes=['normal', 'sparse', 'zero'])

def well(c, k):
  f = fields(c, k)
  if k == 'stddev': f['eps'] = N(.1)
  return f
suite(lambda c, i: well(c, KINDS[i % 4]), n=(5, 2, 4, 4))
