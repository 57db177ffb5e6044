"""C16 Adam, AdaBelief, Yogi, RAdam."""
from core import *
from generic import *
KINDS = ['adam', 'belief', 'yogi', 'radam']

@job('64', shards=4)
def exhaustive(c):
  for g in c.mine(group([p for p in c.plans['MC_adam'] if p['cfg']['k'] != 'yogi'], lambda p: json.dumps(p['cfg']))):
    r = c.run(g[0]['cfg']['k'], g[0]['cfg'])
    r.init(jnp.asarray(7.))
    trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(jnp.asarray(float(x)), None, a, b))

@job('64')
def yogi_rule(c):
  """The published rule (a known finding), and the rule implemented instead."""
  gs = group([p for p in c.plans['MC_adam'] if p['cfg']['k'] == 'yogi'], lambda p: json.dumps(p['cfg']))
  for g in gs:
    for rule in (['paper', 'deviation'] if g is gs[0] else ['deviation']):
      r = c.run('yogi-' + rule, dict(g[0]['cfg'], rule=rule))
      r.init(jnp.asarray(7.))
      hs = [p['h'] for p in g]
      trie_replay(r, hs if rule == 'deviation' else hs[:9], lambda r, x, a, b: r.upd(jnp.asarray(float(x)), None, a, b))

def fields(c, k):
  r = c.rng
  f = {'k': k, 'b1': N(r.choice([0., .5, .9, .95])), 'b2': N(r.choice([.5, .9, .99, .999])), 'eps': N(r.choice([1e-8, 1e-3, .1])), 'root': N(r.choice([0., 1e-6, .01]))}
  if k == 'belief': f['root'] = N(r.choice([1e-6, 1e-3, 1e-16 if f['eps']['v'] != '1e-08' else 1e-4]))
  if k == 'yogi': f.update(init=N(r.choice([1e-6, .1])), rule='deviation', eps=N(1e-3), root=N(r.choice([1e-3, .1])))
  if k == 'radam':
    f.update(thr=N(r.choice([5., 4.5, 6., 12.])), b2=N(r.choice([.9, .95, .99, .999])))
  return f

@job(shards=4)
def histories(c):
  """Random settings and histories; zero gradients, mixed magnitudes."""
  for i in c.each(80):
    k = KINDS[i % 4]
    dt = c.f()
    p = c.params(dt)
    r = c.run(k, fields(c, k), jit=(i // 4) % 5 != 4 or k == 'radam', rtol=RADAM32 if k == 'radam' else None)
    modes = ['normal', 'sparse', 'small', 'big', 'int', 'zero'] if X64 else ['normal', 'int', 'sparse']
    if not X64 and k in ('belief', 'yogi'): r.cfg['eps'] = N(.1)
    if c.rng.random() < .3: modes = [c.rng.choice(modes)]
    drive(c, r, p, 12 if r.jit else 5, with_params=c.rng.random() < .2, modes=modes)

@job('64')
def long_history(c):
  for k in KINDS:
    p = c.params('float64', struct='leaf', shapes=[(2,)])
    drive(c, c.run(k, fields(c, k)), p, 80 if not c.thorough else 400, modes=['normal', 'small', 'zero'])

@job('64')
def magnitudes(c):
  """Every magnitude: the rule is relative, epsilon is not."""
  for k in ('adam', 'radam'):
    for mode in ('tiny', 'huge', 'spread'):
      for eps in (1e-8, 0.) if mode != 'tiny' else (1e-8,):
        f = dict(fields(c, k), eps=N(eps), root=N(0.))
        p = c.params('float64')
        drive(c, c.run('%s %s eps=%s' % (k, mode, eps), f, floor=ir.EXACT0), p, 7, modes=[mode])

@job('64')
def thresholds(c):
  """RAdam: both regimes for every threshold and decay."""
  for b2 in (.9, .95, .99, .999):
    for thr in (4.2, 5., 6.5):
      f = {'k': 'radam', 'b1': N(.9), 'b2': N(b2), 'eps': N(1e-8), 'root': N(0.), 'thr': N(thr)}
      p = c.params('float64', struct='leaf', shapes=[(2,)])
      drive(c, c.run('b2=%s thr=%s' % (b2, thr), f), p, 14)

@job()
def defaults(c):
  p = c.params(c.f(), struct='dict')
  om = ['b1', 'b2', 'eps', 'eps_root', 'threshold', 'initial_accumulator_value']
  D = {'b1': N(.9), 'b2': N(.999)}
  for cfg in (dict(D, k='adam', eps=N(1e-8), root=N(0.)), dict(D, k='belief', eps=N(0.), root=N(1e-16)), dict(D, k='radam', eps=N(1e-8), root=N(0.), thr=N(5.))):
    drive(c, c.run(cfg['k'], dict(cfg, _omit=om), rtol=RADAM32 if cfg['k'] == 'radam' else None), p, 8, modes=['normal'])
  # (second moments stay positive while the gradients are below the initial value)
  drive(c, c.run('yogi', dict(D, k='yogi', eps=N(1e-3), root=N(0.), init=N(1e-6), rule='deviation', _omit=om)), p, 1, modes=['zero'])
  for o in om[:4]:
    drive(c, c.run('adam without ' + o, dict(D, k='adam', eps=N(1e-8), root=N(0.), _omit=[o])), p, 4)

@job(shards=2)
def loops(c):
  for k in c.mine(KINDS):
    p = c.params(c.f(), struct='nested')
    f = fields(c, k)
    if not X64: f['eps'] = N(.1)
    r = c.run(k, f, rtol=RADAM32 if k == 'radam' else None); r.init(p)
    r.scan([c.like(p) for _ in range(8)])

@job('64')
def nonfinite(c):
  """A NaN contaminates exactly the entries it was in."""
  for k in ('adam', 'belief', 'radam'):
    p = c.params('float64')
    drive(c, c.run(k, fields(c, k)), p, 5, g=lambda i: c.poison(c.like(p), ['nan']) if i == 2 else c.like(p))

suite(lambda c, i: fields(c, KINDS[i % 4]), n=(5, 4, 4, 4, 4), counted=lambda c, i: dict(fields(c, KINDS[i % 4]), b1=N(c.rng.choice([.5, .99])), b2=N(c.rng.choice([.999, .9995, .9999]))))
