"""C29 Missing params and invalid settings are rejected, valid ones accepted."""
from core import *

def ask(c, r, p, modes=('normal', 'int'), n=1):
  """Updates without params (left out, None by position, None by name) and with."""
  r.init(p)
  for _ in range(n):
    for how in ('', 'pos', 'kw'): r.upd(c.like(p, modes=list(modes)), None, 1, 2, how=how)
    r.upd(c.like(p, modes=list(modes)), p, 1, 2, how=c.rng.choice(['', 'kw']))
    r.upd(c.like(p, modes=list(modes)), p, 1, 1)

@job('64', shards=6)
def exhaustive(c):
  """Every transformation of MC_params with and without params."""
  pl = c.plans['MC_params']
  if not c.thorough: pl = [x for i, x in enumerate(pl) if (i * 5 + c.seed) % 4 == 0 or x['cfg']['k'] not in ('chain', 'flatten', 'aif', 'multi', 'masked', 'maybe')]
  for i, x in enumerate(c.mine(pl)):
    cfg = x['cfg']
    p = {'a': c.value((2, 2), c.f()), 'b': c.value((), c.f())}
    if i % 2:
      r = c.run(cfg['k'], cfg, jit=False); r.init(p)
      r.upd(c.like(p), None, 1, 2, how=c.rng.choice(['', 'pos', 'kw']))
    else: ask(c, c.run(cfg['k'], cfg), p)

def wrap(c, a):
  k = c.rng.choice(['chain', 'chain', 'flatten', 'aif', 'multi', 'masked', 'maybe'])
  if k == 'chain':
    m = [rand_tx(c, BENIGN32, 0) for _ in range(c.rng.randint(0, 3))]
    m.insert(c.rng.randint(0, len(m)), a)
    return {'k': 'chain', 'm': m}
  extra = {'flatten': {}, 'aif': {'max': c.rng.randint(0, 3)}, 'multi': {'every': N(1), 'mean': c.rng.random() < .5},
           'masked': {'mask': {'fn': 'all'}}, 'maybe': {'pred': table([1])}}[k]
  return dict({'k': k, 'in': a}, **extra)

@job(shards=2)
def nested(c):
  """A transformation that needs params at any place of a random nest."""
  for i in c.each(30):
    a = rand_tx(c, PARAMS if i % 3 else None, 0)
    if not X64: a = rand_tx(c, ['wd', 'nonneg', 'agc'] if i % 3 else BENIGN32, 0)
    for _ in range(c.rng.randint(1, 4)): a = wrap(c, a)
    r = c.run('nest', a, jit=i % 3 != 1)
    ask(c, r, c.params(c.f(), shapes=[(2, 2), (3,), ()]))

@job()
def injected(c):
  for i, (k, f) in enumerate([('wd', 'c'), ('agc', 'c'), ('a_adamw', 'lr'), ('a_adamw', 'wd'), ('a_adam', 'lr'), ('scale', 'c')]):
    inner = dict({'k': k}, **TX[k](c))
    if k[:2] == 'a_': inner['lr'] = N(.1)
    for sch in (False, True):
      cfg = {'k': 'inject', 'in': inner, 'scheds': {f: table([.5, .1])} if sch else {}, 'consts': {} if sch else {f: num(.1)}, 'names': [f]}
      ask(c, c.run('inject ' + k, cfg), c.params(c.f(), shapes=[(2, 2), (3,)]))

@job()
def lookaheads(c):
  """lookahead needs params whatever its fast optimiser."""
  for a in ([{'k': 'identity'}, {'k': 'wd', 'c': N(.1)}] + [dict({'k': 'a_sgd'}, lr=N(.1), momentum=[], nesterov=False)]):
    for per in (1, 2, 3):
      cfg = {'k': 'lookahead', 'in': a, 'period': per, 'alpha': N(.5), 'reset': False}
      f = c.params(c.f(), shapes=[(2,), ()], struct='dict')
      for jit in (True, False):
        r = c.run('lookahead %d' % per, cfg, jit=jit)
        pr = optax.LookaheadParams(f, c.like(f))
        r.init(pr, fast=f)
        for how in ('', 'pos', 'kw'): r.upd(c.like(f), None, 1, 2, how=how)
        for _ in range(per + 1): r.upd(c.like(f), pr); r.upd(c.like(f), None, 1, 2)

# ---------------------------------------------------------------- settings --
def construct(r, h, what):
  err = ''
  try: ir.build_sched(h)
  except Exception as e: err = ir.errtext(e)
  r.call('build_sched', h=ir.clean(h), err=err, what=what)
def construct_tx(r, cfg, what):
  err = ''
  try: ir.build(cfg)
  except Exception as e: err = ir.errtext(e)
  r.call('build_tx', tx=ir.clean(cfg), err=err, what=what)

@job(shards=4)
def settings(c):
  """Every setting of MC_valid is accepted or rejected as specified."""
  for x in c.mine(c.plans['MC_valid']):
    construct(c.run(x['h']['s']), x['h'], json.dumps(x['h'])[:200])

@job()
def settings_random(c):
  for i in c.each(150, 2000):
    k = c.rng.choice(['pconst', 'pinterp', 'cosine', 'lin1c', 'cos1c', 'wcos', 'sgdr'])
    f = lambda: num(c.rng.choice([0., 1., .5, -.5, 1e-300, -1e-300, 1e30, c.rng.uniform(-1, 3)]))
    t = lambda: c.rng.choice([-2 ** 31, -7, -1, 0, 1, 2, 5, 100, 2 ** 30])
    bs = sorted([b, f()] for b in c.rng.sample(range(1, 50), c.rng.randint(0, 5)))
    h = {'pconst': {'init': '1', 'bs': bs}, 'pinterp': {'type': c.rng.choice(['linear', 'cosine', 'cos', 'LINEAR', 'cubic']), 'init': '1', 'bs': bs},
         'cosine': {'init': '1', 'steps': t(), 'alpha': '0'},
         'lin1c': {'steps': t(), 'b1': 0, 'b2': 0, 'p1': '0.3', 'p2': '0.85', 'peak': '1', 'div': '25', 'fdiv': '100'},
         'cos1c': {'steps': t(), 'b1': 0, 'p1': '0.3', 'peak': '1', 'div': '25', 'fdiv': '100'},
         'wcos': {'init': '0', 'peak': '1', 'warm': c.rng.choice([0, 1, 5]), 'steps': c.rng.choice([-1, 0, 1, 2, 4, 5, 6]), 'end': '0'},
         'sgdr': {'cycles': [{'init': '0', 'peak': '1', 'warm': c.rng.choice([0, 2]), 'steps': c.rng.choice([1, 2, 3, 9]), 'end': '0'} for _ in range(c.rng.randint(1, 4))]}}[k]
    h = dict({'s': k}, **h)
    construct(c.run(k), h, json.dumps(h)[:200])

@job()
def lengths_as_numbers(c):
  """Lengths and factors given as numpy scalars or floats."""
  r = c.run('kinds of numbers')
  def t(f, ok, what):
    err = ''
    try: f()
    except Exception as e: err = ir.errtext(e)
    r.call('accepted' if ok else 'rejected', err=err, what=what)
  for w in (int, float, np.int32, np.int64, np.float32):
    for n in (-3, -1, 0, 1, 8):
      t(lambda: optax.cosine_decay_schedule(1., w(n)), n > 0, 'cosine_decay %s %d' % (w.__name__, n))
      if w in (int, np.int32, np.int64):
        t(lambda: optax.linear_onecycle_schedule(w(n), 1.), n > 0, 'linear_onecycle %s %d' % (w.__name__, n))
        t(lambda: optax.cosine_onecycle_schedule(w(n), 1.), n > 0, 'cosine_onecycle %s %d' % (w.__name__, n))
        t(lambda: optax.lookahead(optax.sgd(.1), w(n), .5), n >= 1, 'lookahead %s %d' % (w.__name__, n))
    for x in (-1., -0.5, 0., 2.):
      if w in (float, np.float32):
        t(lambda: optax.piecewise_constant_schedule(1., {3: 1., 5: w(x)}), x >= 0, 'piecewise_constant %s %g' % (w.__name__, x))
        for k in ('linear', 'cosine'):
          t(lambda: optax.piecewise_interpolate_schedule(k, 1., {3: w(x), 5: 1.}), x >= 0, 'piecewise_interpolate %s %g' % (w.__name__, x))
  t(lambda: optax.piecewise_constant_schedule(1.), True, 'no boundaries')
  t(lambda: optax.piecewise_constant_schedule(1., None), True, 'no boundaries')
  t(lambda: optax.piecewise_constant_schedule(1., {}), True, 'empty boundaries')
  t(lambda: optax.piecewise_interpolate_schedule('linear', 1.), True, 'no boundaries')
  t(lambda: optax.piecewise_interpolate_schedule('cosine', 1., {}), True, 'empty boundaries')
  for k in ('cos', 'lin', 'Linear', 'COSINE', '', ' linear', 'exponential', None, 0, True):
    t(lambda: optax.piecewise_interpolate_schedule(k, 1., {3: .5}), False, 'interpolation type %r' % (k,))
    t(lambda: optax.piecewise_interpolate_schedule(k, 1.), False, 'interpolation type %r without boundaries' % (k,))

@job()
def transformations(c):
  """Lookahead periods, alone and nested."""
  r = c.run('periods')
  for per in (-5, -1, 0, 1, 2, 7):
    for reset in (False, True):
      a = {'k': 'lookahead', 'in': {'k': 'identity'}, 'period': per, 'alpha': N(.5), 'reset': reset}
      construct_tx(r, a, 'lookahead %d' % per)
      construct_tx(r, {'k': 'chain', 'm': [{'k': 'identity'}, a]}, 'chain lookahead %d' % per)
  for sc, ok in (({'s': 'pconst', 'init': '1', 'bs': [[2, '-1']]}, 0), ({'s': 'pconst', 'init': '1', 'bs': [[2, '0']]}, 1), ({'s': 'cosine', 'init': '1', 'steps': 0, 'alpha': '0'}, 0)):
    construct_tx(r, {'k': 'sched', 'fn': sc, 'neg': False}, 'scale_by_schedule')

@job()
def static_arguments(c):
  """Static arguments the factory does not have, and ones it has."""
  r = c.run('static_args')
  def mine(a, b=2, *, c=3): return optax.scale(a)
  for fac, names in ((optax.adam, ['learning_rate', 'b1', 'b2', 'eps', 'eps_root']), (optax.scale, ['step_size']),
                     (optax.trace, ['decay', 'nesterov', 'accumulator_dtype']), (optax.sgd, ['learning_rate', 'momentum', 'nesterov']),
                     (mine, ['a', 'b', 'c']), (optax.clip_by_global_norm, ['max_norm'])):
    def t(st, ok):
      err = ''
      try: optax.inject_hyperparams(fac, static_args=st)
      except Exception as e: err = ir.errtext(e)
      r.call('accepted' if ok else 'rejected', err=err, what='%s %s' % (fac.__name__, st))
    t((), True); t([], True); t(names, True); t(tuple(names), True); t(set(names), True)
    for n in names:
      t(n, True); t([n], True); t({n}, True); t(iter([n]), True)
      for bad in ('nope', n + '_', n.upper(), n[:-1] if n[:-1] not in names else n + 'x', ''):
        if bad in names: continue
        t(bad, False); t([bad], False); t([n, bad], False); t((bad, n), False); t(frozenset(names) | {bad}, False)
  # arguments that the factory cannot be called with
  for fac, kw in ((optax.adam, {'nope': 1.}), (optax.scale, {'step_size': .1, 'b': 2}), (optax.adam, {})):
    err = ''
    try: optax.inject_hyperparams(fac)(**kw)
    except Exception as e: err = ir.errtext(e)
    r.call('rejected', err=err, what='%s(%s)' % (fac.__name__, sorted(kw)))

@job()
def batches(c):
  """Private aggregation needs a batch axis of one length on every leaf."""
  tx = optax.differentially_private_aggregate(1., 0., 0)
  z = lambda *s: jnp.ones(s, c.f())
  r = c.run('batch axis')
  for g, ok in (({'a': z(3, 2), 'b': z(3)}, 1), ({'a': z(1, 2), 'b': z(1)}, 1), ({'a': z(3, 2), 'b': z(2)}, 0), ({'a': z(3, 2), 'b': z()}, 0),
                ({'a': z(2, 3), 'b': z(3, 2)}, 0), ([z(4), z(4, 1), z(4, 2, 2)], 1), ([z(4), z(1, 4), z(4, 2, 2)], 0), (z(5, 2), 1), (z(), 0),
                ([z(4), z(4), z(3)], 0), ([z(3), z(4), z(4)], 0), ([z(), z(3)], 0)):
    p = tm(lambda x: x[0] if x.ndim else x, g)
    for f in (tx.update, jax.jit(tx.update), optax.chain(tx, optax.scale(-1.)).update):
      err = ''
      try:
        f(g, tx.init(p) if f is tx.update or not hasattr(f, '__closure__') else (tx.init(p), optax.scale(-1.).init(p)))
      except Exception as e: err = ir.errtext(e)
      r.call('accepted' if ok else 'rejected', err=err, what='shapes %s' % [x.shape for x in leaves(g)])

@job()
def other_arguments(c):
  """Unsupported distributions of the measure-valued estimator, integer losses."""
  r = c.run('others')
  prm = [jnp.zeros(2), jnp.zeros(2)]
  key = jax.random.PRNGKey(0)
  def t(f, ok, what):
    err = ''
    try: f()
    except Exception as e: err = ir.errtext(e)
    r.call('accepted' if ok else 'rejected', err=err, what=what)
  f = lambda x: jnp.sum(x * x)
  other = lambda *a: optax.multi_normal(*a)
  t(lambda: optax.measure_valued_jacobians(f, prm, optax.multi_normal, key, 3), True, 'multi_normal')
  t(lambda: optax.measure_valued_jacobians(f, prm, other, key, 3), False, 'another builder')
  i = jnp.asarray([1, 2])
  for fn, a in ((optax.l2_loss, 1), (optax.huber_loss, 1), (optax.smooth_labels, 0)):
    t(lambda: fn(i * 1., *([i * 1.] if a else [.1])), True, fn.__name__)
    t(lambda: fn(i, *([i] if a else [.1])), False, fn.__name__ + ' of integers')
