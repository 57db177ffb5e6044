"""C11 inject_hyperparams."""
from core import *
from generic import *

def cfg_of(inner, scheds, consts=None, **kw):
  """consts: by default every numeric field that is not scheduled."""
  argmap = ir.FACTORIES[inner['k']][1]
  if consts is None:
    consts = {f: inner[f]['v'] for f in argmap.values()
              if f and f not in scheds and isinstance(inner[f], dict) and inner[f].get('s') == 'num'}
  return dict({'k': 'inject', 'in': inner, 'scheds': scheds, 'consts': consts,
               'names': sorted(list(scheds) + list(consts))}, **kw)

@job('64', shards=4)
def exhaustive(c):
  inner = {'k': 'adam', 'b1': N(.9), 'b2': N(.5), 'eps': N(.125), 'root': N(0.)}
  tb = table([.9, .5, .25, .75])
  hs = [p['h'] for p in c.plans['MC_inject']]
  firsts = sorted(set(str(h[0]) for h in hs))
  for f in c.mine(firsts):
    r = c.run('first=%s' % f, cfg_of(inner, {'b1': tb}))
    r.init(jnp.asarray(1.))
    cnt = {1: 0}
    def feed(r, x, a, b):
      if x[0] == 'u':
        cnt[b] = cnt[a] + 1
        r.upd(jnp.asarray(2. * cnt[b] - 3), None, a, b)
      else:
        cnt[b] = cnt[a]
        r.sethp(x[0], float(x[1]), a, b)
    trie_replay(r, [h for h in hs if str(h[0]) == f], feed)

INNERS = ['scale', 'adam', 'trace', 'ema', 'clip', 'cgn', 'wd', 'rms', 'agc', 'a_adam', 'a_adamw', 'a_sgd']
RANGE = {'c': [.5, .1, 1.], 'b1': [.9, .5, .1], 'b2': [.9, .99, .5], 'eps': [1e-3, .1], 'root': [0., 1e-3], 'decay': [.9, .5, .2],
         'lr': [.1, 1., .003], 'wd': [.1, .01], 'init': [0., .5]}
def const_inner(c, k):
  inner = dict({'k': k}, **TX[k](c))
  if 'lr' in inner: inner['lr'] = N(c.rng.choice([.1, 1.]))
  if k == 'a_sgd': inner['momentum'] = []
  return inner

@job(shards=3)
def histories(c):
  for i in c.each(36):
    dt = c.f()
    k = INNERS[i % len(INNERS)]
    inner = const_inner(c, k)
    fields = [f for f in ir.FACTORIES[k][1].values() if f and isinstance(inner[f], dict)]
    # 'init' matters at init only
    sched = {f: (table([c.rng.choice(RANGE[f]) for _ in range(5)]) if c.rng.random() < .6 or not (f in ('lr', 'wd') or (f == 'c' and k == 'scale')) else rand_sched(c))
             for f in fields if c.rng.random() < .5}
    cfg = cfg_of(inner, sched)
    r = c.run('%s sched=%s' % (k, sorted(sched)), cfg, jit=i % 6 != 5)
    p = c.params(dt)
    r.init(p)
    for t in range(7 if r.jit else 4):
      if c.rng.random() < .4:
        f = c.rng.choice(fields)
        if f != 'init': r.sethp(f, c.rng.choice(RANGE[f]), arr=r.jit or c.rng.random() < .5)
      r.upd(c.like(p, modes=gmodes(dt)), c.like(p) if needs_params(inner) else None)

@job('64')
def scheduled_only_at_n(c):
  """The n-th update uses the schedule at n (not n-1)."""
  for k in ('scale', 'a_sgd', 'clip'):
    f = 'lr' if k == 'a_sgd' else 'c'
    inner = const_inner(c, k)
    for sch in (table([1., 2., 4., 8., 16., 32.]), {'s': 'pconst', 'init': num(1.), 'bs': [[1, num(.5)], [3, num(.25)]]},
                {'s': 'poly', 'init': num(1.), 'end': num(.1), 'power': num(1.), 'steps': 4, 'begin': 1}):
      p = c.params('float64', mode='int')
      drive(c, c.run('%s %s' % (k, sch['s']), cfg_of(inner, {f: sch})), p, 6, g=lambda i: c.like(p, 'int'))

@job('64')
def static_and_flags(c):
  """Booleans, None and static arguments reach the factory unchanged."""
  p = c.params('float64', struct='dict')
  for nes in (True, False):
    inner = {'k': 'a_sgd', 'lr': N(.1), 'momentum': [], 'nesterov': nes}
    drive(c, c.run('sgd nesterov=%s' % nes, cfg_of(inner, {'lr': table([.1, .2, .4])})), p, 4)
    inner = {'k': 'trace', 'decay': N(.9), 'nesterov': nes, 'acc': ''}
    drive(c, c.run('trace nesterov=%s' % nes, cfg_of(inner, {'decay': table([.9, .5, .1])})), p, 4)
    inner = {'k': 'ema', 'decay': N(.9), 'debias': nes, 'acc': ''}
    drive(c, c.run('ema debias=%s' % nes, cfg_of(inner, {})), p, 4)
  # a callable marked static is handed to the factory, not evaluated; the
  # factory's own schedule then sees the factory's own counter
  r = c.run('static schedule', {'k': 'sched', 'fn': table([1., .5, .25, 2.]), 'neg': False}, obs=False)
  f = ir.build_sched(r.cfg['fn'])
  for spec in ('step_size_fn', ('step_size_fn',), ['step_size_fn'], {'step_size_fn'}):
    r = c.run('static schedule', {'k': 'sched', 'fn': table([1., .5, .25, 2.]), 'neg': False}, obs=False)
    r.tx = optax.inject_hyperparams(optax.scale_by_schedule, static_args=spec)(step_size_fn=f)
    r._upd = jax.jit(r.tx.update)
    drive(c, r, p, 4)
  # static numeric argument: not in the state, used as given
  r = c.run('static number', {'k': 'scale', 'c': N(3.)}, obs=False)
  r.tx = optax.inject_hyperparams(optax.scale, static_args='step_size')(3.); r._upd = r.tx.update
  drive(c, r, p, 2)
  r.call('same', a=sorted(r.store[1].hyperparams), b=[], what='static arguments in hyperparams')

@job('64')
def positional(c):
  """Positional arguments and defaults bind like the factory's own."""
  p = c.params('float64', struct='dict')
  inner = {'k': 'adam', 'b1': N(.9), 'b2': N(.999), 'eps': N(1e-8), 'root': N(0.)}
  r = c.run('positional', cfg_of(dict(inner, b1=N(.8)), {'b2': table([.5, .9, .99])}))
  r.tx = optax.inject_hyperparams(optax.scale_by_adam)(.8, ir.build_sched(table([.5, .9, .99]))); r._upd = jax.jit(r.tx.update)
  drive(c, r, p, 4)
  r = c.run('defaults', cfg_of(inner, {}))
  r.tx = optax.inject_hyperparams(optax.scale_by_adam)(); r._upd = jax.jit(r.tx.update)
  drive(c, r, p, 3)

@job('64')
def long_override(c):
  """Overrides between updates persist until the next one, across restores."""
  p = c.params('float64', struct='leaf', shapes=[(2,)])
  r = c.run('override', cfg_of({'k': 'a_adamw', **dict(TX['a_adamw'](c), lr=N(.1))}, {'b1': table([.9, .5, .7])}))
  r.init(p)
  for t in range(20):
    if t % 3 == 1: r.sethp('lr', .1 / (t + 1))
    if t % 7 == 2: r.sethp('b1', .33)
    if t == 10: r.restore(1, 2); r.restore(2, 1)
    r.upd(c.like(p), c.like(p))

@job()
def compiled_loop(c):
  p = c.params(c.f(), struct='nested')
  inner = dict(TX['a_adam'](c), k='a_adam', lr=N(.1))
  r = c.run('scan', cfg_of(inner, {'lr': table([.1, .2, .5, .3])})); r.init(p)
  r.scan([c.like(p) for _ in range(6)])

@job()
def saturated(c):
  """At the largest count the schedules are still evaluated there."""
  for k in ('scale', 'a_sgd', 'adam', 'trace'):
    inner = const_inner(c, k)
    f = {'a_sgd': 'lr', 'scale': 'c', 'adam': 'b1', 'trace': 'decay'}[k]
    cfg = cfg_of(inner, {f: {'s': 'cyc', 'vs': [num(v) for v in (.5, .25, .875, .125, .75)]}})
    p = c.params(c.f(), struct='dict', maxl=2); r = c.run(k, cfg); r.init(p)
    for n in (2 ** 24 - 1, 2 ** 31 - 4, 2 ** 31 - 2):
      r.setc(n)
      for t in range(5): r.upd(c.like(p, modes=['normal', 'int']))

@job(shards=2)
def narrow(c):
  """Leaves narrower than the numbers given: the hyperparameters take their dtype."""
  for i in c.each(24, 96):
    dt = ['float32', 'float32', 'float16'][i % 3] if X64 else ['bfloat16', 'float16'][i % 2]
    k = ['scale', 'wd', 'trace', 'clip', 'a_sgd', 'ema'][i % 6]
    inner = const_inner(c, k)
    fields = [f for f in ir.FACTORIES[k][1].values() if f and isinstance(inner[f], dict)]
    f = c.rng.choice(fields); vs = {'c': [.5, .25, 2.]}.get(f, RANGE[f])
    cfg = cfg_of(inner, {f: table([c.rng.choice(vs) for _ in range(4)])} if i // 6 % 2 else {})
    r = c.run('%s %s' % (k, dt), cfg, jit=i // 2 % 2 == 0, obs=False)
    drive(c, r, c.params(dt, struct='dict', maxl=2), 3, modes=['normal', 'int'])

def rand_inject(c, i, cyc=False):
  k = INNERS[(i * 5 + c.seed) % len(INNERS)]
  inner = const_inner(c, k)
  fields = [f for f in ir.FACTORIES[k][1].values() if f and isinstance(inner[f], dict) and f != 'init']
  f = c.rng.choice(fields)
  return cfg_of(inner, {f: {'s': 'cyc' if cyc else 'table', 'vs': [num(c.rng.choice(RANGE[f])) for _ in range(5)]}})
suite(rand_inject, n=(6, 2, 2, 2, 5), counted=lambda c, i: rand_inject(c, i, True))

ARRS = [lambda v: jnp.asarray(v), lambda v: np.float64(v), lambda v: np.asarray(v), lambda v: jnp.asarray(v, jnp.float32) if not X64 else jnp.asarray(v), lambda v: v]
@job(shards=2)
def array_constants(c):
  """Constants given as arrays and numpy scalars are hyperparameters too."""
  for i, k in enumerate(c.mine(INNERS * 2)):
    inner = const_inner(c, k)
    cfg = cfg_of(inner, {})
    mk = ARRS[(i + c.shard) % len(ARRS)]
    cfg['_pyconst'] = {f: mk(float(v)) for f, v in cfg['consts'].items()}
    r = c.run('%s' % k, cfg, jit=i % 3 != 2)
    p = c.params(c.f(), struct='dict')
    r.init(p)
    wp = needs_params(inner)
    for t in range(4):
      if t == 2:
        for f in cfg['consts']:
          if f != 'init': r.sethp(f, c.rng.choice(RANGE[f]))
      r.upd(c.like(p, modes=gmodes(c.f())), c.like(p) if wp else None)

@job('64')
def extreme_overrides(c):
  """Zero, negative, infinite and tiny values are used as stored."""
  for k, f, vals in (('scale', 'c', [0., -2., 1e30, 1e-30, float('inf'), float('nan')]), ('clip', 'c', [float('inf'), 1e-30, .5]),
                     ('cgn', 'c', [1e30, 1e-3]), ('trace', 'decay', [0., -.5, 1., 2.]), ('a_sgd', 'lr', [0., -1., 1e10]),
                     ('wd', 'c', [0., -1., 1e5]), ('a_adamw', 'lr', [0.]), ('a_adamw', 'wd', [0., 10.]), ('adam', 'eps', [0., 1e6]), ('ema', 'decay', [0.])):
    inner = const_inner(c, k)
    r = c.run('%s.%s' % (k, f), cfg_of(inner, {}))
    p = c.params('float64', struct='dict', maxl=2)
    r.init(p)
    wp = needs_params(inner)
    r.upd(c.like(p), p if wp else None)
    for v in vals:
      r.sethp(f, v)
      for _ in range(2): r.upd(c.like(p), c.like(p) if wp else None)
