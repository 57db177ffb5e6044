"""C14 step counters and schedules of updates."""
from core import *
from generic import *
MAX = 2 ** 31 - 1
WRAP = ('aif', 'multi', 'maybe')

def wrapped(cfg): return cfg['k'] in WRAP or ('in' in cfg and wrapped(cfg['in'])) or any(map(wrapped, cfg.get('m', [])))

@job(shards=2)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_count'], lambda p: (json.dumps(p['cfg']), p['start']))):
    cfg, start = g[0]['cfg'], g[0]['start']
    if X64 and wrapped(cfg) and start > 5: continue      # their counters are 64-bit there
    r = c.run('%s from %d' % (cfg['k'], start), cfg)
    r.init(jnp.asarray(7.)); r.setc(start)
    trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(jnp.asarray(float(x)), None, a, b))

def starts(c, i): return c.rng.choice([[MAX - 1, MAX], [0, 1, 3, 1000], [2 ** 24 - 2, 2 ** 30], [MAX - 3, MAX - 2]][i % 4])

@job(shards=3)
def histories(c):
  """Every counting transformation from random counts."""
  kinds = ['ema', 'adam', 'belief', 'radam', 'sched', 'yogi', 'a_adam', 'a_sgd', 'a_adamw', 'a_lamb', 'a_radam']
  if not X64: kinds = ['ema', 'adam', 'sched', 'a_sgd', 'a_adam']
  for i in c.each(60 if X64 else 30, 600):
    k = kinds[i % len(kinds)]
    cfg = dict({'k': k}, **TX[k](c))
    if k == 'a_sgd': cfg['lr'] = rand_sched(c)
    w = c.rng.random()
    if w < .2: cfg = {'k': 'flatten', 'in': cfg}
    elif w < .4: cfg = {'k': 'chain', 'm': [cfg, {'k': 'sched', 'fn': rand_sched(c), 'neg': True}]}
    elif w < .5: cfg = {'k': 'masked', 'mask': {'fn': 'all'}, 'in': cfg}
    p = c.params(c.f())
    s = starts(c, i // len(kinds))
    r = c.run('%s from %d' % (k, s), cfg)
    r.init(p); r.setc(s)
    for t in range(5): r.upd(c.like(p, modes=gmodes(c.f())), c.like(p) if needs_params(cfg) else None)

@job('32')
def wrappers(c):
  """Counters of the wrappers, 32-bit when 64-bit integers are off."""
  for start in (0, 7, MAX - 2, MAX - 1, MAX):
    for inner in ({'k': 'sched', 'fn': rand_sched(c), 'neg': False}, probe_cfg(2)):
      for cfg in ({'k': 'aif', 'max': 2, 'in': inner}, {'k': 'maybe', 'pred': table([1, 0, 1]), 'in': inner},
                  {'k': 'multi', 'every': N(1), 'mean': True, 'in': inner}, {'k': 'multi', 'every': table([1, 2, 2]), 'mean': True, 'in': inner}):
        p = c.params('float32', mode='int', struct='dict')
        r = c.run('%s from %d' % (cfg['k'], start), cfg)
        r.init(p); r.setc(start)
        for t in range(5): r.upd(c.poison(c.like(p, 'int')) if cfg['k'] == 'aif' and c.rng.random() < .6 else c.like(p, 'int'))

def some_schedules(c):
  import props.c12, props.c13
  S = [props.c12.rand_basic(c) for _ in range(6)]
  S += [props.c13.rand_comp(c) for _ in range(4)]
  return [s for s in S if not (s['s'] == 'expo' and (s['stair'] or float(s['rate']) > 1)) and s['s'] != 'wexp'
          and not any(q['s'] in ('expo', 'wexp') for q in s.get('parts', []))]

@job('64', shards=3)
def schedules(c):
  """scale_by_schedule with every kind of schedule."""
  jobs = dict(JOBS)
  for rep in range(c.n(18)):
    for h in some_schedules(c):
      cfg = {'k': 'sched', 'fn': h, 'neg': c.rng.random() < .5}
      r = c.run('%s' % h['s'], cfg, rtol={'float64': '1e-4'}, floor=dict(ir.FLOOR, float64='1e-5'))
      p = c.params('float64', struct='leaf')
      r.init(p)
      for t in range(6): r.upd(c.like(p))
      r.setc(c.rng.choice([20, 50, 1000]))
      for t in range(2): r.upd(c.like(p))
      if h['s'] in ('pconst', 'num', 'poly', 'cosine'):
        r.setc(MAX - 1)
        for t in range(3): r.upd(c.like(p))
  JOBS.clear(); JOBS.update(jobs)

@job()
def seen_counts(c):
  """The schedule is called with 0, 1, 2, ... (recorded from inside)."""
  for wrap in (lambda t: t, optax.flatten, lambda t: optax.chain(t, optax.scale(1.)), lambda t: optax.masked(t, lambda p: tm(lambda _: True, p))):
    for jit in (True, False):
      tx = wrap(optax.scale_by_schedule(lambda n: jnp.asarray(n, jnp.float32)))
      p = c.params('float32', struct='dict')
      up = jax.jit(tx.update) if jit else tx.update
      s = tx.init(p)
      seen = []
      for t in range(6):
        u, s = up(tm(jnp.ones_like, p), s, p)
        seen.append(sorted({float(v) for x in leaves(u) for v in np.ravel(x)}))
      r = c.run('seen')
      r.call('same', a=seen, b=[[float(t)] for t in range(6)], what='counts given to the schedule')

@job('64')
def noise_counter(c):
  """add_noise counts whether or not it adds anything."""
  for s in (0, 5, MAX - 2, MAX):
    p = c.params('float64')
    r = c.run('noise from %d' % s, {'k': 'noise', 'eta': N(0.), 'gamma': N(.55), '_seed': 1})
    r.init(p); r.setc(s)
    for t in range(4): r.upd(c.like(p))
  # the annealed deviation stays finite and keeps shrinking up to the end
  for s in (0, MAX - 2):
    p = jnp.zeros((3,))
    tx = optax.add_noise(1., .55, 0)
    st = ir.set_counts(tx.init(p), s)
    for t in range(4):
      u, st = tx.update(p, st)
      r = c.run('annealed from %d' % s)
      r.call('finite', h=N(0), ns=['0'] * 3, outs=[num(x) for x in np.asarray(u)], what='noise')

@job(shards=2)
def loops(c):
  """Counters carried by a compiled loop."""
  for k in c.mine(['ema', 'adam', 'sched', 'a_sgd', 'a_adam']):
    p = c.params(c.f(), struct='nested')
    cfg = dict({'k': k}, **TX[k](c))
    r = c.run(k, cfg); r.init(p)
    r.scan([c.like(p) for _ in range(7)])
    r.upd(c.like(p))

def counting(c, i):
  k = ['ema', 'adam', 'belief', 'radam', 'sched', 'a_adam', 'a_sgd'][i % 7]
  cfg = dict({'k': k}, **TX[k](c))
  if k == 'sched': cfg['fn'] = {'s': 'cyc', 'vs': [num(v) for v in (.5, 2., 1., .25, 3.)]}
  if k == 'a_sgd': cfg['lr'] = {'s': 'cyc', 'vs': [num(v) for v in (.5, 2., 1., .25, 3.)]}
  return cfg
suite(counting, n=(4, 2, 2, 0, 7), counted=counting)
