"""C17 Named optimisers."""
from core import *
from generic import *
import core

IN = lambda x: {'b_w': jnp.asarray([float(x[0]), float(x[1])]), 'c_b': jnp.asarray(float(x[2]))}
P0 = [3., -4., 0.]

@job('64', shards=4)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_alias'], lambda p: json.dumps(p['cfg']))):
    cfg = dict(g[0]['cfg'])
    hs = [p['h'] for p in g]
    p = IN(P0)
    if cfg['k'] == 'a_noisy_sgd':
      cfg.update(_seed=3, draws=noise_draws(p, 3, len(hs[0])))
    r = c.run(cfg['k'], cfg, rtol={'float64': '2e-6'} if cfg['k'] == 'a_noisy_sgd' else None)
    r.init(p)
    trie_replay(r, hs, lambda r, x, a, b: r.upd(IN(x), p, a, b))

ALL = ['a_sgd', 'a_adam', 'a_adamw', 'a_adagrad', 'a_adabelief', 'a_radam', 'a_rmsprop', 'a_lamb', 'a_fromage',
       'a_sm3', 'a_noisy_sgd', 'a_dpsgd', 'a_yogi']
SCHED_OK = [k for k in ALL if k not in ('a_fromage', 'a_sm3')]
FULL = ['table', 'poly', 'expo', 'cosine', 'pconst', 'join', 'wcos', 'num', 'num']

def rate(c, k):
  r = c.rng
  s = r.choice(FULL) if k in SCHED_OK else 'num'
  v = lambda *a: num(r.choice(a))
  if s == 'num': return N(r.choice([1., .1, .003, 2.5, 0., .5]))
  if s == 'join': return {'s': 'join', 'parts': [rand_sched(c, ['poly']), N(.3), rand_sched(c, ['expo'])], 'bounds': [2, 4]}
  if s == 'wcos': return {'s': 'wcos', 'init': v(.2, .1), 'peak': v(1., .5), 'warm': 2, 'steps': 8, 'end': v(0., .1)}
  return rand_sched(c, [s])

def fields(c, k):
  r = c.rng
  a = dict(b1=N(r.choice([0., .5, .9])), b2=N(r.choice([.5, .9, .99])), eps=N(r.choice([1e-3, .1])), root=N(r.choice([0., 1e-3])))
  mo = dict(momentum=[N(r.choice([.9, .5, 0.]))] if r.random() < .6 else [], nesterov=r.random() < .5)
  f = {'k': k, 'lr': rate(c, k)}
  if k == 'a_sgd': f.update(mo)
  elif k in ('a_adam',): f.update(a)
  elif k in ('a_adamw', 'a_lamb'): f.update(a, wd=N(r.choice([0., .1, 1e-2])))
  elif k == 'a_adagrad': f.update(init=N(r.choice([0., .1, 1.])), eps=N(r.choice([1e-7, 1e-2])))
  elif k == 'a_adabelief': f.update(b1=a['b1'], b2=a['b2'], eps=N(.1) if not X64 else a['eps'])
  elif k == 'a_radam': f.update(a, b2=N(r.choice([.9, .95, .99])), thr=N(r.choice([5., 4.5, 8.])))
  elif k == 'a_rmsprop': f.update(mo, decay=N(r.choice([.9, .5])), eps=N(r.choice([1e-2, .1])), init=N(r.choice([0., 1.])), centered=r.random() < .5)
  elif k == 'a_fromage': f.update(min=N(r.choice([0., 1e-6, 2.])))
  elif k == 'a_sm3': f.update(momentum=N(r.choice([.9, .5, 0.])))
  elif k == 'a_noisy_sgd': f.update(eta=N(r.choice([.01, 1., .3, 0.])), gamma=N(r.choice([.55, 0., 1.])), _seed=r.choice([0, 1, 42, r.randrange(10 ** 6), 2 ** 31 - 1]))
  elif k == 'a_dpsgd': f.update(mo, clip=N(r.choice([1., .5, 3.])), mult=N(r.choice([0., .7, 1.3])), _seed=r.choice([0, 1, 42, r.randrange(10 ** 6), 2 ** 31 - 1]))
  elif k == 'a_yogi': f.update(b1=a['b1'], b2=a['b2'], eps=N(.1), rule='deviation')
  return f

def run_alias(c, f, p, steps, jit=True, label=''):
  k = f['k']
  rt = RADAM32 if k == 'a_radam' else {'float64': '2e-6'} if k in ('a_noisy_sgd', 'a_dpsgd') else None
  if k == 'a_noisy_sgd': f['draws'] = noise_draws(p, f['_seed'], steps)
  if k == 'a_dpsgd': f['draws'] = dp_draws(p, f['_seed'], steps)
  r = c.run('%s %s' % (k, label), f, jit=jit, rtol=rt)
  ms = ['normal', 'sparse', 'int'] if not X64 or k == 'a_rmsprop' else ['normal', 'sparse', 'small', 'int']
  if k == 'a_yogi': ms = ['zero']      # (any other gradient takes the root of a negative number sooner or later)
  B = c.rng.randint(1, 4)
  drive(c, r, p, steps, modes=ms, g=(lambda i: batched(c, p, B)) if k == 'a_dpsgd' else None)

@job(shards=4)
def histories(c):
  for i in c.each(104):
    k = ALL[i % len(ALL)]
    p = c.params(c.f(), mode=c.rng.choice(['normal', 'normal', 'sparse']))
    jit = k in ('a_radam', 'a_dpsgd') or i % 4 != 3
    run_alias(c, fields(c, k), p, 8 if jit else 4, jit)

@job(shards=2)
def defaults(c):
  """Every hyperparameter left to its documented default."""
  b = lambda eps, root=0.: dict(b1=N(.9), b2=N(.999), eps=N(eps), root=N(root))
  D = [
    ({'k': 'a_sgd', 'momentum': [], 'nesterov': False}, ['momentum', 'nesterov']),
    ({'k': 'a_sgd', 'momentum': [N(.8)], 'nesterov': False}, ['nesterov']),
    (dict(b(1e-8), k='a_adam'), ['b1', 'b2', 'eps', 'eps_root']),
    (dict(b(1e-8), k='a_adamw', wd=N(1e-4)), ['b1', 'b2', 'eps', 'eps_root', 'weight_decay']),
    ({'k': 'a_adagrad', 'init': N(.1), 'eps': N(1e-7)}, ['initial_accumulator_value', 'eps']),
    (dict(b(1e-8), k='a_adabelief'), ['b1', 'b2', 'eps']),
    (dict(b(1e-8), k='a_radam', thr=N(5.)), ['b1', 'b2', 'eps', 'eps_root', 'threshold']),
    ({'k': 'a_rmsprop', 'decay': N(.9), 'eps': N(1e-8), 'init': N(0.), 'centered': False, 'momentum': [], 'nesterov': False},
     ['decay', 'eps', 'initial_scale', 'centered', 'momentum', 'nesterov']),
    ({'k': 'a_rmsprop', 'decay': N(.9), 'eps': N(1e-8), 'init': N(0.), 'centered': True, 'momentum': [N(.5)], 'nesterov': False},
     ['decay', 'eps', 'initial_scale', 'nesterov']),
    (dict(b(1e-6), k='a_lamb', wd=N(0.)), ['b1', 'b2', 'eps', 'eps_root', 'weight_decay']),
    ({'k': 'a_fromage', 'min': N(1e-6)}, ['min_norm']),
    ({'k': 'a_noisy_sgd', 'eta': N(.01), 'gamma': N(.55), '_seed': 0}, ['eta', 'gamma', 'seed']),
    ({'k': 'a_sm3', 'momentum': N(.9)}, ['momentum']),
    ({'k': 'a_dpsgd', 'clip': N(1.), 'mult': N(.5), '_seed': 2, 'momentum': [], 'nesterov': False}, ['momentum', 'nesterov']),
    ({'k': 'a_yogi', 'b1': N(.9), 'b2': N(.999), 'eps': N(1e-3), 'rule': 'deviation'}, ['b1', 'b2', 'eps']),
  ]
  for f, om in c.mine(D):
    for l in (N(.1), table([.1, .2, .05, .4])):
      if l['s'] != 'num' and f['k'] in ('a_fromage', 'a_sm3'): continue
      p = c.params(c.f(), struct='dict')
      run_alias(c, dict(f, lr=l, _omit=om), p, 6 if f['k'] != 'a_yogi' else 3, label='defaults')

@job('64')
def one_default(c):
  """Each single hyperparameter omitted, the others set."""
  b = dict(b1=N(.5), b2=N(.75), eps=N(.1), root=N(.01))
  dv = {'b1': N(.9), 'b2': N(.999), 'root': N(0.)}
  arg = {'b1': 'b1', 'b2': 'b2', 'eps': 'eps', 'root': 'eps_root'}
  eps = {'a_adam': 1e-8, 'a_adamw': 1e-8, 'a_adabelief': 1e-8, 'a_radam': 1e-8, 'a_lamb': 1e-6}
  for k in eps:
    for x in ('b1', 'b2', 'eps', 'root'):
      if k == 'a_adabelief' and x == 'root': continue
      f = dict(b, k=k, lr=N(.1), _omit=[arg[x]])
      if k in ('a_adamw', 'a_lamb'): f['wd'] = N(.1)
      if k == 'a_radam': f['thr'] = N(5.)
      if k == 'a_adabelief': del f['root']
      f[x] = N(eps[k]) if x == 'eps' else dv[x]
      run_alias(c, f, c.params('float64', struct='leaf', shapes=[(2,)]), 3, label='without ' + x)

@job()
def scans(c):
  for k in ('a_sgd', 'a_adamw', 'a_lamb', 'a_rmsprop', 'a_sm3'):
    p = c.params(c.f(), struct='nested')
    f = fields(c, k)
    r = c.run(k + ' scan', f)
    r.init(p)
    r.scan([c.like(p) for _ in range(6)], [c.like(p) for _ in range(6)] if needs_params(f) else None)

@job('64')
def long_schedules(c):
  """Learning-rate schedules over hundreds of updates (counts set far ahead)."""
  for k in ('a_sgd', 'a_adam', 'a_lamb', 'a_noisy_sgd'):
    p = c.params('float64', struct='leaf', shapes=[(2,)])
    for s in (rand_sched(c, ['cosine']), {'s': 'wcos', 'init': '0.2', 'peak': '1', 'warm': 10, 'steps': 100, 'end': '0.1'},
              {'s': 'join', 'parts': [N(.5), N(.25), N(.125)], 'bounds': [20, 40]}):
      f = dict(fields(c, k), lr=s)
      if k == 'a_noisy_sgd': f.update(eta=N(0.), draws=[])
      r = c.run(k + ' counts', f, rtol={'float64': '1e-5'})
      r.init(p)
      for n in (19, 39, 55, 99, 10 ** 6):
        if k in ('a_adam', 'a_lamb'): r.upd(c.like(p), p)
        r.setc(n)
        for _ in range(3): r.upd(c.like(p), p)

PLAIN = ['a_sgd', 'a_adam', 'a_adamw', 'a_adagrad', 'a_rmsprop', 'a_lamb', 'a_fromage', 'a_sm3', 'a_adabelief', 'a_radam']
def plain(c, i):
  f = fields(c, PLAIN[(i * 3 + c.seed) % len(PLAIN)])
  return f
suite(plain, n=(10, 10, 10, 10, 0), odd=10, wide=10)
