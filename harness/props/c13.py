"""C13 composite schedules."""
from schedcalls import *
from props.c12 import rand_basic
import core
for k in ('exhaustive', 'far', 'random_settings', 'defaults'): core.JOBS.pop(k, None)

SCALAR = ('pinterp', 'lin1c', 'cos1c')
def has(h, f): return f(h) or any(has(x, f) for x in h.get('parts', []))
def scalar_only(h): return has(h, lambda x: x['s'] in SCALAR)
def steep(h): return has(h, lambda x: x['s'] in ('expo', 'wexp') and x['stair'] and x['steps'] & (x['steps'] - 1) != 0)
def all_at(h, eager=False):
  """An efficient calling form for whole windows."""
  if not scalar_only(h): return 'vec'
  return 'int' if eager or steep(h) else 'vmap'

@job(shards=4)
def exhaustive(c):
  r = None
  plans = c.mine(c.plans['MC_comp'])
  if not X64: plans = plans[c.seed % 3::3]
  for i, p in enumerate(plans):
    if i % 20 == 0: r = c.run('grid%d' % (i // 20))
    h, ns = p['h'], range(p['cmax'] + 1)
    call(r, h, ns, all_at(h))
    call(r, h, [n for n in ns if c.thorough or n % 4 == i % 4 or n < 3], ('int', 'np', 'jnp')[i % 3])
    if i % 6 == 0 and not steep(h): call(r, h, ns, 'jit')

@job('64', shards=2)
def far(c):
  r = None
  for i, p in enumerate(c.mine(c.plans['MC_comp'])):
    if i % 60 == 0: r = c.run('far%d' % (i // 60))
    h = p['h']
    if has(h, lambda x: x['s'] in ('expo', 'wexp') and not x['end'] and float(x['rate']) > 1): continue
    call(r, h, BIG, all_at(h))
    if i % 5 == 0: call(r, h, BIG, c.rng.choice(['int', 'np', 'jnp']))

def rand_comp(c, depth=1):
  r = c.rng
  v = lambda: num(round(r.choice([r.uniform(0.01, 2), 10 ** r.uniform(-4, 2)]), 8))
  s = r.choice(['join', 'join', 'wcos', 'wexp', 'sgdr', 'pinterp', 'lin1c', 'cos1c'])
  if s == 'join':
    m = r.randint(1, 4)
    ps = [rand_comp(c, 0) if depth and r.random() < .3 else rand_basic(c) for _ in range(m)]
    ps = [p if p['s'] not in ('expo',) or float(p['rate']) <= 1 else dict(p, rate=num(.9)) for p in ps]
    return {'s': s, 'parts': ps, 'bounds': sorted(r.sample(range(0, 30), m - 1))}
  if s == 'wcos':
    w = r.choice([0, 1, r.randint(0, 20)])
    return {'s': s, 'init': r.choice([num(0), v()]), 'peak': v(), 'warm': w, 'steps': w + r.randint(1, 30), 'end': r.choice([num(0), v()])}
  if s == 'wexp':
    return {'s': s, 'init': v(), 'peak': v(), 'warm': r.randint(0, 15), 'steps': r.choice([1, 2, 4, 7, 20]), 'rate': num(r.choice([.5, .9, .3])),
            'begin': r.choice([0, 0, 3]), 'stair': r.random() < .5, 'end': r.choice([[], [v()]])}
  if s == 'sgdr':
    cs = []
    for _ in range(r.randint(1, 4)):
      w = r.randint(0, 5)
      cs.append({'init': r.choice([num(0), v()]), 'peak': v(), 'warm': w, 'steps': w + r.randint(1, 12), 'end': r.choice([num(0), v()])})
    return {'s': s, 'cycles': cs}
  if s == 'pinterp':
    bs = sorted(r.sample(range(0 if r.random() < .3 else 1, 40), r.randint(0, 6)))
    return {'s': s, 'type': r.choice(['linear', 'cosine']), 'init': v(), 'bs': [[b, num(r.choice([0, .1, .5, 1, 2, 3.5]))] for b in bs]}
  t = r.randint(3, 200)
  b1, b2 = sorted(r.sample(range(0, t), 2))
  h = {'s': s, 'steps': t, 'b1': b1, 'p1': num((b1 + .5) / t), 'peak': v(), 'div': num(r.choice([25, 4, 2.5, 1])), 'fdiv': num(r.choice([1e4, 100, 2]))}
  if s == 'lin1c': h.update(b2=b2, p2=num((b2 + .5) / t))
  return h

def window(c, h):
  e = {0, 1}
  def edges(h, off):
    for x in h.get('bounds', []) + [h[k] for k in ('b1', 'b2', 'steps', 'warm', 'begin') if k in h] + [b[0] for b in h.get('bs', [])]:
      e.update({off + x + d for d in (-1, 0, 1)})
    if 'warm' in h: e.update({off + h['warm'] + h.get('steps', 0) + d for d in (-1, 0, 1)})
    t = off
    for y in h.get('cycles', []):
      edges(y, t); t += y['steps']
    for y, o in zip(h.get('parts', []), [0] + h.get('bounds', [])): edges(y, off + o)
  edges(h, 0)
  hi = max(e) + 5
  e.update(c.rng.randint(0, hi) for _ in range(6))
  return sorted(x for x in e if x >= 0)[:60]

@job(shards=4)
def random_settings(c):
  for i in c.each(240, 3000):
    h = rand_comp(c)
    r = c.run('%s %s' % (h['s'], json.dumps({k: v for k, v in h.items() if k != 's'})[:200]))
    ns = window(c, h)
    how = c.rng.choice(['int', 'jnp', 'np'] + ([] if scalar_only(h) else ['vec', 'vec']) + ([] if steep(h) else ['jit', 'vmap', 'vmap']))
    call(r, h, ns, how)

@job('64')
def shared_settings(c):
  """Two schedules made from the same lists and dicts, evaluated in turn."""
  def of(k, ok):
    while True:
      h = rand_comp(c, 0)
      if h['s'] == k and ok(h): return h
  shared(c, [lambda: of('join', lambda h: not scalar_only(h) and not steep(h)), lambda: of('sgdr', lambda h: True)])
  shared(c, [lambda: of('pinterp', lambda h: True)], ('int', 'jnp', 'jit', 'vmap', 'int', 'np'))

@job('64')
def onecycle(c):
  """Defaults of the one-cycle schedules; finite even when phases collapse."""
  r = c.run('onecycle defaults')
  for t in (20, 100, 40):
    for o in ([], ['pct_start'], ['pct_start', 'pct_final', 'div_factor', 'final_div_factor']):
      h = {'s': 'lin1c', 'steps': t, 'b1': int(.3 * t), 'b2': int(.85 * t), 'p1': '0.3', 'p2': '0.85', 'peak': num(.7), 'div': '25', 'fdiv': '10000', '_omit': o}
      call(r, h, window(c, h), 'vmap')
      h = {'s': 'cos1c', 'steps': t, 'b1': int(.3 * t), 'p1': '0.3', 'peak': num(.7), 'div': '25', 'fdiv': '10000', '_omit': o}
      call(r, h, window(c, h), 'vmap')
  r = c.run('collapsed phases')
  for t in (1, 2, 3, 5):
    for p1, p2 in (('0.3', '0.85'), ('0', '0'), ('0', '1'), ('1', '1'), ('0.5', '0.5')):
      for s in ('lin1c', 'cos1c'):
        h = {'s': s, 'steps': t, 'b1': 0, 'b2': 0, 'p1': p1, 'p2': p2, 'peak': '1', 'div': '25', 'fdiv': '10000'}
        for how in ('int', 'jit'): call(r, h, list(range(8)) + BIG, how, 'finite')

@job('64')
def joins(c):
  """A join calls every piece with the steps since its own boundary."""
  seen = {}
  def piece(k):
    def f(n): return jnp.asarray(n, jnp.float64) + 1000. * k
    return f
  for bounds in ([], [0], [5], [2, 3], [1, 4, 9], [0, 7]):
    f = optax.join_schedules([piece(k) for k in range(len(bounds) + 1)], bounds)
    r = c.run('probe %s' % bounds)
    # counts as a number: piece index * 1000 + steps since its boundary
    h = {'s': 'join', 'bounds': bounds, 'parts': [{'s': 'table', 'vs': [num(1000 * k + n) for n in range(20)]} for k in range(len(bounds) + 1)]}
    for how in ('int', 'jnp', 'jit', 'vec'):
      ns = list(range(15))
      r.call('sched', h=h, ns=[str(n) for n in ns], outs=evaluate(h, ns, how, f), what='join', rt='0', at='0')

@job('64')
def late_boundaries(c):
  """Joins and interpolations whose boundaries a float32 cannot tell apart."""
  for i in c.each(6):
    b = c.rng.choice([2**24 + 1, 2**25 + 3, 2**30 + 1, 2**31 - 40])
    lin = {'s': 'poly', 'init': '1', 'end': '.2', 'power': '1', 'steps': 5, 'begin': 1}
    pc = {'s': 'pconst', 'init': '3', 'bs': [[2, '.5'], [5, '.1']]}
    num_ = {'s': 'num', 'v': '7'}
    for h in ({'s': 'join', 'bounds': [b], 'parts': [num_, lin]},
              {'s': 'join', 'bounds': [b, b + 3, b + 9], 'parts': [num_, pc, lin, pc]}):
      r = c.run('join at %d' % b)
      ns = [0, 5, 2**24] + list(range(b - 3, b + 15))
      call(r, h, ns, c.rng.choice(['vec', 'jit', 'jnp', 'int']))

@job('64')
def many_pieces(c):
  """Joins, restarts and interpolations of many pieces."""
  v = lambda: num(round(c.rng.uniform(.1, 2), 4))
  for i in c.each(4, 24):
    m = c.rng.choice([7, 11, 18, 30])
    kinds = [lambda: {'s': 'num', 'v': v()}, lambda: {'s': 'poly', 'init': v(), 'end': v(), 'power': '1', 'steps': c.rng.randint(1, 6), 'begin': c.rng.randint(0, 2)},
             lambda: {'s': 'cosine', 'init': v(), 'steps': c.rng.randint(1, 6), 'alpha': num(.25)},
             lambda: {'s': 'pconst', 'init': v(), 'bs': [[2, num(.5)]]}]
    h = {'s': 'join', 'parts': [c.rng.choice(kinds)() for _ in range(m)], 'bounds': sorted(c.rng.sample(range(0, 4 * m), m - 1))}
    call(c.run('join of %d pieces' % m), h, range(4 * m + 8), c.rng.choice(['vec', 'vecjit', 'vmap']))
    cs = []
    for _ in range(m):
      w = c.rng.randint(0, 3)
      cs.append({'init': c.rng.choice([num(0), v()]), 'peak': v(), 'warm': w, 'steps': w + c.rng.randint(1, 4), 'end': c.rng.choice([num(0), v()])})
    h = {'s': 'sgdr', 'cycles': cs}
    call(c.run('sgdr of %d cycles' % m), h, range(sum(x['steps'] for x in cs) + 6), c.rng.choice(['vec', 'vmap']))
    bs = sorted(c.rng.sample(range(1, 5 * m), m))
    h = {'s': 'pinterp', 'type': ('linear', 'cosine')[i % 2], 'init': v(), 'bs': [[b, num(c.rng.choice([.5, 2., .9, 1.1, .7, 1.4]))] for b in bs]}
    call(c.run('pinterp of %d pieces' % m), h, range(5 * m + 4), 'vmap')
