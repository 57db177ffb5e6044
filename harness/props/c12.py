"""C12 basic schedules."""
from schedcalls import *

@job(shards=4)
def exhaustive(c):
  """Every plan of the bounded model, at every count, in every calling form."""
  r = None
  plans = c.mine(c.plans['MC_sched'])
  # float32 evaluates the same expressions: a sample
  if not X64: plans = plans[c.seed % 3::3]
  for i, p in enumerate(plans):
    if i % 20 == 0: r = c.run('grid%d' % (i // 20))
    h, ns = p['h'], range(p['cmax'] + 1)
    how = ['vec', 'int', 'jnp', 'np']
    call(r, h, ns, how[0])
    call(r, h, ns if c.thorough else [n for n in ns if n % 4 == i % 4 or n < 5], how[1 + i % 3])
    if i % 5 == 0: call(r, h, ns, 'jit' if not steep(h) else 'jnp')
    if i % 7 == 0: call(r, h, ns, 'vecjit' if not steep(h) else 'jnp')

def steep(h):
  """Compiled float32 division may fall on the wrong side of a staircase edge."""
  return h['s'] == 'expo' and h['stair'] and h['steps'] & (h['steps'] - 1) != 0

@job('64', shards=2)
def far(c):
  """Counts far beyond the window, up to the largest int32."""
  r = None
  for i, p in enumerate(c.mine(c.plans['MC_sched'])):
    if i % 60 == 0: r = c.run('far%d' % (i // 60))
    h = p['h']
    if h['s'] == 'expo' and not h['end'] and float(h['rate']) > 1: continue
    call(r, h, BIG, 'vec')
    if i % 4 == 0: call(r, h, BIG, c.rng.choice(['int', 'np', 'jnp']))

def rand_basic(c):
  r = c.rng
  v = lambda: num(round(r.choice([r.uniform(0, 2), r.uniform(-3, 3), 10 ** r.uniform(-5, 3)]), 8))
  s = r.choice(['poly', 'poly', 'expo', 'expo', 'cosine', 'pconst', 'num'])
  steps = r.choice([1, 2, 3, r.randint(1, 60), r.randint(50, 5000)])
  begin = r.choice([0, 0, 1, 2, r.randint(0, 40), -3])
  if s == 'poly':
    h = {'s': s, 'init': v(), 'end': v(), 'power': num(r.choice([1, 1., 2, 3, .5, 1.7])), 'steps': steps, 'begin': begin}
    if h['power'] in ('1', '1.0'): h['_linear'] = r.random() < .7
    if h.get('_linear') is False: h['begin'] = 0
    return h
  if s == 'expo':
    return {'s': s, 'init': num(abs(float(v())) + .01), 'steps': min(steps, 64), 'rate': num(r.choice([.5, .9, .99, 1., 1.01, 1.2, .05])), 'begin': begin,
            'stair': r.random() < .5, 'end': r.choice([[], [num(abs(float(v())))]])}
  if s == 'cosine': return {'s': s, 'init': v(), 'steps': steps, 'alpha': num(r.choice([0, .1, .5, 1.]))}
  if s == 'num': return {'s': s, 'v': v()}
  bs = sorted(r.sample(range(0, 40), r.randint(0, 6)))
  return {'s': s, 'init': v(), 'bs': [[b, num(r.choice([0, .1, .5, .9, 1, 2, 3.5]))] for b in bs]}

def window(c, h):
  """Counts around every edge of the settings, and random ones."""
  e = {0, 1, 2}
  b = max(0, h.get('begin', 0)); t = h.get('steps', 1)
  if h['s'] != 'num': e |= {b + d for d in (-1, 0, 1)} | {b + t + d for d in (-2, -1, 0, 1)} | {b + 2 * t + d for d in (-1, 0, 1)}
  for x, _ in h.get('bs', []): e |= {x - 1, x, x + 1}
  e |= {c.rng.randint(0, b + 2 * t + 3) for _ in range(6)}
  return sorted(x for x in e if x >= 0)

@job(shards=4)
def random_settings(c):
  for i in c.each(360, 4000):
    h = rand_basic(c)
    r = c.run('%s' % json.dumps({k: v for k, v in h.items() if k != 's'}))
    how = c.rng.choice(['int', 'jnp', 'np', 'vec', 'vec'] + ([] if steep(h) else ['jit', 'vecjit', 'vmap']))
    ns = window(c, h)
    if h['s'] == 'expo' and float(h['rate']) > 1 and not h['end']: ns = [n for n in ns if n < 300]
    call(r, h, ns, how)

@job('64')
def defaults(c):
  """Arguments left to their defaults."""
  r = c.run('defaults')
  ns = range(25)
  def go(f, h):
    err, outs = '', []
    try: outs = evaluate(h, ns, 'vec', f)
    except Exception as e: err = ir.errtext(e)
    r.call('sched', err=err, h=h, ns=[str(n) for n in ns], outs=outs, what=h['s'] + ' with defaults', **tol(h))
  go(optax.polynomial_schedule(1., .1, 2., 9), {'s': 'poly', 'init': '1', 'end': '.1', 'power': '2', 'steps': 9, 'begin': 0})
  go(optax.polynomial_schedule(transition_steps=4, power=1, end_value=0, init_value=3), {'s': 'poly', 'init': '3', 'end': '0', 'power': '1', 'steps': 4, 'begin': 0})
  go(optax.linear_schedule(1., .1, 9), {'s': 'poly', 'init': '1', 'end': '.1', 'power': '1', 'steps': 9, 'begin': 0})
  go(optax.exponential_decay(1., 4, .5), {'s': 'expo', 'init': '1', 'steps': 4, 'rate': '0.5', 'begin': 0, 'stair': False, 'end': []})
  go(optax.exponential_decay(1., 4, .5, 3, True, .2), {'s': 'expo', 'init': '1', 'steps': 4, 'rate': '0.5', 'begin': 3, 'stair': True, 'end': ['0.2']})
  go(optax.cosine_decay_schedule(2., 11), {'s': 'cosine', 'init': '2', 'steps': 11, 'alpha': '0'})
  go(optax.piecewise_constant_schedule(2.), {'s': 'pconst', 'init': '2', 'bs': []})
  go(optax.piecewise_constant_schedule(2., {7: .5, 3: .1}), {'s': 'pconst', 'init': '2', 'bs': [[3, '0.1'], [7, '0.5']]})
  go(optax.constant_schedule(7), {'s': 'num', 'v': '7'})

@job('64')
def shared_settings(c):
  """Settings stay the caller's: two schedules made from one object, evaluated in turn."""
  shared(c, [lambda: {'s': 'pconst', 'init': num(c.rng.choice([1., 2., -3.])), 'bs': [[b, num(c.rng.choice([.1, .5, 2., 3.]))] for b in sorted(c.rng.sample(range(1, 12), n))]} for n in (0, 1, 2, 5)])

@job('64')
def late_settings(c):
  """Boundaries and starts beyond what a float32 can tell apart."""
  for i in c.each(10):
    at = [2**24 + 1, 2**24 + 7, 2**25 + 3, 2**30 + 1, 2**31 - 40]
    b = c.rng.choice(at)
    f = lambda: num(c.rng.choice([.5, .1, 2, 0]))
    for h in ({'s': 'pconst', 'init': '2', 'bs': [[b, f()], [b + 1, f()], [b + 4, f()]]},
              {'s': 'pconst', 'init': '1.5', 'bs': [[x, f()] for x in [3] + at]},
              {'s': 'poly', 'init': '1', 'end': '.1', 'power': '1', 'steps': 7, 'begin': b},
              {'s': 'expo', 'init': '1', 'steps': 4, 'rate': '0.5', 'begin': b, 'stair': i % 2 == 0, 'end': []},
              {'s': 'expo', 'init': '1', 'steps': 4, 'rate': '0.9', 'begin': b, 'stair': False, 'end': ['0.6']}):
      r = c.run('%s at %d' % (h['s'], b), )
      es = {b} | {x for x, _ in h.get('bs', [])}
      ns = sorted({n for n in (e + d for e in es for d in range(-3, 12)) if 0 <= n < 2**31} | {0, 5, 2**24})
      call(r, h, ns, c.rng.choice(['vec', 'vecjit', 'vmap']))
      call(r, h, ns[-8:], c.rng.choice(['int', 'np', 'jnp']))

@job('64')
def many_boundaries(c):
  """Piecewise constant schedules of many pieces."""
  for i in c.each(6, 40):
    m = c.rng.choice([9, 13, 24, 48, 90])
    bs = sorted(c.rng.sample(range(0, 4 * m), m))
    h = {'s': 'pconst', 'init': num(c.rng.choice([1., -2., .37])), 'bs': [[b, num(c.rng.choice([.5, 2., .9, 1.1, .7, 1.4]))] for b in bs]}
    r = c.run('pconst of %d boundaries' % m)
    call(r, h, range(4 * m + 3), c.rng.choice(['vec', 'vecjit', 'vmap']))
    call(r, h, [bs[-1] - 1, bs[-1], bs[-1] + 1, bs[m // 2], 2**20], c.rng.choice(['int', 'np', 'jnp']))
