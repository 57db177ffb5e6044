"""C09 lookahead."""
from core import *
from generic import *

def cfg_of(inner, period, alpha, reset=False):
  return {'k': 'lookahead', 'in': inner, 'period': period, 'alpha': N(alpha), 'reset': reset}
LP = optax.LookaheadParams

@job('64', shards=4)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_look'], lambda p: (p['period'], p['alpha'], p['reset']))):
    q = g[0]
    r = c.run('%s' % [q['period'], q['alpha'], q['reset']], cfg_of(probe_cfg(2, True), q['period'], q['alpha'], q['reset']))
    par = {1: LP(fast=jnp.asarray(3.), slow=jnp.asarray(-1.))}
    r.init(par[1], fast=par[1].fast)
    def feed(r, x, a, b):
      u = r.upd(jnp.asarray(float(x)), par[a], a, b)
      par[b] = optax.apply_updates(par[a], u) if u is not None else par[a]
    trie_replay(r, [p['h'] for p in g], feed)

def loop(c, r, p, slow, steps, gen, raw=False):
  par = LP(fast=p, slow=slow)
  r.init(p if raw else par, fast=p)
  for i in range(steps):
    u = r.upd(gen(i), par)
    if u is None: break
    par = optax.apply_updates(par, u)

@job(shards=3)
def histories(c):
  for i in c.each(27):
    dt = c.rng.choice(c.dtypes() if i % 3 else [c.f()])
    inner = inner_tx(c, dt) if dt in ('float64', 'float32') else {'k': 'scale', 'c': N(-.5)}
    per, al, rs = c.rng.choice([1, 2, 3, 5]), c.rng.choice([0.5, 0.8, 1.0, 0.0, 0.2] + (2 * [1.5, 1.2] if X64 else [])), c.rng.random() < .5
    p = c.params(dt)
    r = c.run('%s period=%d alpha=%s reset=%s' % (inner['k'], per, al, rs), cfg_of(inner, per, al, rs), jit=i % 6 != 5)
    if dt == 'float64' and i % 2: slow = c.like(p)
    else: slow = p if c.rng.random() < .7 else c.like(p)
    loop(c, r, p, slow, 11 if r.jit else 5, lambda i: c.like(p, modes=['normal', 'sparse', 'int']), raw=c.rng.random() < .3)

@job('64')
def synced(c):
  """LookaheadParams.init_synced starts both at the same point."""
  for struct in STRUCTS:
    p = c.params('float64', struct=struct)
    s = LP.init_synced(p)
    r = c.run(struct, cfg_of({'k': 'a_sgd', 'lr': N(.1), 'momentum': [N(.9)], 'nesterov': False}, 3, .5, True))
    r.call('same', a=enc(s.fast), b=enc(p), what='init_synced.fast')
    r.call('same', a=enc(s.slow), b=enc(p), what='init_synced.slow')
    loop(c, r, p, s.slow, 7, lambda i: c.like(p))

@job('64')
def nonfinite(c):
  """A non-finite fast step does not reach the slow params before a sync."""
  for per in (2, 3):
    for rs in (True, False):
      for bad in ('nan', 'inf'):
        p = c.params('float64')
        r = c.run('%s %d' % (bad, per), cfg_of({'k': 'scale', 'c': N(-.1)}, per, .5, rs))
        loop(c, r, p, c.like(p), 2 * per if bad == 'nan' else per - 1, lambda i: c.poison(c.like(p), [bad]) if i == 0 else c.like(p))

@job('64')
def compiled_loop(c):
  for rs in (True, False):
    p = c.params('float64', struct='nested')
    r = c.run('scan', cfg_of({'k': 'a_adam', **TX['a_adam'](c)}, 3, .5, rs))
    par = LP(fast=p, slow=c.like(p))
    r.init(par, fast=p)
    gs = [c.like(p) for _ in range(8)]
    r.scan(gs, [LP(fast=c.like(p), slow=c.like(p)) for _ in gs])

@job('64')
def stateful_inners(c):
  """reset_state restarts every kind of state, including counters."""
  for inner in ('a_adam', 'ema', 'apply_every', 'sched', 'a_adamw', 'rms', 'trace'):
    for rs in (True, False):
      p = c.params('float64')
      r = c.run('%s %s' % (inner, rs), cfg_of(dict({'k': inner}, **TX[inner](c)), 3, .5, rs))
      loop(c, r, p, c.like(p), 8, lambda i: c.like(p))
  for inner in ({'k': 'multi', 'every': N(2), 'mean': True, 'in': {'k': 'scale', 'c': N(-1.)}},
                {'k': 'chain', 'm': [{'k': 'aif', 'max': 1, 'in': {'k': 'trace', **TX['trace'](c)}}, {'k': 'scale', 'c': N(-.1)}]}):
    p = c.params('float64')
    loop(c, c.run('wrapper', cfg_of(inner, 3, .5, True)), p, p, 8, lambda i: c.like(p))

suite(lambda c, i: cfg_of(inner_tx(c, c.f(), 0), c.rng.choice([1, 2, 3]), [.5, 1.5, .8, 1., 0., 1.25][(i + c.seed) % 6], i % 2 == 0), n=(6, 0, 3, 2))

@job('64')
def long_period(c):
  """Periods longer than 8 bits, in a compiled loop."""
  for per, rs in ((130, True), (257, False)):
    one = jnp.ones((2,))
    r = c.run('period=%d' % per, cfg_of({'k': 'trace', 'decay': N(.5), 'nesterov': False, 'acc': ''}, per, .5, rs))
    par = LP(fast=one, slow=c.like(one)); r.init(par, fast=one)
    gs = [c.like(one, 'int') for _ in range(per + 3)]
    r.scan(gs, [LP(fast=c.like(one), slow=c.like(one)) for _ in gs])
