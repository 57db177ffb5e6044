"""C01 chain."""
from core import *
from generic import *

def decode(cfg): return cfg

@job('64', shards=4)
def exhaustive(c):
  for p in c.mine(c.plans['MC_chain']):
    r = c.run('flat', p['cfg'], jit=False)
    r.init((jnp.asarray(3.), jnp.asarray(-1.)))
    for i in (1, 2):
      r.upd((jnp.asarray(4. - 3 * i), jnp.asarray(7. * i)), (jnp.asarray(float(i)), jnp.asarray(2.)))

def rand_chain(c, dt, depth):
  n = c.rng.choice([1, 2, 2, 3, 3, 4, 6])
  return tame({'k': 'chain', 'm': [rand_chain(c, dt, depth - 1) if depth and c.rng.random() < .25 else inner_tx(c, dt, 0)
                                   for _ in range(n)]})

@job('64', shards=4)
def random_chains(c):
  for i in c.each(40):
    cfg = rand_chain(c, 'float64', 2)
    r = c.run('random', cfg, jit=i % 4 != 3)
    drive(c, r, c.params('float64'), 5 if r.jit else 3, modes=gmodes('float64'),
          with_params=True if c.rng.random() < .7 else None)

@job('32')
def random_chains32(c):
  for i in c.each(8):
    dt = c.rng.choice(['float32', 'float32', 'float16', 'bfloat16'])
    cfg = {'k': 'chain', 'm': [inner_tx(c, dt, 0) for _ in range(2)]}
    drive(c, c.run('random ' + dt, cfg), c.params(dt), 3, modes=gmodes(dt), with_params=True)

@job('64')
def probes(c):
  """Order, slots, params and init of many instrumented members."""
  for n in [*range(1, 9), 13, 21, 34]:
    for grow in (False, True):
      cfg = {'k': 'chain', 'm': [probe_cfg(c.rng.choice([2, -1, 1]), c.rng.random() < .6, c.rng.random() < .5,
                                           c.rng.choice(['', 'tuple', 'list', 'dict'] + 4 * grow * ['grow'])) for _ in range(n)]}
      r = c.run('n=%d' % n, cfg, jit=not grow)
      drive(c, r, c.params('float64', mode='int'), 4, modes=['int'])

@job('64')
def states(c):
  """Members keep whatever they return as their state, structure included."""
  def stepper(first, then):
    return optax.GradientTransformation(lambda p: first, lambda u, s, p=None: (tm(lambda x: x * 2 + (0 if s == first else 1), u), then(s)))
  S = [((), lambda s: s + (1,)), (None, lambda s: (s, 1)), (0, lambda s: s + 1), ([], lambda s: s + [None]), ({}, lambda s: dict(s, **{'k%d' % len(s): ()})),
       ((None,), lambda s: ()), ('a', lambda s: s + 'b'), (False, lambda s: not s), (optax.EmptyState(), lambda s: optax.TraceState(1.))]
  for rep in range(6):
    ms = [c.rng.choice(S) for _ in range(c.rng.randint(1, 5))] if rep else S
    txs = [stepper(*m) for m in ms]
    r = c.run('states'); tx = optax.chain(*txs); a = b = ''
    st, sts = tx.init(1.), [t.init(1.) for t in txs]
    r.call('same', a=[repr(x) for x in st], b=[repr(x) for x in sts], what='initial states', err='')
    for t in range(3):
      u = v = c.value((2,), 'float64'); err = ''
      try: u, st = tx.update(u, st)
      except Exception as e: err = ir.errtext(e)
      for j, m in enumerate(txs): v, sts[j] = m.update(v, sts[j])
      r.call('same', a=[repr(x) for x in st] + [repr(np.asarray(u).tolist())], b=[repr(x) for x in sts] + [repr(np.asarray(v).tolist())], what='states after update', err=err)

@job('64')
def slot_mismatch(c):
  for n in (1, 2, 3, 4):
    for kinds in (['probe'], ['scale', 'trace', 'identity', 'wd'], ['identity', 'clip', 'zero_nans']):
      cfg = {'k': 'chain', 'm': [rand_tx(c, kinds) for _ in range(n)]}
      r = c.run('n=%d' % n, cfg, jit=False, obs=False)
      p = c.params('float64', mode='int')
      r.init(p)
      r.upd(c.like(p, 'int'), p)
      full = list(range(1, n + 1))
      for keep in ([], full[:-1], full[1:], full + [n], full + full, [1] + full):
        if len(keep) == n: continue
        r.slots(keep, 1, 2)
        r.upd(c.like(p, 'int'), p, 2, 3)
      r.slots(full, 1, 2)
      r.upd(c.like(p, 'int'), p, 2, 3)

@job('64')
def compiled_loop(c):
  for i in c.each(3):
    cfg = rand_chain(c, 'float64', 1)
    p = c.params('float64')
    r = c.run('scan', cfg); r.init(p)
    gs = [c.like(p) for _ in range(6)]
    r.scan(gs, [c.like(p) for _ in gs])

suite(lambda c, i: rand_chain(c, c.f(), 1) if X64 else {'k': 'chain', 'm': [inner_tx(c, c.f(), 0) for _ in range(2)]}, n=(5, 0, 2, 2))

@job('64')
def shared_members(c):
  """One object in several places of a chain: every place has its own slot."""
  for k in ('trace', 'ema', 'adam', 'probe', 'sched', 'apply_every', 'zero_nans') + (() if not c.thorough else ('rms', 'sm3', 'a_adamw', 'a_rmsprop')):
    for i, x in enumerate(compositions(c, dict({'k': k}, **TX[k](c)))):
      if (i + len(k)) % 2 and not c.thorough: continue
      drive(c, c.run('shared %s' % k, x, jit=i % 2 == 0), c.params('float64'), 4, with_params=True)
