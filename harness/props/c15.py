"""C15 trace and ema."""
from core import *
from generic import *

@job(shards=3)
def exhaustive(c):
  for g in c.mine(group(c.plans['MC_mom'], lambda p: json.dumps(p['cfg']))):
    r = c.run(g[0]['cfg']['k'], g[0]['cfg'])
    r.init(jnp.asarray(7.))
    trie_replay(r, [p['h'] for p in g], lambda r, x, a, b: r.upd(jnp.asarray(float(x)), None, a, b))

def cfg_of(c, k=None):
  k = k or c.rng.choice(['trace', 'ema'])
  d = N(c.rng.choice([0., .1, .5, .9, .99, .999, 1.] if k == 'trace' else [0., .1, .5, .9, .99, .999]))
  cfg = {'k': k, 'decay': d, 'acc': ''}
  cfg['nesterov' if k == 'trace' else 'debias'] = c.rng.random() < .5
  return cfg

@job(shards=3)
def histories(c):
  """Long random histories over random trees, dtypes and magnitudes."""
  for i in c.each(60):
    dt = c.rng.choice(c.dtypes())
    cfg = cfg_of(c)
    if dt in ('float16', 'bfloat16') and cfg['decay']['v'] in ('0.999', '0.99', '1.0'): cfg['decay'] = N(.5)
    p = c.params(dt)
    r = c.run('%s' % cfg['k'], cfg, jit=i % 5 != 4)
    drive(c, r, p, 12 if r.jit else 6, with_params=c.rng.random() < .3, modes=gmodes(dt))

@job('64')
def long_history(c):
  for k in ('trace', 'ema'):
    for _ in range(2):
      p = c.params('float64', struct='leaf', shapes=[(3,)])
      drive(c, c.run(k, cfg_of(c, k)), p, 120 if not c.thorough else 600)

@job('64')
def tiny(c):
  """Relative accuracy for updates of any magnitude."""
  for k in ('trace', 'ema'):
    for mode in ('tiny', 'huge', 'spread'):
      p = c.params('float64', mode=mode)
      drive(c, c.run('%s %s' % (k, mode), cfg_of(c, k), floor=ir.EXACT0), p, 6, modes=[mode])

@job(shards=2)
def accumulator_dtype(c):
  """The accumulator is kept in the requested dtype between steps."""
  names = ['float32', 'bfloat16', 'float16'] if X64 else ['bfloat16', 'float16']
  gd = c.f()
  for k in ('trace', 'ema'):
    for acc in c.mine(names):
      for flag in (True, False):
        for struct in ('dict', 'nested', 'leaf'):
          for dt in ([gd, acc] if struct == 'dict' else [gd]):
            cfg = dict(cfg_of(c, k), acc=acc, decay=N(c.rng.choice([.5, .9])))
            cfg['nesterov' if k == 'trace' else 'debias'] = flag
            rt = {'float32': '1e-5', 'bfloat16': '3e-2', 'float16': '4e-3'}[acc]
            r = c.run('%s %s in %s' % (k, acc, dt), cfg, rtol={d: rt for d in ir.FLOOR}, floor=dict(ir.FLOOR, **{d: rt for d in ('float64', 'float32', 'bfloat16', 'float16')}))
            p = c.params(dt, struct=struct)
            r.init(p)
            for t in range(5):
              s = r.store.get(1)
              if s is not None:
                ls = leaves(s.trace if k == 'trace' else s.ema)
                r.call('same', a=[str(x.dtype) for x in ls], b=[acc] * len(ls), what='accumulator dtype after %d updates' % t)
                r.call('same', a=[list(x.shape) for x in ls], b=[list(x.shape) for x in leaves(p)], what='accumulator shapes')
              r.upd(c.like(p, modes=['normal', 'int']))
            # what is kept is the accumulator rounded once: exact for dyadic values
            cfg2 = dict(cfg, decay=N(.5))
            r = c.run('%s %s dyadic' % (k, acc), cfg2)
            r.init(p)
            for t in range(4): r.upd(c.like(p, 'int'))

@job('64')
def accumulator_names(c):
  """dtype given as a name, a numpy or a jnp dtype; default none."""
  p = {'a': c.value((3,), 'float64')}
  for mk, st in ((lambda a: optax.trace(.5, accumulator_dtype=a), lambda s: s.trace), (lambda a: optax.ema(.5, accumulator_dtype=a), lambda s: s.ema)):
    for a, want in ((None, 'float64'), ('float32', 'float32'), (jnp.float32, 'float32'), (np.dtype('float16'), 'float16'), (jnp.bfloat16, 'bfloat16')):
      tx = mk(a)
      s = tx.init(p)
      r = c.run('%s' % a)
      for t in range(3):
        r.call('same', a=str(st(s)['a'].dtype), b=want, what='accumulator dtype')
        u, s = tx.update(p, s)

@job()
def defaults(c):
  p = c.params(c.f(), struct='dict')
  drive(c, c.run('trace', {'k': 'trace', 'decay': N(.7), 'nesterov': False, 'acc': '', '_omit': ['nesterov', 'accumulator_dtype']}), p, 5)
  drive(c, c.run('ema', {'k': 'ema', 'decay': N(.7), 'debias': True, 'acc': '', '_omit': ['debias', 'accumulator_dtype']}), p, 5)

@job()
def nonfinite(c):
  """A non-finite update contaminates exactly its own entries."""
  for k in ('trace', 'ema'):
    for bad in ('nan', 'inf'):
      p = c.params(c.f())
      drive(c, c.run('%s %s' % (k, bad), dict(cfg_of(c, k), decay=N(.5)), rtol={'anynf': '1'}), p, 5, g=lambda i: c.poison(c.like(p), [bad]) if i == 2 else c.like(p))

suite(lambda c, i: cfg_of(c), n=(5, 2, 2, 2, 4), counted=lambda c, i: dict(cfg_of(c, 'ema'), debias=True, decay=N(c.rng.choice([.5, .999, .9999]))))
