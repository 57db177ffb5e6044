"""C20 Stateless rescalings."""
from core import *
from generic import *
KINDS = ['identity', 'scale', 'wd', 'trust', 'centralize']

@job('64', shards=4)
def exhaustive(c):
  for k in KINDS:
    replay_steps(c, [p for p in c.plans['MC_rescale'] if p['cfg']['k'] == k], params=k in ('wd', 'trust'))

def fields(c, k):
  r = c.rng
  if k == 'scale': return {'k': k, 'c': N(r.choice([-1., 0., .5, -3e-4, 7., 1e6]))}
  if k == 'wd': return {'k': k, 'c': N(r.choice([0., .1, 1e-4, -.5, 2.]))}
  if k == 'trust': return {'k': k, 'min': N(r.choice([0., 1e-6, .3, 3.]))}
  return {'k': k}

@job(shards=4)
def trees(c):
  for i in c.each(150):
    k = KINDS[i % 5] if i % 5 or i % 2 else 'centralize'
    dt = c.rng.choice(c.dtypes())
    f = fields(c, k)
    if dt in ('float16', 'bfloat16') and 'c' in f: f['c'] = N(c.rng.choice([-1., .5, 2., 0.]))
    if dt in ('float16', 'bfloat16') and k in ('trust',): f['min'] = N(c.rng.choice([0., .5]))
    p = c.params(dt, mode=c.rng.choice(['normal', 'normal', 'zero', 'sparse']))
    r = c.run('%s %s' % (k, dt), f, jit=i % 3 == 0)
    r.init(p)
    ms = ['normal', 'sparse', 'int', 'zero'] + (['small', 'big', 'spread'] if dt == 'float64' and k != 'centralize' else [])
    for t in range(4):
      r.upd(c.like(p, modes=ms), p if k in ('wd', 'trust') or t == 2 else None)
      p = c.like(p, modes=['normal', 'sparse', 'zero'])

@job('64')
def magnitudes(c):
  for k in ('scale', 'wd', 'trust', 'identity'):
    for mode in ('huge', 'tiny', 'spread', 'naninf'):
      if k == 'trust' and mode == 'naninf': continue
      p = c.params('float64')
      r = c.run('%s %s' % (k, mode), fields(c, k) if k != 'trust' else {'k': k, 'min': N(0.)}, floor=ir.EXACT0)
      r.init(p)
      for _ in range(2): r.upd(c.like(p, mode), c.like(p, c.rng.choice(['normal', 'tiny', 'huge'])))

@job()
def ranks(c):
  """Every rank, size-one axes, empty tensors; trust ratio per leaf."""
  for sh in [(), (1,), (5,), (1, 1), (4, 1), (1, 4), (2, 3), (2, 1, 3), (1, 3, 2), (2, 2, 2), (1, 1, 2, 3), (3, 1, 2, 1), (2, 2, 2, 2), (2, 1, 2, 1, 2)]:
    for k in ('centralize', 'trust'):
      p = c.value(sh, c.f())
      f = {'k': 'trust', 'min': N(0.), '_omit': ['min_norm']} if k == 'trust' else {'k': k}
      r = c.run('%s %s' % (k, sh), f, jit=False); r.init(p)
      for m in ('normal', 'sparse', 'zero'): r.upd(c.value(sh, c.f(), m), p if k == 'trust' else None)

@job()
def integer_params(c):
  """Weight decay of integer parameters with floating-point gradients."""
  for i in range(6):
    p = {'n': c.value((3,), 'int32', 'int'), 'w': c.value((2,), c.f()), 's': c.value((), 'int32', 'int')}
    g = lambda: tm(lambda x: c.value(x.shape, c.f()), p)
    r = c.run('integer params', {'k': 'wd', 'c': N([.5, .1, -.25][i % 3])}, jit=i % 2 == 0); r.init(p)
    for _ in range(2): r.upd(g(), p)

@job('64')
def synonyms(c):
  """Documented second names are the same transformations."""
  r = c.run('synonyms')
  pairs = [(optax.additive_weight_decay, optax.add_decayed_weights, (.1,)), (optax.adaptive_grad_clip, optax.adaptive_grad_clip, (.1,))]
  for f, g, a in pairs:
    p = c.params('float64', struct='dict'); u = c.like(p)
    outs = [h(*a).update(u, h(*a).init(p), p)[0] for h in (f, g)]
    r.call('close', a=enc(outs[0]), b=enc(outs[1]), what=f.__name__)

@job('64')
def zero_norms(c):
  """Mixed trees with some zero leaves on either side."""
  for _ in range(8):
    p = c.params('float64', struct='nested')
    r = c.run('zero norms', {'k': 'trust', 'min': N(c.rng.choice([0., 0., .5]))}, jit=False); r.init(p)
    for _ in range(3): r.upd(c.like(p, modes=['zero', 'normal']), c.like(p, modes=['zero', 'normal']))

suite(lambda c, i: fields(c, KINDS[i % 5]), n=(5, 0, 5, 5))
