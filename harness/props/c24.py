"""C24 Losses equal their mathematical definition."""
from core import *

ROWS = ('softmax', 'cosine', 'cosdist', 'smooth')
REAL = {'l2': lambda x, y, p: optax.l2_loss(x, y),
        'huber': lambda x, y, p: optax.huber_loss(x, y, p),
        'sigmoid': lambda x, y, p: optax.sigmoid_binary_cross_entropy(x, y),
        'softmax': lambda x, y, p: optax.softmax_cross_entropy(x, y),
        'cosine': lambda x, y, p: optax.cosine_similarity(x, y, p),
        'cosdist': lambda x, y, p: optax.cosine_distance(x, y, p),
        'smooth': lambda x, y, p: optax.smooth_labels(x, p)}
def grad_of(fn): return lambda x, y, p: jax.grad(lambda q: jnp.sum(REAL[fn](q, y, p)))(x)
for f in ('l2', 'huber', 'sigmoid', 'softmax', 'cosine'): REAL['d_' + f] = grad_of(f)
COMP = {f: jax.jit(g, static_argnums=2) for f, g in REAL.items()}

RT = {'float64': '1e-11', 'float32': '3e-5', 'bfloat16': '6e-2', 'float16': '1e-2'}
AT = {'float64': '1e-13', 'float32': '3e-6', 'bfloat16': '6e-2', 'float16': '1e-2'}
REL = {'float64': '1e-300', 'float32': '1e-36', 'bfloat16': '1e-2', 'float16': '1e-3'}

def loss(r, fn, x, y, par='', f=None, what='', xe=None, ye=None, **kw):
  x0 = xe if xe is not None else x
  y0 = ye if ye is not None else y
  if y0 is None: y0 = jnp.zeros_like(x0)
  sh = np.broadcast_shapes(np.shape(x0), np.shape(y0))
  if fn.startswith('d_') : sh = np.shape(x0)
  b = lambda a: enc_leaf(np.broadcast_to(np.asarray(a), sh), a)
  def enc_leaf(a, orig):
    e = ir.enc_leaf(a); e['dt'] = str(orig.dtype); return e
  dt = str(x0.dtype)
  relative = fn in ('l2', 'd_l2', 'huber', 'd_huber', 'sigmoid')
  ev = dict(lfn=fn, x=b(jnp.asarray(x0)), y=b(jnp.asarray(y0)), par='' if par == '' else num(par), what=what or fn,
            rt=RT[dt], at=(REL if relative else AT)[dt])
  ev.update(kw)
  o, err = None, ''
  try: o = (f or REAL[fn])(x, y, par)
  except Exception as e: err = ir.errtext(e)
  r.call('loss', out=[] if o is None else [enc(o)], err=err, **ev)
  return o

@job('64')
def exhaustive(c):
  """The lattice of MC_loss, all points of a loss in one batch, and gradients."""
  for g in group(c.plans['MC_loss'], lambda p: (p['fn'], p['par'])):
    fn, par = g[0]['fn'], g[0]['par']
    fl = lambda k: jnp.asarray([[float(v) for v in p[k]] for p in g])
    x, y = fl('x'), fl('y')
    if fn not in ROWS: x, y = x[:, 0], y[:, 0]
    par = '' if par == '' else float(par)
    r = c.run('%s %s' % (fn, par))
    loss(r, fn, x, y, par); loss(r, fn, x, y, par, COMP[fn])
    if fn != 'smooth': loss(r, 'd_' + fn, x, y, par, COMP['d_' + fn])
    if fn == 'cosine': loss(r, 'cosdist', x, y, par)

LEAD = [(), (1,), (3,), (2, 3), (2, 1, 2), (1, 1, 1, 2)]
def logits(c, shape, dt, mode):
  if mode == 'vast': return jnp.asarray(c.np.randn(*shape) * 10. ** c.np.randint(0, 300 if dt == 'float64' else 36, size=shape), dtype=dt)
  if mode == 'hard': return jnp.asarray(c.np.choice([-1000., -100., -40., -17., 0., 17., 40., 100., 1000.], size=shape), dtype=dt)
  if mode == 'ties': return jnp.full(shape, c.np.choice([0., 5., -1e4, 1e30]), dtype=dt)
  return c.value(shape, dt, mode)
def probs(c, shape, dt, onehot=False):
  k = shape[-1]
  if onehot: return jnp.asarray(np.eye(k)[c.np.randint(0, k, size=shape[:-1])], dtype=dt)
  p = c.np.dirichlet(np.ones(k), size=shape[:-1]) if shape[:-1] else c.np.dirichlet(np.ones(k))
  return jnp.asarray(p.reshape(shape), dtype=dt)

LM = ['normal', 'big', 'vast', 'hard', 'ties', 'small', 'int']
@job(shards=3)
def shapes(c):
  """Every loss, leading shape and magnitude, eager, compiled and mapped."""
  for i in c.each(150):
    fn = ['l2', 'huber', 'sigmoid', 'softmax', 'cosine', 'cosdist', 'smooth'][i % 7]
    dt = c.rng.choice(c.dtypes())
    low = dt in ('bfloat16', 'float16')
    lead = c.rng.choice(LEAD)
    sh = lead + ((c.rng.choice([1, 2, 3, 5]),) if fn in ROWS else ())
    m = c.rng.choice(['normal', 'int'] if low else LM)
    par = ''
    if fn in ('l2', 'huber'):
      if m in ('vast', 'ties'): m = 'spread'
      x = logits(c, sh, dt, m); y = c.rng.choice([None, c.value(sh, dt), c.value(sh, dt, 'int')])
      if fn == 'huber': par = c.rng.choice([1., .5, 2., 1e-2, 10.])
    elif fn == 'sigmoid':
      x = logits(c, sh, dt, m); y = jnp.asarray(c.np.choice([0., 1., .25, .9], size=sh), dtype=dt)
    elif fn == 'softmax':
      x = logits(c, sh, dt, m); y = probs(c, sh, dt, c.rng.random() < .5)
    elif fn == 'smooth':
      x = probs(c, sh, dt, c.rng.random() < .7); y = None; par = c.rng.choice([0., .1, .5, 1.])
    else:
      if m in ('vast', 'ties'): m = 'big'
      if m == 'hard': m = 'normal'
      par = c.rng.choice([0., 1e-6, .5, 3.])
      x, y = (logits(c, sh, dt, m) + (c.value(sh, dt, 'pos') * .25 if par == 0 else 0) for _ in 'xy')
      if par == 0: x = jnp.where(x == 0, jnp.ones_like(x), x); y = jnp.where(y == 0, jnp.ones_like(y), y)
    r = c.run('%s %s %s %s' % (fn, dt, sh, m))
    loss(r, fn, x, y, par); loss(r, fn, x, y, par, COMP[fn], 'compiled ' + fn)
    if fn in ('l2', 'huber', 'sigmoid', 'softmax', 'cosine') and not low and (fn != 'cosine' or (m in ('normal', 'int') and par in (0., .5) and sh[-1] > 1)):
      kw = dict(at='1e-4', rt='1e-3') if dt == 'float32' else dict(at='1e-9', rt='1e-8')
      if fn == 'l2': kw = {}
      if fn == 'huber': kw = dict(at='2e-6') if dt == 'float32' else dict(at='1e-14')
      if fn == 'huber': kw['at'] = repr(float(kw['at']) * max(1, par))  # (quad - delta) + delta
      loss(r, 'd_' + fn, x, y, par, COMP['d_' + fn], **kw)
    if sh and lead and fn != 'smooth' and y is not None:
      loss(r, fn, x, y, par, jax.vmap(lambda a, b, p: REAL[fn](a, b, p), (0, 0, None)), 'mapped ' + fn)

@job()
def knees(c):
  """Huber errors just below, at and above the threshold, for every scale of threshold."""
  for delta in (1e-6, 1e-3, .1, 1., 30., 1e4):
    q = [1 + s * e for s in (1, -1) for e in (0, 1e-6, 1e-4, 1e-2, .1, .5)] + [2., 5., 100., 1e-3]
    x = jnp.asarray([s * v * delta for v in q for s in (1, -1)], c.f()); r = c.run('huber %g' % delta)
    loss(r, 'huber', x, None, delta, f=lambda a, b, p: optax.huber_loss(a, delta=p))
    loss(r, 'huber', x, jnp.zeros_like(x), delta, COMP['huber'])
    if X64: loss(r, 'd_huber', x, jnp.zeros_like(x), delta, COMP['d_huber'], at=repr(1e-12 * max(1, delta)))

@job()
def many_categories(c):
  """Long rows."""
  for k in (17, 64, 300):
    r = c.run('%d categories' % k); dt = c.f()
    x = logits(c, (2, k), dt, 'normal') * 3
    loss(r, 'softmax', x, probs(c, (2, k), dt, False), '', COMP['softmax']); loss(r, 'softmax', x, probs(c, (2, k), dt, True))
    loss(r, 'smooth', probs(c, (2, k), dt, True), None, .1)
    loss(r, 'cosine', x, logits(c, (2, k), dt, 'normal'), 0., COMP['cosine']); loss(r, 'cosdist', x, x + .01 * c.value((2, k), dt), 0.)
    loss(r, 'sigmoid', x, jnp.asarray(c.np.rand(2, k), dt))
  if X64:
    # all the weight on late categories
    k = 1536; r = c.run('%d categories' % k); x = logits(c, (1, k), 'float64', 'normal') * 3
    loss(r, 'softmax', x, jnp.zeros((1, k)).at[0, -3:].set(jnp.array([.5, .3, .2])))
    loss(r, 'cosine', jnp.zeros((1, k)).at[0, -2:].set(2.), logits(c, (1, k), 'float64', 'normal'), 0.)

@job()
def absent_targets(c):
  """No targets: compared to zero; default settings."""
  for sh in LEAD + [(4, 5), (0,), (0, 3)]:
    x = c.value(sh, c.f(), 'normal') * 2; r = c.run('absent %s' % (sh,))
    loss(r, 'l2', x, None, f=lambda a, b, p: optax.l2_loss(a))
    loss(r, 'huber', x, None, 1., f=lambda a, b, p: optax.huber_loss(a))
    loss(r, 'huber', x, None, .25, f=lambda a, b, p: optax.huber_loss(a, delta=.25))
    loss(r, 'd_huber', x, None, .25, f=lambda a, b, p: jax.grad(lambda q: jnp.sum(optax.huber_loss(q, delta=.25)))(a))
    loss(r, 'd_l2', x, None, f=lambda a, b, p: jax.grad(lambda q: jnp.sum(optax.l2_loss(q)))(a))
    if len(sh) and sh[-1]:
      y = c.value(sh, c.f()) + 3
      loss(r, 'cosine', x, y, 0., f=lambda a, b, p: optax.cosine_similarity(a, b))
      loss(r, 'cosdist', x, y, 0., f=lambda a, b, p: optax.cosine_distance(a, b))

@job()
def broadcast(c):
  """Targets with more, or size-one, leading axes."""
  for sx, sy in [((3,), (2, 3)), ((1, 3), (4, 3)), ((3,), (2, 2, 3)), ((1, 1, 3), (2, 4, 3))]:
    x = c.value(sx, c.f()) * 3; y = probs(c, sy, c.f()); r = c.run('%s %s' % (sx, sy))
    loss(r, 'softmax', x, y); loss(r, 'sigmoid', x, y); loss(r, 'l2', x, y); loss(r, 'huber', x, y, 1.)
    loss(r, 'cosine', x, y, 0.); loss(r, 'cosdist', x, y, .5)

@job()
def extremes(c):
  """Confident right and wrong predictions at every magnitude."""
  for mag in ([1e-8, 1e-3, 1., 5., 17., 37., 100., 709., 1e3, 1e5, 1e10, 1e30] + ([1e100, 1e300] if X64 else [1e37])):
    r = c.run('mag %g' % mag)
    x = jnp.asarray([mag, -mag, mag, -mag, mag, -mag], c.f()); y = jnp.asarray([1., 1., 0., 0., .5, .5], c.f())
    loss(r, 'sigmoid', x, y); loss(r, 'd_sigmoid', x, y); loss(r, 'sigmoid', x, y, f=COMP['sigmoid'])
    for row in ([mag, -mag], [mag, mag], [mag, 0.], [0., mag, mag], [-mag, -mag, 0.], [mag], [-mag, mag / 2, 1.]):
      x = jnp.tile(jnp.asarray(row, c.f()), (len(row), 1)); y = jnp.eye(len(row), dtype=c.f())
      loss(r, 'softmax', x, y); loss(r, 'd_softmax', x, y); loss(r, 'softmax', x, y, f=COMP['softmax'])
      loss(r, 'softmax', x, jnp.full_like(x, 1. / len(row)))

@job()
def floors(c):
  """Norms below, at and above the floor; zero vectors with a floor."""
  for eps in (.5, 1e-3, 5.):
    for s in (0., .1, .5, 1., 2., 100.):
      x = jnp.asarray([[.6 * s * eps, .8 * s * eps], [0., 0.], [1., -2.]], c.f()); y = jnp.asarray([[3., -4.], [.1, .2], [0., 0.]], c.f())
      r = c.run('floor %g %g' % (eps, s))
      loss(r, 'cosine', x, y, eps); loss(r, 'cosdist', x, y, eps); loss(r, 'cosine', y, x, eps, COMP['cosine'])
      if s != 1.: loss(r, 'd_cosine', x[:2], y[:2], eps, COMP['d_cosine'])

@job()
def categories(c):
  """Label smoothing divides by the number of categories of the last axis."""
  for sh in [(2,), (5,), (3, 4), (4, 3), (2, 3, 5), (1, 1), (7, 2)]:
    for a in (0., .1, .3, 1.):
      loss(c.run('%s %g' % (sh, a)), 'smooth', probs(c, sh, c.f(), True), None, a)
  for k in (1, 2, 10, 100):
    x = c.value((2, k), c.f()); y = probs(c, (2, k), c.f(), True)
    r = c.run('%d classes' % k); loss(r, 'softmax', x, y); loss(r, 'd_softmax', x, y); loss(r, 'smooth', y, None, .1)
