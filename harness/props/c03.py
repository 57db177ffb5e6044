"""C03 structure, shapes and dtypes are kept; compiled equals uncompiled."""
import copy
from core import *
from props.c02 import everything, is_dp, label, inputs, first
JOBS.clear()

LOW = {'float16', 'bfloat16'}
# rounding amplified by the rule itself (cancelling variance, tiny denominators)
def rough(cfg):
  if isinstance(cfg, dict): return cfg.get('k') in ('stddev', 'radam', 'a_radam', 'yogi', 'belief', 'a_adabelief', 'a_fromage') or any(map(rough, cfg.values()))
  return isinstance(cfg, list) and any(map(rough, cfg))

def desc(t):
  """Tree structure, shapes and dtypes."""
  l, td = jax.tree_util.tree_flatten(t)
  return [str(td)] + [[list(np.shape(x)), str(jnp.asarray(x).dtype)] for x in l]

def build_safe(cfg): return ir.build(copy.deepcopy(cfg))

RT32 = {'float32': '5e-3', 'float16': '6e-2', 'bfloat16': '2e-1'}
def session(c, cfg, p, lab, modes=('normal', 'int'), n=3, loop=True, eager=True, values=True):
  """Eager, jitted and scanned runs of one history."""
  mixed = len({str(x.dtype) for x in leaves(p)}) > 1
  low = any(str(x.dtype) in LOW for x in leaves(p))
  r = c.run(lab, {'k': 'identity'}, rtol={**({'float64': '1e-6'} if X64 else RT32), **({'float32': '2e-1', 'float16': '1', 'bfloat16': '1'} if rough(cfg) else {})},
            floor={'float64': '1e-9', 'float32': '1e-4', 'float16': '3e-2', 'bfloat16': '2e-1', 'int32': '0', 'int64': '0', 'uint32': '0', 'bool': '0', 'uint32': '0'})
  same = lambda a, b, what, err='': r.call('same', a=a, b=b, what=what, err=err)
  try:
    gs, ps = inputs(c, cfg, p, n)
    p0 = first(cfg, p)
    tx = build_safe(cfg)
    st0 = tx.init(p0); d0 = desc(st0)
    up = jax.jit(tx.update)
    want = desc(tm(lambda x: x[0], gs[0]) if is_dp(cfg) else p0 if cfg['k'] == 'lookahead' else gs[0])
    js, ju = st0, []
    for g, q in zip(gs, ps):
      u, js = up(g, js, q); ju.append((u, js))
      same(desc(u), want, 'updates (jit)'); same(desc(js), d0, 'state (jit)')
    if eager:
      es = st0
      for i, (g, q) in enumerate(zip(gs, ps)):
        u, es = tx.update(g, es, q)
        same(desc(u), want, 'updates (eager)'); same(desc(es), d0, 'state (eager)')
        if values:
          r.call('close', a=enc(u), b=enc(ju[i][0]), what='jit against eager: updates')
          r.call('close', a=enc(es), b=enc(ju[i][1]), what='jit against eager: state')
    if loop:
      st = lambda ts: tm(lambda *x: jnp.stack(x), *ts)
      ls, lu = jax.lax.scan(lambda s, gp: tx.update(gp[0], s, gp[1])[::-1], st0, (st(gs), st(ps)))
      same(desc(ls), d0, 'state (scan)')
      if values:
        for i in range(n): r.call('close', a=enc(tm(lambda x: x[i], lu)), b=enc(ju[i][0]), what='scan against jit')
        r.call('close', a=enc(ls), b=enc(js), what='scan against jit: state')
      # init inside of the compiled program
      same(desc(jax.jit(tx.init)(p0)), d0, 'init (jit)')
      shp = jax.eval_shape(tx.update, gs[0], st0, ps[0])
      same([str(jax.tree_util.tree_structure(shp))] + [[list(x.shape), str(x.dtype)] for x in leaves(shp)],
           [str(jax.tree_util.tree_structure((gs[0] if not is_dp(cfg) and cfg['k'] != 'lookahead' else p0 if cfg['k'] == 'lookahead' else p, st0)))] + want[1:] + d0[1:], 'abstract update')
  except Exception as e:
    same(0, 0, 'session', ir.errtext(e))

SHAPES = [(2, 2), (3,), (), (1, 4)]
@job(shards=6)
def kinds(c):
  """Every transformation, wrapper and alias in every dtype."""
  for i, cfg in enumerate(c.mine(everything(c))):
    for dt in (['float64', 'float32'] if X64 else ['float32', 'bfloat16', 'float16']):
      if not X64 and dt != 'float32' and not c.thorough and (i + c.seed) % 2 and dt == 'float16': continue
      p = c.params(dt, shapes=SHAPES, struct=c.rng.choice(['dict', 'nested', 'list', 'nt', 'none', 'deep', 'leaf']))
      session(c, cfg, p, label(cfg) + ' ' + dt, eager=X64 or c.thorough or i % 3 == 0, values=dt in ('float64', 'float32'))

@job(shards=6)
def mixed(c):
  """Leaves of different dtypes in one tree (MC_types)."""
  pl = c.plans['MC_types']
  if not c.thorough: pl = [x for i, x in enumerate(pl) if (i * 3 + c.seed) % 4 == 0 or x['cfg']['k'] not in ('chain', 'flatten', 'aif', 'multi', 'masked', 'maybe', 'inject')]
  for i, x in enumerate(c.mine(pl)):
    cfg = x['cfg']
    if cfg['k'] == 'inject': continue      # see injected_mixed
    dts = ['float64', 'float32'] if X64 else ['bfloat16', 'float32', 'float16']
    c.rng.shuffle(dts)
    p = {k: c.value(s, d) for k, s, d in zip('abcd', [(2, 2), (), (3,), (1, 2)], dts * 2)}
    session(c, cfg, p, label(cfg) + ' mixed', eager=i % 4 == 0, values=False, loop=X64 or c.thorough or i % 2 == 0)

@job()
def injected_mixed(c):
  """Injected hyperparameters take the dtype of the first leaf."""
  for k, f in (('scale', 'c'), ('wd', 'c')):
    for sch in (False, True):
      cfg = {'k': 'inject', 'in': {'k': k, 'c': N(.5)}, 'scheds': {f: table([.5, .1])} if sch else {}, 'consts': {} if sch else {f: num(.1)}, 'names': [f]}
      for dt in c.dtypes():
        session(c, cfg, c.params(dt, shapes=SHAPES), 'inject %s %s' % (k, dt), eager=False, values=False)
      wide, narrow = ('float64', 'float32') if X64 else ('float32', 'bfloat16')
      session(c, cfg, {'a': c.value((2,), wide), 'b': c.value((3,), narrow)}, 'inject mixed %s' % k, eager=False, values=False, loop=False)

@job('64', shards=3)
def nests(c):
  """Random nests of wrappers: one history eager, jitted and scanned."""
  for i in c.each(18):
    cfg = rand_tx(c, ELEMENTWISE + ['wd', 'trust', 'cgn', 'sm3', 'a_adamw'], 1)
    for _ in range(c.rng.randint(1, 3)):
      k = c.rng.choice(['chain', 'flatten', 'aif', 'multi', 'masked', 'maybe'])
      cfg = dict({'k': k}, **({'m': [rand_tx(c, ELEMENTWISE, 0), cfg]} if k == 'chain' else {'in': cfg}),
                 **{'chain': {}, 'flatten': {}, 'aif': {'max': 1}, 'multi': {'every': N(c.rng.choice([1, 2])), 'mean': True},
                    'masked': {'mask': {'fn': 'all' if 'flatten' in json.dumps(cfg) else c.rng.choice(['all', 'rank_ne_1', 'rank_eq_0'])}}, 'maybe': {'pred': table([1, 0, 1])}}[k])
    session(c, cfg, c.params('float64', shapes=SHAPES), label(cfg), n=4, eager=i % 3 == 0)

@job('32', shards=2)
def other_trees(c):
  """Odd trees: numpy leaves, zero-size leaves, one leaf, deep containers."""
  for i, cfg in enumerate(c.mine([x for x in everything(c) if not is_dp(x) and x['k'] not in ('lookahead', 'agc', 'flatten', 'noise', 'a_noisy_sgd')])):
    e = jnp.zeros((0, 2), jnp.float32)
    for p, lab in (({'a': e, 'b': jnp.ones((2, 2), jnp.float32)}, 'zero size'), ({'m': {'n': {'o': (jnp.ones((1,), jnp.float32),)}}}, 'deep')):
      if lab == 'zero size' and (rough(cfg) or cfg['k'] in ('sm3', 'a_sm3')): continue
      session(c, cfg, p, label(cfg) + ' ' + lab, eager=False, values=False, loop=False, n=2)

@job('32')
def lookahead_dtypes(c):
  for dt in ('float32', 'bfloat16', 'float16'):
    for reset in (False, True):
      for per in (1, 2):
        cfg = {'k': 'lookahead', 'period': per, 'alpha': N(.5), 'reset': reset, 'in': dict(TX['a_adam'](c), k='a_adam', lr=N(.1))}
        session(c, cfg, c.params(dt, shapes=SHAPES), 'lookahead %s' % dt, values=False, eager=False)
  cfg = {'k': 'lookahead', 'period': 2, 'alpha': N(.5), 'reset': True, 'in': {'k': 'trace', 'decay': N(.9), 'nesterov': False, 'acc': ''}}
  session(c, cfg, {'a': c.value((2,), 'float32'), 'b': c.value((3,), 'bfloat16')}, 'lookahead mixed', values=False, eager=False)
