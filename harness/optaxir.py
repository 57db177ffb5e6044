"""Binding between specification configurations (spec/Transforms.tla) and the
real library in /repo: builds real transformations from configuration records,
drives them through histories, and records every public call as a trace event.
"""
import copy, json, os, pickle, sys
import jax_removed_names  # noqa: F401  (compat shim of this sandbox)
import jax, jax.numpy as jnp, numpy as np
import optax

X64 = bool(jax.config.jax_enable_x64)


# ----------------------------------------------------------------- numbers --
def num(x):
  """Decimal literal (string) of a scalar, as Num.tla reads it."""
  if isinstance(x, (bool, np.bool_)): return '1' if x else '0'
  if isinstance(x, (int, np.integer)): return str(int(x))
  x = float(x)
  if x != x: return 'nan'
  if x == float('inf'): return 'inf'
  if x == float('-inf'): return '-inf'
  return repr(x)

def N(x):
  """A constant hyperparameter."""
  return {'s': 'num', 'v': num(x)}

def val(h):
  """Python value of a constant hyperparameter record."""
  v = h['v']
  f = float(v)
  return f

def ival(h):
  return int(float(h['v']))


# ------------------------------------------------------------------- trees --
def _key(k):
  for a in ('key', 'name', 'idx'):
    if hasattr(k, a): return str(getattr(k, a))
  return str(k)

def enc_leaf(x, path=()):
  a = np.asarray(x)
  dt = str(jnp.asarray(x).dtype) if not hasattr(x, 'dtype') else str(x.dtype)
  if a.dtype.kind not in 'fiub' or dt in ('bfloat16',):
    a = np.asarray(jnp.asarray(x).astype(jnp.float32))
  return {'sh': [int(s) for s in a.shape], 'dt': dt, 'path': list(path),
          'v': [num(v) for v in a.reshape(-1).tolist()]}

def enc(tree):
  flat, td = jax.tree_util.tree_flatten_with_path(tree)
  return {'td': str(td), 'l': [enc_leaf(x, [_key(k) for k in path]) for path, x in flat]}

def dec(t, dtype=None):
  """A model's tree as a real one: a dict keyed by the leaves' names."""
  f = lambda x: jnp.asarray(np.array([float(v) for v in x['v']]).reshape(x['sh']), dtype=dtype or x['dt'])
  return {x['path'][0]: f(x) for x in t['l']}

def opt1(tree):
  return [] if tree is None else [enc(tree)]


# --------------------------------------------------------------- schedules --
def build_sched(h):
  """A real optax schedule (or plain number) from a schedule record."""
  s = h['s']
  vv = h.get('_vars', {})
  f = lambda k: VARS[vv[k]] if k in vv else float(h[k])
  if s == 'num': return optax.constant_schedule(val(h))
  if s == 'poly' and '_linear' in h:
    return optax.linear_schedule(f('init'), f('end'), h['steps'], *([h['begin']] if h['_linear'] else []))
  if s == 'poly':
    return optax.polynomial_schedule(f('init'), f('end'), f('power'), h['steps'], h['begin'])
  if s == 'expo':
    return optax.exponential_decay(f('init'), h['steps'], f('rate'), h['begin'], h['stair'],
                                   float(h['end'][0]) if h['end'] else None)
  if s == 'cosine': return optax.cosine_decay_schedule(f('init'), h['steps'], f('alpha'))
  if s == 'pconst':
    return optax.piecewise_constant_schedule(f('init'), {int(b): float(x) for b, x in h['bs'][::-1]})
  if s == 'pinterp':
    return optax.piecewise_interpolate_schedule(h['type'], f('init'), {int(b): float(x) for b, x in h['bs'][::-1]})
  if s in ('lin1c', 'cos1c'):
    kw = dict(transition_steps=h['steps'], peak_value=f('peak'), pct_start=f('p1'),
              div_factor=f('div'), final_div_factor=f('fdiv'))
    if s == 'lin1c': kw['pct_final'] = f('p2')
    for o in h.get('_omit', ()): kw.pop(o, None)
    return (optax.linear_onecycle_schedule if s == 'lin1c' else optax.cosine_onecycle_schedule)(**kw)
  if s == 'join': return optax.join_schedules([build_sched(p) for p in h['parts']], list(h['bounds']))
  if s == 'wcos':
    return optax.warmup_cosine_decay_schedule(f('init'), f('peak'), h['warm'], h['steps'], f('end'))
  if s == 'wexp':
    return optax.warmup_exponential_decay_schedule(
        f('init'), f('peak'), h['warm'], h['steps'], f('rate'), h['begin'], h['stair'],
        float(h['end'][0]) if h['end'] else None)
  if s == 'sgdr':
    return optax.sgdr_schedule([dict(init_value=float(c['init']), peak_value=float(c['peak']),
                                     warmup_steps=c['warm'], decay_steps=c['steps'],
                                     end_value=float(c['end'])) for c in h['cycles']])
  if s == 'table':
    vs = jnp.asarray([VARS[vv[i]] if i in vv else float(v) for i, v in enumerate(h['vs'])])
    return lambda n: vs[jnp.clip(n, 0, len(h['vs']) - 1)]
  if s == 'cyc':
    vs = jnp.asarray([float(v) for v in h['vs']])
    return lambda n: vs[jnp.asarray(n) % len(h['vs'])]
  raise KeyError(s)

HPT = [None]       # how constants are given: a Python float, or another scalar
HPTYPES = {None: float, 'np': np.float64 if X64 else np.float32, 'np0d': lambda v: np.asarray(v, np.float64 if X64 else np.float32),
           'jnp': lambda v: jnp.asarray(v, jnp.float64 if X64 else jnp.float32), 'int': lambda v: int(v) if v == int(v) else v}

VARS = []          # traced values of the constants that carry '_var'

def hp(h):
  """Constant -> scalar; schedule -> callable."""
  if '_var' in h: return VARS[h['_var']]
  return HPTYPES[HPT[0]](val(h)) if h['s'] == 'num' else build_sched(h)


# ------------------------------------------------------------------- probe --
from typing import NamedTuple, Any
class ProbeState(NamedTuple):
  n: Any
  acc: Any
  p0: Any

# User-written transformations keep their state in any container.
PACK = {'': lambda n, acc, p0: ProbeState(n, acc, p0), 'tuple': lambda n, acc, p0: (n, acc, p0), 'list': lambda n, acc, p0: [n, [acc, p0]],
        'dict': lambda n, acc, p0: {'z': n, 'acc': acc, 'p0': p0},
        # containers that change while running (eager only): () first, then one entry more per update
        'grow': lambda n, acc, p0: ((acc, p0),) * int(n) if int(n) else ({'acc': acc, 'p0': p0},)}
def unpack(s):
  if isinstance(s, ProbeState): return s
  if isinstance(s, dict): return ProbeState(s['z'], s['acc'], s['p0'])
  if isinstance(s, list): return ProbeState(s[0], *s[1])
  if isinstance(s[0], dict): return ProbeState(jnp.asarray(0, jnp.int32), s[0]['acc'], s[0]['p0'])
  if isinstance(s[0], tuple) and len({id(x) for x in s}) == 1: return ProbeState(jnp.asarray(len(s), jnp.int32), *s[0])
  return ProbeState(*s)

def probe(a, needs=False, couple=False, st=''):
  """The instrumented transformation of Transforms.tla (UpdProbe)."""
  tm = jax.tree_util.tree_map
  def init(params):
    return PACK[st](jnp.zeros([], jnp.int32), tm(jnp.zeros_like, params), params)
  def update(u, s, params=None):
    s = unpack(s)
    if needs and params is None: raise ValueError('probe needs params')
    n1 = s.n + 1
    acc = tm(lambda g, t: g + t, u, s.acc)
    tot = sum([jnp.sum(x) for x in jax.tree_util.tree_leaves(u)], 0.) if couple else 0.
    def f(g, t, q):
      o = a * g + 3 * t + 5 * q + (7 * n1).astype(g.dtype)
      return o + jnp.asarray(tot).astype(g.dtype)
    out = tm(f, u, acc, s.p0)
    if needs: out = tm(lambda x, q: x + 11 * q, out, params)
    return out, PACK[st](n1, acc, s.p0)
  return optax.GradientTransformation(init, update)


# ---------------------------------------------------------- transformations --
def mask_of(m):
  """Real mask argument for a mask record; 'tree' gives a ready pytree."""
  fn = m['fn']
  tm = jax.tree_util.tree_map
  if fn == 'table': return m['_py']
  if fn == 'rank_ne_1': return lambda t: tm(lambda x: x.ndim != 1, t)
  if fn == 'rank_eq_0': return lambda t: tm(lambda x: x.ndim == 0, t)
  if fn == 'all': return lambda t: tm(lambda x: True, t)
  if fn == 'none': return lambda t: tm(lambda x: False, t)
  raise KeyError(fn)

def _dt(name): return None if name == '' else jnp.dtype(name)

SEEDS = {}

SHARED = {}        # objects of the transformation being built, by '_sid'

def build_tx(c):
  SHARED.clear()
  return build(c)

def build(c):
  """Real transformation for a configuration record.

  Fields whose name starts with '_' are harness-only (e.g. '_seed', '_omit':
  names of arguments left to their defaults; '_sid': parts of a configuration
  with the same '_sid' are one and the same Python object; '_pos': arguments
  given by position; '_hpt': type of the constants, see HPTYPES).
  """
  if '_sid' in c:
    if c['_sid'] not in SHARED: SHARED[c['_sid']] = build_one(c)
    return SHARED[c['_sid']]
  return build_one(c)

def build_one(c):
  outer, HPT[0] = HPT[0], c.get('_hpt', HPT[0])
  try: return build_kind(c)
  finally: HPT[0] = outer

def build_kind(c):
  k = c['k']
  v = lambda n: hp(c[n])
  def call(fn, **kw):
    for o in c.get('_omit', ()): kw.pop(o, None)
    if c.get('_pos') and '_omit' not in c: return fn(*kw.values())
    return fn(**kw)
  if k == 'identity': return optax.identity()
  if k == 'scale': return optax.scale(v('c'))
  if k == 'clip': return optax.clip(v('c'))
  if k == 'cgn': return optax.clip_by_global_norm(v('c'))
  if k == 'agc': return call(optax.adaptive_grad_clip, clipping=v('c'), eps=v('eps'))
  if k == 'wd': return optax.add_decayed_weights(v('c'))
  if k == 'trust': return call(optax.scale_by_trust_ratio, min_norm=v('min'))
  if k == 'centralize': return optax.centralize()
  if k == 'nonneg': return optax.keep_params_nonnegative()
  if k == 'zero_nans': return optax.zero_nans()
  if k == 'trace':
    return call(optax.trace, decay=v('decay'), nesterov=c['nesterov'], accumulator_dtype=_dt(c['acc']))
  if k == 'ema':
    return call(optax.ema, decay=v('decay'), debias=c['debias'], accumulator_dtype=_dt(c['acc']))
  if k == 'rss': return call(optax.scale_by_rss, initial_accumulator_value=v('init'), eps=v('eps'))
  if k == 'rms': return call(optax.scale_by_rms, decay=v('decay'), eps=v('eps'), initial_scale=v('init'))
  if k == 'stddev': return call(optax.scale_by_stddev, decay=v('decay'), eps=v('eps'), initial_scale=v('init'))
  if k == 'adam': return call(optax.scale_by_adam, b1=v('b1'), b2=v('b2'), eps=v('eps'), eps_root=v('root'))
  if k == 'belief': return call(optax.scale_by_belief, b1=v('b1'), b2=v('b2'), eps=v('eps'), eps_root=v('root'))
  if k == 'yogi':
    return call(optax.scale_by_yogi, b1=v('b1'), b2=v('b2'), eps=v('eps'), eps_root=v('root'),
                initial_accumulator_value=v('init'))
  if k == 'radam':
    return call(optax.scale_by_radam, b1=v('b1'), b2=v('b2'), eps=v('eps'), eps_root=v('root'), threshold=v('thr'))
  if k == 'sched':
    f = build_sched(c['fn'])
    return optax.scale_by_schedule((lambda n: -f(n)) if c['neg'] else f)
  if k == 'noise': return optax.add_noise(v('eta'), v('gamma'), c['_seed'])
  if k == 'dp':
    return optax.differentially_private_aggregate(v('clip'), v('mult'), c['_seed'])
  if k == 'apply_every': return call(optax.apply_every, k=c['every'])
  if k == 'sm3': return call(optax.scale_by_sm3, b1=v('b1'), b2=v('b2'), eps=v('eps'))
  if k == 'probe': return probe(c['a'], c['needs'], c['couple'], c.get('_st', ''))
  if k == 'chain': return optax.chain(*[build(m) for m in c['m']])
  if k == 'flatten': return optax.flatten(build(c['in']))
  if k == 'aif': return optax.apply_if_finite(build(c['in']), c['max'])
  if k == 'multi':
    e = c['every']
    ek = ival(e) if e['s'] == 'num' else build_int_table(e)
    ms = optax.MultiSteps(build(c['in']), ek, **({} if '_omit' in c else {'use_grad_mean': c['mean']}))
    tx = ms.gradient_transformation()
    c['_ms'] = ms
    return tx
  if k == 'masked': return optax.masked(build(c['in']), mask_of(c['mask']))
  if k == 'maybe':
    tb = jnp.asarray([float(x) != 0 for x in c['pred']['vs']])
    if c['pred']['s'] == 'cyc': return optax.maybe_update(build(c['in']), lambda n: tb[jnp.asarray(n) % len(tb)])
    return optax.maybe_update(build(c['in']), lambda n: tb[jnp.clip(n, 0, len(tb) - 1)])
  if k == 'lookahead':
    return call(optax.lookahead, fast_optimizer=build(c['in']), sync_period=c['period'],
                slow_step_size=v('alpha'), reset_state=c['reset'])
  if k == 'inject':
    fac, kw = factory(c)
    st = c.get('_static', ())
    return (optax.inject_hyperparams(fac, static_args=st) if st else optax.inject_hyperparams(fac))(**kw)
  if k in ALIASES: return ALIASES[k](c, call)
  raise KeyError(k)

def build_int_table(h):
  vs = jnp.asarray([int(float(x)) for x in h['vs']])
  if h['s'] == 'cyc': return lambda n: vs[jnp.asarray(n) % len(h['vs'])]
  return lambda n: vs[jnp.clip(n, 0, len(h['vs']) - 1)]

def _mom(c): return hp(c['momentum'][0]) if c['momentum'] else None
ALIASES = {
  'a_sgd': lambda c, f: f(optax.sgd, learning_rate=hp(c['lr']), momentum=_mom(c), nesterov=c['nesterov']),
  'a_adam': lambda c, f: f(optax.adam, learning_rate=hp(c['lr']), b1=hp(c['b1']), b2=hp(c['b2']), eps=hp(c['eps']), eps_root=hp(c['root'])),
  'a_adamw': lambda c, f: f(optax.adamw, learning_rate=hp(c['lr']), b1=hp(c['b1']), b2=hp(c['b2']), eps=hp(c['eps']), eps_root=hp(c['root']), weight_decay=hp(c['wd'])),
  'a_adagrad': lambda c, f: f(optax.adagrad, learning_rate=hp(c['lr']), initial_accumulator_value=hp(c['init']), eps=hp(c['eps'])),
  'a_adabelief': lambda c, f: f(optax.adabelief, learning_rate=hp(c['lr']), b1=hp(c['b1']), b2=hp(c['b2']), eps=hp(c['eps'])),
  'a_yogi': lambda c, f: f(optax.yogi, learning_rate=hp(c['lr']), b1=hp(c['b1']), b2=hp(c['b2']), eps=hp(c['eps'])),
  'a_radam': lambda c, f: f(optax.radam, learning_rate=hp(c['lr']), b1=hp(c['b1']), b2=hp(c['b2']), eps=hp(c['eps']), eps_root=hp(c['root']), threshold=hp(c['thr'])),
  'a_rmsprop': lambda c, f: f(optax.rmsprop, learning_rate=hp(c['lr']), decay=hp(c['decay']), eps=hp(c['eps']), initial_scale=hp(c['init']), centered=c['centered'], momentum=_mom(c), nesterov=c['nesterov']),
  'a_lamb': lambda c, f: f(optax.lamb, learning_rate=hp(c['lr']), b1=hp(c['b1']), b2=hp(c['b2']), eps=hp(c['eps']), eps_root=hp(c['root']), weight_decay=hp(c['wd'])),
  'a_fromage': lambda c, f: f(optax.fromage, learning_rate=hp(c['lr']), min_norm=hp(c['min'])),
  'a_noisy_sgd': lambda c, f: f(optax.noisy_sgd, learning_rate=hp(c['lr']), eta=hp(c['eta']), gamma=hp(c['gamma']), seed=c['_seed']),
  'a_sm3': lambda c, f: f(optax.sm3, learning_rate=hp(c['lr']), momentum=hp(c['momentum'])),
  'a_dpsgd': lambda c, f: f(optax.dpsgd, learning_rate=hp(c['lr']), l2_norm_clip=hp(c['clip']), noise_multiplier=hp(c['mult']), seed=c['_seed'], momentum=_mom(c), nesterov=c['nesterov']),
}

# inject_hyperparams: factory and real keyword arguments for an inner record.
# arg: library argument name -> field of the inner record
FACTORIES = {
  'scale': (lambda: optax.scale, {'step_size': 'c'}),
  'adam': (lambda: optax.scale_by_adam, {'b1': 'b1', 'b2': 'b2', 'eps': 'eps', 'eps_root': 'root'}),
  'trace': (lambda: optax.trace, {'decay': 'decay', 'nesterov': 'nesterov', 'accumulator_dtype': None}),
  'ema': (lambda: optax.ema, {'decay': 'decay', 'debias': 'debias', 'accumulator_dtype': None}),
  'clip': (lambda: optax.clip, {'max_delta': 'c'}),
  'cgn': (lambda: optax.clip_by_global_norm, {'max_norm': 'c'}),
  'wd': (lambda: optax.add_decayed_weights, {'weight_decay': 'c'}),
  'rms': (lambda: optax.scale_by_rms, {'decay': 'decay', 'eps': 'eps', 'initial_scale': 'init'}),
  'agc': (lambda: optax.adaptive_grad_clip, {'clipping': 'c', 'eps': 'eps'}),
  'a_adam': (lambda: optax.adam, {'learning_rate': 'lr', 'b1': 'b1', 'b2': 'b2', 'eps': 'eps', 'eps_root': 'root'}),
  'a_adamw': (lambda: optax.adamw, {'learning_rate': 'lr', 'b1': 'b1', 'b2': 'b2', 'eps': 'eps', 'eps_root': 'root', 'weight_decay': 'wd'}),
  'a_sgd': (lambda: optax.sgd, {'learning_rate': 'lr', 'momentum': 'momentum', 'nesterov': 'nesterov'}),
}

def factory(c):
  """c: inject record with scheds/consts keyed by *inner record field*."""
  inner = c['in']
  fac, argmap = FACTORIES[inner['k']]
  kw = {}
  for arg, field in argmap.items():
    if field is None or arg in c.get('_omit', ()): continue
    if field in c['scheds']: kw[arg] = build_sched(c['scheds'][field])
    elif field in c['consts']:
      x = c['consts'][field]
      kw[arg] = c.get('_pyconst', {}).get(field, float(x))
    elif isinstance(inner[field], (bool, str)): kw[arg] = inner[field]
    elif isinstance(inner[field], list): kw[arg] = None
    else: kw[arg] = val(inner[field])
  return fac(), kw

def field_arg(inner, field):
  for arg, f in FACTORIES[inner['k']][1].items():
    if f == field: return arg
  raise KeyError(field)


# ------------------------------------------------------------- observation --
def observe(c, s):
  """Mirror of ObsT: documented readable parts of a real state."""
  k = c['k']
  if k in ('ema', 'adam', 'belief', 'yogi', 'radam', 'sched', 'noise'):
    return [['count', num(s.count)]]
  if k == 'zero_nans':
    return [['found_nan', num(bool(x))] for x in jax.tree_util.tree_leaves(s.found_nan)]
  if k == 'probe':
    s = unpack(s)
    return [['probe_n', num(s.n)],
            ['probe_acc', num(float(np.sqrt(sum(float(np.sum(np.square(np.asarray(x, dtype=np.float64)))) for x in jax.tree_util.tree_leaves(s.acc)))))]]
  if k == 'chain':
    out = []
    for m, t in zip(c['m'], s): out += observe(m, t)
    return out
  if k == 'aif':
    return [['notfinite_count', num(s.notfinite_count)], ['last_finite', num(bool(s.last_finite))],
            ['total_notfinite', num(s.total_notfinite)]] + observe(c['in'], s.inner_state)
  if k == 'multi':
    return [['mini_step', num(s.mini_step)], ['gradient_step', num(s.gradient_step)],
            ['has_updated', num(bool(c['_ms'].has_updated(s)))]] + observe(c['in'], s.inner_opt_state)
  if k == 'maybe': return [['step', num(s.step)]] + observe(c['in'], s.inner_state)
  if k == 'lookahead': return [['steps_since_sync', num(s.steps_since_sync)]] + observe(c['in'], s.fast_state)
  if k == 'masked': return observe(c['in'], s.inner_state)
  if k == 'flatten': return observe(c['in'], s)
  if k == 'inject':
    return ([['count', num(s.count)]]
            + [['hp:' + f, num(s.hyperparams[field_arg(c['in'], f)])] for f in c['names']]
            + observe(c['in'], s.inner_state))
  return []

def clean(c):
  """Configuration as the specification sees it."""
  if isinstance(c, dict): return {k: clean(v) for k, v in c.items() if not k.startswith('_')}
  if isinstance(c, (list, tuple)): return [clean(v) for v in c]
  return c


# relative tolerances by dtype of the compared leaf ("obs": state scalars)
RTOL = {'float64': '1e-8', 'float32': '1e-3', 'float16': '2e-2', 'bfloat16': '8e-2',
        'int32': '0', 'int64': '0', 'uint32': '0', 'bool': '0', 'obs': '1e-6' if X64 else '1e-3'}
# absolute tolerance for values that are small by cancellation of O(1) terms
FLOOR = {'float64': '1e-13', 'float32': '2e-6', 'float16': '2e-2', 'bfloat16': '8e-2',
         'int32': '0', 'int64': '0', 'uint32': '0', 'bool': '0'}
EXACT0 = dict(FLOOR, float64='0', float32='0', float16='0', bfloat16='0')
LOOSE = {'float64': '1e-3'}    # float64 leaves coupled to float32 ones

def scheduled(c):
  """Schedules divide int32 counts in float32, also when x64 is enabled."""
  if isinstance(c, dict):
    return c.get('s') in ('poly', 'expo', 'cosine', 'pinterp', 'lin1c', 'cos1c', 'join', 'wcos', 'wexp', 'sgdr') or any(map(scheduled, c.values()))
  if isinstance(c, list): return any(map(scheduled, c))
  return False

# ---------------------------------------------------------------- recorder --
class Recorder:
  def __init__(self): self.runs, self.stats = [], {}
  def run(self, *a, **k):
    r = Run(self, *a, **k); self.runs.append(r); return r
  def dump(self, path):
    with open(path, 'w') as f:
      json.dump({'runs': [r.json() for r in self.runs if r.evs]}, f)


def errtext(e): return type(e).__name__ + ': ' + str(e)[:120].replace('"', "'")

def freeze(tree):
  """Bitwise snapshot, to detect altered arguments."""
  leaves, td = jax.tree_util.tree_flatten(tree)
  return str(td), [(np.asarray(x).tobytes(), str(np.asarray(x).dtype), np.shape(x)) for x in leaves]


class Run:
  """One recorded run of one configuration."""
  def __init__(self, rec, id, cfg, rtol=None, floor=None, jit=True, obs=True, dtypes=True):
    self.id, self.cfg, self.jit, self.obs, self.dtypes = id, cfg, jit, obs, dtypes
    self.rtol = {**RTOL, **({'float64': '2e-6', 'obs': '1e-5'} if X64 and scheduled(cfg) else {}), **(rtol or {}), 'floor': floor or FLOOR}
    self.evs, self.store = [], {}
    self.tx = None
    self._jits = {}

  def json(self):
    return {'id': self.id, 'cfg': clean(self.cfg), 'rtol': self.rtol, 'evs': self.evs}

  def build(self):
    if self.tx is None:
      self.tx = build_tx(self.cfg)
      self._upd = jax.jit(self.tx.update) if self.jit else self.tx.update
    return self.tx

  def share(self, other):
    """Reuse another run's transformation (same configuration) and jit cache."""
    other.build()
    self.tx, self._upd, self.cfg = other.tx, other._upd, other.cfg
    return self

  def _obs(self, s): return [observe(self.cfg, s)] if self.obs else []

  def init(self, p, dst=1, fast=None):
    ev = {'op': 'init', 'dst': dst, 'p': enc(p if fast is None else fast), 'err': '', 'out': [],
          'obs': [], 'dtypes': True}
    try:
      self.build()
      self.store[dst] = self.tx.init(p)
      ev['obs'] = self._obs(self.store[dst])
    except Exception as e:  # pylint: disable=broad-except
      ev['err'] = errtext(e)
    self.evs.append(ev)
    return self

  def upd(self, g, p=None, src=1, dst=None, g_enc=None, how=''):
    dst = src if dst is None else dst
    ev = {'op': 'upd', 'src': src, 'dst': dst, 'g': g_enc or enc(g), 'p': opt1(p), 'err': '',
          'out': [], 'obs': [], 'dtypes': self.dtypes}
    out = None
    try:
      if src not in self.store: raise RuntimeError('no state (init failed)')
      if how == 'kw': out, st = self._upd(g, self.store[src], params=p)
      elif how == 'pos' or p is not None: out, st = self._upd(g, self.store[src], p)
      else: out, st = self._upd(g, self.store[src])
      ev['out'] = [enc(out)]
      ev['obs'] = self._obs(st)
      self.store[dst] = st
    except Exception as e:  # pylint: disable=broad-except
      ev['err'] = errtext(e)
    self.evs.append(ev)
    return out

  def scan(self, gs, ps=None, src=1, dst=None):
    """All updates gs (list of trees) in one compiled loop (lax.scan)."""
    dst = src if dst is None else dst
    tm = jax.tree_util.tree_map
    st = lambda ts: tm(lambda *x: jnp.stack(x), *ts)
    self.build()
    try:
      if src not in self.store: raise RuntimeError('no state (init failed)')
      if ps is None:
        fin, outs = jax.lax.scan(lambda s, g: self.tx.update(g, s)[::-1], self.store[src], st(gs))
      else:
        fin, outs = jax.lax.scan(lambda s, gp: self.tx.update(gp[0], s, gp[1])[::-1], self.store[src], (st(gs), st(ps)))
      outs = [tm(lambda x: x[i], outs) for i in range(len(gs))]
      err = ''
    except Exception as e:  # pylint: disable=broad-except
      outs, err, fin = [None] * len(gs), errtext(e), None
    for i, g in enumerate(gs):
      last = i == len(gs) - 1
      self.evs.append({'op': 'upd', 'src': src if i == 0 else dst, 'dst': dst, 'g': enc(g),
                       'p': opt1(None if ps is None else ps[i]), 'err': err,
                       'out': [] if err else [enc(outs[i])],
                       'obs': self._obs(fin) if last and not err else [], 'dtypes': self.dtypes})
    if not err: self.store[dst] = fin
    return outs

  def restore(self, src, dst, rebuild=True):
    """Serialise the state, drop everything, rebuild, load into dst."""
    leaves, td = jax.tree_util.tree_flatten(self.store[src])
    blob = pickle.dumps([np.asarray(x) for x in leaves])
    if rebuild:
      self.tx = build_tx(self.cfg)
      self._upd = jax.jit(self.tx.update) if self.jit else self.tx.update
    self.store[dst] = jax.tree_util.tree_unflatten(td, [jnp.asarray(x) for x in pickle.loads(blob)])
    self.evs.append({'op': 'restore', 'src': src, 'dst': dst, 'err': '', 'out': [],
                     'obs': self._obs(self.store[dst]), 'dtypes': True})

  def setc(self, v, src=1, dst=None):
    """Set every scalar int32 leaf named count to v."""
    dst = src if dst is None else dst
    self.store[dst] = set_counts(self.store[src], v)
    self.evs.append({'op': 'setc', 'src': src, 'dst': dst, 'v': int(v), 'err': '', 'out': [],
                     'obs': self._obs(self.store[dst]), 'dtypes': True})

  def sethp(self, field, v, src=1, dst=None, arr=True):
    dst = src if dst is None else dst
    s = copy_state(self.store[src])
    arg = field_arg(self.cfg['in'], field)
    old = s.hyperparams[arg]
    s.hyperparams[arg] = jnp.asarray(v, dtype=jnp.asarray(old).dtype) if arr else v
    self.store[dst] = s
    self.evs.append({'op': 'sethp', 'src': src, 'dst': dst, 'name': field, 'v': num(v), 'err': '',
                     'out': [], 'obs': [], 'dtypes': True})

  def slots(self, keep, src=1, dst=2):
    """A chain state with only the (1-based) slots in keep."""
    s = self.store[src]
    self.store[dst] = [s[i - 1] for i in keep]
    self.evs.append({'op': 'slots', 'src': src, 'dst': dst, 'keep': list(keep), 'err': '', 'out': [],
                     'obs': [], 'dtypes': True})

  def call(self, fn, out=None, err='', **args):
    ev = dict(args); ev.update(op='call', fn=fn, err=err, out=out if out is not None else [])
    self.evs.append(ev)


def copy_state(s):
  return jax.tree_util.tree_map(lambda x: x, s)

COUNTERS = ('count', 'notfinite_count', 'total_notfinite', 'gradient_step', 'step')
def set_counts(s, v):
  """Sets every saturating 32-bit step counter (see SetCounts)."""
  if isinstance(s, tuple) and hasattr(s, '_fields'):
    kw = {}
    for f in s._fields:
      x = getattr(s, f)
      if (f in COUNTERS and type(s).__name__ != 'ApplyEvery' and getattr(x, 'shape', None) == ()
          and str(x.dtype) in ('int32', 'int64')):
        kw[f] = jnp.asarray(v, x.dtype)
      else:
        kw[f] = set_counts(x, v)
    if type(s).__name__ == 'MultiStepsState':
      kw.update(mini_step=jnp.zeros_like(s.mini_step), acc_grads=jax.tree_util.tree_map(jnp.zeros_like, s.acc_grads))
    return type(s)(**kw)
  if isinstance(s, (list, tuple)): return type(s)(set_counts(x, v) for x in s)
  return s
