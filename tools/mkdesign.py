import json
HEAD = r'''# Design

How the 33 properties of `properties.jsonl` are decided for optax: by an explicit
TLA+ specification of the library's state and transitions (`spec/`), checked with
TLC, and bound to the code by replaying the specification's behaviours into the
real library and by validating traces recorded from the real library against the
specification.  Everything is run by one driver: `./check Cnn --tier quick|thorough`.

## 1. Language and tools

**TLA+ with TLC**, not Quint/Apalache.  optax is numerical: the state is trees of
tensors and the transitions are real arithmetic, so neither language's native
integers suffice and symbolic checking (Apalache) of long products, roots and
exponentials is out of reach.  TLC lets an operator be overridden by a Java method;
`spec/Num.tla` declares real arithmetic over *decimal strings* and
`spec/java/tlc2/module/Num.java` implements it with 50 significant digits (exact when
the result fits), IEEE specials included, far below the rounding of the code under test.
TLC also reads JSON (`Json`, `IOUtils` of the CommunityModules), which makes the
specification itself the oracle that judges recorded traces: there is no second
implementation of the rules in Python.  The harness never decides whether a value is
right; it drives the real code, records, and hands the record to TLC.

`setup_cmd` compiles the override (javac) into `build/java-<hash>`; a check does so
itself when it is missing.  Nothing else is built; the Python under test is imported
from /repo's working tree.

## 2. The specification

| module | contents |
|---|---|
| `Num`, `Tensor` | reals; tensors (`sh`, `dt`, `path`, row-major `v`), trees (`td`, leaves), reductions, norms, casts, closeness |
| `Schedules` | every schedule of optax as a function of the step count, joins and restarts included |
| `Transforms` | the transition system of every `GradientTransformation`: `InitT(cfg, params)`, `UpdT(cfg, updates, state, params)` = (error, updates, state'), `ObsT` (the reported part of a state), `SetCounts`, `NeedsP`. 23 building blocks, 8 wrappers (`chain`, `flatten`, `apply_if_finite`, `MultiSteps`, `masked`, `maybe_update`, `lookahead`, `inject_hyperparams`), 13 aliases as compositions of those, `StateTrees` (structure, shape, dtype of the state) |
| `Optax` | the system: optimiser states in slots (any slot can be the source of any later call: checkpoints, restarts, interleaved sessions, several models); actions Init, Update, Restore, SetCount, SetHyper, Slots |
| `PureFns`, `Estimators`, `Training`, `Calls` | the functional part: losses and their derivatives, apply/incremental/periodic updates, global norm, power iteration, inverse roots, safe norm, second-order diagnostics of polynomial losses, the three gradient estimators, control variates, validation of settings; `JudgeCall` judges one recorded call |
| `Trace` | trace validation: every recorded run is an initial state, every event a step; the verdict is total (each mismatch is printed with the failing clause and first differing entry, and the run continues from the *specified* state), and a POSTCONDITION checks that every event of every run was consumed |
| `Model`, `MC_*` (one or two per property) | bounded exhaustive models: one session driven through **every** history of inputs up to a depth over all configurations of a small lattice. Invariants are stated over the whole history, independently of the transition rules (closed forms, window sums, non-interference, laws such as symmetry, convexity, unbiasedness by exact Gauss quadrature). Each prints its complete behaviours (`@@PLAN`) for replay |

The two halves check each other: the MC models check that the transition rules have the
listed properties (so the specification means what `properties.jsonl` says), and
conformance checks that the code follows the transition rules.

## 3. Conformance

`harness/optaxir.py` builds the real object of a configuration, drives it (`init`, `upd`,
`scan` in a compiled loop, `restore` through serialisation and a rebuilt object, `setc`
= a run that has already made v updates, `sethp` = user override) and records arguments, results, errors and
the reported state.  Jobs (`harness/props/c*.py`) generate what is driven:

* **replay**: every behaviour emitted by the property's MC model is executed on the real code;
* **random histories** over random trees (9 containers, ranks 0-4, None subtrees, zero-size leaves), dtypes (float64/32/16, bfloat16, mixed), magnitudes (tiny ... huge, spread, NaN, infinities), nested compositions, eager/jit/scan;
* **generic histories** (`harness/generic.py`), for every transformation property: several models of other shapes trained in turns with one object, one object used in several places of a composition, many sessions under `vmap`, big tensors/many leaves, everything scaled to 1e-20..1e20 (no hidden absolute thresholds), and counts far beyond 8 and 16 bits up to int32 max;
* **targeted** jobs per property (section 5).

Each check runs several worker processes with `JAX_ENABLE_X64=1` (tolerance 1e-8 relative)
and several without it (float32 tolerances).  Recorded files are validated by `Trace.tla`
under TLC.  A violation prints `VIOLATION property=Cnn replay=replays/...json`; the replay
file contains configuration, events and the job, `./check Cnn --replay FILE` runs it again.
Randomised jobs are functions of `VERIF_SEED`.  A failing worker or TLC run is retried once; a model that fails its own invariants ends the check with status 2 (the
machinery is broken), while code that cannot be driven at all (a call that must work raises outside a
recorded call, or a recorded state lacks the documented fields) counts as a violation.

What is *not* compared: private fields, string forms, which keys of `jax.random` are used,
and everything the properties leave open.  Where noise is drawn, the actual unit normals are obtained
from the code itself (`add_noise(eta=1, gamma=0)` with the same seed and structure; likewise for
aggregation), the specification gives the exact result as a function of those draws, and the
draws are then judged as a sample (moments, correlations between entries, leaves, steps and
seeds, at 6 sigma or beyond).  Another key-derivation scheme is therefore accepted.

Tiers: quick is 15-60 s of 8 cores per check.  thorough multiplies the random cases by 3-8
and deepens the bounded models.

## 4. Why this reaches what the tests cannot

The existing tests run a handful of steps of one configuration on one tree.  The properties
quantify over histories (windows, saturating counters, resets, overrides, interleavings of sessions), over
compositions (wrappers in wrappers, one object in two places), and over inputs (dtypes,
non-finite values, ranks, empty leaves, magnitudes).  The bounded models enumerate *all*
histories of small alphabets, the trace validation extends the same rules to long random
histories of everything else.

## 5. Per property
'''
P = {
'C01': ('`MC_chain`: all sequences of up to three members and nestings, whole = left fold, slots, rejection of states of another length.', 'replay; random chains of depth 2 in float64 and float32; up to 34 instrumented members (order, slots, params, init; states that are tuples, lists, dicts or grow); members returning states of any structure; states with missing/extra/reordered slots must be rejected; compiled loops; one object several times in a chain.', 'members up to 34, nesting 2'),
'C02': ('`MC_store`: several sessions, checkpoints and restores over two slots: every slot is a function of its own lineage.', 'repeated calls agree **bitwise** and alter no argument (containers and arrays compared before/after, donated to nothing) for every transformation including random ones; save at every step, rebuild, continue, bitwise; every short interleaving; long random interleavings by value.', 'every interleaving of 4 (thorough 5) actions; random histories of 20'),
'C03': ('`MC_types`: structure/shape/dtype along histories of every transformation and wrapper on trees of mixed dtypes; values do not depend on dtype labels (`Blind`).', 'every kind in every dtype eager, jitted, scanned: `SameStruct` of updates against gradients and of state against `StateTrees`; mixed-dtype trees; random nests of wrappers; odd trees (numpy leaves, zero-size, one leaf, deep).', '4 dtypes, all kinds'),
'C04': ('`MC_aif`: every history of finite/non-finite updates; outputs, inner state, counters, and "finite updates behave as the inner on the accepted ones alone" (`Dropped`).', 'replay; every leaf position and every kind of non-finite value; finite extremes are not errors; runs beyond the limit; totals beyond 16 bits and at the integer limit; a 400-step real run.', 'every history of length 6 (7), max in {0,1,2}'),
'C05': ('`MC_multi`: all window-length schedules over the first gradient steps, mean and sum, at most one NaN mini-batch; windows stated on the history, not on the counters.', 'replay; random histories with varying k; independence of windows; compiled loops; nested with other wrappers; windows > 255.', '8 (11) mini-steps'),
'C06': ('`MC_mask`: every selection of a small nested tree, leaf by leaf and as a prefix; non-interference.', 'replay with masks as trees, prefixes, callables, numpy/jax booleans; complementary masks in a chain, masks in masks; absent params; loops; several models.', 'trees of <=4 leaves exhaustively'),
'C07': ('`MC_maybe`: all predicates over the first calls.', 'replay; random; compiled loops > 255 calls; nested; resume; counters at the integer limits.', '6 (8) calls'),
'C08': ('`MC_flat`: every small tree of vectors, coupling and entrywise inner transformations.', 'replay (also against NumPy-order concatenation via the spec); random trees incl. zero-size and scalar leaves; elementwise inners against the unwrapped specification; loops; nested.', 'trees up to 3 leaves exhaustively'),
'C09': ('`MC_look`: closed loop, returned updates applied; positions, synchronisation values, resets.', 'replay; random inners/periods; non-finite fast steps; stateful inners with reset (counters, scalars, nested states); periods > 255 in compiled loops; slow step sizes from 0 to 1.5.', '6 (9) steps, periods 1-3'),
'C10': ('`MC_every`: windows are sums of exactly their own updates.', 'replay; random; NaN/inf/huge in other windows; windows > 255; counts near int32 max; in chains and loops.', '8 (10) calls'),
'C11': ('`MC_inject`: every interleaving of updates and overwrites of a constant and of a scheduled hyperparameter.', 'replay; random factories and schedules; exact call counts of schedules; flags, None and static arguments; positional/default binding; array and numpy constants; zero/negative/infinite/tiny overrides; across restores; loops.', '5 (6) actions'),
'C12': ('`MC_sched`: grid of settings, every count in a window: endpoints, monotonicity, bounds, per-period factors.', 'replay of every (setting, count) called with int, numpy, array, jit and vmap counts; counts to int32 max; random settings; defaults; boundaries beyond 2^24; up to 90 pieces; settings objects shared by two schedules and left unchanged.', 'window 0..12 and sampled far counts'),
'C13': ('`MC_comp`: joins, warm-ups, restarts, interpolations, onecycle for every count in a window.', 'replay; far counts; random settings; onecycle defaults and collapsed phases finite; joins call each piece with steps since its own boundary (recorded); joins, restarts and interpolations of up to 30 pieces.', 'up to 4 pieces exhaustively'),
'C14': ('`MC_count`: counters from init and from v (to int32 max) over every short history.', 'replay; every counting transformation from random counts; wrappers\' counters (32-bit when x64 is off); all schedules; the counts a schedule is called with; loops.', '4 (6) actions from any count, counts 0..2^31-1'),
'C15': ('`MC_mom`: closed forms of trace and ema over every history.', 'replay; long histories; tiny/huge magnitudes; accumulator dtypes by every name; non-finite entries stay in their entries; defaults.', '4 (6) steps'),
'C16': ('`MC_adam`: closed forms of Adam, AdaBelief, Yogi, RAdam; constant gradients; the published Yogi rule.', 'replay; random settings; 60-step histories; every magnitude; RAdam on both sides of the threshold; defaults; loops; NaN containment; counts far ahead.', '4 (6) steps, RAdam 8; the known finding `yogi-rule` is listed, the deviating rule is otherwise checked exactly'),
'C17': ('`MC_alias`: closed forms of the named optimisers over whole histories, independent of the composition in `Transforms`.', 'replay; random settings; all defaults and each single default; scalar and callable learning rates of any sign; scans; counts far ahead.', '13 aliases, 3 (4) steps'),
'C18': ('`MC_clip`: every tree over a lattice; clip, global norm, unit norms and the partition into units.', 'replay; thresholds on both sides; mixed dtypes; huge/tiny/infinite entries; norms exactly at the bound; all ranks and size-one axes for unit-wise norms.', 'ranks 0-4'),
'C19': ('`MC_constr`: parameters moved by the returned updates never turn negative; NaNs come and go.', 'replay; walks with the *recorded floating-point sum* judged >= 0; parameters of any sign; NaNs in any leaf; empty leaves; scans; in chains and wrappers.', '3 (4) steps'),
'C20': ('`MC_rescale`: linearity, trust ratio, direction, centralisation on every tree of a lattice.', 'replay; random trees, magnitudes, ranks, empty and zero leaves; synonyms.', 'ranks 0-4'),
'C21': ('`MC_dp`: every batch of a few examples, two steps, malformed batches in between; sensitivity and example-order invariance.', 'replay; norms on both sides of the clip; one example scaled without bound; mixed dtypes; malformed batches; batches of up to 129 examples; the noise as a sample, its calibration, sessions/restores/rebuilds.', 'batches <= 3 exhaustively; >= 10^4 draws'),
'C22': ('`MC_noise`: annealing and dependence on the step alone.', 'replay; random trees; far counts; seeds; sample statistics of the draws within/between leaves, rows, steps, seeds; the noise itself away from eta = 1; long runs; in chains.', '>= 10^4 draws'),
'C23': ('`MC_update`: training loop with averaged and periodically copied params: telescoping, convexity, copy times.', 'replay; every pair of dtypes incl. integers, python scalars, numpy; loops; every period against every count in every form.', '4 (6) steps'),
'C24': ('`MC_loss`: lattice judged by laws (convexity, gradient clipping for Huber, symmetry and shift invariance, normalisation, Cauchy-Schwarz, exact cosine gradients).', 'replay with values and gradients; every loss, batch shape and magnitude, jit/vmap; absent targets; accuracy at extreme logits; knees of huber; rows of up to 1536 categories.', 'logits to 1e4'),
'C25': ('`MC_hess`: polynomial losses with exact derivatives: difference quotients, symmetry, linearity.', 'replay; random polynomials over random trees with inputs/targets, jit, float32; flattening order.', 'degree <= 4, <= 90 parameters'),
'C26': ('`MC_sge`: unbiasedness decided *exactly* (Gauss quadrature of polynomial f against the true gradient of the Gaussian expectation).', 'per-sample values for the very samples drawn; Monte-Carlo law of the coordinates (coupled/uncoupled draws recorded through f, Kolmogorov-type statistics); rejection of other distributions; dimensions 1-14; up to 80 samples; jit.', 'degree <= 4'),
'C27': ('`MC_base` (baseline over every history of batch means) and `MC_sge` (unbiasedness and variance-optimality with a control variate).', 'per-sample identity from separately recorded jacobians; coefficients against covariance/variance of the recorded jacobians; long baselines; up to 48 coefficient samples; constant functions; constant baselines.', 'baselines of 4 (6) batches'),
'C28': ('`MC_linalg`: matrices with exactly known spectra via rational rotations.', 'replay; random PSD matrices with well separated spectra, scales 1e-6..1e6, p in 1..12; residual A X^p = I; safe_norm and its gradient; global norm of any tree.', 'sizes 1-24'),
'C29': ('`MC_params` (what needs params, behind every wrapper) and `MC_valid` (settings around the edge of validity).', 'every transformation and wrapper with/without params in every position; every constructor setting around its boundary; integer inputs of losses; onecycle, joins.', 'all kinds'),
'C30': ('`MC_acc`: rss, rms, stddev, sm3 over every short history; the SM3 cover property.', 'replay; random settings; ranks 0-4; b2 < 1; zero accumulators; long histories; loops; magnitudes.', '3 (5) steps'),
'C31': ('`MC_train` over `Training.tla`: the closed loop gradient, update, apply, with mini-batch, non-finite, save and crash events on a convex quadratic; checks Descends (monotone loss and exact contraction), CrashSafe, FaultsLeaveNoTrace, WholeBatch, FrozenStays, Feasible, and Reaches (each of 16 optimisers comes near the minimum).', 'real compiled loops using jax.grad: every behaviour of the model (a sample of the branching ones in quick); random convex quadratics, trees, optimisers, wrappers and event histories with rebuilt transformations; optimisers with default hyperparameters for 80 steps; whole runs inside lax.scan.', 'branching histories of 4 (5) events, runs of 60 (120) steps'),
'C32': ('`MC_gauss` over `Gaussian.tla`: every way of broadcasting small parameter arrays; the density integrates to one with the declared mean and variance (quadrature), factorises, is the push-forward of the standard normal under the sampling map; the score is its derivative and has mean zero.', 'every distribution of the model, random ranks/broadcasts/batch shapes/keys, eager, jit and vmap; tails up to 1e4 scales and log-scales +-30; moments and independence of the draws across coordinates, batch axes and keys; pathwise derivatives.', '144 (432) distributions'),
'C33': ('`MC_meta` over `Meta.tla`: the derivative of a specified history along directions of its gradients or of one constant, as a central difference over 2e-15 in 50-digit arithmetic; it is compared over all short histories with derivatives worked out by hand: linear rules are their own derivative, clipping passes tangents exactly where it does not clip, the quotient rule for adagrad and Adam (finite at zero gradients), momentum SGD along its rate, wrappers pass the tangents of the calls they let through.', 'the derivatives JAX computes (forward mode, and its pairing with random cotangents in reverse mode, jitted, float64) of the model histories, of random histories of every transformation, composition and wrapper along all inputs and constants at once, at zero gradients and zero norms, and of unrolled training runs; TLC judges each against the derivative of the specification.', 'histories of 2-4 steps, trees up to 21 entries, training of 4 steps'),
}
def main():
  o=[HEAD]
  titles={}
  for l in open('/verif/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
  for k,(m,c,b) in P.items():
    o.append('**%s — %s.**  Model: %s  Conformance: %s  Bounds: %s.\n'%(k,titles[k],m,c,b))
  o.append('''
No property is listed as not applicable.  Three are decided partly statistically (the noise of
C21/C22, the law of the measure-valued draws in C26, the draws of C32): TLC judges recorded statistics against
bounds at 6 sigma or beyond.

## 6. Defects found

Repaired (one `fix:` commit each, listed in `known_findings.json`):
''')
  kf=json.load(open('/verif/known_findings.json'))
  for f in kf['fixed']: o.append('* '+f[7:])
  o.append('''
Recorded as known findings (not small/safe to repair):
''')
  for f in kf['findings']: o.append('* `%s` (%s): %s'%(f['id'],f['property'],f['what']))
  o.append('''
`yogi-rule` would change every published Yogi result of users and is pinned by an existing
test; `inject-mixed` needs a per-leaf dtype for hyperparameters the inner factory closes over.

## 7. Corrections of false alarms

Alarms that turned out to be the machinery's fault, and what was changed:

* **tolerances**: rounding of `radam` just past its threshold (float32), `stddev`'s cancellation, `fromage` with small learning rates and schedules (float32 division of counts even in x64 mode) is legitimate; the runs concerned carry wider tolerances or avoid the region.
* **`tame`**: a `centralize` (exactly zero differences become rounding noise) before a normaliser blows noise up to full size; such compositions are not generated.
* preconditions (documented or inherent), never generated: `chain()` without members, `flatten` of an empty tree, injected hyperparameters with an integer first leaf, `clip_by_global_norm(0)` with zero gradients, unit-wise clipping at rank 5, cosine similarity of zero vectors with epsilon 0, `sm3` on zero-size leaves, `warmup_cosine` with peak 0, power iteration of the zero matrix or badly separated spectra, float16 overflow, colliding onecycle boundaries (only finiteness is judged), counters' integer width.
* `lookahead` at a synchronisation with infinities: inf - inf is inherent; NaN is used instead.
* key derivation: comparisons against a particular `jax.random.split` layout were replaced by draws obtained from the code itself plus sample statistics.

## 8. Planted bugs

`seeded/` holds %d changes that pass the existing tests, each with a demonstration.  "caught by" lists
the checks that were run against it and reported it.

%s
''')
  seeds=json.load(open('/verif/tools/seed_results.json'))
  rows=['| bug | property | needs | caught by |','|---|---|---|---|']
  import os
  for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),seeds.get(i,'?')))
  o[-1]=o[-1]%(len(rows)-2,'\n'.join(rows))
  o.append(open('/verif/tools/design_tail.md').read())
  open('/verif/DESIGN.md','w').write('\n'.join(o))
main()
