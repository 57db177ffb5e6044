#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids/titles)."""
import json, os
S = 'optax/_src/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
    anchors=dict(files=[f if '/' in f else S + f for f in files],
      state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
      mechanism=[dict(name=a, where=S + b) for a, b in mech],
      observe_at=list(observe) or ['init/update return values'], hook_needed=None)))

p('C01', 'A chain is exactly the sequential composition of its transformations',
  "The updates a chain returns are the incoming updates passed through every member in order, each member receiving its predecessor's output, its own state slot and the same params; the new state holds each member's new state in the same order. "
  "Initialising a chain initialises every member on the same params, and nesting chains does not change the updates. "
  "A state with a different number of slots than the chain has members is rejected with an error, never silently truncated.",
  'programs inputs histories', 'all member lists (including repeated, nested and stateful members), all trees of updates/params, all histories',
  'combine_test compares one chain of adam pieces on one tree; order, slot and params routing for arbitrary members and lengths are not enumerated.',
  ['combine.py'], [('fold over (state slot, update_fn)', 'combine.py:chain')],
  [('chain state', 'one slot per member', 'combine.py')])

p('C02', 'Transformations are pure, and training resumes from any saved state',
  "Calling init or update again with equal arguments gives equal results and alters none of the arguments, whatever other calls were made in between on the same transformation, for every transformation including the randomised ones. "
  "Saving the state after any step, rebuilding the transformation from the same hyperparameters and continuing gives exactly the updates of the uninterrupted run.",
  'histories crash_points configurations', 'every transformation/alias/wrapper, every interleaving of several training sessions over one transformation object, every save/restore point',
  'No test re-calls, interleaves sessions on one object, or restores a state; purity is quantified over histories and crash points.',
  ['base.py', 'transform.py', 'wrappers.py', 'privacy.py', 'schedule.py'], [('state passed explicitly', 'base.py:GradientTransformation')])

p('C03', 'Updates and state keep structure, shape and dtype; jit equals eager',
  "When no accumulator dtype is requested, the updates returned have the tree structure, shapes and dtypes of the gradients given, and the new state has the structure, shapes and dtypes of the state given, for every floating-point dtype and tree of parameters with gradients of the same dtypes, so that update can be carried through a compiled loop. "
  "Compiled (jit, scan) and uncompiled execution give the same results up to rounding. (Aggregation of per-example gradients, which by design drops the leading axis, is exempt from the shape clause.)",
  'inputs configurations histories', 'every transformation/alias/wrapper, bf16/f16/f32/f64 trees, ranks 0 to 4, nested containers, histories',
  'float64_test checks one step of some aliases on one tree; other dtypes, ranks, scan carries and multi-step histories are not reached.',
  ['transform.py', 'wrappers.py', 'alias.py', 'lookahead.py', 'constrain.py', 'clipping.py'], [('zeros_like/full_like states, casts', 'transform.py')])

p('C04', 'apply_if_finite drops non-finite updates until too many came in a row',
  "An update with a NaN or infinity anywhere returns zero updates and leaves the inner state untouched, unless more than max_consecutive_errors such updates (this one included) have come in a row, in which case it is passed through to the inner transformation. "
  "A finite update always behaves exactly as the inner transformation applied to the accepted updates alone. "
  "The state reports the length of the current run of non-finite updates, their total number since init, and whether the last update was finite.",
  'histories inputs fault_sequences', 'every sequence of finite/non-finite updates, every bound, NaN/+inf/-inf in any position of any leaf',
  'The test walks one hand-written sequence with one bound.',
  ['wrappers.py'], [('cond(isfinite or count > max)', 'wrappers.py:apply_if_finite')],
  [('notfinite_count', 'current consecutive run', 'wrappers.py'), ('total_notfinite', 'total', 'wrappers.py'), ('last_finite', 'last update finite?', 'wrappers.py')])

p('C05', 'MultiSteps hands the inner optimiser the mean (or sum) of every window',
  "In a window of k mini-steps, k being the schedule's value at the number of gradient steps already taken, the first k-1 calls return zero updates and leave the inner state untouched, and the k-th returns what the inner optimiser returns for the mean (the sum when averaging is disabled) of exactly that window's k gradients and the params given. "
  "The mini-step and gradient-step counters report the position in the window and the number of completed windows, and has_updated is true exactly after a call that completed a window.",
  'histories inputs configurations', 'all gradient sequences, all constant or varying k schedules, mean or sum, inner optimisers that do or do not need params',
  'Tests use k in {1,2,3} style schedules with one inner optimiser without params.',
  ['wrappers.py'], [('cond(mini_step < k-1)', 'wrappers.py:MultiSteps.update')],
  [('mini_step', 'position in window', 'wrappers.py'), ('gradient_step', 'completed windows', 'wrappers.py'), ('acc_grads', 'sum of the window', 'wrappers.py')])

p('C06', 'masked applies the inner transformation to exactly the selected leaves',
  "Leaves (or whole subtrees, for a prefix mask) selected by the mask get the updates the inner transformation computes for the selected updates, params and state alone; all other updates are returned untouched and never influence the inner transformation. "
  "The result has the structure of the incoming updates, for masks given as a tree, as a prefix of the tree or as a callable.",
  'inputs programs histories', 'all masks on all trees, inner transformations that couple leaves (global norm), need params, or keep state',
  'Tests use a few fixed masks and elementwise inner transformations.',
  ['wrappers.py'], [('flatten_up_to, filter, re-insert', 'wrappers.py:masked')])

p('C07', 'maybe_update calls the inner transformation exactly when told to',
  "At its t-th call (t = 0, 1, ...) maybe_update applies the inner transformation, with its current state and params, if the predicate holds of t, and otherwise returns the updates untouched and keeps the inner state. "
  "The counter given to the predicate increases by one on every call whether or not the inner transformation was applied.",
  'histories configurations', 'all predicates and histories, stateful and params-needing inner transformations',
  'One test with one modulus.', ['wrappers.py'], [('cond(should_update_fn(step))', 'wrappers.py:maybe_update')],
  [('step', 'calls so far', 'wrappers.py')])

p('C08', 'flatten equals the inner transformation on the concatenation of all leaves',
  "Wrapping with flatten gives the updates that the inner transformation gives for the single vector of all entries (updates and params alike, in the same order), cut back into the original leaves, shapes and structure. "
  "In particular elementwise transformations are unaffected, and per-tensor ones act on all entries jointly.",
  'inputs programs histories', 'all non-empty trees of one dtype incl. scalars and zero-size leaves, elementwise and coupling inner transformations',
  'The test covers two optimisers on one tree of two leaves.', ['wrappers.py'], [('concatenate/split', 'wrappers.py:flatten')])

p('C09', 'Lookahead synchronises slow and fast parameters every sync_period steps',
  "Applying the returned updates, between synchronisations the fast params follow the fast optimiser's own updates (computed from its state and the fast params) and the slow params do not move; at every sync_period-th step both become slow + slow_step_size * (fast after its step - slow). "
  "With reset_state the fast optimiser restarts from a fresh state after exactly the synchronising steps; otherwise its state is never touched.",
  'histories inputs configurations', 'all periods, step sizes, fast optimisers (incl. params-dependent ones), gradient histories',
  'Tests follow one optimiser for a few periods.', ['lookahead.py'], [('sync_next selection', 'lookahead.py:lookahead')],
  [('steps_since_sync', 'position in the period', 'lookahead.py')])

p('C10', 'apply_every emits the sum of each window of k updates, and zeros otherwise',
  "Counting calls from init, every k-th call returns the sum of the last k incoming updates and every other call returns zeros. "
  "Windows do not influence each other: a non-finite or huge update in one window leaves the results of all other calls unaffected.",
  'histories inputs fault_sequences', 'all k >= 1, all histories, non-finite updates at any position',
  'One test with one k and finite gradients.', ['transform.py'], [('count mod k', 'transform.py:apply_every')],
  [('grad_acc', 'sum of the window', 'transform.py')])

p('C11', 'inject_hyperparams evaluates schedules per step and honours overrides',
  "The n-th update (n = 1, 2, ...) is the one the inner transformation makes with every scheduled hyperparameter set to its schedule at n and every other numeric hyperparameter set to the value currently stored in the state, which may be overwritten between updates; overwriting a scheduled one has no effect. "
  "The state reports the number of updates and the hyperparameter values used by the last update (before any update: schedules at 0 and the given constants). Booleans and arguments named static are passed on unchanged.",
  'histories inputs configurations', 'all factories, mixtures of schedules/constants/static arguments, override histories',
  'Tests use a handful of factories and a few steps.', ['schedule.py'], [('schedule_fn(count_inc)', 'schedule.py:inject_hyperparams')],
  [('count', 'updates so far', 'schedule.py'), ('hyperparams', 'values in use', 'schedule.py')])

p('C12', 'Basic schedules compute their documented function at every step count',
  "The constant, polynomial/linear, exponential-decay (with staircase, delay and end value), cosine-decay and piecewise-constant schedules return, at every non-negative step count, the value of their documented formula: held at the initial value before the transition begins, at the end value after it ends, and bounded by the given end value. "
  "A piecewise-constant schedule has applied the factor of every boundary that has been reached (step count at or past it). Counts given as Python ints or traced/array integers give the same value.",
  'inputs configurations', 'all parameter combinations incl. degenerate ones, all counts up to int32 max',
  'Tests sample a few counts of one configuration per schedule.', ['schedule.py'], [('closed-form formulas', 'schedule.py')], observe=['schedule(count)'])

p('C13', 'Composite schedules switch pieces at exactly the declared boundaries',
  "join_schedules returns, at step s, the value of the last schedule whose boundary is at or before s, evaluated at the number of steps since that boundary; the warmup and SGDR schedules are the corresponding joins of linear warmup, decay and restart cycles. "
  "Piecewise-interpolated schedules pass through the cumulative product of factors at every boundary, interpolate linearly (or by half-cosine) between and stay constant after the last; the onecycle schedules reach their documented initial, peak and final values at their documented steps when those steps are distinct, and are finite everywhere.",
  'inputs configurations', 'all lists of pieces and increasing boundaries, all counts including both sides of every boundary',
  'Tests sample a few counts of a few configurations.', ['schedule.py'], [('where(step < boundary)', 'schedule.py:join_schedules'), ('indicator', 'schedule.py:piecewise_interpolate_schedule')], observe=['schedule(count)'])

p('C14', 'Step counters count updates, saturate at int32 max, and drive step sizes',
  "scale_by_schedule multiplies its n-th update since init by the schedule at n-1. "
  "Every 32-bit step counter in a transformation state increases by exactly one per update and, once at the largest int32, stays there instead of wrapping, so that schedules, bias corrections and annealing remain well defined in arbitrarily long runs.",
  'histories inputs', 'all histories including counters at or near the int32 limit',
  'numerics_test checks the increment helper alone; no test runs a transformation near the limit.', ['numerics.py', 'transform.py', 'schedule.py'],
  [('where(count < max)', 'numerics.py:safe_int32_increment'), ('schedule of prior count', 'transform.py:scale_by_schedule')],
  [('count', 'updates so far', 'transform.py')])

p('C15', 'trace and ema follow their recurrences over the whole history',
  "trace returns g_n + decay * t_(n-1) (with Nesterov: g_n + decay * t_n), t_n being the decayed sum of all updates so far. "
  "ema returns the exponential moving average of all updates so far, divided by 1 - decay^n exactly when debiasing is on. "
  "An accumulator dtype, when given, is the dtype in which the accumulator is kept between steps.",
  'histories inputs configurations', 'all decays, nesterov/debias settings, histories, accumulator dtypes',
  'transform_test runs ema/trace for a few steps of one setting.', ['transform.py'], [('trace', 'transform.py:trace'), ('ema', 'transform.py:ema')])

p('C16', 'Adam, AdaBelief, Yogi and RAdam rescaling follow their published rules',
  "scale_by_adam, scale_by_belief, scale_by_yogi and scale_by_radam return, at every step of every history, the first moment divided by the root of the second moment (plus epsilons), both bias-corrected by the number of updates, where the second moment averages squared gradients (adam, radam), squared deviations of the gradient from the previous first moment (belief), or moves by (1-b2) g^2 towards g^2 (yogi). "
  "RAdam applies the rectification factor exactly when the approximated SMA length reaches the threshold and otherwise returns the bias-corrected first moment.",
  'histories inputs configurations', 'all hyperparameters, all gradient histories, both sides of the RAdam threshold',
  'Tests check shapes, one-step chex variants and convergence on two toy functions, which a wrong rule survives.', ['transform.py'],
  [('moments and bias correction', 'transform.py:scale_by_adam')], [('mu, nu, count', 'moments and step', 'transform.py')])

p('C17', 'Every named optimiser is its documented composition, negated and scaled',
  "sgd, adam, adamw, adagrad, adabelief, yogi, radam, rmsprop, lamb, fromage, sm3, noisy_sgd and dpsgd return the updates of the documented sequence of building blocks with every hyperparameter in its documented role and default. "
  "The step is multiplied by minus the learning rate, where a callable learning rate is evaluated at the number of updates made before.",
  'configurations histories inputs', 'all aliases, all hyperparameters incl. defaults, constant and scheduled learning rates, histories',
  'alias_test only checks convergence on toy problems; equivalence_test covers a few aliases at one setting.', ['alias.py'],
  [('combine.chain', 'alias.py'), ('_scale_by_learning_rate', 'alias.py')])

p('C18', 'Clipping bounds elements, the global norm and unit-wise norms, and only then',
  "clip maps every element to the nearest value in [-max_delta, max_delta]; clip_by_global_norm leaves updates whose norm over all leaves is below max_norm unchanged and otherwise rescales all leaves by one common factor to norm max_norm. "
  "adaptive_grad_clip leaves a unit unchanged while its gradient norm is below clipping * max(param norm, eps) and otherwise rescales it to that norm, units being the whole tensor for scalars and vectors, columns (norm over axis 0) for rank 2 and 3, and output channels (last axis) for rank 4.",
  'inputs configurations', 'all trees, ranks and size-1 axes, values on both sides of the thresholds',
  'Tests check one tree and a couple of thresholds.', ['clipping.py', 'linear_algebra.py'], [('unitwise_norm', 'clipping.py'), ('trigger', 'clipping.py:clip_by_global_norm')])

p('C19', 'Constraints hold: params stay non-negative and NaNs are zeroed and flagged',
  "keep_params_nonnegative returns each update unchanged when the updated parameter stays non-negative and otherwise exactly minus the parameter, so that applying it never makes a non-negative parameter negative. "
  "zero_nans replaces exactly the NaN entries by zero, leaves every other entry (including infinities) unchanged, and its state tells for each leaf whether the last update contained a NaN in it.",
  'inputs histories', 'all params/updates incl. NaN and infinities in any position, multi-step histories',
  'Tests use one small tree each (and zero_nans tests do not run here).', ['constrain.py'], [('where(p+u<0)', 'constrain.py'), ('isnan', 'constrain.py')],
  [('found_nan', 'NaN seen in the leaf at last update', 'constrain.py')])

p('C20', 'Stateless rescalings compute their documented value on every tree',
  "identity returns the updates unchanged, scale multiplies by its step size, and add_decayed_weights adds weight_decay times the params. "
  "scale_by_trust_ratio multiplies each leaf by the ratio of the leaf's param norm to its update norm, both floored at min_norm, and by 1 when either is zero. "
  "centralize subtracts from each tensor of rank at least 2 its mean over all axes but the first and leaves lower ranks unchanged.",
  'inputs configurations', 'all trees, shapes, zero norms, hyperparameters', 'Tests use one tree and check shape or one value.', ['transform.py', 'numerics.py', 'base.py'],
  [('safe_norm', 'numerics.py'), ('_subtract_mean', 'transform.py')])

p('C21', 'Private aggregation clips every example and adds calibrated fresh noise',
  "Without noise the aggregate is the mean over examples of each example's gradient rescaled, jointly over all leaves, to norm at most l2_norm_clip, so that no example contributes more than l2_norm_clip / batch size. "
  "The added noise is zero-mean Gaussian with standard deviation l2_norm_clip * noise_multiplier / batch size, independent between entries, leaves and steps, and determined by the seed. "
  "Updates whose leaves do not share a leading batch axis are rejected with an error.",
  'inputs histories configurations', 'all per-example trees, batch sizes, clips, multipliers, seeds and steps',
  'Tests check two norms and one noise level on one tree.', ['privacy.py'], [('divisors', 'privacy.py'), ('split key', 'privacy.py')],
  [('rng_key', 'noise stream', 'privacy.py')])

p('C22', 'add_noise adds fresh Gaussian noise of annealed variance eta / n^gamma',
  "At its n-th update add_noise adds to every entry zero-mean Gaussian noise of variance eta / n^gamma, independent between entries, leaves and steps. "
  "The noise is determined by the seed and the step alone (not by the gradients), differs between seeds, and scales with the square root of eta.",
  'histories configurations inputs', 'all eta, gamma, seeds, trees, step counts', 'One test checks one variance at eta = 1, where variance and deviation coincide.', ['transform.py'],
  [('PRNG split per step', 'transform.py:add_noise')], [('count, rng_key', 'step and noise stream', 'transform.py')])

p('C23', 'Applying, averaging and periodic copying of parameters are exact',
  "apply_updates adds each update to its parameter and returns the parameter's structure, shape and dtype; incremental_update returns step_size * new + (1 - step_size) * old. "
  "periodic_update returns the new tensors exactly at the steps divisible by the period and the old tensors otherwise.",
  'inputs histories', 'all trees, dtypes (mixed param/update dtypes), step sizes, periods and step counts', 'One tree and a few numbers.', ['update.py'],
  [('astype(param dtype)', 'update.py:apply_updates'), ('mod == 0', 'update.py:periodic_update')])

p('C24', 'Losses equal their mathematical definition for every shape and magnitude',
  "l2, huber, sigmoid and softmax cross entropy, cosine similarity/distance and label smoothing return their documented mathematical value elementwise or over the last axis for any leading batch shape, and stay accurate and finite for logits of any finite magnitude. "
  "Predictions without targets are compared to zero, and norms in cosine similarity are floored at epsilon. Differentiating a loss gives the derivative of that definition.",
  'inputs', 'all shapes, magnitudes, soft and hard labels, deltas, epsilons', 'Tests compare a dozen fixed numbers.', ['loss.py', 'numerics.py'],
  [('log_sigmoid/log_softmax', 'loss.py'), ('safe_norm', 'numerics.py')], observe=['return values'])

p('C25', 'Hessian and Fisher diagnostics equal the exact derivatives of the loss',
  "hvp returns the Hessian of the loss with respect to the params times the given vector, hessian_diag that Hessian's diagonal and fisher_diag the squared entries of the gradient, in the flattening order of the params, at the given inputs and targets.",
  'inputs programs', 'all smooth losses, all params trees, vectors and data', 'One small linear network at one point.', ['second_order.py'],
  [('jvp of grad', 'second_order.py:hvp')], observe=['return values'])

p('C26', 'Gradient estimators compute the per-sample estimate for the drawn samples',
  "For the samples x_i the distribution draws from the given key, the score-function estimator returns f(x_i) times the gradient of log p(x_i), and the pathwise estimator the derivative of f(x_i) through the sampling path, for every parameter and sample. "
  "The measure-valued estimator returns for mean and log-scale of a diagonal Gaussian unbiased coordinate-wise estimates: differences of f at two draws of that coordinate, coupled unless told otherwise; other distributions are rejected.",
  'inputs programs', 'all functions, parameters, keys, numbers of samples', 'Monte-Carlo comparisons with wide tolerances for a few functions.', ['stochastic_gradient_estimators.py', 'utils.py'],
  [('surrogate jacfwd', 'stochastic_gradient_estimators.py')], observe=['return values'])

p('C27', 'Control variates are unbiased corrections with a consistent baseline state',
  "The jacobians returned with a control variate are, per sample and parameter, the function's jacobian minus coefficient times (control variate's jacobian plus the mean gradient of the control variate in the params minus the gradient of its expectation); the coefficient is 1 unless estimated as covariance over variance. "
  "The delta-method variate is the second-order Taylor expansion at the mean with its exact Gaussian expectation. "
  "The moving-average baseline is the (optionally debiased) exponential average of the batch means over the whole history, so a constant function has a constant baseline.",
  'inputs programs histories', 'all functions, parameters, samples, decays, histories of updates', 'Monte-Carlo checks at step 0.', ['control_variates.py'],
  [('control_variates_jacobians', 'control_variates.py'), ('moving_avg_baseline', 'control_variates.py')], observe=['return values'])

p('C28', 'Linear-algebra helpers: global norm, power iteration, inverse p-th root',
  "global_norm is the Euclidean norm of all entries of all leaves. "
  "power_iteration returns the dominant eigenvalue and a unit eigenvector of a symmetric PSD matrix whose dominant eigenvalue is well separated. "
  "matrix_inverse_pth_root returns A^(-1/p) (up to its ridge and tolerance) for every well-conditioned symmetric PSD A and every positive integer p. safe_norm is the norm bounded below, with a finite gradient that is zero where the bound is active.",
  'inputs', 'all trees; all PSD matrices with a spectral gap / good conditioning; all p', 'A few random matrices for p in {1,2,4,8}-style exponents.', ['linear_algebra.py'],
  [('Newton iteration', 'linear_algebra.py:matrix_inverse_pth_root')], observe=['return values'])

p('C29', 'Missing params and invalid configurations are rejected with an error',
  "Every transformation whose updates depend on the params raises an error when update is called without them, also when reached through a chain or wrapper, rather than computing something else. "
  "Invalid settings (sync period below 1, negative piecewise factors, non-positive cosine or onecycle lengths, unknown interpolation types, static arguments the factory does not have, unsupported distributions, integer inputs of losses, per-example gradients without a common batch axis) are rejected when the object is built, and valid boundary settings are accepted.",
  'configurations programs', 'all params-dependent transformations alone and nested, all invalid settings and their valid neighbours', 'A few raise checks.', ['transform.py', 'clipping.py', 'constrain.py', 'schedule.py', 'lookahead.py', 'base.py'],
  [('NO_PARAMS_MSG checks', 'transform.py'), ('construction checks', 'schedule.py')], observe=['exceptions'])

p('C30', 'Adagrad, RMS, centred RMS and SM3 rescaling follow their recurrences',
  "scale_by_rss divides each update by the root of the initial accumulator plus the sum of all squared updates so far (returning zero where that is zero); scale_by_rms and scale_by_stddev divide by the root of the moving average of squares, respectively of the moving variance. "
  "scale_by_sm3 bounds each entry's accumulator by the minimum over its axes of the per-axis maxima, with momentum on the preconditioned update, for tensors of every rank including scalars.",
  'histories inputs configurations', 'all hyperparameters, ranks and gradient histories', 'Convergence on toy functions and one-step shape checks.', ['transform.py'],
  [('sum_of_squares', 'transform.py:scale_by_rss'), ('per-axis maxima', 'transform.py:scale_by_sm3')])

p('C31', 'Training loops follow the specified trajectory and converge',
  "Repeating gradient, update, apply_updates on a differentiable loss moves the parameters along exactly the trajectory the optimiser's rule prescribes, step by compiled step, however the steps are interleaved with mini-batches, non-finite gradients, checkpoints and crashes. "
  "On convex quadratics: gradient descent with a rate of at most one over the largest curvature never increases the loss and contracts every direction linearly, and every optimiser with a suitably small or decaying rate comes near the minimum. "
  "Frozen parameters never move; parameters kept non-negative stay feasible and end at the constrained minimum; steps skipped for non-finite gradients leave no trace; accumulating mini-batches ends where whole-batch steps end; and resuming after a crash from a checkpoint continues the interrupted trajectory.",
  'histories crash_points inputs configurations', 'all losses, starting points, optimisers with wrappers, and histories of steps, faults, checkpoints and crashes', 'Tests train a handful of toy losses with single optimisers and look at the final error only, with tolerances that hide trajectory errors; no run is interrupted.',
  ['alias.py', 'update.py', 'wrappers.py', 'combine.py', 'transform.py', 'constrain.py', 'lookahead.py'], [('update/apply cycle', 'update.py:apply_updates')])

p('C32', 'multi_normal is the diagonal Gaussian of its location and log-scale',
  "For location and log-scale arrays of any mutually broadcastable shapes, sample(shape, seed) returns an array of the requested shape followed by the broadcast parameter shape, whose entries are loc + exp(log_scale) times independent standard normals determined by the seed alone; it is differentiable in the parameters along that map. "
  "log_prob returns, for any batch of points, the sum over all parameter axes of the normal log-densities (so densities are normalised and factorise), finite far into the tails; its gradients are the score. params and log_scale return the arrays given.",
  'inputs configurations', 'all parameter shapes and broadcasts, scales from tiny to huge, batch shapes, keys and points', 'It is only exercised as a building block of the estimator tests, with vectors of equal length; broadcasting, ranks, tails and independence of draws are untested.',
  ['utils.py'], [('sample/log_prob', 'utils.py:MultiNormalDiagFromLogScale')])

p('C33', 'Optimisers and whole training runs can be differentiated (meta-gradients)',
  "The updates a transformation returns over a history, and the parameters a training run reaches, are differentiable functions of the gradients, the params given, the initial parameters and the hyperparameters: JAX's forward- and reverse-mode derivatives equal the derivative of the function the rule prescribes, with state, momenta, bias corrections, schedules and wrappers contributing as they should, "
  "and they are finite wherever that function is differentiable, including at zero gradients (for positive eps_root, eps or initial accumulators) and at zero norms of parameters and updates.",
  'histories inputs configurations', 'all transformations, compositions, histories, directions and hyperparameters', 'No test differentiates through an update.',
  ['transform.py', 'alias.py', 'wrappers.py', 'combine.py', 'numerics.py', 'update.py'], [('update rules', 'transform.py'), ('gradient-safe norm', 'numerics.py:safe_norm')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P.sort(key=lambda d: d['id'])
with open(out, 'w') as f:
  for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
