PROPS = []


def P(id, title, statement, over, forall, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(','), forall=forall, why=why,
                      files=files.split(), mech=[tuple(m.split(' @ ')) for m in mech], technique=technique, note=note))


SEARCH = 'Random search with shrinking, no proof; the oracle is independent numpy code. '

P('P01', 'Segment trees aggregate exactly the current leaf values',
  'After any sequence of leaf assignments (scalar or array values, int, list or array indices, repeated indices where the last one wins, or all '
  'leaves at once), a sum/min/max/generic segment tree holds exactly the assigned values, and each of its nodes, its overall aggregate and the '
  'reduction over any non-empty index range - queried one at a time or many at once, with or without an explicit end - equals the reduction of '
  'the current leaf values in that range, for every capacity including non-powers of two.',
  'histories,inputs', 'all capacities, reducers, assignment histories and queried ranges',
  'The repository tests a handful of fixed trees; wrong handling of odd capacities, range edges, repeated indices or partially refreshed parents '
  'only shows for specific capacity/history/range combinations.',
  'coax/utils/_segment_tree.py', ['SegmentTree.set_values @ coax/utils/_segment_tree.py', 'SegmentTree.partial_reduce @ coax/utils/_segment_tree.py'],
  'model-based property testing against a flat-array model',
  SEARCH + 'Capacities up to 300; dyadic values make sums exact; all ranges enumerated for capacities up to 17.')

P('P02', 'Sum-tree lookup and sampling follow the weights exactly',
  'For non-negative weights with a positive total, looking up a quantile u in [0, 1] (scalar or array) returns the index whose half-open slice of the '
  'cumulative weight contains u times the total: always in range, never a zero-weight index, and non-decreasing in u. '
  'Sampling draws each index independently with probability proportional to its current weight, is determined by the seed (re-seeding restarts it), and '
  'refuses with a RuntimeError when all weights are zero.',
  'inputs,histories', 'all weight vectors (with zeros), overwrite histories, quantiles incl. 0, 1 and slice boundaries, seeds',
  'Boundary quantiles, zero weights and rounding near 1 are measure-zero events which sampled tests never hit.',
  'coax/utils/_segment_tree.py', ['SumTree.inverse_cdf @ coax/utils/_segment_tree.py', 'SumTree.sample @ coax/utils/_segment_tree.py'],
  'property-based differential testing against a cumulative-sum model, plus 9-sigma frequency tests',
  SEARCH + 'Frequencies judged at 9 sigma so that a correct sampler practically never trips it.')

P('P03', 'Uniform replay buffer holds exactly the most recent transitions',
  'After any sequence of adding batches of any size, re-adding an earlier batch, sampling and clearing, the uniform replay buffer holds exactly the '
  'most recently added transitions, at most its capacity, oldest evicted first, with every field unchanged, and its length, truth value and '
  'iteration agree. Samples have the requested size, consist only of stored transitions with all fields consistent, are uniform over '
  'what is stored and reproducible from the seed; neither adding nor sampling changes the caller\'s or the stored data.',
  'histories', 'all operation histories, capacities, batch sizes and transition structures',
  'Eviction order, aliasing and field mix-ups depend on the history; the repository has no test for this buffer.',
  'coax/experience_replay/_simple.py coax/reward_tracing/_transition.py', ['SimpleReplayBuffer.add/sample/clear @ coax/experience_replay/_simple.py'],
  'stateful model-based testing against a bounded deque', SEARCH + 'Transitions carry a number in every field, so any mix-up is visible.')

P('P04', 'Prioritized replay keeps priorities, ids and weights consistent',
  'After any history of adds, priority updates (including ids that were evicted since, which have no effect), hyper-parameter changes (non-positive or non-numeric ones being refused), samples and '
  'clears, the prioritized buffer holds exactly the most recent transitions under fresh distinct ids, and each one is sampled with probability '
  'proportional to (|latest advantage| + epsilon at the time)^(current alpha). '
  'A sample carries the ids that identify its transitions, and its importance weights are the stored weights times p^-beta, normalised by the '
  'largest such factor within the sample; draws are reproducible from the seed.',
  'histories', 'all histories over add, update, alpha/beta/epsilon changes, sample and clear, and all capacities',
  'A stale id, an eviction between sampling and updating or an exponent change after updates corrupts priorities silently; tests only sample a '
  'fresh buffer.',
  'coax/experience_replay/_prioritized.py coax/utils/_segment_tree.py',
  ['PrioritizedReplayBuffer.add/update/sample @ coax/experience_replay/_prioritized.py', 'alpha setter @ coax/experience_replay/_prioritized.py'],
  'stateful model-based testing with a dict model and a twin instance', SEARCH + 'Priorities are read out via importance weights and 9-sigma frequencies.')

P('P05', 'N-step tracer emits the exact n-step bootstrapping transition of each step',
  'For any n, discount and history of episodes, popping or flushing the n-step tracer yields every recorded step exactly once in order with its own '
  'state, action, log-propensity and weight, the discounted sum of the next (at most n) rewards up to the episode end, and either discount^n with the '
  'state/action/log-propensity n steps later or a zero bootstrap factor if the episode ended before. '
  'A step can be popped exactly when n later steps or the episode end are known (length and truth value agree; otherwise it refuses), a finished '
  'episode must be drained before new steps are accepted, reset forgets everything, and the optional extra record holds the n+1 raw entries, '
  'padded with the last one.',
  'histories', 'all n, discounts, reward shapes, observation structures and interleavings of add, pop, flush and reset over several episodes',
  'Errors at episode ends, for episodes shorter than n, or after partial popping only occur for particular interleavings and lengths.',
  'coax/reward_tracing/_nstep.py coax/reward_tracing/_base.py', ['NStep.add/pop/flush @ coax/reward_tracing/_nstep.py'],
  'stateful model-based testing against a list model', SEARCH + 'n up to 6, episodes up to 10 steps, up to 6 episodes.')

P('P06', 'Monte-Carlo tracer emits full discounted returns, once per step',
  'For any discount and history of episodes, the Monte-Carlo tracer releases transitions only once the episode is finished, each recorded step exactly '
  'once, with its own state, action, log-propensity and weight, the full discounted sum of rewards from that step to the episode end, and a zero '
  'bootstrap factor. Length and truth value agree with this, popping earlier is refused, adding to an undrained finished episode is '
  'refused, and reset forgets everything including any partially accumulated return.',
  'histories', 'all discounts, reward shapes, structures and interleavings of add, pop, flush and reset',
  'State that leaks from one episode into the next is invisible to tests which trace one fresh episode.',
  'coax/reward_tracing/_montecarlo.py coax/reward_tracing/_base.py', ['MonteCarlo.add/pop @ coax/reward_tracing/_montecarlo.py'],
  'stateful model-based testing against a list model', SEARCH + 'Episodes up to 8 steps, up to 5 episodes per history.')

P('P07', 'Transition batches survive splitting, joining, copying and comparison',
  'A transition batch split into single transitions or into power-of-two chunks and joined again is unchanged in every field and id, and its items, '
  'tuple, dict, index and pytree views all show the same content; the singles and copies do not alias the header of the original, and deep copies not its data. '
  'Two batches are equal exactly if all fields agree in presence, structure, shape and value. '
  'A batch built from one transition has every given field with a leading axis of one, a zero bootstrap factor when done and the discount '
  'otherwise, and invalid arguments (positive log-propensity, non-bool done, discount outside [0, 1], non-positive weight, non-numeric reward) are refused.',
  'inputs', 'all batch sizes, observation/action structures, optional fields and perturbations',
  'A dropped or shared field shows only for particular structures, sizes or presence of optional fields.',
  'coax/reward_tracing/_transition.py coax/utils/_array.py', ['TransitionBatch @ coax/reward_tracing/_transition.py', 'chunks_pow2 @ coax/utils/_array.py'],
  'property-based round-trip and metamorphic testing', SEARCH + 'Batch sizes up to 40, seven observation structures.')

P('P08', 'Probability distributions obey the laws of probability',
  'For every supported space (discrete, box, multi-discrete, multi-binary, tuple, dict, nested) and all parameters, the log-probability, entropy, KL '
  'divergence and cross-entropy of the distribution equal their textbook definitions, summed over the independent components, row by row; cross-entropy = '
  'entropy + KL, KL is non-negative and zero for equal parameters, mean and mode agree with the parameters, and discrete probabilities sum to one. '
  'The squashed normal\'s log-probability is the change-of-variables density over its box, and the default prior is the uniform resp. standard '
  'normal distribution of the right shape.',
  'inputs,configurations', 'all spaces, distribution parameters (incl. flat, extreme, shifted) and evaluation points',
  'Tests check shapes and a few values; sign, normalisation or broadcasting errors depend on the space and on the parameters.',
  'coax/proba_dists', ['ProbaDist @ coax/proba_dists/_composite.py', 'CategoricalDist @ coax/proba_dists/_categorical.py', 'NormalDist @ coax/proba_dists/_normal.py',
                       'SquashedNormalDist @ coax/proba_dists/_squashed_normal.py'],
  'property-based differential testing against float64 reference formulas', SEARCH + 'Tolerance 2e-4..5e-4 relative (float32).')

P('P09', 'Variates map into the space and back without loss',
  'Every sample, mode or saturated network output of a distribution post-processes to an element of its space (shape, dtype and bounds), '
  'identically one row at a time or as a batch, and pre-processing that element gives back the variate it came from (one-hot of the same choice, same real '
  'number up to rounding); conversely every element of the space survives pre-processing followed by post-processing and has a finite log-probability. '
  'Samples are drawn with the parametrised probabilities, moments and independent components and are determined by the key; discretised intervals '
  'use bin centres and map every value to its bin.',
  'inputs,configurations', 'all spaces, parameters, keys and elements incl. bounds',
  'Elements at the bounds, large network outputs and nested spaces are not in the test samples.',
  'coax/proba_dists', ['postprocess_variate/preprocess_variate @ coax/proba_dists/_normal.py', 'sample @ coax/proba_dists/_categorical.py',
                       'DiscretizedIntervalDist @ coax/proba_dists/_discretized_interval.py'],
  'property-based round-trip testing and 9-sigma frequency tests', SEARCH)

P('P10', 'Affine transforms of value distributions are exact',
  'Scaling and shifting a value distribution yields the distribution of scale*Z + shift, per row, with scalar or per-row scale and shift: a normal gets that mean and variance, quantile values are '
  'mapped pointwise with unchanged fractions, and a discretised interval distributes each atom\'s mass over the two neighbouring atoms in '
  'proportion to proximity, clipping at the ends, preserving total mass (and the mean when nothing is clipped). '
  'With a value transform, values are inverse-transformed before and transformed after scaling and shifting.',
  'inputs', 'all intervals, bin counts, parameters, scales in [0, 1], shifts and transforms',
  'Mass lost at the ends or when a value falls exactly on an atom occurs only for particular scale/shift values.',
  'coax/proba_dists', ['affine_transform @ coax/proba_dists/_discretized_interval.py', 'affine_transform @ coax/proba_dists/_normal.py',
                       'affine_transform @ coax/proba_dists/_empirical_quantile.py'],
  'property-based differential testing against a naive projection', SEARCH)

P('P11', 'Value transforms are exact inverses of each other',
  'For every scale and every real input the log transform equals sign(x)*scale*log(1+|x|/scale), and transforming then inverting (and the other way '
  'around) returns the input up to rounding; the transform is odd, monotone, fixes zero and never increases magnitude, elementwise for any shape, '
  'compiled or not. User-defined transforms keep their two functions, and unpacking gives (transform, inverse).',
  'inputs', 'all scales and inputs', 'The test covers one scale and one vector.',
  'coax/value_transforms', ['LogTransform @ coax/value_transforms/_log_transform.py'], 'property-based round-trip testing', SEARCH)

P('P12', 'Preprocessors and synthetic samples match their spaces',
  'For every space the default preprocessor turns a single element or a batch into the documented representation with a leading batch axis (one-hot for discrete, '
  'clipped array for boxes, component-wise for composites), the same when compiled; safe sampling yields bounded-magnitude elements of the space, determined by '
  'the seed. Comparing preprocessors returns true exactly if all of them give the same output on samples of the space, and synthetic transition batches '
  'have the requested size, elements of the right spaces and valid scalar fields.',
  'inputs,configurations', 'all spaces, elements, batch sizes and seeds', 'Nested, integer-valued, off-centre and unbounded spaces are not tested.',
  'coax/utils/_array.py', ['default_preprocessor @ coax/utils/_array.py', 'safe_sample @ coax/utils/_array.py', 'check_preprocessors @ coax/utils/_array.py',
                           'get_transition_batch @ coax/utils/_array.py'],
  'property-based differential testing', SEARCH)

P('P13', 'Array and pytree helpers compute what they document',
  'Argmax/argmin return an index of an extreme value along the given axis for any shape and numeric dtype, breaking ties uniformly at random from the key. '
  'Adding/removing batch axes, stacking, flattening, gradient diagnostics, unvectorising, frame differencing, two-sided relu, clipped '
  'logit, dict merging (warning on overlap), parameter sharing by weighted average and array validation all equal their documented definition on every pytree.',
  'inputs', 'all arrays, axes, dtypes, pytrees and keys', 'The helpers are tested on a few fixed arrays.',
  'coax/utils/_array.py', ['argmax/argmin @ coax/utils/_array.py', 'unvectorize @ coax/utils/_array.py', 'sync_shared_params @ coax/utils/_array.py'],
  'property-based differential testing', SEARCH)

P('P14', 'Value and reward functions evaluate the forward pass they were given',
  'For every observation space, action space, type-1 or type-2 forward pass, value transform and custom preprocessor, calling a state-value, '
  'action-value or reward function returns the inverse-transformed forward pass on the preprocessed input, and the vector of values of all discrete '
  'actions agrees with the values of the single actions. The batched type-1 and type-2 forward passes compute the same, row by row, with exactly the parameters, '
  'function state and training flag they are given; evaluation never changes the stored parameters or state, and forward passes with a wrong signature, '
  'output shape or dtype, and values of all actions of a non-discrete space, are refused with an error.',
  'configurations,inputs', 'all spaces, model types, transforms, preprocessors, parameters, states, inputs and batch sizes',
  'The tests check shapes; mixing up rows, actions, flags or transforms keeps all shapes intact.',
  'coax/_core', ['Q.function_type1/function_type2 @ coax/_core/q.py', 'V.__call__ @ coax/_core/v.py', 'BaseFunc @ coax/_core/base_func.py'],
  'property-based differential testing against a numpy evaluation of the forward pass', SEARCH + 'Linear forward passes with a state counter and a training offset.')

P('P15', 'Policies act, sample and report probabilities as parametrised',
  'For every observation and action space a policy\'s distribution parameters are its forward pass on the preprocessed observation, its mode and mean are the greedy '
  'action, and its sampled actions are elements of the action space drawn with the parametrised probabilities, determined by the random seed. '
  'The reported log-propensity is the log-probability of the (raw) action under those parameters, batched sampling is row-wise consistent with '
  'the parameters it is given, sampling never changes parameters or state, and forward passes that do not fit the action space are refused.',
  'configurations,inputs', 'all spaces, parameters, seeds and observations',
  'The tests check shapes; wrong probabilities, log-propensities or row mix-ups are invisible to them.',
  'coax/_core', ['PolicyMixin @ coax/_core/policy.py', 'BaseStochasticFuncType2 @ coax/_core/base_stochastic_func_type2.py'],
  'property-based differential testing against numpy formulas, plus 9-sigma frequency tests',
  SEARCH + 'Known finding: for discrete components the reported log-propensity is that of the relaxed (Gumbel-softmax) variate.')

P('P16', 'Distributional value functions and dynamics models are self-consistent',
  'For every space, model type, value transform and preprocessor, stochastic value, reward and transition models use their forward pass on the preprocessed '
  'input as distribution parameters; their mean (and, where it is unambiguous, mode and samples) is the one these parameters describe, mapped '
  'back through the inverse value transform and into the right space, per action and for all discrete actions alike, and deterministic transition models return the post-processed forward pass. '
  'The composite successor-state q-function equals r(s,a) + gamma*v(s\') for every combination of model kinds; evaluation never changes parameters or state and ill-fitting forward passes or value ranges are refused.',
  'configurations,inputs', 'all kinds of models, spaces, model types, transforms, parameters and inputs',
  'The tests check shapes only.',
  'coax/_core', ['StochasticQ @ coax/_core/stochastic_q.py', 'StochasticV @ coax/_core/stochastic_v.py', 'TransitionModel @ coax/_core/transition_model.py',
                 'SuccessorStateQ @ coax/_core/successor_state_q.py'],
  'property-based differential testing against numpy formulas', SEARCH)

P('P17', 'Parameters, copies, soft updates and seeds of function approximators',
  'Along every history of copying, assigning, soft-updating and evaluating function approximators, parameters and function state change only by an assignment or soft update of '
  'that very object: copies (shallow or deep) start equal and never influence each other, and a soft update with coefficient tau gives exactly (1-tau)*old + tau*other for parameters and state. '
  'Assignments of a different tree structure are refused without effect, and the same seed gives the same initial parameters and the same sequence of samples.',
  'histories', 'all histories, kinds of approximators, parameters, tau and seeds', 'Aliasing shows only after a particular order of copies and updates.',
  'coax/_core', ['BaseFunc.copy/soft_update/params @ coax/_core/base_func.py', 'CopyMixin @ coax/_base/mixins.py', 'RandomStateMixin @ coax/_base/mixins.py'],
  'stateful property-based testing against a model of independent parameter stores', SEARCH)

P('P18', 'Value-based and random policies follow their definition',
  'For every q-function (deterministic or distributional, type 1 or 2, with any value transform), parameters and observation, an epsilon-greedy policy picks a greedy action with '
  'probability 1-epsilon and otherwise any action uniformly (exact ties sharing the greedy mass), a Boltzmann policy has probabilities softmax(q/temperature), and '
  'a random policy is uniform; modes, distribution parameters, log-propensities and sampled frequencies agree with those probabilities. Changes of epsilon, temperature or of the parameters of the '
  'q-function take effect immediately, and anything but a q-function of a discrete action space is refused.',
  'configurations,inputs', 'all q-functions, parameters, observations, epsilons and temperatures', 'Tests check shapes for one setting.',
  'coax/_core', ['EpsilonGreedy/BoltzmannPolicy @ coax/_core/value_based_policy.py', 'RandomPolicy @ coax/_core/random_policy.py'],
  'property-based differential testing plus 9-sigma frequency tests', SEARCH)

P('P20', 'TD learning of value functions: target, error, gradient and update',
  'For every TD algorithm (state values, SARSA, expected SARSA, Q-learning, double, soft, clipped and soft-clipped double Q-learning), space, model type, value transform, preprocessor, loss, target '
  'network and batch, the target is transform(R + I*bootstrap) with exactly the documented bootstrap computed from the target networks on the next states, the TD error is minus the derivative of the '
  'loss at the prediction, and the gradient is that of the mean loss with importance weights clipped to [0.1, 10], with no gradient through the target. An update moves only the learned network, by '
  'the optimizer step of that gradient, stores its new function state, leaves target networks, policies and batch untouched, and ill-formed updaters are refused with an error.',
  'configurations,inputs', 'all algorithms, models, parameters, batches and weights', 'The tests only check that parameters change.',
  'coax/td_learning', ['BaseTDLearning @ coax/td_learning/_base.py', 'target_func @ coax/td_learning/_*.py'],
  'property-based differential testing against exact numpy targets and gradients', SEARCH)

P('P21', 'TD learning of value distributions: target, loss and gradient',
  'For categorical and quantile value distributions and every TD algorithm supporting them, the target is the next-state distribution (of the documented next action and target network) transformed by '
  'z -> transform(R + I*inverse(z)), projected onto the atoms for categorical distributions, and the loss is the weighted mean cross-entropy (categorical) or quantile Huber loss (quantile), '
  'with weights clipped to [0.1, 10]. The gradient and the sgd step are those of this loss, without gradient through the target, and only the learned network changes.',
  'configurations,inputs', 'all algorithms, models, parameters, batches and weights', 'The tests only check that parameters change.',
  'coax/td_learning', ['BaseTDLearningQ/V @ coax/td_learning/_base.py', 'affine_transform @ coax/proba_dists'],
  'property-based differential testing against exact numpy targets and gradients', SEARCH)

P('P25', 'Value losses and their gradients equal their formulas',
  'For all targets, predictions, weights and delta, the squared, Huber, binary log (probability and sign/logit form) and quantile-Huber losses return the (sample-weighted) mean of the documented '
  'element-wise loss, averaged over all axes (quantile-Huber: mean over batch and predicted quantiles of the sum over targets). The value stays finite and nonnegative, also for predictions '
  'that are exactly right or huge logits, and the gradient with respect to the predictions is the analytic one, compiled or not.',
  'inputs', 'all arrays, weights and deltas', 'Tests cover a few values of two losses.',
  'coax/value_losses', ['mse/huber/logloss/logloss_sign/quantile_huber @ coax/value_losses/_losses.py'],
  'property-based differential testing against numpy formulas', SEARCH)

P('P19', 'Checkpoints restore every object and training resumes identically',
  'Whatever is saved - to bytes or to a file in a possibly new directory, once or over an older file - loads back as an equal object of the same type, with references inside one checkpoint preserved and independent of the original: '
  'nested containers, arrays, functions, replay buffers, tracers, segment trees, noise, schedules, function approximators, policies and whole learners. '
  'From any point of any history the loaded object continues exactly like the original would (same contents, parameters, optimizer state, random stream, results and errors), in the same or another process, and using one never affects the other.',
  'histories,crash_points', 'all objects, histories before saving and histories after loading', 'State that is lost on saving shows only later, after particular histories.',
  'coax/utils/_misc.py coax/_base/mixins.py', ['dump/load/dumps/loads @ coax/utils/_misc.py', 'RandomStateMixin @ coax/_base/mixins.py'],
  'stateful property-based testing: round-trip at a random point of a history, then differential continuation of original and loaded object', SEARCH)

P('P22', 'Updates follow the optimizer exactly and never corrupt parameters',
  'Along every history of updates, separately computed gradients, applied (user) gradients, optimizer replacements and saved/restored optimizer states, the parameters and optimizer state of every updater are exactly those of the plain optax '
  'recursion on the gradients it reports. An update whose gradients contain nan raises a RuntimeError and changes nothing, incompatible optimizers are refused without effect, and nothing but the learned function and the optimizer state ever changes.',
  'histories', 'all updaters, optimizers and histories', 'The tests make one update with one optimizer.',
  'coax/td_learning/_base.py coax/policy_objectives/_base.py coax/model_updaters/_model_updater.py',
  ['update/grads_and_metrics/apply_grads @ coax/td_learning/_base.py', 'optimizer/optimizer_state @ coax/policy_objectives/_base.py', 'ModelUpdater @ coax/model_updaters/_model_updater.py'],
  'stateful property-based testing against an optax reference recursion', SEARCH)

P('P23', 'Policy objectives: loss, gradient, metrics and update',
  'For every policy, critic(s), parameters, batch and advantages, the loss of the vanilla, clipped (PPO), deterministic and soft policy-gradient objectives is minus the mean over the batch, weighted with importance weights clipped to [0.1, 10], of respectively '
  'adv*log pi(a|s); min(rho*adv, clip(rho, 1-eps, 1+eps)*adv) with rho = pi(a|s)/exp(logP); and the (smallest of the) critic value(s), mapped through the inverse value transform, of the policy\'s mode or of a fresh sample. '
  'The gradient is that of this loss with respect to the policy only, reported metrics (loss, KL to the recorded propensities) match, an update changes only the policy, and ill-formed objectives are refused.',
  'configurations,inputs', 'all objectives, policies, critics, parameters, batches and advantages', 'The tests only check that parameters change.',
  'coax/policy_objectives', ['PolicyObjective @ coax/policy_objectives/_base.py', 'VanillaPG/PPOClip/DeterministicPG/SoftPG @ coax/policy_objectives/_*.py'],
  'property-based differential testing against exact numpy losses and gradients', SEARCH)

P('P24', 'Entropy and KL regularizers act exactly as documented',
  'For every distribution, parameters, priors and coefficient beta, the entropy and KL regularizers evaluate per row to -beta*entropy and beta*KL(current||prior) and report matching metrics; changing beta takes effect immediately. '
  'The (importance-weighted) mean of the term is added to a policy loss, and the term at the current states of the batch is subtracted from the target of TD learning; the n-step entropy regularizer sums discounted entropies over '
  'exactly the requested valid steps within the episode, and unsuitable inputs are refused.',
  'configurations,inputs', 'all regularizers, distributions, coefficients, parameters and batches', 'The tests check that updates run.',
  'coax/regularizers', ['EntropyRegularizer @ coax/regularizers/_entropy.py', 'KLDivRegularizer @ coax/regularizers/_kl_div.py', 'NStepEntropyRegularizer @ coax/regularizers/_nstep_entropy.py',
                        'target_func @ coax/td_learning/_base.py'],
  'property-based differential testing against numpy formulas', SEARCH)

P('P26', 'Model learning: loss, gradient and update of dynamics models',
  'For every reward function and transition model, value transform, loss and batch, the model updater\'s loss is the mean of the chosen loss between the prediction for (s, a) and the observed (transformed) reward or the preprocessed next observation, with '
  'importance weights clipped to [0.1, 10], and its gradient is exactly that of this loss. An update moves only the model, by the optimizer step, stores its new function state and reports the loss; anything but a dynamics model is refused.',
  'configurations,inputs', 'all dynamics models, losses, parameters and batches', 'The tests check that parameters change.',
  'coax/model_updaters', ['ModelUpdater @ coax/model_updaters/_model_updater.py'],
  'property-based differential testing against exact numpy losses and gradients', SEARCH + 'Stochastic models are checked at nearly deterministic parameters.')

P('P27', 'Environment wrappers translate actions and observations exactly',
  'For every bounded box action space, the wrapper to unbounded reals passes on hi - (hi-lo)*sigmoid(-a), always inside the box, and the wrapper to discrete bins passes on a seeded, uniform draw from the chosen bin, the bins splitting each axis evenly and together covering the box; the '
  'original action is recorded in the info. Frame stacking always shows the last n observations (the first one replicated on reset), and the meta-policy environment lets the selected arm act on the latest observation and records its '
  'action and log-propensity; rewards, termination, reset arguments and infos pass through unchanged and invalid actions or settings are refused.',
  'histories,inputs', 'all spaces, settings and histories of resets and steps', 'Edge actions, bin edges and restarts in mid-episode are not tested.',
  'coax/wrappers', ['BoxActionsToReals/BoxActionsToDiscrete @ coax/wrappers/_box_spaces.py', 'FrameStacking @ coax/wrappers/_frame_stacking.py', 'MetaPolicyEnv @ coax/wrappers/_meta_policy.py'],
  'model-based property testing with scripted environments', SEARCH)

P('P28', 'The training monitor counts, averages, logs and restores exactly',
  'Along every history of resets, steps, recorded metrics, saved and restored counters, checkpoint files and pickling: T counts every reset and step, ep the resets, t and G the steps and rewards of the current episode, and the smoothed averages, the info entry and the per-episode means of recorded metrics follow their documented rules. '
  'A periodic trigger fires exactly once per multiple of the given number of steps or episodes that is reached; each ended episode writes one log line and its scalars and an even sample of its actions to tensorboard at step T, and restoring counters brings back everything, including the tensorboard directory, while a snapshot never changes afterwards.',
  'histories', 'all histories of the monitored environment and its checkpoints', 'Counters and averages depend on the whole history; the tests cover single calls.',
  'coax/wrappers/_train_monitor.py', ['TrainMonitor @ coax/wrappers/_train_monitor.py', 'StreamingSample @ coax/wrappers/_train_monitor.py'],
  'stateful model-based property testing, with tensorboard events captured in memory', SEARCH)

P('P29', 'Connect Four follows the rules of the game',
  'Along every history of moves, resets, saved and restored positions, discs fall to the lowest free row of the chosen column, players alternate, and the game ends with reward 1 exactly when the player completes four in a row horizontally, vertically or diagonally, and with reward 0 exactly '
  'when the board is full without that. Observations show the disc layers from the perspective of the player to move together with the columns that can still be played; moves after the end, unknown actions and full columns are refused without effect, a position\'s identifier restores exactly that position, and rendering shows the board.',
  'histories', 'all move histories', 'The tests play a handful of fixed games.',
  'coax/envs/_connect_four.py', ['ConnectFourEnv @ coax/envs/_connect_four.py'], 'stateful model-based property testing against an independent implementation of the rules', SEARCH)

P('P30', 'Schedules, exploration noise and quantile fractions follow their formulas',
  'For all steps and arguments a stepwise linear schedule interpolates linearly between its steps, hits them exactly and is constant outside, and refuses ill-ordered or ill-typed steps. Ornstein-Uhlenbeck noise follows x <- x - theta*(x - mu) + sigma*eps with independent standard-normal eps '
  'determined by the seed, starts (again after a reset) from mu, and returns the action plus noise clipped to the given bounds. Quantile fractions are the evenly spaced ones, or random increasing sequences in [0, 1] that end at 1 and depend on the key and row, and their embedding consists of cos(pi*i*tau) for n consecutive integers i.',
  'inputs,histories', 'all settings, arguments and histories', 'Edges, clipping of one side and resets are not tested.',
  'coax/utils', ['StepwiseLinearFunction @ coax/utils/_array.py', 'OrnsteinUhlenbeckNoise @ coax/utils/_action_noise.py', 'quantiles @ coax/utils/_quantile_funcs.py'],
  'property-based differential testing against reference formulas', SEARCH)

P('P31', 'Distributed workers share buffer, state and metrics through the store',
  'Along every history of operations on a parameter store and its workers, whether they hold it directly or as an actor, buffer additions, samples, priority updates and lengths, metrics, attributes and states always act on the store; pulling or pushing copies the whole state in that direction only. '
  'A rollout traces exactly one complete episode with the policy\'s actions and log-propensities, rollout and learn loops start from the current state of the store, count steps in it and stop exactly at the step limit or reward threshold, sampling waits '
  'until warmup size and batch size are reached, and environments without step limit are refused.',
  'histories,schedules', 'all histories of operations of two workers and a store', 'The tests run a single worker.',
  'coax/_core/worker.py', ['Worker @ coax/_core/worker.py'], 'stateful model-based property testing with an in-process actor stand-in', SEARCH + 'Interleavings at the granularity of whole operations.')

P('P32', 'Episode playback and inspection of environments, functions and objects',
  'Rendering an episode or writing it to a gif plays exactly one episode with the policy, up to its end or the step limit, shows each state in order at the requested size and speed, creates missing folders and leaves a training monitor\'s counters untouched. '
  'Looking up an attribute through nested environments finds the outermost one within the given depth, or the default, or fails. Compiled functions keep signature and results also after pickling, the predicates for value functions, policies, dynamics models and stochastic functions answer correctly for every kind of object, and the pretty-printed form of nested containers shows every element in order, arrays by shape, dtype and range.',
  'inputs,configurations', 'all episodes, nestings, settings and kinds of objects', 'The tests do not cover these helpers or only one setting.',
  'coax/utils', ['render_episode/generate_gif @ coax/utils/_misc.py', 'get_env_attr/has_env_attr @ coax/utils/_misc.py', 'jit @ coax/utils/_jit.py', 'is_* @ coax/utils/_misc.py'],
  'property-based testing with scripted environments against explicit expectations', SEARCH)

P('P33', 'Example data describe exactly the forward pass each function needs',
  'For every class of function approximator, observation and action space, preprocessor, distribution, number of bins, batch size and seed, example_data returns inputs that are batch_size preprocessed elements of the spaces with is_training=True as the static argument, and outputs with exactly the tree structure and shapes '
  'that the forward pass must return (per action for type 2, which is offered exactly for discrete actions), determined by the seed. A forward pass that returns arrays of this form is accepted by the constructor, one of another form is refused with a TypeError, and so is anything that is not a space.',
  'inputs,configurations', 'all classes, spaces, preprocessors, batch sizes and seeds', 'The tests print example data for a handful of spaces with batch size one.',
  'coax/_core', ['example_data @ coax/_core/q.py', 'example_data @ coax/_core/v.py', 'example_data @ coax/_core/transition_model.py', 'example_data @ coax/_core/base_stochastic_func_type1.py', 'example_data @ coax/_core/base_stochastic_func_type2.py'],
  'property-based testing against the representation prescribed by each space', SEARCH)
