"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, note=None, design=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na,
                  note=note, design=design))


prop('P01', 'One-step tabular TD algorithms apply exactly their published update',
     'After one observed transition, Q-learning, double Q-learning, weighted Q-learning, speedy Q-learning, R-learning, '
     'RQ-learning, maxmin Q-learning, SARSA and expected SARSA change only the value of the visited state-action pair, and set it '
     'to the value of their update rule, bootstrapping from the next state unless it is absorbing (a non-absorbing last step still '
     'bootstraps). On-policy variants then execute the very action they evaluated. The k-th update of a pair uses the k-th value of '
     'its learning-rate schedule.',
     ['inputs', 'histories'], 'for every table content, transition, discount, learning rate and random draw',
     'tests compare final weights of one seeded run on one MDP against recorded numbers; they never see most (table, transition) '
     'combinations, ties or an absorbing next state with non-zero values',
     ['mushroom_rl/algorithms/value/td/*.py', 'mushroom_rl/approximators/table.py', 'mushroom_rl/rl_utils/parameters.py'],
     [('per-algorithm update', 'mushroom_rl/algorithms/value/td/q_learning.py and siblings: _update')],
     design='One `fit` of the real agent on an arbitrary table, transition, discount and rate (two states, two or three actions, random draws symbolic); oracle = the published update written over the inputs; all other entries unchanged. Multi-step histories cover schedules. The posterior width of weighted Q-learning is decided by which action the symbolic noise selects.')

prop('P02', 'Eligibility-trace algorithms follow their recursion within episodes',
     'Q(lambda), SARSA(lambda) with replacing or accumulating traces, SARSA(lambda) with a differentiable approximator and true online '
     'SARSA(lambda) produce, after every transition, exactly the values of their published recursion. Traces and other per-episode '
     'memory start from zero at the beginning of every episode, and an absorbing next state contributes no value.',
     ['inputs', 'histories'], 'for every initial table or weight vector, every sequence of transitions, discount, rate and lambda',
     'tests run one seeded trajectory; the interplay of trace decay, repeated visits and episode boundaries is sampled once',
     ['mushroom_rl/algorithms/value/td/q_lambda.py', 'mushroom_rl/algorithms/value/td/sarsa_lambda.py',
      'mushroom_rl/algorithms/value/td/sarsa_lambda_continuous.py', 'mushroom_rl/algorithms/value/td/true_online_sarsa_lambda.py',
      'mushroom_rl/rl_utils/eligibility_trace.py'],
     [('trace update and decay', '_update'), ('reset at episode start', 'episode_start')],
     design='Sequences of 2-3 symbolic transitions through `fit`/`episode_start`; oracle = the recursion of the paper executed alongside.')

prop('P03', 'The agent-environment loop delivers each transition exactly once, in order',
     'Learning or evaluating for a requested number of steps or episodes (or from given initial states) performs exactly that much '
     'interaction, resetting the environment only at the start and after an episode end, where an episode ends when the environment '
     'reports an absorbing state or the horizon is reached. The agent is fitted exactly after every requested number of steps or '
     'episodes with precisely the transitions collected since the previous fit, in order and unaltered; evaluation never fits and '
     'returns the complete history with its step information. Every observation passes once through each preprocessor before it '
     'reaches policy and dataset, and the policy state is threaded through an episode and renewed at its start.',
     ['histories', 'configurations'], 'for every sequence of observations, rewards and absorbing flags and every combination of '
     'amounts and fit periods within the bounds',
     'the tests check a handful of counts on one environment with fixed episode structure',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/_impl/core_logic.py', 'mushroom_rl/core/agent.py', 'mushroom_rl/core/dataset.py'],
     [('run loop', 'mushroom_rl/core/core.py:Core._run'), ('counters', 'mushroom_rl/core/_impl/core_logic.py:CoreLogic')],
     design="Real `Core` driven with a recorder environment, policy and agent; every absorbing flag, observation and reward symbolic; the oracle is the partition of the environment's own log. Recording: the frames handed to the recorder are those rendered, once per step.")

prop('P04', 'The vectorized loop keeps the histories of parallel environments apart',
     'Running several environments in parallel performs exactly the requested number of episodes (or of steps, up to the last parallel '
     'step), resetting and stepping each environment only when it is active. Each fit and each evaluation result contains, environment '
     'after environment, exactly the transitions of that environment since the previous fit, in order, each block closed by a last '
     'flag; with fits per episodes only complete episodes are used. Policy states, episode parameters and preprocessing stay aligned '
     'with the environment and episode they belong to.',
     ['histories', 'configurations'], 'for every pattern of episode endings across the parallel environments within the bounds',
     'the test uses one random environment and only asserts dataset lengths',
     ['mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/_impl/vectorized_core_logic.py', 'mushroom_rl/core/dataset.py'],
     [('run loop', 'mushroom_rl/core/vectorized_core.py:VectorCore._run'),
      ('active mask', 'mushroom_rl/core/_impl/vectorized_core_logic.py:VectorizedCoreLogic.get_mask'),
      ('flattening', 'mushroom_rl/core/dataset.py:VectorizedDataset.flatten')],
     design='As P03 with `VectorCore` and 2-3 environments; the oracle is rebuilt from per-environment logs. Includes the step information of every step in fits and evaluations, evaluation from given initial states and recording.')

prop('P05', 'A dataset is a faithful record of the transitions appended to it',
     'Reading a dataset (columns, iteration, parsing, indexing, slices, index arrays, first episodes) shows exactly the appended '
     'transitions with their policy states and step information, in order and unaltered, whatever the back end. Views, copies, '
     'concatenations, cleared and re-used datasets and datasets built from arrays contain exactly the transitions they should, and a '
     'copy or a later append never changes another dataset. Random selection returns stored transitions only.',
     ['inputs', 'histories'], 'for every transition content, slice, index array and pattern of last flags within the bounds, with '
     'numpy, torch and list back ends, with and without policy state',
     'tests read a couple of columns of one concrete dataset; combinations of views, concatenation and reuse are not sampled',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/_impl/*_dataset.py'],
     [('storage', 'mushroom_rl/core/_impl/numpy_dataset.py, torch_dataset.py, list_dataset.py'),
      ('views', 'mushroom_rl/core/dataset.py:Dataset.get_view, __getitem__, __add__')],
     design='Datasets of up to 4 symbolic transitions built through `append`; every public read operation compared element-wise with '
            'the list of appended transitions; index vectors and slices are enumerated symbolically.')

prop('P06', 'Episode structure, returns and metrics follow from the recorded transitions',
     'Episodes are the maximal runs closed by a last flag (the trailing incomplete one included where documented). Episode lengths, '
     'number of episodes, initial states, undiscounted and discounted returns and the min/max/mean/median metrics equal their '
     'definition on the recorded rewards, with the discount of the environment, also on views and concatenations. Asking for them '
     'does not alter the dataset.',
     ['inputs', 'histories'], 'for every reward sequence, pattern of last flags and discount within the bounds',
     'tests check one episode layout with concrete rewards',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/utils/episodes.py'],
     [('returns', 'mushroom_rl/core/dataset.py:Dataset.compute_J, discounted_return, undiscounted_return'),
      ('episodes', 'mushroom_rl/core/dataset.py:Dataset.episodes_length, n_episodes, get_init_states')],
     design='Datasets of 4 (thorough 7) transitions with symbolic rewards and last flags; the oracle splits the appended list.')

prop('P07', 'Step information stays aligned with the steps that reported it',
     'After parsing (once, repeatedly, or between appends) every field of the step information, nested fields included, has one row per '
     'step with the value reported at that step. Flattening vectorized information, views, copies and concatenation keep that '
     'alignment and never alter the source. A step lacking a field is marked as missing there and shifts nothing.',
     ['inputs', 'histories'], 'for every content, mask, slice, index pair and order of parsing within the bounds',
     'the tests use constant-shaped concrete dictionaries and rarely mix parsing, views and concatenation',
     ['mushroom_rl/core/extra_info.py'], [('parsing', 'mushroom_rl/core/extra_info.py:ExtraInfo.parse'),
                                          ('flatten', 'mushroom_rl/core/extra_info.py:ExtraInfo.flatten')],
     design='`ExtraInfo` filled with symbolic scalar and nested vector fields (numpy and torch; list of dicts and dict of lists) and '
            'compared with the rows reported.')

prop('P08', 'The replay memory returns exactly the most recent transitions, n-step correct',
     'A replay memory of capacity N holds exactly the last N transitions added (across wrap-around), reports its size and '
     'initialisation accordingly, and every sample is one stored transition, complete and unmixed, each stored transition being '
     'reachable. With n-step returns, a stored transition spans n consecutive steps of one episode: discounted reward sum, first '
     'state and action, last next state and flags, and the caller\'s dataset is not modified.',
     ['inputs', 'histories'], 'for every transition content, sequence of additions and random draw within the bounds',
     'tests add one fixed batch and compare recorded values',
     ['mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/core/dataset.py'],
     [('ring buffer', 'mushroom_rl/rl_utils/replay_memory.py:ReplayMemory.add'),
      ('n-step', 'mushroom_rl/core/dataset.py:Dataset.n_step_return')],
     design='Real memories with capacity 2-4, several additions of symbolic transitions; sampling indices symbolic; membership and '
            'reachability of each stored transition are solver queries.')

prop('P09', 'Sequence replay returns contiguous histories of a single episode',
     'Every sequence sampled from a sequence replay memory ends in a stored transition and consists of the consecutive transitions '
     'that precede it in the same episode, oldest first, at most the truncation length, with their lengths, previous actions and zero '
     'padding. It also holds after the buffer wrapped around.',
     ['inputs', 'histories'], 'for every content, pattern of episode ends and random draw within the bounds',
     'tests run one recurrent agent for a few steps',
     ['mushroom_rl/rl_utils/replay_memory.py'], [('sequences', 'mushroom_rl/rl_utils/replay_memory.py:SequenceReplayMemory.get')],
     design='Memories of 3-4 with up to 5 symbolic transitions, truncation 2-3; each sampled sequence compared with the history.')

prop('P10', 'Prioritised replay samples in proportion to priority with correct weights',
     'The priority tree always totals the stored priorities, and a draw returns the stored transition whose cumulative priority '
     'interval contains it, stratified over a batch; never an empty slot. Importance weights are p^-beta normalised by the largest '
     'of the batch, updated priorities are (|error| + eps)^alpha of the sampled transitions only, and new transitions enter with the '
     'maximum priority.',
     ['inputs', 'histories'], 'for every content, priority vector, sequence of additions and random draw within the bounds',
     'tests run seeded agents for a few updates; ties, zero-width intervals and wrap-around are not sampled',
     ['mushroom_rl/rl_utils/replay_memory.py'], [('sum tree', 'mushroom_rl/rl_utils/replay_memory.py:SumTree'),
                                                 ('weights', 'mushroom_rl/rl_utils/replay_memory.py:PrioritizedReplayMemory.get')],
     design='Trees and memories of capacity 2-4 with symbolic priorities and draws; alpha and beta in {1, 2} so that powers are exact.')


prop('P11', 'Deep Q-learning regresses on the correct bootstrapped targets',
     'Each fit of DQN, Double DQN, Averaged DQN and Maxmin DQN (uniform or prioritised replay) regresses the online network on '
     'reward plus discounted value of the next state under the algorithm\'s rule (maximum of the target network, online arg-max '
     'evaluated by the target network, mean or minimum over the target ensemble), with no bootstrap from absorbing next states and '
     'with clipped rewards if requested. Target networks start as copies and are replaced by the online network exactly at the '
     'update frequency. Prioritised variants weight the samples and write back the absolute TD errors of the sampled transitions.',
     ['inputs', 'histories'], 'for every network function, transition, discount and random draw within the bounds',
     'tests compare final weights of one seeded training run with recorded numbers',
     ['mushroom_rl/algorithms/value/dqn/*.py', 'mushroom_rl/approximators/*.py'],
     [('targets', 'mushroom_rl/algorithms/value/dqn/abstract_dqn.py and subclasses: _next_q')],
     design='`fit` of the real agents on networks given by a symbolic table over the states of the batch, i.e. an arbitrary function; '
            'the arguments of the regression are compared with the published targets.')

prop('P12', 'Distributional, dueling and noisy networks implement their definitions',
     'Categorical DQN and Rainbow fit the next-state distribution shifted, discounted, clipped and projected on the fixed support '
     '(mass and expectation preserved within it; a point mass at the reward for absorbing next states), and quantile DQN the '
     'shifted quantiles, both at the action greedy in expectation and with rewards clipped if requested. The networks output the expectation of their distribution as '
     'action value, the dueling head combines value and advantages, and noisy layers add the factorised noise.',
     ['inputs'], 'for every network output, weight, transition, noise and discount within the bounds',
     'tests compare final weights of one seeded training run with recorded numbers',
     ['mushroom_rl/algorithms/value/dqn/categorical_dqn.py', 'mushroom_rl/algorithms/value/dqn/rainbow.py',
      'mushroom_rl/algorithms/value/dqn/quantile_dqn.py', 'mushroom_rl/algorithms/value/dqn/dueling_dqn.py',
      'mushroom_rl/algorithms/value/dqn/noisy_dqn.py'],
     [('projection', 'mushroom_rl/algorithms/value/dqn/categorical_dqn.py:CategoricalDQN.fit')],
     design='The real agents and networks with symbolic parameters; 2-3 actions, 2-4 atoms or quantiles; the projection is compared '
            'with the triangular-kernel definition, and the network outputs with their formulas. Rainbow and noisy networks are also evaluated as networks (values, probabilities, selected actions).')

prop('P13', 'Batch value iteration fits the Bellman targets of the whole batch',
     'FQI, Double FQI and Boosted FQI fit their regressor, at every iteration, on all the transitions of the batch with target reward '
     'plus discounted next value (zero for absorbing next states; evaluated by the other half for Double FQI; the residual for '
     'Boosted FQI), starting from the rewards. LSPI solves the least-squares fixed point of the batch until the weights converge.',
     ['inputs', 'histories'], 'for every batch content, regressor outcome and discount within the bounds',
     'tests compare the weights after one seeded run with recorded numbers',
     ['mushroom_rl/algorithms/value/batch_td/*.py'], [('targets', 'mushroom_rl/algorithms/value/batch_td/fqi.py:FQI.fit')],
     design='Real agents with a regressor that records its targets and predicts arbitrary symbolic values; LSPI with symbolic data over '
            'fixed features, its linear system checked against the normal equations.')

prop('P14', 'Advantage and return estimators equal their definitions across episode ends',
     'The one-step, Monte Carlo and generalised advantage estimators return, for every transition, the definition computed on that '
     'transition\'s own episode, with regression targets consistent with the advantages: nothing leaks over an absorbing state '
     '(or, for the generalised estimator, over any episode end), and the last value is bootstrapped from the next state unless it is '
     'absorbing. The recurrent variant of the generalised estimator agrees with the plain one.',
     ['inputs', 'histories'], 'for every reward, value function, pattern of episode ends, discount and lambda up to 4 transitions',
     'tests compare recorded numbers on one or two trajectories',
     ['mushroom_rl/rl_utils/value_functions.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py'],
     [('estimators', 'mushroom_rl/rl_utils/value_functions.py')],
     design='The real functions on symbolic rewards, values and flags; oracle = the forward definition per transition.')

prop('P15', 'DDPG, TD3 and SAC follow their published actor and critic updates',
     'Each fit of DDPG, TD3 and SAC regresses the critics on reward plus discounted target-network value (minimum of two critics for '
     'TD3 and SAC; clipped smoothing noise on a clipped action for TD3; entropy bonus of a fresh action for SAC), without bootstrap '
     'from absorbing next states, row by row of the batch. The actor ascends the online critic at its own actions every requested '
     'number of fits, the temperature follows its loss, and target networks start as copies and move by the soft update.',
     ['inputs', 'histories'], 'for every actor and critic weight, transition, noise, discount and soft-update rate within the bounds',
     'tests compare final weights of one seeded training run with recorded numbers',
     ['mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py',
      'mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py'],
     [('critic targets', '_next_q'), ('actor loss', '_loss'), ('soft update', 'deep_actor_critic.py:DeepAC._update_target')],
     design='Real agents on networks with arbitrary symbolic outputs that are re-drawn at every optimiser step; recorded losses and '
            'regression targets compared with the published ones; up to 3 fits, batches of 1 and 2. Gradient clipping and the temperature step are checked on a recorded optimiser.')

prop('P16', 'A2C, PPO and TRPO optimise their published objectives on the fitted batch',
     'Each fit of A2C, PPO and recurrent PPO regresses the critic once on the returns of the batch (discounted returns for A2C, '
     'lambda returns otherwise) and optimises the policy on the published loss: the policy gradient with the critic\'s advantage for '
     'A2C; for PPO the clipped surrogate with advantages normalised over the batch, against the log-probabilities of the policy that '
     'collected the data; both minus the entropy bonus, visiting every transition once per epoch. Recurrent PPO presents each '
     'transition with the preceding transitions of its own episode only. TRPO takes the first halved natural-gradient step that '
     'improves the surrogate within 1.5 times the allowed divergence, or leaves the policy unchanged.',
     ['inputs', 'histories'], 'for every log-probability, entropy, critic, reward, episode end, discount and gradient within the bounds',
     'tests compare final weights of one seeded training run with recorded numbers',
     ['mushroom_rl/algorithms/actor_critic/deep_actor_critic/a2c.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py',
      'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py'],
     [('clipped surrogate', 'PPO._update_policy'), ('sequences', 'PPO_BPTT._transform_to_sequences'), ('line search', 'TRPO._line_search')],
     design='Real agents on a policy and critic whose outputs are arbitrary symbolic values per state, re-drawn at every optimiser step; '
            'recorded losses compared with the published ones; 1-4 transitions, 1-2 epochs. For TRPO the divergence and log-probabilities '
            'are arbitrary for every weight vector tried and the curvature is supplied through torch.autograd.grad. Gradient clipping and the order of trust-region attempts are included.')

prop('P17', 'Value-based policies have the documented action probabilities and draw from them',
     'Epsilon-greedy gives every action epsilon / n plus an equal share of 1 - epsilon to each maximiser of the current action values; '
     'Boltzmann gives probabilities proportional to exp(beta Q); Mellowmax is the Boltzmann policy whose expected value is the '
     'mellowmax of the action values. Probabilities sum to one, the probability of one action agrees with the vector, and the actions '
     'drawn follow exactly those probabilities. Drawing advances a scheduled epsilon by one for that state, evaluating probabilities '
     'does not.',
     ['inputs', 'schedules'], 'for every table of action values (ties included), epsilon, temperature and random outcome within the bounds',
     'tests check a handful of draws under fixed seeds', ['mushroom_rl/policy/td_policy.py'],
     [('epsilon greedy', 'mushroom_rl/policy/td_policy.py:EpsGreedy'), ('boltzmann', 'mushroom_rl/policy/td_policy.py:Boltzmann')],
     design='Real policies over a real Table with symbolic values. The law of draw_action is computed exactly: every random draw is '
            'enumerated with its (symbolic) probability, so a biased draw is a failed equation rather than an unlikely sample. Scheduled temperatures advance like scheduled epsilons.')

prop('P18', 'Continuous parametric policies: density, draws, gradient and weights agree',
     'For the Gaussian policies (fixed, diagonal, state-dependent standard deviation or its logarithm) the density is that of the stated '
     'Gaussian, drawn actions are its mean plus scaled noise, diff_log is the gradient of the log-density with respect to exactly the '
     'weight vector that get_weights returns, and setting weights and reading them back is the identity. Deterministic policies play '
     'their regressor; clipped noise stays within the limits; Ornstein-Uhlenbeck noise follows its recursion through the policy state '
     'and restarts at its initial value every episode; a vector policy applies the i-th policy to the i-th environment.',
     ['inputs', 'histories'], 'for every weight, state, action, covariance and noise within the bounds',
     'tests compare with numerical gradients or recorded numbers at a few points',
     ['mushroom_rl/policy/gaussian_policy.py', 'mushroom_rl/policy/noise_policy.py', 'mushroom_rl/policy/deterministic_policy.py',
      'mushroom_rl/policy/vector_policy.py'],
     [('gradients', 'mushroom_rl/policy/gaussian_policy.py'), ('noise', 'mushroom_rl/policy/noise_policy.py')],
     design='Real policies over real linear regressors with symbolic weights, states and actions; density and gradient compared with the '
            'closed form, drawn actions with mean plus standard deviation times the symbolic noise. Vector policies are reset policy by policy.')

prop('P19', 'Torch policies: log-probability, entropy, draws and weights agree',
     'GaussianTorchPolicy, BoltzmannTorchPolicy and the SAC policy return the log-density (log-probability) of exactly the '
     'distribution they draw from, row by row of a batch: Gaussian with learned standard deviation, categorical with probabilities '
     'proportional to exp(beta logits), and the tanh-squashed Gaussian scaled to the action limits with its change-of-variable term. '
     'Entropies match the distributions, actions of the SAC policy stay within the limits, and weights round-trip.',
     ['inputs'], 'for every network output, weight, action and noise within the bounds',
     'tests compare recorded numbers for one seeded network', ['mushroom_rl/policy/torch_policy.py',
      'mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py', 'mushroom_rl/utils/torch.py'],
     [('torch policies', 'mushroom_rl/policy/torch_policy.py'), ('squashed Gaussian', 'SACPolicy.compute_action_and_log_prob_t')],
     design='Real policies on networks with arbitrary symbolic outputs per state; 2 states per batch, 1-2 action dimensions or 2-3 actions; '
            'the law of discrete draws is computed exactly.')

prop('P20', 'Schedules and step-size parameters',
     'A parameter returns its documented value as a function of how often its own entry was used: constant, linear down or up to the '
     'threshold and never past it, decaying as a power of the count, or driven by the variance of the targets given to that entry '
     '(over all of them or over the last window). Values respect the given limits, the entries of a table are independent, a call or '
     'an update advances the entry by one and reading a value advances nothing.',
     ['inputs', 'histories'], 'for every value, limit, target and sequence of entries within the bounds',
     'no test exercises the parameters beyond constant ones', ['mushroom_rl/rl_utils/parameters.py', 'mushroom_rl/rl_utils/variance_parameters.py'],
     [('schedules', 'mushroom_rl/rl_utils/parameters.py'), ('variance', 'mushroom_rl/rl_utils/variance_parameters.py')],
     design='Real parameters with symbolic values, limits and targets, called 2-8 times on arbitrary entries of a 2x2 table or a scalar; '
            'each returned value is compared with the closed form of the entry\'s own count or history. VarianceDecreasingParameter '
            'without exponential is decided for tol = 1 (see the known finding).')

prop('P21', 'Numpy gradient optimizers take the documented step and leave their inputs alone',
     'SGD moves along the gradient (against it when minimizing) by the current step size, advancing a scheduled step size once per '
     'step; Adam uses bias-corrected first and second moments of the gradients seen so far; the adaptive optimizer uses the step length '
     'that makes the (natural) gradient step fill its trust region. The parameter and gradient arrays of the caller are not modified.',
     ['inputs', 'histories'], 'for every parameter vector, gradient sequence and step size within the bounds',
     'tests only see the optimizers through recorded weights of one run', ['mushroom_rl/rl_utils/optimizers.py'],
     [('optimizers', 'mushroom_rl/rl_utils/optimizers.py')],
     design='Real optimizers on symbolic parameter and gradient vectors for 1-3 consecutive steps, compared with the closed form.')

prop('P22', 'Running statistics and observation preprocessors',
     'The running mean and standard deviation are those of the data received (with one prior sample of mean 0 and variance 1), however '
     'the data is split into batches; the exponential and windowed averages cover exactly the observations received, in order; reset '
     'starts over. The standardizing preprocessor returns the clipped standardized observation; the min-max preprocessor scales bounded '
     'components by their limits and standardizes the others, for single observations and batches. numpy and torch agree, and '
     'neither the data nor the observations of the caller are modified.',
     ['inputs', 'histories'], 'for every observation history, batch split and observation within the bounds',
     'tests compare numpy and torch on one environment', ['mushroom_rl/rl_utils/running_stats.py', 'mushroom_rl/rl_utils/preprocessors.py'],
     [('statistics', 'mushroom_rl/rl_utils/running_stats.py'), ('preprocessors', 'mushroom_rl/rl_utils/preprocessors.py')],
     design='Real classes on both back ends, symbolic observations of 1-3 dimensions in batches of 1-3; moments compared with the '
            'closed form over all the data.')

prop('P23', 'Finite environments follow their transition model',
     'A FiniteMDP draws initial and next states exactly from the given distributions, pays the reward of the transition that happened and '
     'ends exactly in states without outgoing transitions. The chain, grid and taxi generators produce the documented model of their '
     'layout: moves succeed with the given probability, walls and borders block, goals and traps end the episode, passengers are '
     'collected on arrival, rewards are paid on entering the rewarded cells, starts are uniform over the start cells. The grid worlds '
     'move one cell per action, stay inside the grid and end at the goal.',
     ['inputs', 'random outcomes'], 'for every transition model, layout, probability, reward, state, action and random outcome within the bounds',
     'tests compare one seeded random trajectory per environment', ['mushroom_rl/environments/finite_mdp.py', 'mushroom_rl/environments/grid_world.py',
      'mushroom_rl/environments/generators'],
     [('finite MDP', 'mushroom_rl/environments/finite_mdp.py'), ('grid worlds', 'mushroom_rl/environments/grid_world.py'),
      ('generators', 'mushroom_rl/environments/generators')],
     design='Real environments and generators with symbolic probabilities and rewards; the law of reset and step is computed exactly by '
            'enumerating random outcomes with their symbolic probabilities; grid layouts have cells of arbitrary kind (up to 3x3). Defaults of the generators and refusal of unknown cells are included.')

prop('P24', 'Planning solvers solve the problem they are given',
     'Value iteration returns a value that satisfies the Bellman optimality equation up to its tolerance; policy iteration returns a '
     'policy and exactly its value, which no action improves; absorbing states are worth nothing. For linear-quadratic problems V and Q '
     'satisfy the Bellman equations of the linear (or Gaussian) controller in the environment, gradients with respect to the gain are '
     'those of the value, batches are evaluated row by row, and the feedback gain is the optimal move for the cost to go.',
     ['inputs'], 'for every reward, transition model, cost, gain, state and action within the bounds',
     'tests compare one recorded result per solver', ['mushroom_rl/solvers/dynamic_programming.py', 'mushroom_rl/solvers/lqr.py', 'mushroom_rl/environments/lqr.py'],
     [('dynamic programming', 'mushroom_rl/solvers/dynamic_programming.py'), ('linear-quadratic', 'mushroom_rl/solvers/lqr.py')],
     design='Real solvers. Two-state problems with symbolic rewards (and discount); one-dimensional linear systems fully symbolic, '
            'two-dimensional ones with fixed dynamics and symbolic costs, states and actions; the equations are checked, not the numbers.')

prop('P25', 'Continuous environments obey their equations, limits and rewards',
     'One step of the car on hill, cart pole, inverted pendulum and segway integrates the documented equations of motion for one time step '
     'from the current state with the bounded action (plus bounded noise where documented); the ship follows its motion equations and '
     'wins exactly when its path crosses the gate; the LQR environment moves to A x + B u and pays the quadratic cost; the puddle world moves by '
     'the thrust plus bounded noise inside the unit square. Rewards and absorbing flags follow from the state reached as documented, angles '
     'are normalized, velocities bounded, a given initial state is used and not modified, and the observation space has consistent limits. '
     'Angle helpers return the same angle in their range; the car-on-hill solver returns the value of the fastest success or latest failure.',
     ['inputs', 'random outcomes'], 'for every state, action, parameter, noise and integration result within the bounds',
     'tests compare one seeded random trajectory per environment', ['mushroom_rl/environments', 'mushroom_rl/utils/angles.py', 'mushroom_rl/solvers/car_on_hill.py'],
     [('car on hill', 'mushroom_rl/environments/car_on_hill.py'), ('cart pole', 'mushroom_rl/environments/cart_pole.py'),
      ('pendulum', 'mushroom_rl/environments/inverted_pendulum.py'), ('segway', 'mushroom_rl/environments/segway.py'),
      ('ship', 'mushroom_rl/environments/ship_steering.py'), ('puddle world', 'mushroom_rl/environments/puddle_world.py'),
      ('LQR', 'mushroom_rl/environments/lqr.py'), ('angles', 'mushroom_rl/utils/angles.py'), ('solver', 'mushroom_rl/solvers/car_on_hill.py')],
     design='Real environments. The ODE integrator of scipy is replaced by a stand-in that evaluates the derivative at an arbitrary symbolic point '
            'and returns an arbitrary trajectory, so that the equations and the treatment of the result are checked for all of them; sin and cos are '
            'uninterpreted with their bounds and the Pythagorean identity; angles within about 3 turns. What scipy integrates is not checked. '
            'Rotation helpers (scipy Rotation) and the simulators (MuJoCo, PyBullet, gym, ...) are outside. Every episode starts in the documented initial state or range, and both ends of a documented random range must be reachable.')

prop('P26', 'Policy-gradient and classic actor-critic updates follow their definition',
     'REINFORCE and GPOMDP hand the optimizer the likelihood-ratio gradient of the discounted return with the variance-minimizing baseline '
     '(per parameter, per step for GPOMDP; no baseline where the data carries no information); eNAC hands it the least-squares natural '
     'gradient. Only complete episodes of the current fit contribute, the policy receives the optimized weights, and fewer than two '
     'episodes are refused. StochasticAC (discounted and average-reward) and COPDAC-Q apply their critic, trace and actor recursions, do not bootstrap '
     'from absorbing states and restart their traces at every episode.',
     ['inputs', 'histories'], 'for every sequence of episodes, scores, rewards, discount and rates within the bounds',
     'tests compare recorded weights of one seeded run', ['mushroom_rl/algorithms/policy_search/policy_gradient', 'mushroom_rl/algorithms/actor_critic/classic_actor_critic'],
     [('policy gradient', 'mushroom_rl/algorithms/policy_search/policy_gradient'), ('actor-critic', 'mushroom_rl/algorithms/actor_critic/classic_actor_critic')],
     design='Real agents with a policy whose score is an arbitrary symbolic vector (or linear in the weights, for sequences of updates) and an optimizer '
            'that records what it is given; compared with the closed-form gradient or recursion over 1-3 episodes of 1-3 steps.')

prop('P27', 'Black-box policy search and search distributions',
     'Every episode acts with parameters drawn from the search distribution for its own context (the mean in deterministic mode), also with parallel '
     'environments, where only starting environments get new parameters. RWR, REPS and constrained REPS fit the distribution to the episodes in order '
     'with weights exp(beta (J - max J)), where REPS minimizes the dual of its divergence bound; PGPE ascends the score with the variance-minimizing baseline; '
     'ePPO descends the clipped surrogate of the standardized returns with entropy bonus, every episode once per epoch in its own context. Gaussian '
     'distributions sample, evaluate, score, fit (weighted, constrained) and re-parametrize consistently with their mean and covariance.',
     ['inputs', 'histories', 'random outcomes'], 'for every parameter, return, weight, context, mask, random draw and multiplier within the bounds',
     'tests compare recorded parameters of one seeded run without context or parallel environments',
     ['mushroom_rl/algorithms/policy_search/black_box_optimization', 'mushroom_rl/distributions'],
     [('agents', 'mushroom_rl/algorithms/policy_search/black_box_optimization'), ('gaussian', 'mushroom_rl/distributions/gaussian.py'),
      ('torch distributions', 'mushroom_rl/distributions/torch_distribution.py')],
     design='Real agents with a recording distribution of arbitrary samples; real distributions in 1-2 dimensions compared with closed forms. scipy\'s '
            'minimizer is replaced by a stand-in that evaluates objective and gradient at an arbitrary feasible point and returns it. MORE is outside '
            '(eigendecomposition of a regressed matrix), as is convergence of the minimizer.')

prop('P28', 'Feature maps: tilings, polynomials, radial and Fourier bases',
     'A state of a tiling\'s range falls in exactly one tile, the one whose half-open cell contains it, states outside in none; generated tilings cover the '
     'declared range, each state activating one tile per tiling, and Voronoi tiles give the nearest prototype. Polynomial bases are all monomials up to the '
     'degree, each once, on the state scaled to its box; Gaussian and Fourier bases and the grid of centers follow their formulas. Feature vectors '
     'concatenate the bases in order, batches treat every state alike, torch features agree with the formulas for any number of states and bases, and '
     'action features put the state features in the block of the action.',
     ['inputs'], 'for every state, range, center, scale and batch within the bounds',
     'tests compare one recorded feature vector per basis for a few states',
     ['mushroom_rl/features'],
     [('tiles', 'mushroom_rl/features/tiles'), ('bases', 'mushroom_rl/features/basis, mushroom_rl/features/tensors'),
      ('features', 'mushroom_rl/features/features.py, mushroom_rl/features/_implementations')],
     design='Real feature objects executed on symbolic states and symbolic ranges; expected cells, monomials and bases are written from the formulas. '
            'exp and cos are uninterpreted with congruence, so the arguments must agree exactly. The ends of the ranges are also executed at the neighbouring '
            'floating point numbers.')

prop('P29', 'Approximators predict and update as their models define',
     'A table returns the last value written to an entry and changes no other; ensembles combine the predictions of their members (mean, sum, min, max, '
     'chosen members, variance); linear models are the product of weights and features with the matching derivative, least-squares fits reproduce data '
     'they can represent; CMAC averages the weights of the active tiles, moves them toward the target by the learning rate and leaves the others alone. '
     'Regressors over actions predict, fit and differentiate the model of the given action only; single inputs and batches agree; weights set are the '
     'weights read, and eligibility traces accumulate or replace the visited entry only.',
     ['inputs', 'histories'], 'for every content, weight, state, action, target and batch within the bounds',
     'tests check recorded predictions of a few fits',
     ['mushroom_rl/approximators', 'mushroom_rl/rl_utils/eligibility_trace.py'],
     [('table', 'mushroom_rl/approximators/table.py, mushroom_rl/approximators/ensemble.py, mushroom_rl/approximators/ensemble_table.py'),
      ('parametric', 'mushroom_rl/approximators/parametric/linear.py, mushroom_rl/approximators/parametric/cmac.py'),
      ('regressor', 'mushroom_rl/approximators/regressor.py, mushroom_rl/approximators/_implementations')],
     design='Real approximators with symbolic contents, weights, inputs and targets compared with closed forms; the pseudo-inverse of the least-squares fit is '
            'characterised by its normal equations on small systems.')

prop('P30', 'Network training: epochs, minibatches, early stopping, weights',
     'Minibatches of an epoch partition the data: every sample once, in batches of the requested size except the last, inputs and targets kept together. '
     'A fit runs the requested epochs, one optimizer step per minibatch after the gradient of its own loss, on the training part only; with a tolerance it '
     'stops when the (validation) loss has not improved by more than it for the given patience, never past the epochs; sample weights enter as the weighted '
     'mean of the sample losses. Dropout is on during fits only, reinitialisation happens once per fit, the reported loss is the mean of the last epoch, and '
     'weights read are the weights set, in order.',
     ['inputs', 'random outcomes', 'histories'], 'for every shuffling, loss sequence, threshold, weight and split within the bounds',
     'tests run a handful of fits and compare recorded outputs',
     ['mushroom_rl/approximators/parametric/torch_approximator.py', 'mushroom_rl/utils/minibatches.py', 'mushroom_rl/utils/torch.py'],
     [('fit', 'mushroom_rl/approximators/parametric/torch_approximator.py'), ('minibatches', 'mushroom_rl/utils/minibatches.py'),
      ('weights', 'mushroom_rl/utils/torch.py')],
     design='The real training loop with a recording network, optimizer and a loss that returns arbitrary symbolic values; every permutation drawn by the '
            'shuffling is explored.')

prop('P31', 'Saved and loaded objects behave as the originals',
     'Loading what was saved gives an object of the same type that predicts, acts, samples and keeps learning exactly as the saved one: parameters and '
     'schedules, running statistics and preprocessors, optimizers, approximators, policies, distributions, datasets, replay memories and agents of every '
     'family, including the links between an agent\'s policy, its approximators and their optimizers. Full saves keep replay memories and everything marked '
     'so; partial saves leave these out and start empty. Loaded and saved objects do not share state, can be saved again, and missing files are errors.',
     ['inputs', 'histories'], 'for every content, weight, step before saving and after loading within the bounds',
     'tests compare attributes of one object per class and never use the loaded object',
     ['mushroom_rl/core/serialization.py', 'mushroom_rl/core', 'mushroom_rl/rl_utils', 'mushroom_rl/policy', 'mushroom_rl/approximators', 'mushroom_rl/algorithms'],
     [('serialization', 'mushroom_rl/core/serialization.py'), ('datasets', 'mushroom_rl/core/dataset.py, mushroom_rl/core/_impl, mushroom_rl/core/extra_info.py'),
      ('memories and agents', 'mushroom_rl/rl_utils/replay_memory.py, mushroom_rl/algorithms')],
     design='Objects with symbolic contents are saved by the real save methods into a stand-in archive that keeps the members in memory (pickle, numpy and torch '
            'writers store deep copies; a member must be read as it was written; unnamed functions cannot be pickled), loaded, and both copies are used alike; '
            'everything observable is compared for all contents. Counterexamples are replayed with real files and real zip, pickle, numpy and torch.')


prop('P32', 'Parallel and registered environments, spaces and MDP information',
     'Every environment run in another process receives exactly its own action, initial state, mask and commands, and its observations, rewards, absorbing '
     'flags and information come back at its own index, whatever the order in which the processes answer. Environments are made by name with the arguments '
     'given, after their constructor or their own generator; a vectorised environment used singly behaves as one environment.',
     ['inputs', 'schedules', 'histories'], 'for every state, action, mask and answer order within the bounds',
     'tests use identical environments, so that exchanged answers cannot be noticed',
     ['mushroom_rl/core/multiprocess_environment.py', 'mushroom_rl/core/vectorized_env.py', 'mushroom_rl/core/environment.py', 'mushroom_rl/rl_utils/spaces.py'],
     [('routing', 'mushroom_rl/core/multiprocess_environment.py'), ('single', 'mushroom_rl/core/vectorized_env.py'),
      ('registry', 'mushroom_rl/core/environment.py'), ('spaces', 'mushroom_rl/rl_utils/spaces.py')],
     design='The real parent and worker code with stand-in pipes and processes (worker functions run in threads of the same interpreter); environments with '
            'symbolic states and rewards that differ from each other.')

prop('P33', 'Simulator interfaces report and drive the simulator faithfully',
     'Observations contain the requested quantities of the simulator in the requested order, findable by their keys or names, with limits that match them '
     'after components are removed or added; every actuator receives its own component of the action, in its own mode and within its own limits. A step '
     'advances the simulator by the configured number of intermediate and sub steps, recomputing the action from the current observation where documented, '
     'calls the extension points in order, and reports the reward of that transition and the observation after it; reset puts the simulator in the initial or '
     'given state. Wrapped environments (Gym, control suite, Atari) pass actions and rewards through, end episodes exactly when the wrapped one does (or at a '
     'lost life when asked to), and keep frame histories in order.',
     ['inputs', 'histories'], 'for every simulator state, action, reward, contact and end of game within the bounds',
     'tests run a few seeded simulations and compare recorded trajectories',
     ['mushroom_rl/environments', 'mushroom_rl/utils/mujoco', 'mushroom_rl/utils/pybullet', 'mushroom_rl/utils/frames.py'],
     [('mujoco', 'mushroom_rl/environments/mujoco.py, mushroom_rl/utils/mujoco/observation_helper.py'),
      ('pybullet', 'mushroom_rl/environments/pybullet.py, mushroom_rl/utils/pybullet'),
      ('wrappers', 'mushroom_rl/environments/gym_env.py, mushroom_rl/environments/dm_control_env.py, mushroom_rl/environments/atari.py')],
     design='The simulators (mujoco, pybullet, gym, control suite, emulator) are stand-ins with arbitrary symbolic state and simple dynamics; the real '
            'interface code reads and drives them. The physics itself is outside the bounds.')


prop('P34', 'Movement primitives and recurrent policies carry their state along',
     'A probabilistic movement primitive draws from the Gaussian (or returns the mean) of the current phase, which starts at zero in every episode, advances '
     'by one step per action and saturates at the duration unless periodic; a dynamic movement primitive follows its dynamical system from rest toward the '
     'goal in every episode; a recurrent policy acts on the state and the memory of its own episode and evaluates sequences at their true lengths. The state '
     'handed in and actions returned earlier are never modified, the states recorded in the dataset are those used, and densities match the draws.',
     ['inputs', 'histories', 'random outcomes'], 'for every weight, duration, covariance, sequence and memory within the bounds',
     'tests do not use these policies',
     ['mushroom_rl/policy/promps.py', 'mushroom_rl/policy/dmp.py', 'mushroom_rl/policy/recurrent_torch_policy.py'],
     [('primitives', 'mushroom_rl/policy/promps.py, mushroom_rl/policy/dmp.py'), ('recurrent', 'mushroom_rl/policy/recurrent_torch_policy.py')],
     design='Real policies on symbolic weights, directly and through the real Core with an environment of arbitrary observations, compared with closed forms of '
            'the phase, the dynamical system and the Gaussian.')


prop('P35', 'The numpy, torch and list back ends compute the same values',
     'Every operation of the array back ends (creation, copy, concatenation, selection, clipping, squeezing, expanding, median, square root, flattening and '
     'packing of parallel steps, stacking of lists) yields the same values and shapes for the same content on each back end; conversion among back ends, of one '
     'or several arrays, keeps values, shape and order; copies are independent, inputs are not modified, and unknown back ends or types are refused.',
     ['inputs'], 'for every array content and mask within the bounds',
     'tests compare the back ends on a few arrays only',
     ['mushroom_rl/core/array_backend.py', 'mushroom_rl/core/dataset.py'],
     [('back ends', 'mushroom_rl/core/array_backend.py'), ('dataset conversion', 'mushroom_rl/core/dataset.py')],
     design='Every operation of the real back ends is run on symbolic arrays and compared with one closed form for all back ends.')

prop('P36', 'Callbacks, loggers and numerical gradients record what happened',
     'A callback returns one entry per call, in order, holding the value (dataset, table, mean table of an ensemble, largest action value, parameter) as it was '
     'at the call, whatever is changed afterwards; clean deletes exactly what was collected. A logger stores each series complete and in order under its name '
     'and seed, keeps runs apart, continues its own series when appending, keeps the best agent seen, and stores agents and datasets as they were. Numerical '
     'gradients are central differences and restore the parameters.',
     ['inputs', 'histories'], 'for every value logged, score and dataset within the bounds',
     'tests check a single short run of each callback and of the logger',
     ['mushroom_rl/utils/callbacks/', 'mushroom_rl/core/logger/data_logger.py', 'mushroom_rl/core/logger/logger.py', 'mushroom_rl/utils/numerical_gradient.py'],
     [('callbacks', 'mushroom_rl/utils/callbacks'), ('loggers', 'mushroom_rl/core/logger/data_logger.py'),
      ('numerical gradients', 'mushroom_rl/utils/numerical_gradient.py')],
     design='Real callbacks and loggers on symbolic values; files are written in a scratch directory, their symbolic content is held beside them. The numerical '
            'gradients are run on quadratics with arbitrary coefficients, where central differences are exact. The video recorder writes every frame it was handed, once, in order.')
