"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level_note, claim=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, claim=claim, na=na))


prop('P01', 'The experiment loop runs exactly the requested steps and episodes',
     'For every sequence of learn and evaluate calls, the environment and the agent see exactly the interaction the '
     'caller asked for: each episode begins with exactly one reset, ends at a terminal step or at the horizon, budgets in '
     'steps or episodes are met exactly, and a fit happens exactly when its schedule says so, never in an evaluation. '
     'A failure or interrupt in any component during one call leaves nothing behind that changes what a later call does.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of learn/evaluate calls on one core, every termination pattern, horizon, budget, fit period and '
     'callback, with an exception or interrupt at any component call of any call of the history',
     'The tests run one or two calls with one environment and compare end weights; no test aborts a call midway, mixes '
     'schedules across calls or counts the interaction step by step.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/_impl/core_logic.py', 'mushroom_rl/core/agent.py'],
     [('run loop', 'mushroom_rl/core/core.py:Core._run'), ('schedules', 'mushroom_rl/core/_impl/core_logic.py:CoreLogic')],
     'Seeded histories of 1-5 calls against a reference automaton, compared event by event.')

prop('P02', 'Every collected transition reaches fit and the caller unaltered, exactly once',
     'For every backend, single or vectorized environment, stateful or stateless policy and preprocessing chain, the '
     'datasets handed to the agent and returned to the caller contain exactly the transitions that took place, in '
     'order within each environment, with their flags, policy states, episode parameters and extra information, each '
     'step exactly once.',
     ['histories', 'schedules', 'configurations', 'inputs'],
     'every interleaving of episode ends over the vectorized environments, every fit period, horizon, backend pair and '
     'history of calls',
     'Tests compare final weights or shapes for one fixed environment; they never reconstruct the transition stream for '
     'staggered episode ends, mid-episode fits or converted backends.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/dataset.py',
      'mushroom_rl/core/extra_info.py', 'mushroom_rl/core/_impl/numpy_dataset.py', 'mushroom_rl/core/_impl/torch_dataset.py',
      'mushroom_rl/core/_impl/list_dataset.py', 'mushroom_rl/core/_impl/vectorized_core_logic.py'],
     [('dataset storage', 'mushroom_rl/core/dataset.py:Dataset, VectorizedDataset'),
      ('vectorized loop', 'mushroom_rl/core/vectorized_core.py:VectorCore._run')],
     'Seeded vectorized and sequential histories; every row compared with the transition recorded at the environment.')

prop('P03', 'Worker-process parallelism is observationally equivalent to sequential stepping',
     'Running environments in worker processes gives, for every timing of the workers, exactly the states, rewards, '
     'absorbing flags and information that stepping the same environments one after another gives, with each '
     'environment receiving exactly the commands meant for it. No reply is lost, duplicated or attributed to a '
     'different environment or call.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of worker and main process steps, message delays, and every history of masked resets, steps '
     'and seeds',
     'Tests run the OS scheduler once; slow workers, reordered replies and masked resets are not exercised.',
     ['mushroom_rl/core/multiprocess_environment.py', 'mushroom_rl/core/vectorized_env.py',
      'mushroom_rl/core/vectorized_core.py'],
     [('worker protocol', 'mushroom_rl/core/multiprocess_environment.py'),
      ('vectorized interface', 'mushroom_rl/core/vectorized_env.py')],
     'multiprocessing replaced by a simulated process/pipe layer; every schedule point is a seeded choice.')

prop('P04', 'A failing environment worker is reported, never hangs or corrupts the run',
     'When a worker process dies, its environment raises, or a process or pipe cannot be created, the call in progress '
     'ends with an error within bounded time, no fabricated transition is returned, closing the environment still '
     'works and no worker process is left running.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'a worker crash, an environment error or a failing system call at every point of every schedule of reset, step, '
     'close and garbage collection',
     'No test kills a worker or lets an environment raise inside one.',
     ['mushroom_rl/core/multiprocess_environment.py', 'mushroom_rl/core/vectorized_env.py'],
     [('worker protocol', 'mushroom_rl/core/multiprocess_environment.py')],
     'Faults injected into the simulated process layer; progress bound and orphan check after each run.')

prop('P05', 'A failed or interrupted save never destroys the previously saved object',
     'Saving an object to a path either completes, and then loading returns exactly what was saved, or fails visibly '
     'and leaves what could be loaded from that path before, whatever fails and wherever: a crash of the process, a '
     'full disk, an I/O error, an interrupt, or an attribute that cannot be serialised. A load returns a complete '
     'object or raises; it never returns part of one, and a save touches no other file.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'a crash, disk error, interrupt or serialisation error at every operation of every save of every sequence of saves '
     'to one path, for objects of any nesting and all agents; any truncation of the file',
     'The tests save once to a healthy disk and load; no test fails a write, kills the process mid-save, overwrites a '
     'previous save or truncates the file.',
     ['mushroom_rl/core/serialization.py'],
     [('save', 'mushroom_rl/core/serialization.py:Serializable.save, save_zip'),
      ('load', 'mushroom_rl/core/serialization.py:Serializable.load, load_zip')],
     'Saves run on a simulated disk that fails or dies at a chosen operation; what loads afterwards must be the old or the '
     'new version.')

prop('P06', 'A saved and reloaded agent continues exactly like one never interrupted',
     'For every algorithm, an agent that is fully saved and loaded at any point between two calls of an experiment '
     'acts, learns and ends up exactly like the same agent left running, given the same random state. A light save '
     'keeps the learned behaviour, and learning can start again from it. Other agents living in the process make no '
     'difference.',
     ['histories', 'crash_points', 'configurations'],
     'every algorithm, policy, approximator, parameter schedule and replay memory, every sequence of learn and evaluate '
     'calls and every set of restart points between them',
     'The tests save once after one fit and compare a list of attributes right after loading; they never go on training '
     'the loaded agent, so lost links, counters and buffers are not noticed.',
     ['mushroom_rl/core/serialization.py', 'mushroom_rl/core/agent.py', 'mushroom_rl/algorithms', 'mushroom_rl/policy',
      'mushroom_rl/approximators', 'mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/rl_utils/optimizers.py',
      'mushroom_rl/rl_utils/parameters.py', 'mushroom_rl/utils/torch.py'],
     [('saved attributes', 'every _add_save_attr'), ('relinking', 'every _post_load'),
      ('optimizer state', 'mushroom_rl/utils/torch.py:TorchUtils.update_optimizer_parameters')],
     'Seeded experiments of 44 algorithm variants run with and without restarts; interaction logs must be identical.')

prop('P07', 'Logged results stay complete and separate across crashes and restarts',
     'Everything a logger reported as logged (scalars and arrays per epoch, epoch and best agents, datasets, console '
     'messages) can be read back from its own files, complete and in order, after any later failure, and after a '
     'restart with append the series go on where they stopped. Runs that share a directory under different seeds or '
     'names, before or at the same time, never read, change or truncate the files of one another. The best agent on '
     'disk is the best one logged in the run.',
     ['crash_points', 'fault_sequences', 'histories', 'schedules'],
     'every sequence of log calls of 1-3 runs sharing a directory, with a crash, disk error or interrupt at any disk '
     'operation, any restart with or without append, and any switch between the processes at disk operations',
     'The tests log a few values on a healthy disk in one run; no test fails a write, restarts with append beside other '
     'runs or interleaves two processes.',
     ['mushroom_rl/core/logger/logger.py', 'mushroom_rl/core/logger/data_logger.py',
      'mushroom_rl/core/logger/console_logger.py'],
     [('data files', 'mushroom_rl/core/logger/data_logger.py:DataLogger'),
      ('console log', 'mushroom_rl/core/logger/console_logger.py:ConsoleLogger')],
     'Loggers of several simulated processes on a simulated disk; all files compared with a reference after every call.')

prop('P08', 'Replay memories hand out exactly the most recent transitions, unaltered',
     'After any history of additions (with one- or n-step returns), samplings, priority updates, resets and restarts, a '
     'replay memory holds exactly the most recent transitions up to its capacity; every sampled transition is one of '
     'them, unaltered, and every one of them can be sampled. Sampled sequences are contiguous pieces of one '
     'trajectory. Prioritized sampling is proportional to the current priorities and its importance weights match '
     'them. Minibatches visit every sample once, with its fields together. Data of the caller is never changed.',
     ['histories', 'inputs', 'configurations', 'crash_points'],
     'every capacity, sequence of additions, updates, resets and save/load points, episode pattern and outcome of the '
     'random generator, for both array backends and stateful and stateless policies',
     'The tests add one fixed dataset and look at the size or at one batch; wrap-around, n-step windows over episode ends, '
     'priority updates after overwriting and extreme random draws are not sampled.',
     ['mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/utils/minibatches.py'],
     [('uniform memory', 'mushroom_rl/rl_utils/replay_memory.py:ReplayMemory'),
      ('sequences', 'mushroom_rl/rl_utils/replay_memory.py:SequenceReplayMemory'),
      ('sum tree', 'mushroom_rl/rl_utils/replay_memory.py:SumTree, PrioritizedReplayMemory'),
      ('minibatches', 'mushroom_rl/utils/minibatches.py')],
     'Seeded operation histories with restarts and adversarial random draws against a list of the latest transitions.')

prop('P09', 'The outcome of an experiment is decided by its seed alone',
     'An experiment that is repeated with the same seeds gives exactly the same interaction and the same learned result: '
     'whatever ran in the process before, whatever other agents, environments and experiments are built, trained or '
     'destroyed in between, and whatever the content of fresh memory, the clock, the hash seed or the garbage collector '
     'do. Instances share no state.',
     ['histories', 'schedules', 'configurations'],
     'every algorithm, sequence of calls and interleaving with other experiments in the same process, every clock, memory '
     'content, collection point and hash seed',
     'Each test runs one experiment in a fresh sequence with one seed; state shared between instances and reads of '
     'uninitialised memory go unnoticed.',
     ['mushroom_rl/algorithms', 'mushroom_rl/policy', 'mushroom_rl/approximators', 'mushroom_rl/features',
      'mushroom_rl/rl_utils', 'mushroom_rl/environments', 'mushroom_rl/core'],
     [('experiment loop', 'mushroom_rl/core/core.py'), ('agents', 'mushroom_rl/algorithms'),
      ('random draws', 'mushroom_rl/core/array_backend.py')],
     'Each experiment is run alone and again among interleaved neighbours with disturbed memory, clock and collector.')

prop('P10', 'Data handed over is neither changed nor shared afterwards',
     'Agents, approximators, policies, distributions, preprocessors, running statistics and optimizers never change the '
     'arrays the caller gives them (transitions, datasets, weights, parameters, gradients, observations), and what the '
     'caller does to those arrays after the call, or to the weights and parameters the call returned before, has no '
     'effect on them: only fit, set_weights, set_parameters and update change what is learned.',
     ['histories', 'inputs'],
     'every agent, component, sequence of calls and overwriting of any array that crossed the interface, at any point '
     'between calls',
     'Tests hand over fresh arrays and drop them; an in-place operation or a kept view shows only when the caller reuses '
     'its buffers, as data-collection loops, optimizers of policy weights and simulators do.',
     ['mushroom_rl/algorithms', 'mushroom_rl/approximators', 'mushroom_rl/policy', 'mushroom_rl/distributions',
      'mushroom_rl/rl_utils', 'mushroom_rl/utils/torch.py'],
     [('agents', 'mushroom_rl/core/agent.py'), ('weights', 'mushroom_rl/approximators/approximator.py'),
      ('parameters', 'mushroom_rl/distributions/distribution.py'),
      ('preprocessors', 'mushroom_rl/rl_utils/preprocessors.py')],
     'Twin instances run the same history; the buffers of one are overwritten with garbage between calls.')

prop('P11', 'An episode depends only on its start, its actions and its random draws',
     'After reset, an environment behaves like a freshly built one, whatever happened before: aborted episodes, steps '
     'after an absorbing state, rendering, other instances, and callers that overwrite observations, actions and states '
     'they were given or had given. A reset to a given state starts there, and the observations handed out do not '
     'change later. This holds for the built-in environments and for the Gym and MuJoCo interfaces.',
     ['histories', 'schedules', 'inputs'],
     'every environment, sequence of resets, steps and renders, cut at any point, and overwriting of any exchanged array',
     'Tests run one rollout per environment from one seed; state that survives a reset or is shared with the caller '
     'appears only in longer histories.',
     ['mushroom_rl/environments', 'mushroom_rl/core/environment.py'],
     [('reset', 'mushroom_rl/environments'), ('Gym interface', 'mushroom_rl/environments/gymnasium_env.py'),
      ('MuJoCo interface', 'mushroom_rl/environments/mujoco.py')],
     'A used, disturbed instance is compared step by step with a fresh one fed the same draws and actions.')

prop('P12', 'A dataset is the list of its transitions and its statistics are theirs',
     'After any history of appends, slices, index selections, copies, concatenations, clears, conversions and restarts, '
     'a dataset holds exactly the transitions a plain list would hold, in that order and with all their fields, policy '
     'states and extra information together; indexing, iteration and parsing show them in every backend; episode counts '
     'and lengths, initial states, returns and metrics are those of its episodes. No operation changes another dataset, '
     'and a failed save or a crash leaves the last saved dataset.',
     ['histories', 'inputs', 'crash points'],
     'every sequence of operations on several datasets, backend (numpy, torch, list), episode pattern, content of the extra '
     'information, and disk fault or crash during a save',
     'Tests take a few slices of one collected dataset; interactions of views, copies, joins and later appends, empty '
     'datasets and unfinished episodes are not met.',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/extra_info.py', 'mushroom_rl/core/_impl/numpy_dataset.py',
      'mushroom_rl/core/_impl/torch_dataset.py', 'mushroom_rl/core/_impl/list_dataset.py'],
     [('views, joins, statistics', 'mushroom_rl/core/dataset.py'), ('step information', 'mushroom_rl/core/extra_info.py'),
      ('storage', 'mushroom_rl/core/_impl')],
     'A list model is followed through random histories with several live datasets and restarts.')

prop('P13', 'Schedules and running statistics follow their law after any history',
     'The value of a parameter schedule (constant, linear, decaying, variance-dependent; one value or one per state or '
     'state-action pair) is the documented function of its own uses, index by index: reading it changes nothing, using one '
     'index or instance never moves another, and limits always hold. Running averages, windows and standardizations and '
     'the preprocessors built on them show exactly the statistics of the values they were given. Saves, failed saves, '
     'crashes and restarts at any point lose or repeat nothing after the last completed save.',
     ['histories', 'crash points', 'inputs'],
     'every class, shape and sequence of uses, reads, resets, saves with disk faults, crashes and restarts',
     'Tests read a few values of a few schedules; a count that is lost, shared between indices or doubled by a read shows '
     'only in particular histories.',
     ['mushroom_rl/rl_utils/parameters.py', 'mushroom_rl/rl_utils/variance_parameters.py',
      'mushroom_rl/rl_utils/running_stats.py', 'mushroom_rl/rl_utils/preprocessors.py',
      'mushroom_rl/approximators/table.py'],
     [('schedules', 'mushroom_rl/rl_utils/parameters.py'), ('adaptive schedules', 'mushroom_rl/rl_utils/variance_parameters.py'),
      ('statistics', 'mushroom_rl/rl_utils/running_stats.py')],
     'Histories with faults are compared after each operation with closed forms over the recorded history.')

prop('P14', 'Temporal-difference learning applies exactly its update in any history',
     'After every fit a temporal-difference agent (Q-learning and its double, maxmin, speedy and weighted variants, R- and '
     'RQ-learning, SARSA, expected SARSA, SARSA(lambda), true online SARSA(lambda), Q(lambda)) holds exactly the value '
     'function its rule gives for the transitions so far: each transition counts once, learning rates advance once per '
     'update, eligibility traces start empty in each episode, the action an on-policy update assumed is the one executed '
     'next, and every action was drawn for the state it is executed in. Aborted episodes, evaluations, time limits and '
     'restarts between episodes change nothing.',
     ['histories', 'schedules', 'crash points', 'inputs'],
     'every algorithm, schedule of learning rates, sequence of episodes cut by ends, time limits, failures, evaluations and '
     'restarts, and every random choice',
     'Tests compare the final table of one run; state carried over between episodes or calls needs particular sequences.',
     ['mushroom_rl/algorithms/value/td', 'mushroom_rl/rl_utils/eligibility_trace.py', 'mushroom_rl/approximators/table.py',
      'mushroom_rl/policy/td_policy.py', 'mushroom_rl/core/agent.py', 'mushroom_rl/core/core.py'],
     [('updates', 'mushroom_rl/algorithms/value/td'), ('traces', 'mushroom_rl/rl_utils/eligibility_trace.py'),
      ('next action', 'mushroom_rl/core/agent.py')],
     'Reference implementations that branch over the hidden random choices are followed through histories with failures.')

prop('P15', 'Target networks, delayed and warm-up updates follow their schedule',
     'A deep value-based or off-policy actor-critic agent (DQN and its variants, DDPG, TD3, SAC) learns at every fit once its '
     'replay memory holds more than the initial size and never before. Its target networks equal the learned ones at the '
     'start, are replaced exactly every target_update_frequency fits (one of them in turn for averaged DQN) or moved by '
     'tau at every learning fit, and are otherwise untouched. The actor changes exactly at every policy_delay-th learning fit, and only '
     'beyond the warm-up transitions. Nothing but fit changes any network. Evaluations, aborted calls and restarts '
     'do not shift these schedules.',
     ['histories', 'configurations', 'crash points'],
     'every algorithm and combination of frequencies, sizes, delays and weights, and every sequence of learn and evaluate '
     'calls, environment failures and restarts',
     'Tests compare the weights after one short learn call, in which most schedules fire once or not at all.',
     ['mushroom_rl/algorithms/value/dqn', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic',
      'mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/core/agent.py'],
     [('target replacement', 'mushroom_rl/algorithms/value/dqn/abstract_dqn.py'),
      ('soft updates', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/deep_actor_critic.py'),
      ('policy delay', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py'),
      ('warm-up', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py')],
     'The weights of all networks are recorded around every fit of random histories and compared with the schedule.')

prop('P16', 'Learning stops at absorbing transitions and not at time limits',
     'What is learned does not depend on the observation shown after an absorbing transition, for any algorithm: nothing '
     'is bootstrapped from beyond it and no state of one episode enters the computations of another. A time limit, in '
     'contrast, is not an end: one-step learners learn exactly the same from the same stream of transitions wherever time '
     'limits cut it into episodes.',
     ['histories', 'inputs', 'configurations'],
     'every algorithm, sequence of learn and evaluate calls, pattern of absorbing ends and time limits, and content of '
     'terminal observations',
     'Tests run environments whose terminal observations are what they are and compare final weights; whether a terminal '
     'observation leaks into the update cannot be seen from one run.',
     ['mushroom_rl/algorithms', 'mushroom_rl/rl_utils/value_functions.py', 'mushroom_rl/rl_utils/replay_memory.py',
      'mushroom_rl/core/core.py', 'mushroom_rl/core/dataset.py'],
     [('one-step targets', 'mushroom_rl/algorithms/value'), ('advantages', 'mushroom_rl/rl_utils/value_functions.py'),
      ('actor-critic targets', 'mushroom_rl/algorithms/actor_critic')],
     'Pairs of worlds that differ only in terminal observations or time limits must lead to identical learning.')

prop('P17', 'Black-box agents learn from the episodes their parameters produced',
     'A black-box agent (RWR, PGPE, REPS, constrained REPS, MORE, ePPO and their base class) samples one parameter vector per '
     'episode, for the context of that episode, and uses it for every action of that episode and of no other; in deterministic '
     'mode it uses the mean of its distribution. Each update receives exactly the episodes since the last one, each '
     'parameter vector with the return and context of the episode it produced. This holds with one or any number of parallel environments, and '
     'whatever evaluations, aborted calls, changes of the number of environments and restarts came before.',
     ['histories', 'schedules', 'configurations'],
     'every algorithm, number of parallel environments, pattern of episode lengths, and sequence of learn and evaluate calls, '
     'failures and restarts',
     'Tests compare the distribution after one learn call with one environment; the attribution of parameters to episodes '
     'in parallel environments is not tested.',
     ['mushroom_rl/algorithms/policy_search/black_box_optimization', 'mushroom_rl/policy/vector_policy.py',
      'mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/dataset.py', 'mushroom_rl/distributions'],
     [('sampling at episode start', 'mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py'),
      ('policies of parallel environments', 'mushroom_rl/policy/vector_policy.py'),
      ('parameter lists', 'mushroom_rl/core/dataset.py')],
     'Every action, sampled vector and update argument of random histories is attributed to its episode.')

prop('P18', 'Numeric building blocks compute what they document',
     'Returns and generalized advantages, densities and entropies of distributions, LQR and dynamic-programming solvers, basis '
     'functions and tiles, and the formulas of the optimizers give the documented mathematical result for every input.',
     ['inputs'], 'every numeric input', 'Tests sample a few inputs.',
     ['mushroom_rl/rl_utils/value_functions.py', 'mushroom_rl/distributions', 'mushroom_rl/solvers', 'mushroom_rl/features',
      'mushroom_rl/rl_utils/optimizers.py'],
     [('value functions', 'mushroom_rl/rl_utils/value_functions.py')], '', claim=False,
     na='pure functions of their arguments: no schedule, time, I/O, fault, crash or history for a simulator to decide')

prop('P19', 'A recording shows exactly the steps of its environment',
     'When a learn or evaluate call is rendered, every step of every running environment is rendered exactly once, right after '
     'it was taken, and nothing else is; when it is recorded, each image reaches the recorder of its own environment once and in '
     'order, and at the end of the call every environment that moved has exactly one finished video of its own, with these '
     'images, in the given place and format. No recording overwrites or mixes with another one of the same core, whatever '
     'failed before.',
     ['histories', 'schedules', 'crash points', 'configurations'],
     'every sequence of calls, number of environments, set of running environments, worker schedule, recorder and failure',
     'No test records; which environment an image belongs to is only visible when some of the environments have stopped.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/multiprocess_environment.py',
      'mushroom_rl/utils/record.py'],
     [('recording loop', 'mushroom_rl/core/vectorized_core.py'), ('images of the workers', 'mushroom_rl/core/multiprocess_environment.py'),
      ('video files', 'mushroom_rl/utils/record.py')],
     'Images name their environment and step; files of a recording encoder are compared with the steps taken.')

prop('P20', 'Policy-gradient and classic actor-critic agents apply exactly their update',
     'After every fit a policy-gradient agent (REINFORCE, GPOMDP, eNAC) holds exactly the parameters its gradient estimate '
     'gives for the finished episodes of that fit, each counted once with its own rewards and scores; a classic actor-critic agent '
     '(StochasticAC, its average-reward version, COPDAC_Q) holds those its update gives for the transitions so far, with '
     'traces that start empty in each episode. Unfinished episodes, failed or interrupted fits, aborted calls, evaluations and '
     'restarts leave nothing behind that enters a later update.',
     ['histories', 'crash points', 'configurations'],
     'every algorithm, policy, optimizer or schedule, pattern of episode lengths and batch boundaries, and sequence of calls, '
     'failures, interrupts and restarts',
     'Tests compare the parameters after one learn call of one history; what one fit leaves for the next is not tested.',
     ['mushroom_rl/algorithms/policy_search/policy_gradient', 'mushroom_rl/algorithms/actor_critic/classic_actor_critic',
      'mushroom_rl/policy/gaussian_policy.py', 'mushroom_rl/core/core.py'],
     [('accumulators', 'mushroom_rl/algorithms/policy_search/policy_gradient/policy_gradient.py'),
      ('traces', 'mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py')],
     'Executable reference of each update, compared after every fit of random histories.')

prop('P21', 'Value learning from stored experience fits exactly the targets of its rule',
     'Every regression a replay-based or batch agent starts (DQN, double, averaged, maxmin, dueling, noisy, categorical and quantile DQN, '
     'Rainbow, DDPG, TD3, SAC critics, FQI and its double and boosted versions) is on transitions that took place, as many as configured, each with the target its rule '
     'gives: its own (clipped) reward plus the discounted value of its own next state under the current target networks, without it '
     'after an absorbing transition. Value distributions are shifted, scaled and projected onto their support by the same rule. Importance weights belong to the '
     'batch, priorities are updated with the errors of that batch, and new transitions enter with the largest priority. Nothing is fitted before the memory is filled or outside fit. Evaluations, aborted calls and restarts make no '
     'difference.',
     ['histories', 'crash points', 'configurations'],
     'every algorithm, replay memory, batch size, target schedule and sequence of calls, failures and restarts',
     'Tests compare the weights after one short run; which targets produced them is invisible and option combinations are not run.',
     ['mushroom_rl/algorithms/value/dqn', 'mushroom_rl/algorithms/value/batch_td',
      'mushroom_rl/algorithms/actor_critic/deep_actor_critic', 'mushroom_rl/rl_utils/replay_memory.py',
      'mushroom_rl/approximators'],
     [('targets', 'mushroom_rl/algorithms/value/dqn/abstract_dqn.py'),
      ('fitted iteration', 'mushroom_rl/algorithms/value/batch_td/fqi.py'),
      ('critic targets', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py')],
     'A recording approximator and loss show every regression; its targets are recomputed from the recorded transitions.')

prop('P22', 'Policies, distributions and approximators have no hidden memory',
     'What a policy, distribution or approximator answers (action, probability, density, entropy, gradient, sample, prediction, fitted '
     'weights) is determined by its current parameters, the state, the policy state and the random draws. After any history of '
     'draws, evaluations, changed parameters, fits, resets, failing calls, interleaved episodes, saves and restarts, and whatever other '
     'instances did, the answer equals the one of a freshly built object with the same parameters. Asking changes nothing and '
     'modifies no argument, except that exploration schedules advance once per use. Actions and samples '
     'follow the reported probabilities, and the parameters read are those set.',
     ['histories', 'crash points', 'interleavings', 'configurations'],
     'every policy, distribution and approximator class and every sequence of questions, changes, failures and restarts',
     'Tests ask a new object one question; values cached from earlier parameters, episodes or instances never show.',
     ['mushroom_rl/policy', 'mushroom_rl/distributions', 'mushroom_rl/approximators', 'mushroom_rl/rl_utils/parameters.py'],
     [('policies', 'mushroom_rl/policy/gaussian_policy.py'),
      ('distributions', 'mushroom_rl/distributions/gaussian.py'),
      ('approximators', 'mushroom_rl/approximators/regressor.py')],
     'Every answer of a long-lived object is compared with the one of a fresh twin with the same parameters and random draws.')

prop('P23', 'Callbacks collect exactly what happened, once, and keep it',
     'In every history of learn and evaluate calls, with one or many environments and any backend, each callback of the library holds '
     'exactly one entry per completed fit since it was last cleaned, in order: the transitions fitted with their policy states, '
     'parameters and information, or the action values, maximum or learning rate right after that fit, which later learning, other '
     'callbacks, cleaning and other experiments do not change. Observing changes nothing that is learned. The plotted windows show the '
     'last steps taken. Failures and interrupts lose or repeat nothing.',
     ['histories', 'failure points', 'configurations'],
     'every sequence of learn, evaluate and clean calls and every point of failure',
     'Tests look at one short run with one callback and one fit per step.',
     ['mushroom_rl/utils/callbacks', 'mushroom_rl/utils/plots/databuffer.py', 'mushroom_rl/core'],
     [('callbacks', 'mushroom_rl/utils/callbacks/collect_dataset.py'),
      ('action values', 'mushroom_rl/utils/callbacks/collect_q.py'),
      ('calls', 'mushroom_rl/core/core.py')],
     'The agent writes down every fit and what it had learned then; the content of each callback is compared after every call.')

prop('P24', 'On-policy deep actor-critic updates follow the batch, trajectory by trajectory',
     'In every history of learn, evaluate, save and restart calls, with episodes that end, are cut by the horizon or by the end of the '
     'batch, in one or several environments side by side, with batches of any size and discrete or continuous actions, each fit of A2C, PPO, TRPO and recurrent PPO regresses the '
     'critic exactly on the returns or generalized advantage estimates of its batch (values as they were when the fit began, nothing '
     'beyond absorbing states, no mixing of trajectories), every epoch using every transition once; the actor moves exactly by its '
     'rule: one clipped policy-gradient step, the steps on the clipped ratio against the behaviour policy, or a natural-gradient step '
     'that stays in the trust region and does not worsen the objective, else none. Recurrent policies and critics see only the '
     'truncated past of the same trajectory. Preprocessors are updated once per fit. The policy stays finite.',
     ['histories', 'failure points', 'configurations'],
     'every sequence of calls, every composition of the batch and every point of failure',
     'Tests fix the final weights of one short run of each algorithm.',
     ['mushroom_rl/algorithms/actor_critic/deep_actor_critic', 'mushroom_rl/rl_utils/value_functions.py', 'mushroom_rl/policy'],
     [('PPO', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py'),
      ('TRPO', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py'),
      ('recurrent PPO', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py'),
      ('A2C', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/a2c.py'),
      ('advantages', 'mushroom_rl/rl_utils/value_functions.py')],
     'Networks, loss and optimizer of the user record what they are given; targets and new weights are compared with an independent '
     'implementation of each rule applied to the same batch.')

TECH = 'deterministic simulation with fault injection (seeded search over histories, schedules and faults)'
HOOKS = dict(guard='MUSHROOM_RL_VERIF (reserved; no hook was needed)',
             enable='nothing to enable: all seams are existing Python-level interfaces replaced from /verif',
             source_commits=[])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='true', hooks=HOOKS,
               checks=[dict(property=p['id'], quick_cmd=f"python3 /verif/check.py {p['id']} --tier quick",
                            thorough_cmd=f"python3 /verif/check.py {p['id']} --tier thorough",
                            evidence_file=f"evidence/{p['id']}.json", technique=TECH, level='exploration',
                            level_note=p['level_note']) for p in P if p['claim']],
               not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if not p['claim']],
               notes='See DESIGN.md. Replay: python3 /verif/check.py Pxx --replay FILE.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['title']


if __name__ == '__main__':
    main()
