"""P17: a black-box agent evaluates every sampled parameter vector in one whole episode and learns from matching pairs."""
import os

import numpy as np
import torch

from mushroom_rl.algorithms.policy_search import MORE, PGPE, REPS, RWR, ConstrainedREPS, ePPO
from mushroom_rl.algorithms.policy_search.black_box_optimization.black_box_optimization import BlackBoxOptimization
from mushroom_rl.algorithms.policy_search.black_box_optimization.context_builder import ContextBuilder
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator
from mushroom_rl.core import Agent, Core, Environment, MDPInfo, VectorCore, VectorizedEnvironment
from mushroom_rl.distributions import (DiagonalGaussianTorchDistribution, GaussianCholeskyDistribution,
                                       GaussianDiagonalDistribution, GaussianDistribution)
from mushroom_rl.distributions.distribution import Distribution
from mushroom_rl.policy import DeterministicPolicy
from mushroom_rl.rl_utils.optimizers import AdaptiveOptimizer
from mushroom_rl.rl_utils.spaces import Box

from dst import world, zoo
from dst.fp import close
from dst.engine import SimFault
from dst.runner import Check
from dst.simdisk import SimDisk
from props.p06 import rng_get, rng_set

GAMMA = .8


def num(x):
    return np.array(x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else x, dtype=float)


class Log:
    def __init__(self):
        self.episodes = list()          # finished or running, in order of their start
        self.samples = list()           # parameter vectors drawn and not yet seen in an episode
        self.updates = list()
        self.drawn = 0
        self.fail = None


class Toy(Environment):
    """Random starts and lengths; the reward depends on state and action."""
    def __init__(self, ctx, log, da):
        self.ctx, self.log = ctx, log
        self.horizon = 6
        self.ep = None
        box = Box(-10 * np.ones(2), 10 * np.ones(2))
        super().__init__(MDPInfo(box, Box(-1e3 * np.ones(da), 1e3 * np.ones(da)), GAMMA, 6))

    def reset(self, state=None):
        self.x = np.array([1. + self.ctx.pick('x0', 50) / 16, self.ctx.pick('x1', 50) / 16 - 1.5])
        self.left = 1 + self.ctx.pick('length', 6)
        self.ep = dict(start=self.x.copy(), states=[], actions=[], rewards=[], done=False)
        self.log.episodes.append(self.ep)
        return self.x.copy(), {}

    def step(self, action):
        if self.log.fail is not None:
            self.log.fail -= 1
            if self.log.fail < 0:
                self.log.fail = None
                raise SimFault('environment')
        action = np.array(action, dtype=float)
        r = float(-np.sum(action ** 2) / 8 + self.x[0])
        self.ep['states'].append(self.x.copy())
        self.ep['actions'].append(action)
        self.ep['rewards'].append(r)
        self.x = np.array([self.x[1] * .5 + .7, self.x[0] - .4])
        self.left -= 1
        absorbing = self.left == 0 and self.ctx.flip('absorbing', .8)
        if absorbing or len(self.ep['rewards']) >= self.info.horizon:
            self.ep['done'] = True
        return self.x.copy(), r, absorbing, {}


class VecToy(VectorizedEnvironment):
    def __init__(self, envs, infos):
        self.envs, self.infos = envs, infos
        self.cur = np.zeros((len(envs), 2))
        super().__init__(envs[0].info, len(envs))

    def reset_all(self, env_mask, state=None):
        for i, e in enumerate(self.envs):
            if env_mask[i]:
                self.cur[i] = e.reset()[0]
        return self.cur.copy(), [{} for _ in self.envs] if self.infos == 'list' else {}

    def step_all(self, env_mask, action):
        r, a = np.zeros(len(self.envs)), np.zeros(len(self.envs), dtype=bool)
        for i, e in enumerate(self.envs):
            if env_mask[i]:
                self.cur[i], r[i], a[i], _ = e.step(action[i])
        return self.cur.copy(), r, a, [{} for _ in self.envs]


class Start(ContextBuilder):
    """The context is a function of the initial state."""
    def __call__(self, initial_state, **episode_info):
        return initial_state * 2.


class Serial(Distribution):
    """Parameter vectors that can be told apart; contextual ones carry their context."""
    def __init__(self, n, contextual):
        super().__init__((2,) if contextual else None)
        self.n, self.k = n, 0
        self._add_save_attr(n='primitive', k='primitive')

    def value(self, k, context):
        v = np.sin(np.arange(1., self.n + 1) * (k + 1) * .37) + k * .01
        return v if context is None else v + .1 * np.resize(context, self.n)

    def sample(self, context=None):
        self.k += 1
        return self.value(self.k, context)

    def mean(self, context=None):
        return self.value(0, context)

    def get_parameters(self):
        return np.array([float(self.k)])

    def set_parameters(self, rho):
        pass

    @property
    def parameters_size(self):
        return 1


class Net(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self.h = torch.nn.Linear(input_shape[-1], output_shape[0], bias=False)

    def forward(self, state):
        return self.h(torch.atleast_2d(state.float())).squeeze(0) if state.dim() == 1 else self.h(state.float())


def build(ctx, name, contextual, da):
    if name == 'ePPO':
        mu = Regressor(TorchApproximator, network=Net, input_shape=(2,), output_shape=(da,))
    else:
        mu = Regressor(LinearApproximator, input_shape=(2,), output_shape=(da,))
    pi = DeterministicPolicy(mu=mu)
    n = pi.weights_size
    info = Toy(ctx, Log(), da).info
    if name == 'Recorder':
        return Recorder(info, Serial(n, contextual), pi, context_builder=Start((2,)) if contextual else None)
    if name == 'ePPO':
        d = DiagonalGaussianTorchDistribution(torch.zeros(n), .5 * torch.ones(n))
        return ePPO(info, d, pi, optimizer={'class': torch.optim.Adam, 'params': {'lr': .01}}, n_epochs_policy=2, batch_size=3,
                    eps_ppo=.1)
    kind = ctx.choice('distribution', ['diagonal', 'cholesky', 'gaussian'])
    if name == 'MORE':
        kind = 'cholesky'
    elif name in ('ConstrainedREPS', 'PGPE') and kind == 'gaussian':
        kind = 'diagonal'
    if name == 'ConstrainedREPS':
        kind = 'diagonal'
    d = dict(diagonal=lambda: GaussianDiagonalDistribution(np.zeros(n), .5 * np.ones(n)),
             cholesky=lambda: GaussianCholeskyDistribution(np.zeros(n), .5 * np.eye(n)),
             gaussian=lambda: GaussianDistribution(np.zeros(n), .3 * np.eye(n)))[kind]()
    return dict(RWR=lambda: RWR(info, d, pi, beta=.5), PGPE=lambda: PGPE(info, d, pi, optimizer=AdaptiveOptimizer(eps=.05)),
                REPS=lambda: REPS(info, d, pi, eps=.7), ConstrainedREPS=lambda: ConstrainedREPS(info, d, pi, eps=.7, kappa=.1),
                MORE=lambda: MORE(info, d, pi, eps=.5))[name]()


class Recorder(BlackBoxOptimization):
    def _update(self, Jep, theta, context):
        pass


def watch(agent, log):
    """Records what is drawn and what the update receives."""
    draw, update = agent.distribution.sample, agent._update

    def sample(*a, **kw):
        t = draw(*a, **kw)
        log.samples.append(num(t))
        log.drawn += 1
        return t

    def upd(Jep, theta, context=None):
        log.updates.append((num(Jep), num(theta), None if context is None else num(context)))
        return update(Jep, theta, context)

    agent.distribution.sample = sample
    agent._update = upd


def unwatch(agent):
    del agent.distribution.sample
    del agent._update


def actions(theta, states, da, torchlike):
    w = theta.reshape(da, 2)
    return np.array([w @ s for s in states])


def history(ctx):
    name = ctx.choice('agent', ['Recorder', 'Recorder', 'RWR', 'PGPE', 'REPS', 'ConstrainedREPS', 'MORE', 'ePPO'])
    contextual = name == 'Recorder' and ctx.flip('contextual', .5)
    da = ctx.choice('actions', [1, 2])
    world.seed_all(ctx.pick('rng', 1 << 30))
    agent = build(ctx, name, contextual, da)
    log = Log()
    watch(agent, log)
    tol = 1e-4 if name == 'ePPO' else 1e-9
    disk = SimDisk(ctx)
    ctx.ev('case', name, contextual, da)
    deterministic = False
    with disk.installed():
        for _ in range(ctx.int('calls', 1, 4)):
            op = ctx.choice('op', ['learn', 'learn', 'evaluate', 'restart', 'mode'])
            if op == 'restart':
                unwatch(agent)
                s = rng_get()
                agent.save(os.path.join(disk.root, 'a.msh'), full_save=True)
                world.new_process()
                agent = Agent.load(os.path.join(disk.root, 'a.msh'))
                rng_set(s)
                watch(agent, log)
                ctx.fault('restart')
                continue
            if op == 'mode':
                deterministic = not deterministic and ctx.flip('deterministic', .7)
                agent.set_deterministic(deterministic)
                continue
            if deterministic and op == 'learn':
                op = 'evaluate'
            n = ctx.choice('envs', [0, 2, 3, 5]) if name != 'ePPO' else 0
            envs = [Toy(ctx, log, da) for _ in range(max(1, n))]
            log.episodes, log.samples, log.updates, log.drawn = list(), list(), list(), 0
            core = VectorCore(agent, VecToy(envs, ctx.choice('infos', ['list', 'dict']))) if n else Core(agent, envs[0])
            log.fail = ctx.int('at', 0, 20) if ctx.flip('fails', .2) else None
            per = ctx.int('per-fit', 6, 9)
            total = ctx.int('episodes', 1, 20)
            batches = list()

            def fitted(dataset):
                batches.append(len(log.episodes))

            core.callbacks_fit = [fitted]
            mean = num(agent.distribution.mean(np.zeros(2) if contextual else None)) if deterministic else None
            try:
                if op == 'learn':
                    core.learn(n_episodes=total, n_episodes_per_fit=per, quiet=True)
                else:
                    core.evaluate(n_episodes=total, quiet=True)
            except SimFault:
                ctx.fault('environment-error')
            except Exception as e:
                if not zoo.numerical(e):
                    raise
                ctx.probe('numerical')
                return
            log.fail = None
            ctx.ev(op, n, len(log.episodes), len(log.updates))
            ctx.sim_steps += sum(len(e['rewards']) for e in log.episodes)
            judge(ctx, name, log, batches, per, op, contextual, deterministic, mean, agent, da, tol, n)
    ctx.state(name, contextual, da)


def judge(ctx, name, log, batches, per, op, contextual, deterministic, mean, agent, da, tol, n):
    who = f'{name} in {n or "one"} environment(s), {op}'
    pool = list(log.samples)
    for i, e in enumerate(log.episodes):
        e['theta'] = None
        if deterministic:
            t = num(agent.distribution.mean(e['start'] * 2)) if contextual else mean
            cands = [t]
        else:
            cands = pool
        if not e['actions']:
            continue
        for j, t in enumerate(cands):
            if close(actions(t, e['states'], da, name == 'ePPO'), e['actions'], rtol=tol, atol=tol):
                e['theta'] = t
                if not deterministic:
                    pool.pop(j)
                break
        ctx.require(e['theta'] is not None, 'one-theta', lambda: (
            f'{who}: the actions of episode {i} ({len(e["actions"])} steps) are not those of '
            f'{"the mean of the distribution" if deterministic else "one parameter vector sampled for one episode"}'))
        if contextual and not deterministic:
            k = [k for k in range(1, agent.distribution.k + 1)
                 if close(agent.distribution.value(k, e['start'] * 2), e['theta'], rtol=0, atol=1e-9)]
            ctx.require(k, 'context', lambda: f'{who}: the parameters of episode {i} were not sampled for its context')
    ctx.require(log.drawn == (0 if deterministic else len(log.episodes)), 'draws', lambda: f'{who}: {log.drawn} parameter vectors sampled for {len(log.episodes)} episodes')
    ctx.require(op == 'learn' or not log.updates, 'update', lambda: f'{who}: an update in an evaluation')
    a = 0
    for (J, theta, context), z in zip(log.updates, batches):
        batch = log.episodes[a:z]
        a = z
        ctx.require(all(e['done'] for e in batch) and len(batch) == per, 'update-when', lambda: f'{who}: update after {len(batch)} episodes, {per} requested')
        ctx.require(len(J) == len(theta) == len(batch), 'update-size', lambda: f'{who}: update with {len(J)} returns and {len(theta)} parameter vectors for {len(batch)} episodes')
        left = list(batch)
        for i in range(len(J)):
            m = [e for e in left if close(e['theta'], theta[i], rtol=tol, atol=tol)]
            ctx.require(m, 'update-theta', lambda: f'{who}: parameter vector {i} of the update belongs to no episode of the batch')
            e = m[0]
            want = sum(GAMMA ** t * r for t, r in enumerate(e['rewards']))
            ctx.require(abs(J[i] - want) <= 1e-4 * (1 + abs(want)), 'update-return', lambda: f'{who}: return {J[i]} of parameter vector {i}, its episode had {want}')
            if contextual:
                ctx.require(context is not None and close(context[i], e['start'] * 2), 'update-context', lambda: f'{who}: context {context} of parameter vector {i}, its episode had {e["start"] * 2}')
            left = [x for x in left if x is not e]
        ctx.probe('update-' + name)


CHECK = Check(
    'P17', dict(history=history), quick=dict(history=8000), thorough=dict(history=200000),
    rule='One case = 1-4 learn, evaluate, restart and mode calls of one black-box agent with one or several environments with '
         'random starts and lengths and failures; every action, sample and update is attributed to its episode. '
         'Distinct = different event-log digest.',
    real=['black-box optimization algorithms', 'distributions', 'DeterministicPolicy, VectorPolicy', 'Core, VectorCore', 'Dataset',
          'Serializable'],
    stub=['environments', 'serial distribution in part of the runs', 'file system (simulated disk), process restart'],
    assumptions=['fits by episodes', 'ePPO with one environment (vector policies are numpy only)', 'update and distribution objects are observed through their documented methods'])
