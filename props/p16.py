"""P16: nothing is learned from beyond an absorbing transition, and a time limit is not an absorbing transition."""
import copy
import random

import numpy as np
import torch

from mushroom_rl.algorithms.value import LSPI
from mushroom_rl.core import Core, Dataset, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete

from dst import fp, world, zoo
from dst.fp import close
from dst.engine import canon
from dst.runner import Check
from props.p06 import first_diff, plan, weights

ONE_STEP = ['QLearning', 'DoubleQLearning', 'WeightedQLearning', 'WeightedQLearningInf', 'MaxminQLearning',
            'SpeedyQLearning', 'RLearning', 'ExpectedSARSA', 'FQI', 'DoubleFQI', 'LSPI', 'DQN', 'DoubleDQN', 'AveragedDQN',
            'MaxminDQN', 'DuelingDQN', 'CategoricalDQN', 'NoisyDQN', 'QuantileDQN', 'DQN-prioritized', 'SAC']


def arbitrary(space, like, r):
    """Any observation the environment could show."""
    if hasattr(space, 'n'):
        return np.array([r.randrange(space.n)]).astype(like.dtype)
    lo = np.maximum(np.asarray(space.low, float), -5.)
    hi = np.minimum(np.asarray(space.high, float), 5.)
    x = np.array([r.uniform(a, b) for a, b in zip(lo.ravel(), hi.ravel())]).reshape(lo.shape)
    return x.astype(like.dtype)


class World:
    """The environment, with its ends decided by the simulator and random draws that depend on the step number alone."""
    def __init__(self, env, seed, ends, shown=None, horizon=None, continuing=False):
        self._env, self._seed, self._ends, self._shown, self._continuing = env, seed, ends, shown, continuing
        self.t = self.e = 0
        self.log = list()
        self._obs = None
        self._over = True
        self._info = env.info
        if horizon is not None:
            self._info = copy.copy(env.info)
            self._info.horizon = horizon

    @property
    def info(self):
        return self._info

    def __getattr__(self, name):
        return getattr(self._env, name)

    def _draws(self, *what):
        world.seed_all(hash((self._seed,) + what) & 0x7fffffff)

    def reset(self, state=None):
        self._draws(1, self.t)
        if self._continuing and not self._over and self._obs is not None:
            out = (self._obs.copy(), {})
        else:
            out = self._env.reset(state)
        self._over = False
        self.e += 1
        self.log.append(('reset', self.t, canon(out[0])))
        self._draws(2, self.t)
        return out

    def step(self, action):
        self._draws(3, self.t)
        obs, reward, absorbing, info = self._env.step(action)
        self.t += 1
        absorbing = absorbing or self.t in self._ends
        self.log.append(('step', canon(action), canon(reward), bool(absorbing)))
        if absorbing:
            self._over = True
            if self._shown is not None:
                obs = arbitrary(self._info.observation_space, obs, self._shown)
        else:
            self.log.append(canon(obs))
        self._obs = np.array(obs)
        self._draws(2, self.t)
        return obs, reward, absorbing, info


def learned(z, agent, r):
    out = [weights(agent)]
    for name in ('Q', 'approximator'):
        q = getattr(agent, name, None)
        if q is not None:
            for _ in range(4):
                s = arbitrary(z.env.info.observation_space, np.zeros(1) if not hasattr(z.env.info.observation_space, 'n')
                              else np.zeros(1, int), r)
                try:
                    out.append(np.array(q.predict(s)))
                except Exception as e:
                    if type(e).__name__ != 'NotFittedError':
                        raise
    return out


# their targets are sums of probabilities of the next state, equal only up to rounding, which Adam then amplifies
ROUNDED = ('CategoricalDQN', 'Rainbow')


def differ(name, a, b):
    if name in ROUNDED:
        x, y = ([v for v in l if v is not None] for l in (a, b))
        return [f'{i}: {u} != {v}' for i, (u, v) in enumerate(zip(x, y)) if not close(u, v, atol=.02, equal_nan=True)]
    return fp.diff(fp.describe(a), fp.describe(b))


def experiment(ctx, name, opt, calls, seed, **kw):
    world.seed_all(seed)
    z = zoo.build(name, opt)
    env = World(z.env, seed, **kw)
    draw = z.agent.draw_action

    def draw_action(*args, **kwargs):
        env._draws(4, env.t)
        return draw(*args, **kwargs)

    z.agent.draw_action = draw_action
    core = Core(z.agent, env)
    for what, par in calls:
        try:
            getattr(core, what)(quiet=True, **par)
        except Exception as e:
            if not zoo.numerical(e) and type(e).__name__ != 'NotFittedError':      # or too few data for a tree per action
                raise
            ctx.probe('numerical-failure')
            env.log.append('raised')
            break
    return env, learned(z, z.agent, random.Random(seed))


def beyond(ctx):
    """Two worlds that differ only in what is shown after an absorbing transition."""
    name, opt = ctx.choice('agent', zoo.NAMES), ctx.pick('options', 1 << 16)
    seed = ctx.pick('rng', 1 << 30)
    z = zoo.build(name, opt)
    calls = plan(ctx, name, z)
    rate = ctx.choice('end-rate', [.1, .3, .6])
    r = ctx.sub('ends')
    ends = {t for t in range(1, 400) if r.random() < rate}
    a, la = experiment(ctx, name, opt, calls, seed, ends=ends, shown=ctx.sub('shown-a'))
    b, lb = experiment(ctx, name, opt, calls, seed, ends=ends, shown=ctx.sub('shown-b'))
    ctx.fault('absorbing', sum(t in ends for t in range(1, a.t + 1)))
    ctx.sim_steps += a.t
    ctx.ev('case', name, opt, a.t, fp.describe(la))
    ctx.require(a.log == b.log or name in ROUNDED, 'beyond-absorbing', lambda: f'{name}: the observation after an absorbing transition changed '
                f'the behaviour: {first_diff(a.log, b.log)}')
    d = differ(name, la, lb) if a.log == b.log else []
    ctx.require(not d, 'beyond-absorbing', lambda: f'{name}: the observation after an absorbing transition changed what was '
                f'learned: {d[:3]}')
    ctx.state(name, rate, min(a.e, 6), tuple(c[0] for c in calls))


def time_limit(ctx):
    """Two worlds with the same transitions; one is interrupted by time limits and goes on where it stopped."""
    name, opt = ctx.choice('agent', ONE_STEP), ctx.pick('options', 1 << 16)
    seed = ctx.pick('rng', 1 << 30)
    z = zoo.build(name, opt)
    fit = z.fit if 'n_steps_per_fit' in z.fit else dict(n_steps_per_fit=ctx.int('per-fit', 4, 12))
    calls = [('learn', dict(n_steps=fit['n_steps_per_fit'] * ctx.int('fits', 1, 25 if fit['n_steps_per_fit'] < 6 else 3), **fit))]
    r = ctx.sub('ends')
    rate = ctx.choice('end-rate', [0., .05, .2])
    ends = {t for t in range(1, 400) if r.random() < rate}
    h = [ctx.choice('horizon', [1, 2, 3, 7, 1000]), ctx.choice('horizon', [2, 4, 9, 1000])]
    a, la = experiment(ctx, name, opt, calls, seed, ends=ends, horizon=h[0], continuing=True)
    b, lb = experiment(ctx, name, opt, calls, seed, ends=ends, horizon=h[1], continuing=True)
    ctx.fault('time-limit', max(a.e, b.e) - 1)
    ctx.sim_steps += a.t
    ctx.ev('case', name, opt, a.t, fp.describe(la))
    strip = lambda log: [x for x in log if x[0] != 'reset']
    ctx.require(strip(a.log) == strip(b.log), 'time-limit', lambda: f'{name}: time limits {h} changed the behaviour: '
                f'{first_diff(strip(a.log), strip(b.log))}')
    d = differ(name, la, lb)
    ctx.require(not d, 'time-limit', lambda: f'{name}: time limits {h} changed what was learned from the same transitions: {d[:3]}')
    ctx.state(name, tuple(h), rate)


def lspi(ctx):
    """Known finding: LSPI uses the features of the state after an absorbing transition."""
    out = list()
    for beyond_obs in (-1., 1.):
        phi = Features(basis_list=[PolynomialBasis(), PolynomialBasis([0], [1])])
        info = MDPInfo(Box(-np.ones(1), np.ones(1)), Discrete(2), .9, 10)
        agent = LSPI(info, EpsGreedy(Parameter(0.)), approximator_params=dict(
            input_shape=(phi.size,), output_shape=(2,), n_actions=2, phi=phi))
        s, a, r = np.array([[0.], [.5], [0.], [.5]]), np.array([[0], [0], [1], [1]]), np.array([1., .5, 0., 0.])
        end = np.ones(4, bool)
        agent.fit(Dataset.from_array(s, a, r, np.full((4, 1), beyond_obs), end, end, gamma=.9))
        out.append(agent.approximator.predict(np.array([[.25]])))
    ctx.require(close(*out), 'beyond-absorbing-LSPI', lambda: f'LSPI learned {out[0]} and {out[1]} from datasets that '
                'differ only in the states after absorbing transitions')


CHECK = Check(
    'P16', dict(beyond=beyond, time_limit=time_limit), pinned={'P16-lspi': lspi}, quick=dict(beyond=2200, time_limit=1100),
    thorough=dict(beyond=60000, time_limit=30000),
    rule='One case = one experiment of one repository algorithm in two worlds that differ only in what is shown after '
         'absorbing transitions (beyond) or in where time limits cut the same stream of transitions (time_limit). '
         'Distinct = different event-log digest.',
    real=['every algorithm, policy, approximator and replay memory of the zoo', 'Core', 'Dataset', 'environments'],
    stub=['the ends of episodes, random draws (functions of the step number)'],
    assumptions=['time limits: one-step learners only; traces, n-step and Monte-Carlo methods are cut by design'])
