"""Scripted environments and recording agents.  Every produced state/action/reward is unique, so any loss,
duplication, reordering or cross-talk of samples is visible in the history."""
import copy

import numpy as np
import torch

from mushroom_rl.core import Agent, Environment, MDPInfo, VectorizedEnvironment
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils import Box, Discrete

from .engine import SimFault, SimInterrupt, SimHang

STATE_DIM = 4


def to_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy()
    return np.asarray(x)


def mk_info(backend, horizon, gamma=0.9, discrete_action=False, n_act=7):
    dt = torch.float64 if backend == 'torch' else float
    obs = Box(-1e6, 1e6, shape=(STATE_DIM,), data_type=dt)
    act = Discrete(n_act) if discrete_action else Box(-1e6, 1e6, shape=(2,), data_type=dt)
    return MDPInfo(obs, act, gamma, horizon, backend=backend)


class Plan:
    """Injected application faults: raise at the k-th call of a given seam operation."""

    def __init__(self, ctx, at=None):
        self.ctx = ctx
        self.count = {}
        self.at = at or {}      # op -> (call number, 'error' | 'interrupt')

    def arm(self, op, number, what):
        self.at[op] = (self.count.get(op, 0) + number, what)

    def disarm(self):
        self.at = {}

    def hit(self, op):
        self.ctx.tick()
        n = self.count.get(op, 0) + 1
        self.count[op] = n
        if op in self.at and n >= self.at[op][0]:
            what = self.at[op][1]
            del self.at[op]
            self.ctx.fault(f'{what}@{op}')
            if what == 'interrupt':
                raise SimInterrupt(op)
            raise SimFault(op)


class EpisodeScript:
    """Decides lengths and absorbing flags: episode k ends by absorption after L_k steps (or never)."""

    def __init__(self, rng, horizon, absorb_p, max_len):
        self.rng, self.absorb_p, self.horizon, self.max_len = rng, absorb_p, horizon, max_len

    def new_episode(self):
        h = int(min(self.horizon, 10 ** 6))
        if self.rng.random() < self.absorb_p or h >= 10 ** 6:
            # sometimes exactly at the horizon
            c = self.rng.random()
            if c < 0.15 and h <= self.max_len * 2:
                return h
            if c < 0.3:
                return 1
            return self.rng.randint(1, max(1, min(self.max_len, h)))
        return None


class ScriptEnv(Environment):
    def __init__(self, ctx, plan, info, script, env_id=0, info_keys='rich', int_reward=False):
        super().__init__(info)
        self.ctx, self.plan, self.script, self.env_id = ctx, plan, script, env_id
        self.uid = 0
        self.ep = 0
        self.t = 0
        self.alive = False
        self.absorb_at = None
        self.ledger = list()
        self.stops = 0
        self.info_keys = info_keys
        self.cur = None

    def _mk(self, vec):
        if self.info.backend == 'torch':
            return torch.tensor(vec, dtype=torch.float64)
        if self.info.backend == 'list':
            return list(vec)
        return np.array(vec, dtype=float)

    def _new_state(self):
        self.uid += 1
        self.cur = [float(self.uid), float(self.ep), float(self.t), float(self.env_id)]
        return self._mk(self.cur)

    def reset(self, state=None):
        self.plan.hit('env.reset')
        self.ep += 1
        self.t = 0
        self.alive = True
        self.absorb_at = self.script.new_episode()
        s = self._new_state()
        if state is not None:
            self.cur = [float(v) for v in to_np(state)]
            s = self._mk(self.cur)
        self.ledger.append(('reset', None if state is None else tuple(float(v) for v in to_np(state)),
                            tuple(self.cur)))
        self.ctx.ev('reset', self.env_id, self.cur)
        return s, {'ep': self.ep}

    def step(self, action):
        self.plan.hit('env.step')
        prev = tuple(self.cur)
        a = tuple(float(v) for v in np.atleast_1d(to_np(action)).ravel())
        self.t += 1
        s = self._new_state()
        absorbing = self.absorb_at is not None and self.t >= self.absorb_at
        reward = self.uid * 0.5 - 3.
        info = {}
        if self.info_keys == 'rich':
            info = {'uid': float(self.uid), 'nested': {'twice': self.uid * 2.}}
            if self.info.backend != 'list':
                info['vec'] = self._mk([self.uid + 0.25, -self.uid])
        elif self.info_keys == 'sparse' and self.uid % 7 == 0:
            info = {'event': self.uid + .5}
        self.ledger.append(('step', prev, a, reward, tuple(self.cur), absorbing, self.alive, self.t))
        self.ctx.ev('step', self.env_id, a, self.cur, absorbing)
        return s, reward, absorbing, info

    def render(self, record=False):
        self.plan.hit('env.render')
        f = np.full((4, 4, 3), self.uid % 251, dtype=np.uint8)
        return f if record else None

    def stop(self):
        self.plan.hit('env.stop')
        self.stops += 1
        self.ledger.append(('stop',))


class TagPolicy(Policy):
    """Action = (call number, uid of the state it was asked for); optional internal state that counts steps."""

    def __init__(self, ctx, plan, backend, stateful, discrete, n_act=7):
        super().__init__(policy_state_shape=(2,) if stateful else None)
        self.ctx, self.plan, self.backend, self.stateful, self.discrete, self.n_act = \
            ctx, plan, backend, stateful, discrete, n_act
        self.calls = 0
        self.resets = 0
        self.log = list()

    def _mk(self, v, dtype=float):
        if self.backend == 'torch':
            return torch.tensor(np.array(v), dtype=torch.int64 if dtype is int else torch.float64)
        return np.array(v, dtype=dtype)

    def draw_action(self, state, policy_state=None):
        self.plan.hit('agent.draw')
        self.calls += 1
        s = to_np(state)
        if self.discrete:
            a = [self.calls % self.n_act]
        else:
            a = [float(self.calls), float(s.ravel()[0])]
        nps = None
        if self.stateful:
            ps = to_np(policy_state)
            nps = self._mk([ps[0], ps[1] + 1])
        self.log.append((tuple(np.asarray(s, dtype=float).ravel().tolist()),
                         tuple(float(x) for x in a),
                         None if not self.stateful else tuple(to_np(policy_state).tolist())))
        return self._mk(a, int if self.discrete else float), nps

    def reset(self):
        self.resets += 1
        if self.stateful:
            return self._mk([float(self.resets), 0.])
        return None


def snapshot(dataset):
    """Deep, backend independent copy of what a consumer of a dataset can see."""
    out = dict(
        state=[tuple(to_np(s).ravel().tolist()) for s in dataset.state],
        action=[tuple(np.atleast_1d(to_np(a)).astype(float).ravel().tolist()) for a in dataset.action],
        reward=[float(r) for r in dataset.reward],
        next_state=[tuple(to_np(s).ravel().tolist()) for s in dataset.next_state],
        absorbing=[bool(a) for a in dataset.absorbing],
        last=[bool(a) for a in dataset.last],
        n=len(dataset),
        theta=[tuple(to_np(t).ravel().tolist()) for t in dataset.theta_list])
    if dataset.is_stateful:
        out['ps'] = [tuple(to_np(s).ravel().tolist()) for s in dataset.policy_state]
        out['nps'] = [tuple(to_np(s).ravel().tolist()) for s in dataset.policy_next_state]
    return out


def snap_info(dataset):
    """The parsed step information of a dataset (parsing is part of the public interface)."""
    dataset.info.parse()
    return {k: [np.atleast_1d(to_np(v)).ravel().astype(float).tolist() for v in dataset.info[k]]
            for k in sorted(dataset.info.data.keys())}


class RecordingAgent(Agent):
    def __init__(self, ctx, plan, mdp_info, backend='numpy', stateful=False, discrete=False, episodic=False,
                 n_act=7):
        self.ctx, self.plan = ctx, plan
        policy = TagPolicy(ctx, plan, backend, stateful, discrete, n_act)
        super().__init__(mdp_info, policy, is_episodic=episodic, backend=backend)
        self.fits = list()
        self.trace = list()
        self.n_theta = 0
        self.stops = 0
        self.touch = None
        self.episode_starts = list()

    def fit(self, dataset):
        self.plan.hit('agent.fit')
        snap = snapshot(dataset)
        self.trace.append(('fit', snap, dataset))
        self.ctx.ev('fit', snap['n'], snap['state'])
        if self.touch is not None:
            self.touch(dataset)

    def episode_start(self, initial_state, episode_info):
        self.plan.hit('agent.episode_start')
        ps, _ = super().episode_start(initial_state, episode_info)
        self.episode_starts.append(tuple(to_np(initial_state).ravel().tolist()))
        theta = None
        if self.info.is_episodic:
            self.n_theta += 1
            theta = np.array([float(self.n_theta), 0.5])
        return ps, theta

    def stop(self):
        self.plan.hit('agent.stop')
        self.stops += 1


class VecScriptEnv(VectorizedEnvironment):
    """n scripted environments behind the vectorised interface (numpy or torch)."""

    def __init__(self, ctx, plan, info, scripts, info_keys='rich'):
        self.ctx, self.plan = ctx, plan
        n = len(scripts)
        super().__init__(info, n)
        self.envs = [ScriptEnv(ctx, _Quiet(ctx), info, scripts[i], env_id=i, info_keys=info_keys) for i in range(n)]
        self.ledger = list()
        self.stops = 0
        self._cur = [e._mk([0., 0., 0., float(i)]) for i, e in enumerate(self.envs)]

    def _stack(self, xs):
        if self.info.backend == 'torch':
            return torch.stack([x.clone() for x in xs])
        return np.stack([x.copy() for x in xs])

    def reset_all(self, env_mask, state=None):
        self.plan.hit('env.reset')
        m = [bool(v) for v in env_mask]
        infos = list()
        for i in range(self._n_envs):
            if m[i]:
                self._cur[i], inf = self.envs[i].reset(None if state is None else state[i])
                infos.append(inf)
            else:
                infos.append({})
        self.ledger.append(('reset', m))
        return self._stack(self._cur), infos

    def step_all(self, env_mask, action):
        self.plan.hit('env.step')
        m = [bool(v) for v in env_mask]
        rewards, absorbing, infos = list(), list(), list()
        for i in range(self._n_envs):
            if m[i]:
                self._cur[i], r, ab, inf = self.envs[i].step(action[i])
                rewards.append(r)
                absorbing.append(ab)
                infos.append(inf)
            else:
                rewards.append(-12345.)
                # what a masked-out environment "returns" is garbage on purpose
                absorbing.append(False)
                infos.append({})
        self.ledger.append(('step', m))
        if self.info.backend == 'torch':
            r, ab = torch.tensor(rewards, dtype=torch.float64), torch.tensor(absorbing)
        else:
            r, ab = np.array(rewards), np.array(absorbing)
        return self._stack(self._cur), r, ab, infos

    def stop(self):
        self.plan.hit('env.stop')
        self.stops += 1


class _Quiet:
    def __init__(self, ctx):
        self.ctx = ctx

    def hit(self, op):
        self.ctx.tick()


class VecRecordingAgent(Agent):
    def __init__(self, ctx, plan, mdp_info, n_envs, backend='numpy', stateful=False, episodic=False):
        self.ctx, self.plan, self.n_envs = ctx, plan, n_envs
        policy = VecTagPolicy(ctx, plan, backend, stateful, n_envs)
        super().__init__(mdp_info, policy, is_episodic=episodic, backend=backend)
        self.trace = list()
        self.stops = 0
        self.starts = list()
        self.theta_calls = 0

    def fit(self, dataset):
        self.plan.hit('agent.fit')
        snap = snapshot(dataset)
        self.trace.append(('fit', snap, snap_info(dataset)))
        self.ctx.ev('fit', snap['n'], snap['state'])

    def episode_start_vectorized(self, initial_states, episode_info, start_mask):
        self.plan.hit('agent.episode_start')
        m = [bool(v) for v in start_mask]
        self.starts.append((m, to_np(initial_states).copy(), episode_info))
        ps, _ = super().episode_start_vectorized(initial_states, episode_info, start_mask)
        theta = None
        if self.info.is_episodic:
            self.theta_calls += 1
            theta = np.array([[float(self.theta_calls), float(i)] for i in range(self.n_envs)])
            theta = self._convert_to_env_backend(self.policy._mk(theta))
        return ps, theta

    def stop(self):
        self.plan.hit('agent.stop')
        self.stops += 1


class VecTagPolicy(TagPolicy):
    def __init__(self, ctx, plan, backend, stateful, n_envs):
        super().__init__(ctx, plan, backend, stateful, False)
        self.n_envs = n_envs

    def draw_action(self, state, policy_state=None):
        self.plan.hit('agent.draw')
        self.calls += 1
        s = to_np(state)
        a = np.array([[float(self.calls), float(s[i][0])] for i in range(self.n_envs)])
        ps = to_np(policy_state).copy() if self.stateful else None
        nps = self._mk(ps + np.array([0., 1.])) if self.stateful else None
        self.log.append((s.copy(), a, ps))
        return self._mk(a), nps

    def reset(self):
        self.resets += 1
        if self.stateful:
            return self._mk([[float(self.resets), 0.]] * self.n_envs)
        return None
