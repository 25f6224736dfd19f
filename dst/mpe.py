"""Worker environments and the sequential reference model for MultiprocessEnvironment."""
import numpy as np

from mushroom_rl.core import Agent, Environment, MDPInfo, VectorizedEnvironment
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils import Box, Discrete

from .toys import snapshot, snap_info
from .simproc import _rng_state, _set_rng


class Hub:
    """Shared, out-of-band bookkeeping (never part of the simulated memory of a process)."""
    _sim_shared = True

    def __init__(self, kernel):
        self.kernel = kernel
        self.log = {}
        self.fail_ctor = {}

    def op(self, what, *data):
        if self.kernel is None:
            return
        pid = self.kernel.cur.pid
        self.log.setdefault(pid, []).append((what,) + data)
        self.kernel.env_op(what)


class WorkerEnv(Environment):
    """Deterministic state machine; every reply depends on the complete command history of this very instance."""

    def __init__(self, hub, dim=3, scale=1., horizon=7, discrete=False, obs_dtype=float, lazy=False):
        self._hub = hub
        if hub.kernel is not None:
            k = hub.kernel
            kind = hub.fail_ctor.get(k.cur.pid)
            k.point('ctor')
            if kind is not None:
                k.ctx.fault('ctor-' + kind)
                if kind == 'exception':
                    raise RuntimeError('cannot build environment')
                raise SystemExit(1)
        self._dim, self._scale = dim, scale
        act = Discrete(5) if discrete else Box(-10, 10, shape=(2,))
        super().__init__(MDPInfo(Box(-1e9, 1e9, shape=(dim,)), act, 0.9, horizon))
        self._n = 0
        self._acc = 0.
        self._ep = 0
        self._rs = np.random.RandomState(0)
        self._offset = 0.
        self._buf = np.zeros(dim)

    def _state(self, tag):
        self._buf[:] = [self._acc * self._scale, self._n + self._offset, tag][:self._dim] + \
            [float(self._ep)] * max(0, self._dim - 3)
        return self._buf            # the same buffer every time: an in-process alias must not leak out of the worker

    def seed(self, seed):
        self._hub.op('seed', seed)
        self._rs = np.random.RandomState(seed)
        self._offset = float(seed)

    def reset(self, state=None):
        self._hub.op('reset', None if state is None else np.array(state).tolist())
        self._ep += 1
        self._acc = float(self._rs.randint(1000)) + np.random.randint(10)
        if state is not None:
            self._buf[:] = state
            self._acc = float(np.sum(self._buf))
            return self._buf, {'ep': self._ep}
        return self._state(-1.), {'ep': self._ep}

    def step(self, action):
        a = np.array(action, dtype=float).ravel()
        self._hub.op('step', a.tolist())
        self._n += 1
        self._acc = self._acc * 0.5 + float(np.sum(a * np.arange(1, len(a) + 1))) + self._n
        r = self._acc - 2 * self._n + float(np.random.randint(5))
        absorbing = int(self._acc * 7) % 5 == 0
        return self._state(self._acc % 3), r, absorbing, {'n': self._n, 'who': {'acc': self._acc}}

    def render(self, record=False):
        self._hub.op('render', record)
        return np.full((2, 2, 3), self._n % 200, dtype=np.uint8) if record else None

    def stop(self):
        self._hub.op('stop')
        self._offset += 0.125


class Reference:
    """n independent environments, executed sequentially, each with its own copy of the global RNGs."""

    def __init__(self, make, n, rng_at_fork):
        self.envs, self.rng = list(), list()
        keep = _rng_state()
        for i in range(n):
            _set_rng(rng_at_fork[i])
            self.envs.append(make())
            self.rng.append(_rng_state())
        _set_rng(keep)

    def call(self, i, name, *a, **k):
        keep = _rng_state()
        _set_rng(self.rng[i])
        try:
            r = getattr(self.envs[i], name)(*a, **k)
            # results cross a process boundary: they are copies
            import pickle
            r = pickle.loads(pickle.dumps(r))
        finally:
            self.rng[i] = _rng_state()
            _set_rng(keep)
        return r


class SeqVecEnv(VectorizedEnvironment):
    """The reference model behind the vectorised interface: the same environments, executed one after the other."""

    def __init__(self, make, n, rng_at_fork):
        self.ref = Reference(make, n, rng_at_fork)
        info = self.ref.envs[0].info
        super().__init__(info, n)
        self._cur = np.zeros((n,) + info.observation_space.shape)

    def reset_all(self, env_mask, state=None):
        infos = list()
        for i in range(self._n_envs):
            if env_mask[i]:
                self._cur[i], inf = self.ref.call(i, 'reset', None if state is None else state[i])
                infos.append(inf)
            else:
                infos.append({})
        return self._cur.copy(), infos

    def step_all(self, env_mask, action):
        r, ab, infos = np.zeros(self._n_envs), np.zeros(self._n_envs, dtype=bool), list()
        for i in range(self._n_envs):
            if env_mask[i]:
                self._cur[i], r[i], ab[i], inf = self.ref.call(i, 'step', action[i])
                infos.append(inf)
            else:
                infos.append({})
        return self._cur.copy(), r, ab, infos

    def stop(self):
        for i in range(self._n_envs):
            self.ref.call(i, 'stop')


class RowPolicy(Policy):
    """Deterministic: the action of a row depends on that row only."""

    def __init__(self, discrete, n_actions, adim):
        super().__init__()
        self.discrete, self.n_actions, self.adim = discrete, n_actions, adim

    def draw_action(self, state, policy_state=None):
        s = np.where(np.abs(state) < 1e15, state, 0.)
        v = np.sum(s * np.arange(1, s.shape[1] + 1), axis=1)
        if self.discrete:
            return (np.abs(v).astype(int) % self.n_actions)[:, None], None
        return np.stack([np.sin(v + k) for k in range(self.adim)], axis=1), None

    def reset(self):
        return None


class StackAgent(Agent):
    def __init__(self, info):
        sp = info.action_space
        super().__init__(info, RowPolicy(hasattr(sp, 'n'), getattr(sp, 'n', 0), sp.shape[0]), backend='numpy')
        self.fits = list()

    def fit(self, dataset):
        self.fits.append((snapshot(dataset), snap_info(dataset)))
