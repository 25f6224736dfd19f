"""P22: policies, distributions and approximators have no memory but their parameters and policy states.

The oracle is differential: whatever happened to the living object, every answer it gives must be the one of a freshly
built object with the parameters the history gives it, the same inputs and the same random draws."""
import os

import numpy as np
import torch
from torch import nn, optim

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.parametric import CMAC, LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.approximators.table import Table
from mushroom_rl.core import Serializable
from mushroom_rl.distributions import (CholeskyGaussianTorchDistribution, DiagonalGaussianTorchDistribution,
                                       GaussianCholeskyDistribution, GaussianDiagonalDistribution, GaussianDistribution)
from mushroom_rl.features import Features
from mushroom_rl.features.basis import GaussianRBF
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.policy import (DMP, Boltzmann, BoltzmannTorchPolicy, ClippedGaussianPolicy, DeterministicPolicy,
                                DiagonalGaussianPolicy, EpsGreedy, GaussianPolicy, GaussianTorchPolicy, Mellowmax,
                                OrnsteinUhlenbeckPolicy, ProMP, RecurrentGaussianTorchPolicy, StateLogStdGaussianPolicy,
                                StateStdGaussianPolicy, VectorPolicy)
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter

from dst import world
from dst.fp import close
from dst.runner import Check
from dst.simdisk import SimDisk, plan_fault
from dst.zoo import RnnActor
from props.p05 import attempt

S, A = 3, 2                     # size of states and actions
N = 5                           # number of discrete states


def num(x):
    if isinstance(x, (tuple, list)):
        return [num(v) for v in x]
    if isinstance(x, torch.Tensor):
        return x.detach().numpy()
    return x


def same(a, b, tol=1e-9):
    a, b = num(a), num(b)
    if isinstance(a, list) or isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and close(a, b, rtol=tol, atol=tol, equal_nan=True)


def keep(x):
    if isinstance(x, (tuple, list)):
        return type(x)(keep(v) for v in x)
    if isinstance(x, torch.Tensor):
        return x.detach().clone()
    return x.copy() if isinstance(x, np.ndarray) else x


class Net(nn.Module):
    def __init__(self, input_shape, output_shape, dropout=False, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], 3)
        self._o = nn.Linear(3, output_shape[0])
        self._d = nn.Dropout(.5) if dropout else nn.Identity()

    def forward(self, x, **kwargs):
        return self._o(self._d(torch.tanh(self._h(x.float()))))


class Bomb:
    left = 0


def mse(y_hat, y, reduction='mean'):
    """The loss function of the user: in an interrupted fit it raises."""
    if Bomb.left:
        Bomb.left -= 1
        if not Bomb.left:
            raise InterruptedError('simulated interrupt in a fit')
    return nn.functional.mse_loss(y_hat, y, reduction=reduction)


def linear(n_out=A, n_in=S):
    return Regressor(LinearApproximator, input_shape=(n_in,), output_shape=(n_out,))


def network(n_out=A):
    return Regressor(TorchApproximator, input_shape=(S,), output_shape=(n_out,), network=Net)


class Schedule:
    """A schedule and its law: the value depends on the number of uses (of its index) only."""
    def __init__(self, ctx, rs, values, kinds=('constant', 'linear', 'decay', 'table')):
        self.kind = ctx.choice('schedule', list(kinds))
        self.v = values[rs.randint(len(values))]
        self.n = np.zeros(N if self.kind == 'table' else 1, dtype=int)
        self.steps = 3 + rs.randint(9)

    def make(self):
        if self.kind == 'constant':
            return Parameter(self.v)
        if self.kind == 'decay':
            return DecayParameter(self.v, exp=.5)
        return LinearParameter(self.v, .1 * self.v, self.steps, size=(N,) if self.kind == 'table' else (1,))

    def _i(self, s):
        return int(s) if self.kind == 'table' else 0

    def use(self, s):
        self.n[self._i(s)] += 1

    def value(self, s):
        n = self.n[self._i(s)]
        if self.kind == 'constant':
            return self.v
        if self.kind == 'decay':
            return self.v / max(n, 1) ** .5
        return max(self.v + (.1 * self.v - self.v) * n / self.steps, .1 * self.v)


# ------------------------------------------------------------------------------------------------ policies
class Subject:
    """A living policy and what its history says its parameters are."""
    stateful, torch_state, discrete, density, gradient, law = False, False, False, True, False, True
    tol = 1e-9

    def __init__(self, ctx, rs):
        self.ctx, self.rs = ctx, rs
        self.setup()
        self.live = self.build(live=True)

    def setup(self):
        pass

    def weights(self):
        return np.round(self.rs.randn(self.w.size), 3)

    def state(self):
        s = np.round(self.rs.randn(S), 2)
        return torch.tensor(s, dtype=torch.float) if self.torch_state else s

    def query(self, pi, name, s, a, ps):
        if name == 'draw':
            return pi.draw_action(s, ps)
        if name == 'density':
            return pi(s, a, ps)
        if name == 'gradient':
            return pi.diff_log(s, a, ps)
        if name == 'weights':
            return pi.get_weights()
        if name == 'reset':
            return pi.reset()

    def queries(self):
        out = ['draw', 'draw', 'draw', 'weights', 'reset']
        return out + ['density'] * self.density + ['gradient'] * self.gradient

    def used(self, name, s):
        """What the query itself does to the parameters, before the value is computed."""

    def set(self, w):
        """The caller sets new weights, and goes on with the array."""
        w0 = w.clone() if isinstance(w, torch.Tensor) else w.copy()
        self.live.set_weights(w0)
        w0[...] = 77.

    def change(self):
        self.w = self.weights()
        self.set(self.w)

    def model(self):
        return keep(self.__dict__.get('w'))

    def restore(self, m):
        self.w = m


class Td(Subject):
    discrete, values = True, [1., .5, .2]
    kinds = ('constant', 'linear', 'decay', 'table')

    def setup(self):
        self.q = np.round(self.rs.randn(N, A + 1), 1)
        self.q[self.rs.randint(N), :] = .5                          # a tie
        self.sch = Schedule(self.ctx, self.rs, self.values, self.kinds)
        self.law = self.sch.kind == 'constant'

    def state(self):
        return np.array([self.rs.randint(N)])

    def build(self, live=False, s=None):
        t = Table((N, A + 1))
        t.table[:] = self.q
        if live:
            self.table = t
        pi = self.make(self.sch.make() if live else Parameter(self.sch.value(0 if s is None else s[0])))
        pi.set_q(t)
        return pi

    def queries(self):
        return ['draw', 'draw', 'draw', 'probs', 'prob', 'reset']

    def query(self, pi, name, s, a, ps):
        if name == 'probs':
            return pi(s)
        if name == 'prob':
            return pi(s, np.array([int(np.ravel(a)[0]) % (A + 1)]))
        return super().query(pi, name, s, a, ps)

    def used(self, name, s):
        if name == 'draw':
            self.sch.use(s[0])

    def change(self):
        k = self.ctx.choice('change', ['learn', 'learn', 'update', 'replace'])
        if k == 'learn':                                            # the agent changes its value function
            i = (self.rs.randint(N), self.rs.randint(A + 1))
            self.q[i] = np.round(self.rs.randn(), 1)
            self.live.get_q()[i] = self.q[i]
        elif k == 'update' and not isinstance(self.live, Mellowmax):
            s = self.rs.randint(N)
            self.live.update(np.array([s]))
            self.sch.use(s)
        elif k == 'replace' and not isinstance(self.live, Mellowmax):
            self.sch = Schedule(self.ctx, self.rs, self.values, self.kinds)
            self.law = self.sch.kind == 'constant'
            (self.live.set_epsilon if isinstance(self.live, EpsGreedy) else self.live.set_beta)(self.sch.make())

    def model(self):
        return self.q.copy(), self.sch, self.sch.n.copy()

    def restore(self, m):
        self.q, self.sch = m[0].copy(), m[1]
        self.sch.n = m[2].copy()
        self.law = self.sch.kind == 'constant'


class TEps(Td):
    def make(self, p):
        return EpsGreedy(p)


class TBoltzmann(Td):
    values = [1., 3.]

    def used(self, name, s):                                        # evaluating it is using its temperature, too
        if name in ('draw', 'probs', 'prob'):
            self.sch.use(s[0])

    def make(self, p):
        return Boltzmann(p)


class TMellow(Td):
    values, kinds = [2., 5.], ('constant',)

    def make(self, p):
        return Mellowmax(p)


class TGauss(Subject):
    gradient = True

    def setup(self):
        self.w, self.cov = np.round(self.rs.randn(A * S), 3), self.covariance()

    def covariance(self):
        k = self.ctx.pick('covariance', 4)
        if k == 0:                                                  # the variances stay, the correlation changes
            c = getattr(self, 'cov', np.eye(A)).copy()
            v = np.sqrt(np.diag(c))
            r = np.eye(A) + .5 * self.rs.rand() * (1. - np.eye(A))
            return c * np.eye(A) + r * np.outer(v, v) * (1. - np.eye(A))
        if k == 1:
            return np.diag(np.round(.2 + self.rs.rand(A), 3))
        m = self.rs.randn(A, A) * .3
        return np.round(m.dot(m.T) + np.diag(.2 + self.rs.rand(A)), 3)

    def build(self, live=False, s=None):
        pi = GaussianPolicy(linear(), self.cov.copy())
        pi.set_weights(self.w.copy())
        return pi

    def change(self):
        if self.ctx.flip('sigma', .4):
            self.cov = self.covariance()
            self.live.set_sigma(self.cov.copy())
        else:
            super().change()

    def model(self):
        return self.w.copy(), self.cov.copy()

    def restore(self, m):
        self.w, self.cov = m[0].copy(), m[1].copy()


class TDiag(Subject):
    gradient = True

    def setup(self):
        self.w = self.weights()

    def weights(self):
        return np.concatenate((np.round(self.rs.randn(A * S), 3), np.round(.3 + self.rs.rand(A), 3)))

    def build(self, live=False, s=None):
        pi = DiagonalGaussianPolicy(linear(), np.ones(A))
        pi.set_weights(self.w.copy())
        return pi

    def change(self):
        if self.ctx.flip('std', .4):
            self.w[-A:] = np.round(.3 + self.rs.rand(A), 3)
            self.live.set_std(self.w[-A:].copy())
        else:
            super().change()


class TStateStd(Subject):
    gradient = True

    def setup(self):
        self.w = np.round(self.rs.randn(2 * A * S), 3)

    def build(self, live=False, s=None):
        pi = StateStdGaussianPolicy(linear(), linear(), eps=.05)
        pi.set_weights(self.w.copy())
        return pi


class TStateLogStd(TStateStd):
    def weights(self):
        return np.round(self.rs.randn(2 * A * S) * .4, 3)

    def setup(self):
        self.w = self.weights()

    def build(self, live=False, s=None):
        pi = StateLogStdGaussianPolicy(linear(), linear())
        pi.set_weights(self.w.copy())
        return pi


class TDeterministic(Subject):
    law = False

    def setup(self):
        self.w = np.round(self.rs.randn(A * S), 3)

    def build(self, live=False, s=None):
        pi = DeterministicPolicy(linear())
        pi.set_weights(self.w.copy())
        return pi


class TNet(Subject):
    torch_state, density, law, tol = True, False, False, 1e-5

    def setup(self):
        self.w = self.net_weights()
        self.settings()

    def settings(self):
        pass

    def net_weights(self):
        return torch.tensor(np.round(self.rs.randn(3 * S + 3 + 3 * A + A), 2), dtype=torch.float)

    def weights(self):
        return self.net_weights()

    def build(self, live=False, s=None):
        pi = self.make()
        pi.set_weights(self.w.clone())
        return pi


class TOu(TNet):
    stateful = True

    def settings(self):
        self.x0 = torch.tensor(np.round(self.rs.randn(A), 2), dtype=torch.float) if self.ctx.flip('x0', .5) else None

    def make(self):
        return OrnsteinUhlenbeckPolicy(network(), torch.ones(1) * .3, .15, 1e-2, None if self.x0 is None else self.x0.clone())


class TClipped(TNet):
    def make(self):
        return ClippedGaussianPolicy(network(), torch.eye(A) * .4, -torch.ones(A), torch.ones(A) * .8)


class TTorch(TNet):
    """Policies with tensors: distribution, log-probability and entropy."""
    def queries(self):
        return ['draw', 'draw', 'draw', 'weights', 'reset', 'log_prob', 'entropy', 'distribution']

    def batch(self):
        return torch.tensor(np.round(self.rs.randn(4, S), 2), dtype=torch.float)

    def query(self, pi, name, s, a, ps):
        b, acts = self.extra
        if name == 'log_prob':
            return pi.log_prob_t(b, acts)
        if name == 'entropy':
            return pi.entropy(b)
        if name == 'distribution':
            return pi.distribution(b).log_prob(acts)
        return super().query(pi, name, s, a, ps)


class TGaussTorch(TTorch):
    def net_weights(self):
        return torch.cat((super().net_weights(), torch.tensor(np.round(self.rs.randn(A) * .4, 2), dtype=torch.float)))

    def make(self):
        return GaussianTorchPolicy(Net, (S,), (A,))

    def actions(self):
        return torch.tensor(np.round(self.rs.randn(4, A), 2), dtype=torch.float)


class TBoltzmannTorch(TTorch):
    def settings(self):
        self.sch = Schedule(self.ctx, self.rs, [1., 3.], ('constant',))

    def build(self, live=False, s=None):
        pi = BoltzmannTorchPolicy(Net, (S,), (A,), self.sch.make() if live else Parameter(self.sch.value(0)))
        pi.set_weights(self.w.clone())
        return pi

    def actions(self):
        return torch.tensor(self.rs.randint(A, size=(4, 1)))

    def used(self, name, s):
        if name == 'draw':
            self.sch.use(0)

    def model(self):
        return self.w.clone(), self.sch, self.sch.n.copy()

    def restore(self, m):
        self.w, self.sch = m[0].clone(), m[1]
        self.sch.n = m[2].copy()


class TRecurrent(TNet):
    stateful = True

    def settings(self):
        world.seed_all(int(self.rs.randint(1 << 30)))
        self.w = self.make().get_weights().clone()

    def net_weights(self):
        if not hasattr(self, 'w'):
            return None
        return torch.tensor(np.round(self.rs.randn(len(self.w)) * .5, 2), dtype=torch.float)

    def make(self):
        return RecurrentGaussianTorchPolicy(network=RnnActor, policy_state_shape=(3,), input_shape=(S,), output_shape=(A,),
                                            n_hidden=3, dim_env_state=S, std_0=.5)


class TProMP(Subject):
    stateful, law = True, False

    def setup(self):
        self.periodic, self.noisy = self.ctx.flip('periodic', .4), self.ctx.flip('noisy', .5)
        self.duration = 2 + self.rs.randint(5)
        self.w = np.round(self.rs.randn(A * 4), 3)

    def build(self, live=False, s=None):
        phi = Features(basis_list=GaussianRBF.generate([4], [0.], [1.]))
        pi = ProMP(linear(A, 4), phi, self.duration, sigma=.2 * np.eye(A) if self.noisy else None, periodic=self.periodic)
        pi.set_weights(self.w.copy())
        return pi


class TDMP(Subject):
    stateful, law = True, False

    def setup(self):
        self.goal = 1. + np.round(self.rs.rand(A), 2)
        self.w = np.round(self.rs.randn(A * 12), 3)

    def build(self, live=False, s=None):
        one = np.ones(A)
        phi = Features(basis_list=GaussianRBF.generate([4, 3], [0., 0.], [1., 1.]))
        pi = DMP(linear(A, 12), phi, self.goal.copy(), .1, 1., one, one * 2, one * 3, one)
        pi.set_weights(self.w.copy())
        return pi

    def change(self):
        if self.ctx.flip('goal', .4):
            self.goal = 1. + np.round(self.rs.rand(A), 2)
            self.live.set_goal(self.goal.copy())
        else:
            super().change()

    def model(self):
        return self.w.copy(), self.goal.copy()

    def restore(self, m):
        self.w, self.goal = m[0].copy(), m[1].copy()


class TVector(Subject):
    """One copy of a policy per environment."""
    density, law = False, False

    def setup(self):
        self.n = 2 + self.rs.randint(3)
        self.stateful = self.ctx.flip('stateful', .4)
        self.size = A * (4 if self.stateful else S)
        self.w = np.round(self.rs.randn(self.n, self.size), 3)

    def weights(self):
        return np.round(self.rs.randn(self.n, self.size), 3)

    def state(self):
        return np.round(self.rs.randn(self.n, S), 2)

    def build(self, live=False, s=None):
        if self.stateful:
            base = ProMP(linear(A, 4), Features(basis_list=GaussianRBF.generate([4], [0.], [1.])), 4, sigma=.2 * np.eye(A))
        else:
            base = GaussianPolicy(linear(), .3 * np.eye(A))
        pi = VectorPolicy(base, self.n)
        pi.set_weights(self.w.copy())
        return pi

    def change(self):
        if self.ctx.flip('resize', .3):
            self.n = 1 + self.rs.randint(5)
            self.live.set_n(self.n)
            m = max(0, self.n - len(self.w))
            self.w = np.concatenate((self.w[:self.n], np.repeat(self.w[:1], m, axis=0)))
            self.resized = True
        else:
            super().change()

    def model(self):
        return self.w.copy(), self.n

    def restore(self, m):
        self.w, self.n = m[0].copy(), m[1]
        self.resized = True


POLICIES = dict(eps=TEps, boltzmann=TBoltzmann, mellowmax=TMellow, gaussian=TGauss, diagonal=TDiag, statestd=TStateStd,
                statelogstd=TStateLogStd, deterministic=TDeterministic, ou=TOu, clipped=TClipped, torch=TGaussTorch,
                boltzmanntorch=TBoltzmannTorch, recurrent=TRecurrent, promp=TProMP, dmp=TDMP, vector=TVector)


def compare(ctx, rs, sub, name, s, a, ps, why):
    """The living policy and a fresh one answer the same question."""
    seed = int(rs.randint(1 << 30))
    sub.extra = (sub.batch(), sub.actions()) if isinstance(sub, TTorch) else None
    held = keep((s, a, ps))
    sub.used(name, s)
    world.seed_all(seed)
    try:
        got = sub.query(sub.live, name, s, a, ps)
    except NotImplementedError:
        return None
    raw, got = got, keep(got)
    if name == 'weights':                                           # the answer belongs to the caller
        raw[...] = 88.
    elif name == 'draw':
        raw[0][...] = 1
    ctx.require(same(held, (s, a, ps)), 'input-changed', lambda: f'{why}: {name} changed its arguments {held} to {(s, a, ps)}')
    f = sub.build(s=s)
    world.seed_all(seed)
    want = sub.query(f, name, s, a, ps)
    ctx.ev(name, num(got))
    ctx.require(same(got, want, sub.tol), 'answer', lambda: f'{why}: {name} gives {num(got)}, a fresh policy with the same parameters {num(want)}')
    if name == 'weights':
        ctx.require(same(got, sub.w, sub.tol), 'weights', lambda: f'{why}: weights {num(got)}, set {num(sub.w)}')
    return got


def law(ctx, rs, sub, s, a, ps, why):
    """Actions are drawn with the reported probabilities; the score has mean zero under its own policy."""
    world.seed_all(int(rs.randint(1 << 30)))
    pi = sub.live
    if sub.discrete:
        p = np.asarray(pi(s), dtype=float)
        ctx.require(abs(p.sum() - 1.) < 1e-9 and (p >= 0.).all(), 'probabilities', lambda: f'{why}: {p}')
        for i in range(len(p)):
            ctx.require(abs(float(np.ravel(pi(s, np.array([i])))[0]) - p[i]) < 1e-9, 'probabilities', lambda: f'{why}: {i} of {p}')
        n = 250
        c = np.bincount([int(pi.draw_action(s, ps)[0][0]) for _ in range(n)], minlength=len(p))
        ok = all(abs(c[i] - n * p[i]) <= 8. * np.sqrt(n * p[i] * (1. - p[i])) + 3. for i in range(len(p)))
        ctx.require(ok, 'law', lambda: f'{why}: {n} draws give {c}, the probabilities are {p}')
    elif sub.gradient:
        n = 250
        g = np.array([pi.diff_log(s, pi.draw_action(s, ps)[0], ps) for _ in range(n)])
        bound = 9. * g.std(axis=0) / np.sqrt(n) + 1e-9
        ctx.require((abs(g.mean(axis=0)) <= bound).all(), 'law', lambda: f'{why}: the mean score over {n} draws is {g.mean(axis=0)}, bound {bound}')
        x = np.asarray(pi.draw_action(s, ps)[0])
        w, h = keep(sub.w), 1e-5
        got, est = pi.diff_log(s, x, ps), np.zeros(len(w))
        for i in range(len(w)):
            v = []
            for d in (h, -h):
                wi = w.copy()
                wi[i] += d
                f = sub.build()
                f.set_weights(wi)
                v.append(np.log(f(s, x, ps)))
            est[i] = (v[0] - v[1]) / (2 * h)
        ctx.require(close(got, est, rtol=1e-3, atol=1e-3 * (1. + abs(est).max())), 'gradient', lambda: f'{why}: gradient {got}, density says {est}')


def save_load(ctx, disk, obj, cls, model):
    """The object is saved, perhaps with a fault; the process ends and a new one goes on with the file."""
    path = os.path.join(disk.root, 'o.msh')
    disk.fired = False
    kind = plan_fault(ctx, disk, 12) if ctx.flip('faulty', .3) else None
    out = attempt(ctx, disk, lambda: obj.save(path, full_save=True))
    ctx.ev('save', kind, out)
    if out != 'ok':
        return None
    ctx.fault('restart')
    return cls.load(path)


def policies(ctx):
    """Interleaved episodes of one policy, with parameter changes, other policies, failing calls and restarts."""
    with world.fresh(ctx):
        rs = ctx.np_sub('values')
        kind = ctx.choice('policy', sorted(POLICIES))
        sub = POLICIES[kind](ctx, rs)
        other = POLICIES[kind](ctx, rs) if ctx.flip('other', .4) else None
        disk = SimDisk(ctx)
        eps = [None] * ctx.int('episodes', 1, 3)
        with disk.installed():
            for k in range(ctx.int('ops', 3, 14)):
                op = ctx.choice('op', ['query', 'query', 'query', 'query', 'change', 'change', 'start', 'other', 'fail', 'restart', 'law'])
                why = f'{kind} after {k} operations'
                if getattr(sub, 'resized', False):
                    eps, sub.resized = [None] * len(eps), False
                if op == 'query':
                    name = ctx.choice('query', sub.queries())
                    e = ctx.pick('episode', len(eps))
                    if sub.stateful and eps[e] is None:
                        eps[e] = compare(ctx, rs, sub, 'reset', sub.state(), None, None, why)
                        shape = tuple(np.shape(num(eps[e])))
                        want = getattr(sub.live, 'policy_state_shape', None)
                        ctx.require(want is not None, 'no-state', lambda: f'{why}: it starts an episode but declares no policy state')
                        want = tuple(want)
                        ctx.require(shape in (want, (len(sub.live),) + want if kind == 'vector' else want), 'state-shape',
                                    lambda: f'{why}: the initial policy state has shape {shape}, not {want}')
                    a = rs.randn(A)
                    s = sub.state()
                    got = compare(ctx, rs, sub, name, s, a, eps[e], why)
                    if name == 'draw' and sub.stateful:
                        eps[e] = got[1]
                        if kind == 'promp':
                            t = float(np.ravel(got[1])[0])
                            ctx.require(sub.periodic or t <= sub.duration, 'phase', lambda: f'{why}: time {t} of {sub.duration}')
                elif op == 'change':
                    sub.change()
                elif op == 'start':
                    eps[ctx.pick('episode', len(eps))] = None
                elif op == 'other' and other is not None:
                    world.seed_all(int(rs.randint(1 << 30)))
                    if ctx.flip('change-other', .5):
                        other.change()
                    else:
                        s = other.state()
                        other.used('draw', s)
                        other.live.draw_action(s, other.live.reset() if other.stateful else None)
                elif op == 'fail' and not sub.discrete:
                    try:
                        sub.live.draw_action(sub.state()[..., :-1], sub.live.reset() if sub.stateful else None)
                        if sub.stateful or kind == 'boltzmanntorch':
                            sub.used('draw', None)
                    except Exception:
                        ctx.fault('failing-call')
                        if kind == 'boltzmanntorch':        # counted or not: a failed draw may have used the schedule
                            break
                elif op == 'restart':
                    new = save_load(ctx, disk, sub.live, type(sub.live), None)
                    if new is not None:
                        sub.live = new
                elif op == 'law' and sub.law:
                    law(ctx, rs, sub, sub.state(), None, None, why)
                ctx.state(kind, op, k)
            if kind not in ('eps', 'boltzmann', 'mellowmax'):
                compare(ctx, rs, sub, 'weights', sub.state(), None, None, f'{kind} at the end')


# ------------------------------------------------------------------------------------------------ distributions
def make_distribution(ctx, rs):
    kind = ctx.choice('distribution', ['full', 'diagonal', 'cholesky', 'torch-diagonal', 'torch-cholesky'])
    d = 2 + rs.randint(2)
    m = rs.randn(d, d) * .3
    cov, std = m.dot(m.T) + np.diag(.3 + rs.rand(d)), .3 + rs.rand(d)
    t = lambda x: torch.tensor(x, dtype=torch.float)

    def build(rho=None):
        mu = np.zeros(d)
        o = {'full': lambda: GaussianDistribution(mu, cov.copy()), 'diagonal': lambda: GaussianDiagonalDistribution(mu, std.copy()),
             'cholesky': lambda: GaussianCholeskyDistribution(mu, cov.copy()),
             'torch-diagonal': lambda: DiagonalGaussianTorchDistribution(t(mu), t(std)),
             'torch-cholesky': lambda: CholeskyGaussianTorchDistribution(t(mu), t(cov))}[kind]()
        if rho is not None:
            o.set_parameters(keep(rho))
        return o

    def params():
        mu = np.round(rs.randn(d), 2)
        if kind == 'full':
            return mu
        if kind in ('diagonal', 'torch-diagonal'):
            r = np.concatenate((mu, np.round(.3 + rs.rand(d), 2)))
        else:
            low = np.tril(rs.randn(d, d) * .3, -1) + np.diag(.4 + rs.rand(d))
            r = np.concatenate((mu, low[np.tril_indices(d)]))
        return t(r) if kind.startswith('torch') else r
    return kind, d, build, params


def distributions(ctx):
    with world.fresh(ctx):
        rs = ctx.np_sub('values')
        kind, d, build, params = make_distribution(ctx, rs)
        is_torch = kind.startswith('torch')
        tol = 1e-5 if is_torch else 1e-9
        rho = params()
        live = build(rho)
        other = build(params())
        disk = SimDisk(ctx)

        def theta(n=None):
            x = np.round(rs.randn(*((d,) if n is None else (n, d))), 2)
            return torch.tensor(x, dtype=torch.float) if is_torch else x

        def ask(o, name, x):
            if name == 'sample':
                return o.sample()
            if name in ('log_pdf', 'diff_log'):
                return getattr(o, name)(x)
            if name == 'pdf':
                return o(x)
            return {'mean': o.mean, 'entropy': o.entropy, 'parameters': o.get_parameters}[name]()

        with disk.installed():
            for k in range(ctx.int('ops', 3, 14)):
                op = ctx.choice('op', ['query', 'query', 'query', 'query', 'set', 'set', 'mle', 'constrained', 'other', 'restart', 'law'])
                why = f'{kind} distribution after {k} operations'
                if op == 'query':
                    name = ctx.choice('query', ['sample', 'log_pdf', 'pdf', 'mean', 'entropy', 'parameters'] + ['diff_log'] * (not is_torch))
                    x, seed = theta(), int(rs.randint(1 << 30))
                    world.seed_all(seed)
                    raw = ask(live, name, x)
                    got = keep(raw)
                    if name in ('sample', 'parameters'):            # the answer belongs to the caller
                        raw[...] = 88.
                    world.seed_all(seed)
                    want = ask(build(rho), name, x)
                    ctx.ev(name, num(got))
                    ctx.require(same(got, want, tol), 'answer', lambda: f'{why}: {name} gives {num(got)}, a fresh one with the same parameters {num(want)}')
                    if name == 'parameters':
                        ctx.require(same(got, rho, tol), 'parameters', lambda: f'{why}: parameters {num(got)}, expected {num(rho)}')
                    if name == 'pdf':
                        lp = float(np.ravel(num(live.log_pdf(x)))[0])
                        ctx.require(np.isclose(float(np.ravel(num(got))[0]), np.exp(lp), rtol=1e-4), 'density', lambda: f'{why}: density {num(got)}, log density {lp}')
                elif op == 'set':
                    rho = params()
                    r = keep(rho)
                    live.set_parameters(r)
                    r[...] = 99.
                elif op in ('mle', 'constrained') and not is_torch:
                    n = 3 * d + 4
                    x, wts = theta(n), (rs.rand(n) + .1) if op == 'constrained' or ctx.flip('weighted', .6) else None
                    f = build(rho)
                    args = (.5, .1) if op == 'constrained' else ()
                    held = keep((x, wts))
                    out = list()
                    for o in (live, f):
                        try:
                            (o.con_wmle if op == 'constrained' else o.mle)(x, wts, *args)
                            out.append(None)
                        except (ValueError, ArithmeticError, np.linalg.LinAlgError) as e:       # numerical failure
                            out.append(type(e).__name__)
                    ctx.require(out[0] == out[1], 'fit', lambda: f'{why}: {op} ends with {out[0]}, in a fresh distribution with {out[1]}')
                    ctx.require(same(held, (x, wts)), 'input-changed', f'{why}: {op} changed its data')
                    got, want = live.get_parameters(), f.get_parameters()
                    ctx.ev(op, num(got))
                    ctx.require(same(got, want, 1e-6), 'fit', lambda: f'{why}: {op} gives {got}, in a fresh distribution {want}')
                    if not np.isfinite(num(got)).all():
                        break
                    rho = keep(got)
                elif op == 'other':
                    other.set_parameters(params())
                    other.sample()
                elif op == 'restart':
                    new = save_load(ctx, disk, live, type(live), None)
                    live = live if new is None else new
                elif op == 'law' and not is_torch:
                    n = 250
                    g = np.array([live.diff_log(live.sample()) for _ in range(n)])
                    bound = 9. * g.std(axis=0) / np.sqrt(n) + 1e-9
                    ctx.require((abs(g.mean(axis=0)) <= bound).all(), 'law', lambda: f'{why}: the mean score over {n} samples is {g.mean(axis=0)}, bound {bound}')
                ctx.state(kind, op, k)
            ctx.require(same(live.get_parameters(), rho, tol), 'parameters', lambda: f'{kind} distribution at the end: parameters {num(live.get_parameters())}, expected {num(rho)}')


# ------------------------------------------------------------------------------------------------ approximators
def tilings():
    return Tiles.generate(2, [3, 3], [-2., -2.], [2., 2.])


class Approx:
    """One approximator, its data and a way to build a twin with the same parameters."""
    def __init__(self, ctx, rs):
        self.rs = rs
        self.kind = ctx.choice('approximator', ['linear', 'cmac', 'torch', 'numpy-torch', 'actions', 'q', 'ensemble', 'torch-ensemble', 'table', 'tables'])
        self.epochs = 1 + rs.randint(3)
        self.batch = int(rs.randint(4)) if 'torch' in self.kind else 0
        self.dropout = bool(rs.randint(2))
        self.pred = ['mean', 'sum', 'min', 'max'][rs.randint(4)]
        self.live = self.build()

    def build(self):
        k = self.kind
        if k == 'linear':
            return Regressor(LinearApproximator, input_shape=(2,), output_shape=(A,))
        if k == 'cmac':
            return Regressor(CMAC, tilings=tilings(), input_shape=(2,), output_shape=(1,))
        if k in ('torch', 'numpy-torch'):
            return Regressor(TorchApproximator if k == 'torch' else NumpyTorchApproximator, input_shape=(2,), output_shape=(A,),
                             network=Net, optimizer={'class': optim.SGD, 'params': {'lr': .05}}, loss=mse, dropout=self.dropout,
                             batch_size=self.batch, quiet=True)
        if k == 'actions':
            return Regressor(LinearApproximator, input_shape=(2,), output_shape=(1,), n_actions=3)
        if k == 'q':
            return Regressor(NumpyTorchApproximator, input_shape=(2,), output_shape=(3,), n_actions=3, network=QNet,
                             optimizer={'class': optim.SGD, 'params': {'lr': .05}}, loss=mse, dropout=self.dropout, quiet=True)
        if k == 'ensemble':
            return Regressor(LinearApproximator, input_shape=(2,), output_shape=(1,), n_models=3, prediction=self.pred)
        if k == 'torch-ensemble':
            return Regressor(TorchApproximator, input_shape=(2,), output_shape=(A,), network=Net, n_models=3, prediction=self.pred,
                             optimizer={'class': optim.SGD, 'params': {'lr': .05}}, loss=mse, dropout=self.dropout,
                             batch_size=self.batch, quiet=True)
        if k == 'table':
            return Table((N, 3))
        return EnsembleTable(3, (N, 3), prediction=self.pred)

    # parameters
    def get(self, o):
        if self.kind == 'table':
            return o.table.copy()
        if self.kind == 'tables':
            return np.array([o[i].table.copy() for i in range(len(o))])
        if 'ensemble' in self.kind:
            return np.array([num(o[i].get_weights()) for i in range(len(o))])
        raw = o.get_weights()
        w = keep(raw)
        raw[...] = 66.                                              # the answer belongs to the caller
        return w

    def set(self, o, w):
        w = keep(w)
        if self.kind == 'table':
            o.table[:] = w
        elif self.kind == 'tables':
            for i in range(len(o)):
                o[i].table[:] = w[i]
        elif 'ensemble' in self.kind:
            for i in range(len(o)):
                o[i].set_weights(torch.tensor(w[i], dtype=torch.float) if 'torch' in self.kind else w[i].copy())
        else:
            o.set_weights(w)
        w[...] = 55.

    def random(self, shape):
        w = np.round(self.rs.randn(*shape) * .7, 2)
        return torch.tensor(w, dtype=torch.float) if self.kind == 'torch' else w

    # data
    def xs(self, n):
        if self.kind in ('table', 'tables'):
            return (self.rs.randint(N, size=(n, 1)),)
        x = np.round(self.rs.rand(n, 2) * 3.6 - 1.8, 2)
        return (torch.tensor(x, dtype=torch.float) if self.kind in ('torch', 'torch-ensemble') else x,)

    def acts(self, n):
        return self.rs.randint(3, size=(n, 1))

    def predict(self, o, name, n):
        x = self.x
        if name == 'predict':
            return o.predict(*x)
        if name == 'predict-actions':
            return o.predict(*x, self.a)
        if name == 'override':
            return o.predict(*x, prediction=self.over)
        if name == 'variance':
            return o.predict(*x, compute_variance=True)
        if name == 'member':
            return o.predict(*x, idx=1)
        if name == 'diff':
            return o.diff(x[0][0])
        if name == 'diff-action':
            return o.diff(x[0][0], self.a[0])

    def names(self):
        k = self.kind
        out = ['predict', 'predict']
        if k in ('actions', 'q', 'table', 'tables'):
            out += ['predict-actions', 'predict-actions']
        if k in ('ensemble', 'torch-ensemble', 'tables'):
            out += ['member', 'variance', 'override']
        if k in ('linear', 'torch', 'numpy-torch', 'cmac'):
            out += ['diff']
        if k == 'actions':
            out += ['diff-action']
        return out

    def fit(self, o, x, a, n):
        y = self.y
        k = self.kind
        if k in ('linear', 'torch', 'numpy-torch', 'cmac'):
            kw = self.options if 'torch' in k else {}
            o.fit(*x, y, **kw)
        elif k == 'q':
            o.fit(*x, a, y, **self.options, **({} if self.row_weights is None else dict(weights=self.row_weights[:n])))
        elif k == 'actions':
            o.fit(*x, a, y)
        elif 'ensemble' in k:
            kw = self.options if 'torch' in k else {}
            o.fit(*x, y, **kw, **({} if self.member is None else dict(idx=self.member)))
        elif k == 'table':
            for i in range(n):
                o.fit((x[0][i], a[i]), y[i])
        else:
            for t in range(len(o)):
                if self.member in (None, t):
                    for i in range(n):
                        o[t].fit((x[0][i], a[i]), y[i])

    def target(self, n):
        m = A if self.kind in ('linear', 'torch', 'numpy-torch', 'torch-ensemble') else 1
        y = np.round(self.rs.randn(n, m), 2)
        y = y if self.kind in ('linear', 'torch', 'numpy-torch', 'ensemble', 'torch-ensemble') else y[:, 0]
        return torch.tensor(y, dtype=torch.float) if self.kind in ('torch', 'torch-ensemble') else y


class QNet(nn.Module):
    def __init__(self, input_shape, output_shape, dropout=False, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], 3)
        self._o = nn.Linear(3, output_shape[0])
        self._d = nn.Dropout(.5) if dropout else nn.Identity()

    def forward(self, state, action=None):
        q = self._o(self._d(torch.tanh(self._h(state.float()))))
        return q if action is None else torch.squeeze(q.gather(1, action.long()), -1)


def approximators(ctx):
    with world.fresh(ctx):
        rs = ctx.np_sub('values')
        a = Approx(ctx, rs)
        other = a.build()
        w = a.get(a.live)
        disk = SimDisk(ctx)
        tol = 1e-4 if a.kind in ('torch', 'numpy-torch', 'q', 'torch-ensemble') else 1e-7
        with disk.installed():
            for k in range(ctx.int('ops', 3, 12)):
                op = ctx.choice('op', ['predict', 'predict', 'predict', 'set', 'fit', 'fit', 'other', 'fail', 'restart'])
                why = f'{a.kind} approximator after {k} operations'
                n = ctx.int('n', 1, 6)
                a.x, a.a, a.y = a.xs(n), a.acts(n), a.target(n)
                a.member = ctx.choice('member', [None, 0, 2])
                a.options = dict(n_epochs=a.epochs)
                if ctx.pick('early', 3) == 0:                       # early stopping, validation
                    a.options.update(epsilon=.01, n_epochs=6, patience=1 + ctx.pick('patience', 2), validation_split=[1., .5][ctx.pick('split', 2)])
                a.row_weights = None if ctx.pick('weighted', 2) else np.round(.1 + rs.rand(8), 2)
                held = keep((a.x, a.a, a.y))
                if op == 'predict':
                    name = ctx.choice('query', a.names())
                    a.over = ctx.choice('override', ['mean', 'sum', 'min', 'max']) if name == 'override' else None
                    got = keep(a.predict(a.live, name, n))
                    f = a.build()
                    a.set(f, w)
                    want = a.predict(f, name, n)
                    ctx.ev(name, num(got))
                    ctx.require(same(got, want, tol), 'answer', lambda: f'{why}: {name} gives {num(got)}, a fresh one with the same weights {num(want)}')
                elif op == 'set':
                    w = a.random(np.shape(num(w)))
                    a.set(a.live, w)
                elif op == 'fit':
                    if a.kind in ('linear', 'ensemble', 'actions'):
                        n = 8
                        a.x, a.a, a.y = a.xs(n), a.acts(n), a.target(n)
                        held = keep((a.x, a.a, a.y))
                    f = a.build()
                    a.set(f, w)
                    seed = int(rs.randint(1 << 30))
                    for o in (a.live, f):
                        world.seed_all(seed)
                        a.fit(o, a.x, a.a, n)
                    w = a.get(a.live)
                    ctx.ev('fit', num(w))
                    ctx.require(same(w, a.get(f), tol), 'fit', lambda: f'{why}: the fit gives {num(w)}, in a fresh one {num(a.get(f))}')
                elif op == 'other':
                    world.seed_all(int(rs.randint(1 << 30)))
                    a.fit(other, a.xs(8), a.acts(8), 8) if len(a.y) == 8 else a.set(other, a.random(np.shape(num(w))))
                elif op == 'fail' and ('torch' in a.kind or a.kind == 'q') and ctx.pick('fail-fit', 2):
                    Bomb.left = 1 + ctx.pick('bomb', 4)
                    try:
                        a.fit(a.live, a.x, a.a, n)
                    except InterruptedError:
                        ctx.fault('interrupted-fit')
                    Bomb.left = 0
                    w = a.get(a.live)
                elif op == 'fail' and a.kind not in ('table', 'tables'):
                    try:
                        a.live.predict(a.x[0][:, :1])
                    except Exception:
                        ctx.fault('failing-call')
                elif op == 'restart':
                    new = save_load(ctx, disk, a.live, type(a.live), None)
                    a.live = a.live if new is None else new
                ctx.require(same(held, (a.x, a.a, a.y)), 'input-changed', lambda: f'{why}: {op} changed its data')
                got = a.get(a.live)
                ctx.require(same(got, w, tol), 'weights', lambda: f'{why}: the weights after {op} are {num(got)}, expected {num(w)}')
                ctx.state(a.kind, op, k)


CHECK = Check(
    'P22', dict(policies=policies, distributions=distributions, approximators=approximators),
    quick=dict(policies=9000, distributions=5000, approximators=5000),
    thorough=dict(policies=150000, distributions=80000, approximators=80000),
    rule='One case = 3-14 operations on one policy (16 classes, up to three interleaved episodes), distribution (5 classes) or '
         'approximator (10 kinds): questions, parameter changes, fits, other instances, failing calls, saves with disk faults, '
         'restarts. Every answer is compared with the one of a fresh twin. Distinct = different event-log digest.',
    real=['mushroom_rl.policy (all classes)', 'mushroom_rl.distributions', 'Regressor, Ensemble, Table, LinearApproximator, CMAC, '
          'TorchApproximator', 'Parameter schedules', 'Serializable.save/load'],
    stub=['file system calls below the scratch directory (simulated disk)', 'process restart', 'the agents and environments around'],
    assumptions=['a call that fails in the middle of a draw may or may not have used the exploration schedule'])
