"""P20: policy-gradient and classic actor-critic agents apply exactly their update, whatever the history of episodes."""
import copy
import os

import numpy as np

from mushroom_rl.algorithms.actor_critic import COPDAC_Q, StochasticAC, StochasticAC_AVG
from mushroom_rl.algorithms.policy_search import GPOMDP, REINFORCE, eNAC
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Agent, Core, Environment, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import DiagonalGaussianPolicy, GaussianPolicy
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.spaces import Box

from dst import world
from dst.fp import close
from dst.engine import SimFault, SimInterrupt
from dst.runner import Check
from dst.simdisk import SimDisk
from props.p06 import rng_get, rng_set
from props.p14 import rate

GAMMA = .8


class Walk(Environment):
    """States, rewards and lengths come from the seed; the agent only has to learn from them."""
    def __init__(self, ctx, da):
        self.rs = ctx.np_sub('walk')
        self.fail = None
        self.open = None                    # is an episode running?
        super().__init__(MDPInfo(Box(-10, 10, shape=(2,)), Box(-1e3, 1e3, shape=(da,)), GAMMA, 5))

    def _draw(self):
        return np.round(self.rs.randn(2), 2)

    def reset(self, state=None):
        self._hit()
        self.left = 1 + self.rs.randint(8)
        return self._draw(), {}

    def step(self, action):
        self._hit()
        self.left -= 1
        return self._draw(), float(np.round(self.rs.randn() - .1 * float(np.abs(action).sum() > 1), 2)), self.left <= 0, {}

    def _hit(self):
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                self.fail = None
                raise SimFault('environment')


class Gauss:
    """Reference of the policy: mean and score of a linear Gaussian."""
    def __init__(self, w, da, sigma):
        self.theta = np.array(w, dtype=float)
        self.da, self.inv = da, None if sigma is None else np.linalg.inv(sigma)

    def mean(self, s):
        return self.theta[:2 * self.da].reshape(self.da, 2) @ s

    def score(self, s, a):
        d = np.array(a) - self.mean(s)
        if self.inv is not None:
            return np.outer(.5 * (self.inv + self.inv.T) @ d, s).ravel()
        std = self.theta[2 * self.da:]
        return np.concatenate((np.outer(d / std ** 2, s).ravel(), -1. / std + d ** 2 / std ** 3))


def episodes(steps):
    """The finished episodes of a batch."""
    out, cur = list(), list()
    for x in steps:
        cur.append(x)
        if x[5]:
            out.append(cur)
            cur = list()
    return out


class Gradient:
    """Likelihood-ratio gradients from the finished episodes of one batch, and of no other."""
    def __init__(self, name, pi, optimizer, phi):
        self.name, self.pi, self.opt, self.phi = name, pi, optimizer, phi

    def start(self):
        pass

    def fit(self, steps):
        eps = episodes(steps)
        if len(eps) < 2:
            return False
        pi = self.pi
        rew = [[GAMMA ** t * x[2] for t, x in enumerate(e)] for e in eps]
        sc = [[pi.score(x[0], x[1]) for x in e] for e in eps]
        if self.name == 'REINFORCE':
            S, J = np.array([np.sum(x, axis=0) for x in sc]), np.array([sum(r) for r in rew])
            b = ratio((S ** 2 * J[:, None]).mean(0), (S ** 2).mean(0))
            g = (S * (J[:, None] - b)).mean(0)
        elif self.name == 'GPOMDP':
            C = [np.cumsum(x, axis=0) for x in sc]
            b = list()
            for t in range(max(map(len, C))):
                at = [i for i in range(len(C)) if len(C[i]) > t]
                b.append(ratio(np.mean([C[i][t] ** 2 * rew[i][t] for i in at], axis=0), np.mean([C[i][t] ** 2 for i in at], axis=0)))
            g = np.mean([np.sum([C[i][t] * (rew[i][t] - b[t]) for t in range(len(C[i]))], axis=0) for i in range(len(C))], axis=0)
        else:
            psi = [np.concatenate((np.sum([GAMMA ** t * x for t, x in enumerate(s)], axis=0),
                                   np.ones(1) if self.phi is None else self.phi(e[0][0]))) for s, e in zip(sc, eps)]
            g = (np.linalg.pinv(np.array(psi)) @ np.array([sum(r) for r in rew]))[:pi.theta.size]
        pi.theta = np.array(self.opt(pi.theta, g))
        return True


def ratio(a, b):
    with np.errstate(all='ignore'):
        q = a / b
    return np.where(np.isfinite(q), q, 0.)


class Critic:
    """StochasticAC and its average-reward version."""
    def __init__(self, name, pi, rates, lam, phi):
        self.avg, self.pi, self.rates, self.lam, self.phi = name.endswith('AVG'), pi, rates, lam, phi
        self.v = np.zeros(2 if phi is None else phi.size)
        self.r_bar = 0.
        self.start()

    def start(self):
        self.ev, self.et = np.zeros_like(self.v), np.zeros_like(self.pi.theta)

    def psi(self, s):
        return s if self.phi is None else self.phi(s)

    def fit(self, steps):
        for s, a, r, ss, absorbing, _ in steps:
            v_next = 0. if absorbing else self.v @ self.psi(ss)
            if self.avg:
                d = r - self.r_bar + v_next - self.v @ self.psi(s)
                self.r_bar += self.rates['r']() * d
                decay = self.lam
            else:
                d = r + GAMMA * v_next - self.v @ self.psi(s)
                decay = GAMMA * self.lam
            self.ev = decay * self.ev + self.psi(s)
            self.et = decay * self.et + self.pi.score(s, a)
            self.v = self.v + self.rates['v']() * d * self.ev
            self.pi.theta = self.pi.theta + self.rates['theta']() * d * self.et
        return True


class Compatible:
    """COPDAC_Q."""
    def __init__(self, pi, rates, phi):
        self.pi, self.rates, self.phi = pi, rates, phi
        self.v, self.om = np.zeros(2 if phi is None else phi.size), np.zeros(2)

    def start(self):
        pass

    def psi(self, s):
        return s if self.phi is None else self.phi(s)

    def fit(self, steps):
        for s, a, r, ss, absorbing, _ in steps:
            nu = float(a[0] - self.pi.mean(s)[0]) * s
            q = self.v @ self.psi(s) + self.om @ nu
            d = r + (0. if absorbing else GAMMA * (self.v @ self.psi(ss))) - q
            dt, do, dv = self.rates['theta']() * (self.om @ s) * s, self.rates['omega']() * d * nu, self.rates['v']() * d * self.psi(s)
            self.pi.theta, self.om, self.v = self.pi.theta + dt, self.om + do, self.v + dv
        return True


def build(ctx, name, da, info):
    mu = Regressor(LinearApproximator, input_shape=(2,), output_shape=(da,))
    mu.set_weights(np.round(np.random.randn(2 * da) * .3, 3))
    sigma = np.eye(da) * .5
    if da == 2 and ctx.flip('full-covariance', .5):
        sigma = np.array([[.6, .2], [.2, .4]])
    diagonal = name != 'COPDAC_Q' and ctx.flip('diagonal', .4)
    policy = DiagonalGaussianPolicy(mu, .8 * np.ones(da)) if diagonal else GaussianPolicy(mu, sigma.copy())
    pi = Gauss(policy.get_weights(), da, None if diagonal else sigma)
    phi = Features(basis_list=[PolynomialBasis(), PolynomialBasis(dimensions=[0], degrees=[2])]) if ctx.flip('features', .4) else None
    if name in ('REINFORCE', 'GPOMDP', 'eNAC'):
        make = ctx.choice('optimizer', [lambda: SGDOptimizer(lr=.02), lambda: AdamOptimizer(lr=.01), lambda: AdaptiveOptimizer(eps=.02)])
        kw = dict(critic_features=phi) if name == 'eNAC' else {}
        agent = dict(REINFORCE=REINFORCE, GPOMDP=GPOMDP, eNAC=eNAC)[name](info, policy, make(), **kw)
        return agent, Gradient(name, pi, make(), phi if name == 'eNAC' else None)
    pt, rt = rate(ctx, None, (.02, .005))
    pv, rv = rate(ctx, None, (.05, .02))
    if name == 'COPDAC_Q':
        po, ro = rate(ctx, None, (.05, .02))
        return COPDAC_Q(info, policy, mu, pt, po, pv, value_function_features=phi), Compatible(pi, dict(theta=rt, v=rv, omega=ro), phi)
    lam = ctx.choice('lambda', [.9, 0., .5])
    if name == 'StochasticAC':
        return StochasticAC(info, policy, pt, pv, lambda_par=lam, value_function_features=phi), Critic(name, pi, dict(theta=rt, v=rv), lam, phi)
    pr, rr = rate(ctx, None, (.02,))
    return (StochasticAC_AVG(info, policy, pt, pv, pr, lambda_par=lam, value_function_features=phi),
            Critic(name, pi, dict(theta=rt, v=rv, r=rr), lam, phi))


class Watch:
    """Follows the calls the agent gets from the core and interrupts one of them on request."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.fail = None

    def attach(self, agent, ref):
        self.agent, self.ref = agent, ref
        fit, start, score = agent.fit, agent.episode_start, agent.policy.diff_log

        def w_start(*a, **k):
            self.ref.start()
            return start(*a, **k)

        def w_score(*a, **k):
            if self.fail is not None:
                self.fail -= 1
                if self.fail < 0:
                    self.fail = None
                    self.ctx.fault('interrupted-fit')
                    raise SimInterrupt('fit')
            return score(*a, **k)

        def w_fit(dataset):
            steps = [(np.array(s), np.array(a), float(r), np.array(n), bool(ab), bool(l)) for s, a, r, n, ab, l, *_ in dataset]
            self.finished = sum(x[5] for x in steps)
            fit(dataset)
            self.ctx.sim_steps += len(steps)
            ok = self.ref.fit(steps)
            self.ctx.require(ok, 'fit', 'a gradient from less than two finished episodes')
            self.compare(f'a fit with {len(steps)} transitions, {sum(x[5] for x in steps)} finished episodes')

        agent.fit, agent.episode_start, agent.policy.diff_log = w_fit, w_start, w_score

    def detach(self):
        del self.agent.fit, self.agent.episode_start, self.agent.policy.diff_log

    def compare(self, when):
        got, want = np.array(self.agent.policy.get_weights(), dtype=float), self.ref.pi.theta
        if not np.all(np.isfinite(want)) or np.abs(want).max() > 1e4 or (self.ref.pi.inv is None and np.abs(want[2 * self.ref.pi.da:]).min() < .05):
            raise Diverged
        self.ctx.require(got.shape == want.shape and close(got, want, rtol=1e-6, atol=1e-8), 'parameters', lambda: (
            f'{type(self.agent).__name__}: the policy parameters after {when} are {got.tolist()}, its update gives {want.tolist()}'))


class Diverged(Exception):
    pass


def history(ctx):
    name = ctx.choice('agent', ['GPOMDP', 'REINFORCE', 'eNAC', 'StochasticAC', 'StochasticAC_AVG', 'COPDAC_Q'])
    batch = name in ('REINFORCE', 'GPOMDP', 'eNAC')
    da = 1 if name == 'COPDAC_Q' else ctx.choice('actions', [1, 2])
    disk = SimDisk(ctx)
    with world.fresh(ctx), disk.installed():
        env = Walk(ctx, da)
        agent, ref = build(ctx, name, da, env.info)
        w = Watch(ctx)
        w.attach(agent, ref)
        saved = None
        path = os.path.join(disk.root, 'a.msh')
        ctx.ev('case', name, da)
        try:
            for _ in range(ctx.int('calls', 2, 6)):
                op = ctx.choice('op', ['learn', 'learn', 'learn', 'evaluate', 'save', 'restart'])
                if op == 'save' or op == 'restart' and saved is None:
                    w.detach()
                    w.agent.save(path, full_save=True)
                    saved = copy.deepcopy(w.ref)
                    w.attach(w.agent, w.ref)
                    if op == 'save':
                        continue
                if op == 'restart':
                    w.detach()
                    s = rng_get()
                    agent = Agent.load(path)
                    rng_set(s)
                    w.attach(agent, copy.deepcopy(saved))
                    ctx.fault('restart')
                    w.compare('a restart')
                    continue
                core = Core(w.agent, env)
                env.fail = ctx.int('at', 0, 25) if ctx.flip('fails', .2) else None
                w.fail = None
                before = np.array(w.ref.pi.theta)
                what = 'completed'
                try:
                    if op == 'evaluate':
                        core.evaluate(quiet=True, **(dict(n_steps=ctx.int('n', 1, 20)) if ctx.flip('steps', .5) else dict(n_episodes=ctx.int('n', 1, 5))))
                        ctx.require(np.array_equal(before, w.ref.pi.theta), 'evaluate', 'a fit in an evaluation')
                    else:
                        if batch:
                            if ctx.flip('interrupt', .2):
                                w.fail = ctx.int('interrupt-at', 0, 30)
                            kw = dict(n_episodes_per_fit=ctx.int('per', 2, 5)) if ctx.flip('by-episodes', .5) else dict(n_steps_per_fit=ctx.int('per', 8, 25))
                        else:
                            kw = dict(n_steps_per_fit=1 if name != 'COPDAC_Q' else ctx.choice('per', [1, 2, 5]))
                        total = dict(n_episodes=ctx.int('n', 1, 14)) if ctx.flip('episodes', .5) else dict(n_steps=ctx.int('n', 1, 50))
                        core.learn(quiet=True, **kw, **total)
                except SimFault:
                    ctx.fault('environment-error')
                    what = 'environment-error'
                except SimInterrupt:
                    what = 'interrupted'
                except AssertionError:
                    if not batch or w.finished > 1:
                        raise
                    ctx.fault('refused-fit')
                    what = 'refused'
                env.fail = w.fail = None
                ctx.ev(op, what, np.round(w.ref.pi.theta, 6).tolist())
                ctx.state(name, da, op, what, saved is not None)
                ctx.probe(f'{name}-{what}')
                w.compare(f'{op} ({what})')
        except Diverged:
            ctx.probe('diverged')


CHECK = Check(
    'P20', dict(history=history), quick=dict(history=6000), thorough=dict(history=200000),
    rule='One case = 2-6 learn, evaluate, save and restart calls of one policy-gradient or actor-critic agent, with failing '
         'environments, interrupted and refused fits and batches that end within an episode; the parameters are compared with a '
         'reference after every fit. Distinct = different event-log digest.',
    real=['REINFORCE, GPOMDP, eNAC, StochasticAC, StochasticAC_AVG, COPDAC_Q', 'Gaussian policies', 'Core, Dataset', 'Serializable'],
    stub=['environment', 'file system (simulated disk), process restart'],
    assumptions=['actor-critic agents with traces fit at every step, as documented', 'the optimizer is taken as it is'])
