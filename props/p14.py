"""P14: temporal-difference learning applies exactly its update to every transition, whatever the history of episodes."""
import os

import numpy as np

from mushroom_rl.algorithms.value import (DoubleQLearning, ExpectedSARSA, MaxminQLearning, QLambda, QLearning, RLearning,
                                          RQLearning, SARSA, SARSALambda, SARSALambdaContinuous, SpeedyQLearning,
                                          TrueOnlineSARSALambda, WeightedQLearning)
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Agent, Core, Environment, MDPInfo
from mushroom_rl.environments import FiniteMDP
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import Boltzmann, EpsGreedy
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete

from dst import world
from dst.fp import close
from dst.engine import SimFault
from dst.runner import Check
from dst.simdisk import SimDisk

GAMMA = .9
TOL = 1e-8


def possible(pi, q):
    """Actions the policy may draw; ties up to rounding."""
    return np.argwhere((pi(q) > 0) | (q >= q.max() - TOL)).ravel()


class Rate:
    """Reference of a schedule: a function of the number of uses, of one index or of all."""
    def __init__(self, law, indexed):
        self.law, self.indexed, self.n = law, indexed, {}

    def __call__(self, *idx):
        k = idx if self.indexed else ()
        self.n[k] = self.n.get(k, 0) + 1
        return self.law(self.n[k])

    def copy(self):
        r = Rate(self.law, self.indexed)
        r.n = dict(self.n)
        return r


def rate(ctx, size, values=(.5, .1, 1.)):
    """A schedule and its reference."""
    v = ctx.choice('rate', values)
    indexed = size is not None and ctx.flip('per-pair', .5)
    kw = dict(size=size) if indexed else {}
    k = ctx.pick('schedule', 3)
    if k == 0:
        return Parameter(v, **kw), Rate(lambda n: v, indexed)
    if k == 1:
        return DecayParameter(v, exp=.7, **kw), Rate(lambda n: v / n ** .7, indexed)
    return LinearParameter(v, threshold_value=.05, n=7, **kw), Rate(lambda n: v + (.05 - v) * min(n / 7, 1.), indexed)


class Ref:
    """What the learner must hold. step() returns the states it may be in after a transition: one per hidden choice."""
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.next_action = None

    def copy(self):
        d = {k: v.copy() if isinstance(v, (np.ndarray, Rate)) else
             ([x.copy() for x in v] if isinstance(v, list) else v) for k, v in self.__dict__.items() if k != 'next_action'}
        r = type(self)(**d)
        return r

    def key(self):
        def part(v):
            if isinstance(v, np.ndarray):
                return np.round(v, 10).tobytes()
            if isinstance(v, Rate):
                return tuple(sorted(v.n.items()))
            return tuple(map(part, v)) if isinstance(v, list) else (v if isinstance(v, (float, int, type(None))) else None)
        return tuple((k, part(v)) for k, v in sorted(self.__dict__.items()))

    def start(self):
        pass

    def tables(self):
        return [self.q]


class QRef(Ref):
    def step(self, s, a, r, s2, end):
        n = self.copy()
        n.q[s, a] += n.alpha(s, a) * (r + GAMMA * (0. if end else self.q[s2].max()) - self.q[s, a])
        return [n]


class WeightedRef(Ref):
    """The sampled weights are unknown: the target lies between the smallest and the largest value."""
    def step(self, s, a, r, s2, end):
        n = self.copy()
        al = n.alpha(s, a)
        n.bounds = [s, a] + [(1 - al) * self.q[s, a] + al * (r + GAMMA * (0. if end else f(self.q[s2])))
                             for f in (np.min, np.max)]
        return [n]

    def accept(self, tables):
        s, a, lo, hi = self.bounds
        x = tables[0][s, a]
        if not lo - TOL <= x <= hi + TOL:
            return False
        self.q[s, a] = x
        return True


class SpeedyRef(Ref):
    def step(self, s, a, r, s2, end):
        n = self.copy()
        al = n.alpha(s, a)
        cur, old = (r + GAMMA * (0. if end else q[s2].max()) for q in (self.q, self.old))
        n.q[s, a] = self.q[s, a] + al * (old - self.q[s, a]) + (1 - al) * (cur - old)
        n.old = self.q.copy()
        return [n]


class RRef(Ref):
    def step(self, s, a, r, s2, end):
        n = self.copy()
        nxt = 0. if end else self.q[s2].max()
        n.q[s, a] += n.alpha(s, a) * (r - self.rho + nxt - self.q[s, a])
        out = list()
        top = n.q[s].max()
        if n.q[s, a] <= top - TOL or abs(n.q[s, a] - top) < TOL and n.q[s, a] != top:
            out.append(n)
        if abs(n.q[s, a] - top) < TOL:
            m = n.copy()
            m.rho += m.beta(s, a) * (r + nxt - top - self.rho)
            out.append(m)
        return out


class DoubleRef(Ref):
    def tables(self):
        return self.q

    def step(self, s, a, r, s2, end):
        out = list()
        for i in range(2):
            best = [None] if end else np.argwhere(self.q[i][s2] >= self.q[i][s2].max() - TOL).ravel()
            for b in best:
                n = self.copy()
                nxt = 0. if end else self.q[1 - i][s2, b]
                n.q[i][s, a] += n.alpha[i](s, a) * (r + GAMMA * nxt - self.q[i][s, a])
                out.append(n)
        return out


class MaxminRef(Ref):
    def tables(self):
        return self.q

    def step(self, s, a, r, s2, end):
        out = list()
        nxt = 0. if end else np.min([q[s2] for q in self.q], axis=0).max()
        for i in range(len(self.q)):
            n = self.copy()
            n.q[i][s, a] += n.alpha[i](s, a) * (r + GAMMA * nxt - self.q[i][s, a])
            out.append(n)
        return out


class ExpectedRef(Ref):
    def step(self, s, a, r, s2, end):
        n = self.copy()
        n.q[s, a] += n.alpha(s, a) * (r + GAMMA * (0. if end else self.q[s2] @ self.pi(self.q[s2])) - self.q[s, a])
        return [n]


class SarsaRef(Ref):
    def step(self, s, a, r, s2, end):
        out = list()
        for b in possible(self.pi, self.q[s2]):
            n = self.copy()
            n.q[s, a] += n.alpha(s, a) * (r + GAMMA * (0. if end else self.q[s2, b]) - self.q[s, a])
            n.next_action = None if b is None else int(b)
            out.append(n)
        return out


class TraceRef(Ref):
    def start(self):
        self.e[:] = 0.

    def step(self, s, a, r, s2, end):
        out = list()
        moves = possible(self.pi, self.q[s2]) if self.on_policy else [None]
        for b in moves:
            n = self.copy()
            nxt = 0. if end else (self.q[s2].max() if b is None else self.q[s2, b])
            delta = r + GAMMA * nxt - self.q[s, a]
            n.e[s, a] = n.e[s, a] + 1. if self.accumulating else 1.
            n.q += n.alpha(s, a) * delta * n.e
            n.e *= GAMMA * n.lam()
            n.next_action = None if b is None else int(b)
            out.append(n)
        return out


class RQRef(Ref):
    def step(self, s, a, r, s2, end):
        out = list()
        moves = [None] if self.off_policy or end else possible(self.pi, self.q[s2])
        for b in moves:
            n = self.copy()
            al = n.alpha(s, a)
            n.rt[s, a] += al * (r - n.rt[s, a])
            if not end:
                nxt = self.q[s2].max() if b is None else self.q[s2, b]
                n.qt[s, a] += (n.beta(s, a) if self.delta is None else al * n.delta(s, a)) * (nxt - n.qt[s, a])
            n.q[s, a] = n.rt[s, a] + GAMMA * n.qt[s, a]
            n.next_action = None if b is None else int(b)
            out.append(n)
        return out


class LinearRef(Ref):
    """SARSA(lambda) with linear features, ordinary and true online."""
    def start(self):
        self.e[:] = 0.
        self.q_old = None

    def tables(self):
        return [np.array([self.w @ f for f in self.probes])]

    def step(self, s, a, r, s2, end):
        out = list()
        f, f2 = self.phi(s), self.phi(s2)
        x = np.zeros_like(self.w)
        x[a] = f
        q = self.w[a] @ f
        for b in possible(self.pi, self.w @ f2):
            n = self.copy()
            nxt = 0. if end else self.w[b] @ f2
            al, lam = n.alpha(), n.lam()
            if self.true_online:
                old = q if self.q_old is None else self.q_old
                n.e = GAMMA * lam * self.e + al * (1 - GAMMA * lam * np.sum(self.e * x)) * x
                n.w = self.w + (r + GAMMA * nxt - old) * n.e + al * (old - q) * x
                n.q_old = nxt
            else:
                n.e = GAMMA * lam * self.e + x
                n.w = self.w + al * (r + GAMMA * nxt - q) * n.e
            n.next_action = None if b is None else int(b)
            out.append(n)
        return out


def greedy_policy(ctx, fixed):
    if ctx.flip('boltzmann', .3):
        beta = ctx.choice('beta', [1., 3.])

        def pi(q):
            e = np.exp(beta * (q - q.max()))
            return e / e.sum()
        return Boltzmann(beta=Parameter(beta)), pi
    if fixed or ctx.flip('fixed', .5):
        eps = ctx.choice('epsilon', [0., .2, 1.])

        def pi(q):
            best = q == q.max()
            return eps / q.size + (1 - eps) * best / best.sum()
        return EpsGreedy(epsilon=Parameter(eps)), pi
    return EpsGreedy(epsilon=LinearParameter(1., threshold_value=.1, n=9)), lambda q: np.ones(q.size)


NAMES = ['QLearning', 'DoubleQLearning', 'MaxminQLearning', 'SpeedyQLearning', 'WeightedQLearning', 'RLearning', 'RQLearning',
         'SARSA', 'ExpectedSARSA', 'SARSALambda', 'QLambda']


def tabular(ctx, name, info):
    n_s, n_a = info.observation_space.n, info.action_space.n
    size = (n_s, n_a)
    pol, pi = greedy_policy(ctx, name == 'ExpectedSARSA')
    al, ref_al = rate(ctx, size)
    q = np.zeros(size)
    if name == 'QLearning':
        return QLearning(info, pol, al), QRef(q=q, alpha=ref_al)
    if name == 'WeightedQLearning':
        return WeightedQLearning(info, pol, al, sampling=True, precision=20), WeightedRef(q=q, alpha=ref_al)
    if name == 'SpeedyQLearning':
        return SpeedyQLearning(info, pol, al), SpeedyRef(q=q, old=q.copy(), alpha=ref_al)
    if name == 'RLearning':
        be, ref_be = rate(ctx, size)
        return RLearning(info, pol, al, be), RRef(q=q, alpha=ref_al, beta=ref_be, rho=0.)
    if name == 'DoubleQLearning':
        return DoubleQLearning(info, pol, al), DoubleRef(q=[q, q.copy()], alpha=[ref_al, ref_al.copy()])
    if name == 'MaxminQLearning':
        n = ctx.int('tables', 2, 3)
        return (MaxminQLearning(info, pol, al, n_tables=n),
                MaxminRef(q=[q.copy() for _ in range(n)], alpha=[ref_al.copy() for _ in range(n)]))
    if name == 'ExpectedSARSA':
        return ExpectedSARSA(info, pol, al), ExpectedRef(q=q, alpha=ref_al, pi=pi)
    if name == 'SARSA':
        return SARSA(info, pol, al), SarsaRef(q=q, alpha=ref_al, pi=pi)
    if name == 'RQLearning':
        off = ctx.flip('off-policy')
        par, ref = rate(ctx, size)
        kw = dict(beta=par) if ctx.flip('beta') else dict(delta=par)
        return (RQLearning(info, pol, al, off_policy=off, **kw),
                RQRef(q=q, qt=q.copy(), rt=q.copy(), alpha=ref_al, off_policy=off, pi=pi,
                      beta=ref if 'beta' in kw else None, delta=ref if 'delta' in kw else None))
    lam, ref_lam = rate(ctx, None, (.9, .5, 0.))
    acc = ctx.flip('accumulating')
    cls = SARSALambda if name == 'SARSALambda' else QLambda
    return (cls(info, pol, al, lam, trace='accumulating' if acc else 'replacing'),
            TraceRef(q=q, e=q.copy(), alpha=ref_al, lam=ref_lam, accumulating=acc, on_policy=name == 'SARSALambda', pi=pi))


class Line(Environment):
    """Points of the plane; the ends and rewards are decided by the simulator."""
    def __init__(self, r, end_rate, horizon):
        self._r, self._end = r, end_rate
        super().__init__(MDPInfo(Box(-np.ones(2), np.ones(2)), Discrete(3), GAMMA, horizon))

    def reset(self, state=None):
        return self._obs(), {}

    def _obs(self):
        return np.array([self._r.uniform(-1, 1), self._r.uniform(-1, 1)])

    def step(self, action):
        return self._obs(), self._r.uniform(-1, 1), self._r.random() < self._end, {}

    def seed(self, seed):
        pass


class Bench:
    """The environment, recorded and made to fail, and the policy, recorded."""
    def __init__(self, ctx, env):
        self.ctx, self._env = ctx, env
        self.fail_at = None
        self.events = list()
        self.drawn = None
        self.obs = None
        self.t = 0

    def __getattr__(self, name):
        return getattr(self._env, name)

    def watch(self, policy):
        draw = policy.draw_action

        def draw_action(state, *args, **kwargs):
            out = draw(state, *args, **kwargs)
            self.drawn = (np.array(state), np.array(out[0] if isinstance(out, tuple) else out))
            return out
        policy.draw_action = draw_action

    def reset(self, state=None):
        out = self._env.reset(state)
        self.obs = np.array(out[0])
        self.events.append(('start',))
        self.drawn = None
        return out

    def step(self, action):
        s, a = self.drawn if self.drawn is not None else (None, None)
        self.ctx.require(s is not None and np.array_equal(s, self.obs) and np.array_equal(a, action), 'stale-action',
                         lambda: f'in {self.obs} the agent does {action}, the last action was drawn for {s}: {a}')
        self.t += 1
        if self.t == self.fail_at:
            self.fail_at = None
            raise SimFault('environment failure')
        out = self._env.step(action)
        self.events.append((self.obs, np.array(action), float(out[1]), np.array(out[0]), bool(out[2])))
        self.obs = np.array(out[0])
        return out


def follow(ctx, name, agent, bench, belief, observe, plain):
    """One experiment: learn, evaluate, failures and restarts, the agent compared with its reference after each fit."""
    def compare(what):
        got = observe(agent)
        ctx.require(all(np.all(np.isfinite(g)) for g in got), 'not-finite', lambda: f'{name}: {what}: {got}')
        keep = [b for b in belief if (b.accept(got) if hasattr(b, 'accept') and getattr(b, 'bounds', None) else True)]
        keep = [b for b in keep if all(close(x, y, rtol=TOL, atol=TOL) for x, y in zip(got, b.tables()))]
        ctx.require(keep, 'update', lambda: f'{name}: {what}: the agent holds {[g.tolist() for g in got]}, expected '
                    f'{[[t.tolist() for t in b.tables()] for b in belief[:2]]}')
        seen = {}
        for b in keep:
            b.bounds = None
            seen.setdefault(b.key(), b)
        belief[:] = list(seen.values())

    def advance(_=None):
        """After a fit: the transition it was given."""
        *before, last = bench.events
        for ev in before:
            for b in belief:
                b.start()
                b.next_action = None
        bench.events.clear()
        s, a, r, s2, end = last
        i, j, k = plain(s), int(a.item()), plain(s2)
        ok = [b for b in belief if b.next_action is None or b.next_action == j]
        ctx.require(ok, 'off-policy-action', lambda: f'{name}: the action {j} is not the one the last update assumed '
                    f'({[b.next_action for b in belief]})')
        belief[:] = [n for b in ok for n in b.step(i, j, r, k, end)]
        compare(f'after transition {(s.tolist(), j, r, s2.tolist(), end)}')
        ctx.sim_steps += 1

    disk = SimDisk(ctx)
    shape = list()
    for c in range(ctx.int('calls', 1, 4)):
        core = Core(agent, bench, callbacks_fit=[advance])
        bench.watch(agent.policy)
        op = ctx.pick('op', 4, weights=[6, 2, 2, 2])
        shape.append(op)
        if op <= 1:
            if op == 1:
                bench.fail_at = bench.t + ctx.int('fail-after', 1, 12)
            try:
                if ctx.flip('by-episodes', .3) and np.isfinite(bench.info.horizon):
                    core.learn(n_episodes=ctx.int('episodes', 1, 3), n_steps_per_fit=1, quiet=True)
                else:
                    core.learn(n_steps=ctx.int('steps', 1, 25), n_steps_per_fit=1, quiet=True)
            except SimFault:
                ctx.fault('environment-failure')
            bench.fail_at = None
        elif op == 2:
            core.evaluate(n_steps=ctx.int('eval', 1, 8), quiet=True)
            ctx.fault('evaluation-between')
            bench.events.clear()
            compare('after an evaluation')
        else:
            with disk.installed():
                path = os.path.join(disk.root, 'agent.msh')
                agent.save(path, full_save=True)
                world.new_process()
                agent = Agent.load(path)
            ctx.fault('restart')
            compare('after a restart')
        # the next call starts a new episode
        bench.events.clear()
        for b in belief:
            b.next_action = None
        ctx.ev('call', op, bench.t, [t for t in observe(agent)])
    ctx.state(name, tuple(shape))


def tables(ctx):
    name = ctx.choice('algorithm', NAMES)
    gen = ctx.np_sub('mdp')
    n_s, n_a = ctx.int('states', 2, 4), ctx.int('actions', 2, 3)
    p = gen.dirichlet(np.ones(n_s) * .6, (n_s, n_a))
    if ctx.flip('absorbing', .7):
        p[n_s - 1] = 0.
    rew = gen.randint(-2, 3, (n_s, n_a, n_s)).astype(float)
    mu = np.append(np.ones(n_s - 1) / (n_s - 1), 0.)
    env = FiniteMDP(p, rew, mu, GAMMA, ctx.choice('horizon', [1, 3, 8, np.inf]))
    world.seed_all(ctx.pick('rng', 1 << 30))
    agent, ref = tabular(ctx, name, env.info)

    def observe(ag):
        states = [np.array([s]) for s in range(n_s)]
        if isinstance(ref.q, list):
            return [np.array([ag.Q.predict(s, idx=i) for s in states]) for i in range(len(ref.q))]
        return [np.array([ag.Q.predict(s) for s in states])]

    ctx.ev('case', name)
    follow(ctx, name, agent, Bench(ctx, env), [ref], observe, lambda s: int(s.item()))


def features(ctx):
    name = ctx.choice('algorithm', ['SARSALambdaContinuous', 'TrueOnlineSARSALambda'])
    env = Line(ctx.sub('world'), ctx.choice('end-rate', [0., .1, .4]), ctx.choice('horizon', [1, 3, 8, 1000]))
    phi = Features(basis_list=[PolynomialBasis(), PolynomialBasis([0], [1]), PolynomialBasis([1], [1]), PolynomialBasis([0, 1], [1, 1])])
    world.seed_all(ctx.pick('rng', 1 << 30))
    pol, pi = greedy_policy(ctx, False)
    al, ref_al = rate(ctx, None, (.2, .1, .05))
    lam, ref_lam = rate(ctx, None, (.9, .5, 0.))
    par = dict(input_shape=(phi.size,), output_shape=(3,), n_actions=3, phi=phi)
    probes = [np.array([x, y]) for x in (-1., .5) for y in (0., 1.)]
    ref = LinearRef(w=np.zeros((3, phi.size)), e=np.zeros((3, phi.size)), q_old=None, alpha=ref_al, lam=ref_lam, pi=pi, phi=phi,
                    true_online=name == 'TrueOnlineSARSALambda', probes=tuple(phi(x) for x in probes))
    if name == 'TrueOnlineSARSALambda':
        agent = TrueOnlineSARSALambda(env.info, pol, al, lam, approximator_params=par)
    else:
        agent = SARSALambdaContinuous(env.info, pol, LinearApproximator, al, lam, approximator_params=par)
    ctx.ev('case', name)
    follow(ctx, name, agent, Bench(ctx, env), [ref], lambda ag: [np.array([ag.Q.predict(x) for x in probes])], lambda s: s)


CHECK = Check(
    'P14', dict(tables=tables, features=features), quick=dict(tables=16000, features=4000),
    thorough=dict(tables=150000, features=50000),
    rule='One case = 1-4 learn, evaluate and restart calls of one temporal-difference algorithm in a random finite or '
         'two-dimensional world, with environment failures, compared after every fit with reference implementations that '
         'branch over the hidden random choices. Distinct = different event-log digest.',
    real=['temporal-difference algorithms', 'policies', 'schedules', 'tables and linear approximators', 'Core', 'FiniteMDP',
          'Serializable'],
    stub=['two-dimensional world', 'environment failures', 'file system (simulated disk), process restart'],
    assumptions=['Q(lambda) does not cut traces at exploratory actions, RQ-learning skips the bootstrap part at absorbing '
                 'transitions (as implemented and tested)', 'the sampled weights of weighted Q-learning are only bounded'])
