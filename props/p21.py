"""P21: replay-based and batch value learning fits exactly the targets of its rule, for transitions that took place."""
import io
import os

import numpy as np
import torch
from torch import nn, optim

from mushroom_rl.algorithms.actor_critic import DDPG, SAC, TD3
from mushroom_rl.algorithms.value import (DQN, FQI, AveragedDQN, BoostedFQI, CategoricalDQN, DoubleDQN, DoubleFQI, DuelingDQN, MaxminDQN, NoisyDQN,
                                         QuantileDQN, Rainbow)
from mushroom_rl.core import Agent, Core, Environment, MDPInfo
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.policy import ClippedGaussianPolicy, EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete

from dst import world
from dst.fp import close
from dst.engine import SimFault
from dst.runner import Check
from dst.simdisk import SimDisk
from props.p06 import rng_get, rng_set
from props.p15 import resolve, vec

GAMMA = .9
NA = 3
CALLS = list()              # what the approximators of the agent under test were asked to fit, in order


def models(regressor):
    """The weights of every model of an approximator."""
    return [vec(regressor[i].get_weights()) for i in range(len(regressor))]


def num(x):
    return np.array(x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else x, dtype=float)


class Line(Environment):
    """Every observation is unique; lengths, rewards and endings come from the seed."""
    def __init__(self, ctx, discrete):
        self.rs = ctx.np_sub('line')
        self.fail = None
        self.past = dict()              # observation and action -> transition
        act = Discrete(NA) if discrete else Box(-1, 1, shape=(1,))
        super().__init__(MDPInfo(Box(-5, 5, shape=(2,)), act, GAMMA, 6))

    def _draw(self):
        self.x = np.round(self.rs.uniform(-1, 1, 2), 6)
        return self.x.copy()

    def reset(self, state=None):
        self._hit()
        self.left = 1 + self.rs.randint(9)
        return self._draw(), {}

    def step(self, action):
        self._hit()
        s = self.x
        self.left -= 1
        r, ab = float(np.round(self.rs.randn() * 2, 3)), self.left <= 0
        ns = self._draw()
        self.past[key(s)] = (s.copy(), num(action).ravel(), r, ns.copy(), ab)
        return ns, r, ab, {}

    def _hit(self):
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                self.fail = None
                raise SimFault('environment')


def key(s):
    return tuple(np.round(np.asarray(s, dtype=float), 5))


class Probe(Serializable):
    """An approximator of the user: linear in the observation, keeps a record of its fits."""
    def __init__(self, input_shape, output_shape, scale=1., **kw):
        self._w = np.random.randn(output_shape[0], input_shape[0] + 1) * scale
        self._add_save_attr(_w='numpy')

    def predict(self, state, **par):
        s = np.atleast_2d(np.asarray(state, dtype=float))
        q = np.concatenate((np.ones((len(s), 1)), s), axis=1) @ self._w.T
        return q if np.ndim(state) > 1 else q[0]

    def fit(self, state, action, q, **par):
        state, action, q = np.array(state), np.array(action).ravel().astype(int), np.array(q)
        CALLS.append(dict(s=state, a=action, q=q, par=dict(par), w=self._w.copy(), me=self))
        if not len(state) == len(action) == len(q):
            return
        x = np.concatenate((np.ones((len(state), 1)), state), axis=1)
        w = par.get('weights', np.ones(len(q)))
        for i in range(len(q)):
            self._w[action[i]] += .02 * w[i] * np.clip(q[i] - x[i] @ self._w[action[i]], -5, 5) * x[i]

    def get_weights(self):
        return self._w.ravel().copy()

    def set_weights(self, w):
        self._w = np.array(w).reshape(self._w.shape)

    @property
    def weights_size(self):
        return self._w.size


def qs(w, s):
    return np.concatenate((np.ones((len(s), 1)), s), axis=1) @ w.reshape(NA, -1).T


def memory(agent):
    m = [v for v in vars(agent).values() if isinstance(v, (ReplayMemory, PrioritizedReplayMemory))]
    return m[0] if len(m) == 1 else None


class Watch:
    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        self.fits = self.count = 0

    def attach(self, agent):
        self.agent, fit = agent, agent.fit

        def w_fit(dataset):
            del CALLS[:]
            self.before(dataset)
            fit(dataset)
            self.fits += 1
            self.count += len(dataset)
            self.ctx.sim_steps += 1
            self.after(dataset)
            del CALLS[:]

        agent.fit = w_fit

    def detach(self):
        del self.agent.fit

    def look(self, s, a, who):
        """The transitions behind a minibatch."""
        out = list()
        for i in range(len(s)):
            t = self.env.past.get(key(s[i]))
            self.ctx.require(t is not None and close(t[1], np.ravel(num(a[i])), atol=1e-6), 'transition', lambda: f'{who}: fitted in state {s[i]} with action {a[i]}: this never took place')
            out.append(t)
        return (np.array([t[2] for t in out]), np.array([t[3] for t in out]), np.array([t[4] for t in out], dtype=bool))


def enter(w, m):
    """New transitions are as likely as the likeliest one: none of them may be starved."""
    add = m.add

    def w_add(dataset, p, *x, **k):
        p, top = num(p), float(num(m.max_priority))
        w.ctx.require(p.shape == (len(dataset),) and close(p, np.full(len(p), top)), 'new-priority', lambda: f'{w.name}: {len(dataset)} new transitions enter with the priorities {p.tolist()}, the largest one is {top}')
        return add(dataset, p, *x, **k)
    return w_add


class Deep(Watch):
    def __init__(self, ctx, env, name, par):
        super().__init__(ctx, env)
        self.name, self.par = name, par

    def before(self, dataset):
        a = self.agent
        self.online, self.target = models(a.approximator), models(a.target_approximator)
        self.got, self.updates = list(), list()
        m = memory(a)
        self.mem = m if isinstance(m, PrioritizedReplayMemory) else None
        if self.mem is not None:
            get, upd = m.get, m.update

            def w_get(n):
                r = get(n)
                self.got.append((np.array(r[-2]), num(r[-1]), num(r[0])))
                return r

            def w_upd(error, idx):
                self.updates.append((num(error).copy(), np.array(idx)))
                return upd(error, idx)

            m.get, m.update, m.add = w_get, w_upd, enter(self, m)

    def after(self, dataset):
        ctx, name, par = self.ctx, self.name, self.par
        if self.mem is not None:
            del self.mem.get, self.mem.update, self.mem.add
        learn = min(self.count, par['size']) > par['init']
        ctx.require(len(CALLS) == (1 if learn else 0), 'fits', lambda: f'{name}: {len(CALLS)} fits of the approximator with {self.count} transitions (initial size {par["init"]})')
        if not learn:
            return
        c = CALLS[0]
        ctx.require(len(c['s']) == len(c['a']) == len(c['q']) == par['batch'], 'batch', lambda: f'{name}: batch of {len(c["s"])}, {par["batch"]} requested')
        r, ns, ab = self.look(c['s'], c['a'], name)
        if par['clip']:
            r = np.clip(r, -1, 1)
        T = [qs(w, ns) for w in self.target]
        O = [qs(w, ns) for w in self.online]
        i = np.arange(len(ns))
        if name == 'DQN':
            nq = T[0].max(1)
        elif name == 'DoubleDQN':
            nq = T[0][i, O[0].argmax(1)]
        elif name == 'AveragedDQN':
            k = min(1 + (self.fits - 1) // par['freq'], len(T))
            nq = np.mean(T[:k], axis=0).max(1)
        else:
            nq = np.min(T, axis=0).max(1)
        want = r + GAMMA * np.where(ab, 0., nq)
        ctx.require(close(c['q'], want, rtol=1e-6, atol=1e-6), 'target', lambda: f'{name}: fit {self.fits} with the targets {num(c["q"]).tolist()}, its rule gives {want.tolist()} (absorbing {ab.tolist()})')
        ctx.require(c['par'].get('n_epochs') == par['epochs'], 'fit-parameters', lambda: f'{name}: the fit parameters are {c["par"]}')
        if self.mem is None:
            ctx.require(c['par'].get('weights') is None, 'weights', lambda: f'{name}: weights without priorities')
        else:
            ctx.require(len(self.got) == 1 and len(self.updates) == 1, 'priorities', lambda: f'{name}: {len(self.got)} batches, {len(self.updates)} updates of the priorities')
            idx, weight, s = self.got[0]
            ctx.require(close(num(c['par'].get('weights')), weight) and close(s, c['s']), 'weights', lambda: f'{name}: the batch and its importance weights do not belong together')
            e, j = self.updates[0]
            if name == 'MaxminDQN':
                q = np.min([qs(w, c['s']) for w in self.online], axis=0)[i, c['a']]
            else:
                q = qs(self.online[0], c['s'])[i, c['a']]
            ctx.require(np.array_equal(j, idx) and close(np.abs(e), np.abs(want - q), rtol=1e-6, atol=1e-6), 'priorities', lambda: f'{name}: the priorities are updated with {e.tolist()}, the errors are {(want - q).tolist()}')
        ctx.probe(name)


def sessions(ctx, w, agent, env, learn, disk, name):
    """Learn, evaluate, save and restart in any order; environments may fail in between."""
    saved = None
    path = os.path.join(disk.root, 'a.msh')
    w.attach(agent)
    for _ in range(ctx.int('calls', 2, 5)):
        op = ctx.choice('op', ['learn', 'learn', 'learn', 'evaluate', 'restart', 'save'])
        if op == 'save' or op == 'restart' and saved is None:
            w.detach()
            w.agent.save(path, full_save=True)
            saved = (w.fits, w.count)
            w.attach(w.agent)
        if op == 'restart':
            s = rng_get()
            w.detach()
            world.new_process()
            w.attach(Agent.load(path))
            rng_set(s)
            w.fits, w.count = saved
            ctx.fault('restart')
        if op in ('restart', 'save'):
            continue
        env.fail = ctx.int('at', 0, 15) if ctx.flip('fails', .2) else None
        core = Core(w.agent, env)
        n = w.fits
        try:
            if op == 'learn':
                learn(core)
            else:
                core.evaluate(n_steps=ctx.int('steps', 1, 8), quiet=True)
                ctx.require(w.fits == n, 'evaluate', f'{name}: a fit in an evaluation')
        except SimFault:
            ctx.fault('environment-error')
        env.fail = None
        ctx.ev(op, w.fits, w.count)
        ctx.state(name, op, min(w.fits, 12), saved is not None)


def deep(ctx):
    name = ctx.choice('agent', ['DQN', 'DoubleDQN', 'AveragedDQN', 'MaxminDQN'])
    disk = SimDisk(ctx)
    with world.fresh(ctx), disk.installed():
        env = Line(ctx, True)
        p = dict(init=ctx.choice('initial', [4, 7, 12]), size=ctx.choice('size', [13, 30, 100]), batch=ctx.choice('batch', [5, 1, 9]),
                 freq=ctx.choice('frequency', [1, 2, 3, 7]), clip=ctx.flip('clip', .4), epochs=ctx.choice('epochs', [1, 3]))
        kw = dict(approximator_params=dict(input_shape=(2,), output_shape=(NA,), n_actions=NA), batch_size=p['batch'],
                  target_update_frequency=p['freq'], initial_replay_size=p['init'], max_replay_size=p['size'], clip_reward=p['clip'],
                  fit_params=dict(n_epochs=p['epochs']))
        if ctx.flip('prioritized', .4):
            kw['replay_memory'] = dict([('class', PrioritizedReplayMemory), ('params', dict(alpha=.6, beta=Parameter(.5)))])
        if name in ('AveragedDQN', 'MaxminDQN'):
            kw['n_approximators'] = ctx.choice('models', [2, 3])
        agent = dict(DQN=DQN, DoubleDQN=DoubleDQN, AveragedDQN=AveragedDQN, MaxminDQN=MaxminDQN)[name](
            env.info, EpsGreedy(Parameter(.4)), Probe, **kw)
        per = ctx.choice('per-fit', [1, 2, 4])
        ctx.ev('case', name, sorted(p.items()), 'replay_memory' in kw, per)
        sessions(ctx, Deep(ctx, env, name, p), agent, env,
                 lambda core: core.learn(n_steps=ctx.int('steps', 1, 40), n_steps_per_fit=per, quiet=True), disk, name)


class Batch(Watch):
    def __init__(self, ctx, env, name, iterations):
        super().__init__(ctx, env)
        self.name, self.iterations = name, iterations
        self.count = 0                      # iterations so far
        self.pred = 0.

    def before(self, dataset):
        self.models = models(self.agent.approximator)
        self.done = self.count

    def after(self, dataset):
        ctx, name = self.ctx, self.name
        self.count = self.done
        s, a, r, ns, ab = (num(x) for x in (dataset.state, dataset.action, dataset.reward, dataset.next_state, dataset.absorbing))
        halves = 2 if name == 'DoubleFQI' else 1
        ctx.require(len(CALLS) == halves * self.iterations, 'fits', lambda: f'{name}: {len(CALLS)} fits in {self.iterations} iterations')
        Q = [w.copy() for w in self.models]
        nxt, pred = 0., 0.
        for k in range(self.iterations):
            calls = CALLS[k * halves:(k + 1) * halves]
            if name == 'DoubleFQI':
                h = len(s) // 2
                rows = [slice(0, h), slice(h, 2 * h)]
            else:
                rows = [slice(None)]
            want = list()
            for i, z in enumerate(rows):
                if self.count == 0:
                    t = r[z].copy()
                elif name == 'FQI':
                    t = r + GAMMA * np.where(ab, 0., qs(Q[0], ns).max(1))
                elif name == 'DoubleFQI':
                    b = qs(Q[i], ns[z]).argmax(1)
                    t = r[z] + GAMMA * np.where(ab[z], 0., qs(Q[1 - i], ns[z])[np.arange(len(b)), b])
                else:
                    nxt = (nxt + qs(Q[k - 1], ns)) * (1 - ab[:, None])
                    t = r + GAMMA * nxt.max(1)
                if name == 'BoostedFQI':
                    t = t - pred
                    pred = pred + t
                want.append(t)
            for c, t, z in zip(calls, want, rows):
                ok = np.array_equal(c['s'], s[z]) and np.array_equal(c['a'], a[z].ravel()) and len(c['q']) == len(t)
                ctx.require(ok, 'transition', lambda: f'{name}: iteration {k} fits other transitions than those of the dataset')
                ctx.require(close(c['q'], t, rtol=1e-6, atol=1e-6), 'target', lambda: f'{name}: iteration {k} fits the targets {num(c["q"]).tolist()}, its rule gives {t.tolist()}')
            now = models(self.agent.approximator)
            later = CALLS[(k + 1) * halves:]
            for i, c in enumerate(calls):
                j = {'FQI': 0, 'DoubleFQI': i, 'BoostedFQI': k}[name]
                ctx.require(np.array_equal(c['w'].ravel(), Q[j]), 'model', lambda: f'{name}: iteration {k} fits another model than number {j}')
                nw = [x['w'].ravel() for x in later if x['me'] is c['me']]
                Q[j] = nw[0] if nw else now[j]
            self.count += 1
        ctx.probe(name)


def batch(ctx):
    name = ctx.choice('agent', ['FQI', 'DoubleFQI', 'BoostedFQI'])
    disk = SimDisk(ctx)
    with world.fresh(ctx), disk.installed():
        env = Line(ctx, True)
        k = ctx.choice('iterations', [3, 1, 2, 5])
        par = dict(input_shape=(2,), output_shape=(NA,), n_actions=NA)
        if name == 'BoostedFQI':
            par['n_models'], par['prediction'] = k, 'sum'
        agent = dict(FQI=FQI, DoubleFQI=DoubleFQI, BoostedFQI=BoostedFQI)[name](env.info, EpsGreedy(Parameter(.4)), Probe, k,
                                                                                approximator_params=par, quiet=True)
        ctx.ev('case', name, k)
        w = Batch(ctx, env, name, k)

        def learn(core):
            n = ctx.int('steps', 2, 20)
            if name == 'BoostedFQI' and w.count:
                return
            core.learn(n_steps=n * ctx.choice('fits', [1, 2]) if name != 'BoostedFQI' else n, n_steps_per_fit=n, quiet=True)

        sessions(ctx, w, agent, env, learn, disk, name)


# ------------------------------------------------------------------------------------------------ deep actor-critic
class Stage:
    """What the network of a critic saw last, and who wants to know about its loss."""
    last = None
    judge = None
    muted = False


class QNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.a, self.b = nn.Linear(input_shape[-1], 4), nn.Linear(4, 1)

    def forward(self, s, a):
        if not Stage.muted:
            Stage.last = (num(s), num(a), self)
        return torch.squeeze(self.b(torch.tanh(self.a(torch.cat((s.float(), a.float()), dim=1)))), 1)


class Actor(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.a = nn.Linear(input_shape[-1], output_shape[0])

    def forward(self, s):
        return torch.tanh(self.a(s.float()))


def loss(q, target):
    if Stage.judge is not None:
        Stage.judge(q, target)
    return ((q - target) ** 2).mean()


class Critic(Watch):
    def __init__(self, ctx, env, name, par):
        super().__init__(ctx, env)
        self.name, self.par = name, par

    def before(self, dataset):
        self.judged = 0
        a = self.agent
        self.tc, self.ta = resolve(a, 'target', 'critic'), resolve(a, 'target', 'actor')
        self.drawn = list()
        Stage.judge = self.judge
        if self.name == 'SAC':
            f = a.policy.compute_action_and_log_prob

            def w(state, *x, **k):
                act, lp = f(state, *x, **k)
                self.drawn.append((num(state), act.detach().clone(), lp.detach().clone()))
                return act, lp

            a.policy.compute_action_and_log_prob = w

    def judge(self, q, target):
        ctx, name = self.ctx, self.name
        self.judged += 1
        s, a, _ = Stage.last
        y = num(target).ravel()
        ctx.require(len(s) == len(y) == self.par['batch'], 'batch', lambda: f'{name}: batch of {len(s)}, {self.par["batch"]} requested')
        r, ns, ab = self.look(s, a, name)
        al = getattr(self.agent, '_log_alpha', None)
        self.alpha = float(al.detach().exp()) if isinstance(al, torch.Tensor) else None
        if self.tc is None or self.ta is None and name != 'SAC' or name == 'SAC' and self.alpha is None:
            return
        Stage.muted = True
        try:
            with torch.no_grad():
                t = torch.as_tensor(ns, dtype=torch.float32)
                if name == 'SAC':
                    hit = [(x, u, lp) for x, u, lp in self.drawn if x.shape == ns.shape and close(x, ns, atol=1e-5)]
                    ctx.require(hit, 'next-action', lambda: f'{name}: no action was drawn for the next states of the batch')
                    act, ent = hit[-1][1], self.alpha * num(hit[-1][2])
                else:
                    act, ent = self.ta(t), 0.
                nq = num(self.tc.predict(t, act, prediction='min') if name != 'DDPG' else self.tc.predict(t, act)).ravel()
        finally:
            Stage.muted = False
        want = r + GAMMA * np.where(ab, 0., nq - ent)
        ctx.require(close(y, want, rtol=1e-4, atol=1e-4), 'target', lambda: f'{name}: fit {self.fits + 1} of the critic with the targets {y.tolist()}, its rule gives {want.tolist()} (absorbing {ab.tolist()})')
        ctx.probe(name)

    def after(self, dataset):
        Stage.judge = None
        if self.name == 'SAC':
            del self.agent.policy.compute_action_and_log_prob
        learn = min(self.count, self.par['size']) > self.par['init']
        n = (1 if self.name == 'DDPG' else 2) if learn else 0
        self.ctx.require(self.judged == n, 'fits', lambda: f'{self.name}: {self.judged} fits of the critic with {self.count} transitions (initial size {self.par["init"]}), expected {n}')


def critic(ctx):
    name = ctx.choice('agent', ['DDPG', 'TD3', 'SAC'])
    disk = SimDisk(ctx)
    try:
        with world.fresh(ctx), disk.installed():
            env = Line(ctx, False)
            p = dict(init=ctx.choice('initial', [4, 7, 12]), size=ctx.choice('size', [13, 30, 100]), batch=ctx.choice('batch', [5, 1, 9]))
            tau = ctx.choice('tau', [.1, .5, 1.])
            act = dict(network=Actor, input_shape=(2,), output_shape=(1,))
            opt = {'class': optim.SGD, 'params': {'lr': .05}}
            cri = dict(network=QNet, optimizer={'class': optim.SGD, 'params': {'lr': .05}}, loss=loss, input_shape=(3,), output_shape=(1,), quiet=True)
            one = torch.ones(1)
            if name == 'SAC':
                agent = SAC(env.info, dict(act), dict(act), opt, cri, p['batch'], p['init'], p['size'], warmup_transitions=ctx.choice('warm-up', [1, 15]),
                            tau=tau, lr_alpha=.05)
            else:
                kw = dict(noise_std=0.) if name == 'TD3' else {}
                agent = dict(DDPG=DDPG, TD3=TD3)[name](env.info, ClippedGaussianPolicy, dict(sigma=torch.eye(1) * .1, low=-one, high=one), act, opt, cri,
                                                       p['batch'], p['init'], p['size'], tau=tau, policy_delay=ctx.choice('delay', [1, 2]), **kw)
            per = ctx.choice('per-fit', [1, 2, 4])
            ctx.ev('case', name, sorted(p.items()), tau, per)
            sessions(ctx, Critic(ctx, env, name, p), agent, env,
                     lambda core: core.learn(n_steps=ctx.int('steps', 1, 30), n_steps_per_fit=per, quiet=True), disk, name)
    finally:
        Stage.judge, Stage.last, Stage.muted = None, None, False


class Feat(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.a = nn.Linear(input_shape[0], output_shape[0])

    def forward(self, state, action=None):
        return torch.tanh(self.a(state.float()))


def plain(y_hat, y, reduction='mean'):
    return nn.functional.mse_loss(y_hat, y, reduction=reduction)


def project(p, r, gamma, lo, hi):
    """The law of r + gamma * z, z ~ p on evenly spaced atoms, moved to the atoms."""
    n = len(p)
    out = np.zeros(n)
    for i in range(n):
        b = (np.clip(r + gamma * (lo + (hi - lo) * i / (n - 1)), lo, hi) - lo) / (hi - lo) * (n - 1)
        for j in range(n):
            out[j] += p[i] * max(0., 1. - abs(b - j))
    return out


def clone(x):
    buf = io.BytesIO()
    torch.save(x, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


class Law(Watch):
    """Value distributions, dueling and noisy networks; every fit also takes exactly one step of the optimizer."""
    def __init__(self, ctx, env, name, par):
        super().__init__(ctx, env)
        self.name, self.par = name, par

    def before(self, dataset):
        a = self.agent
        for x in (a.approximator, a.target_approximator):       # no noise, so that a target is a number
            for k, v in x.model.network.named_parameters():
                if 'sigma' in k:
                    with torch.no_grad():
                        v.zero_()
        self.online, self.target, self.net = (clone(x) for x in (a.approximator, a.target_approximator, a.approximator.model.network))
        self.calls, self.got, self.updates = list(), list(), list()
        self.mem = memory(a)
        fit, get = a.approximator.fit, self.mem.get

        def w_fit(*z, **kw):
            self.calls.append(([num(x) for x in z], dict(kw)))
            return fit(*z, **kw)

        def w_get(n):
            r = get(n)
            self.got.append([num(x) for x in r])
            return r

        a.approximator.fit, self.mem.get = w_fit, w_get
        if isinstance(self.mem, PrioritizedReplayMemory):
            upd = self.mem.update

            def w_upd(error, idx):
                self.updates.append((num(error), np.array(idx)))
                return upd(error, idx)

            self.mem.update, self.mem.add = w_upd, enter(self, self.mem)

    def unhook(self):
        for o, n in ((self.agent.approximator, 'fit'), (self.mem, 'get'), (self.mem, 'update'), (self.mem, 'add')):
            if n in vars(o):
                delattr(o, n)

    def after(self, dataset):
        ctx, name, par = self.ctx, self.name, self.par
        self.unhook()
        learn = self.got != []
        ctx.require(len(self.calls) == len(self.got) <= 1, 'fits', lambda: f'{name}: {len(self.calls)} fits, {len(self.got)} batches')
        if name != 'Rainbow':
            want = min(self.count, par['size']) > par['init']
            ctx.require(learn == want, 'fits', lambda: f'{name}: {"a" if learn else "no"} fit with {self.count} transitions (initial size {par["init"]})')
        if not learn:
            return
        (s, a, y), kw = self.calls[0]
        a = a.ravel().astype(int)
        ctx.require(len(s) == len(a) == len(y) == par['batch'], 'batch', lambda: f'{name}: batch of {len(s)}, {par["batch"]} requested')
        w = None
        g = GAMMA
        if name == 'Rainbow':
            n = par['steps']
            g = GAMMA ** n
            r, ns, ab = self.far(s, a, n)
            w = num(kw.get('weights')) if kw.get('weights') is not None else None
            ctx.require(w is not None and close(w, self.got[0][-1]) and close(self.got[0][0], s), 'weights', lambda: f'{name}: the batch and its importance weights do not belong together')
        else:
            r, ns, ab = self.look(s, a, name)
        if par['clip']:
            r = np.clip(r, -1, 1)
        i = np.arange(len(ns))
        T = self.target
        if name in ('CategoricalDQN', 'Rainbow'):
            p = num(T.predict(ns, get_distribution=True)).reshape(len(ns), NA, -1)
            z = np.linspace(par['lo'], par['hi'], par['atoms'])
            q = p @ z
            if name == 'Rainbow':
                q = num(self.online.predict(ns, get_distribution=True)).reshape(len(ns), NA, -1) @ z
            best = q.argmax(1)
            want = np.array([project(p[k, best[k]], r[k], 0. if ab[k] else g, par['lo'], par['hi']) for k in i])
            sure = np.sort(q, 1)[:, -1] - np.sort(q, 1)[:, -2] > 1e-4
        elif name == 'QuantileDQN':
            p = num(T.predict(ns, get_quantiles=True)).reshape(len(ns), NA, -1)
            q = p.mean(-1)
            want = r[:, None] + GAMMA * np.where(ab[:, None], 0., p[i, q.argmax(1)])
            sure = np.sort(q, 1)[:, -1] - np.sort(q, 1)[:, -2] > 1e-4
        else:
            want = r + GAMMA * np.where(ab, 0., num(T.predict(ns)).reshape(len(ns), -1).max(1))
            sure = np.ones(len(ns), dtype=bool)
        y = y.reshape(want.shape) if y.size == want.size else y
        ok = y.shape == want.shape and close(y[sure], want[sure], rtol=1e-4, atol=1e-4)
        ctx.require(ok, 'target', lambda: f'{name}: fit {self.fits} with the targets {y.tolist()}, its rule gives {want.tolist()} (rewards {r.tolist()}, absorbing {ab.tolist()}, {par})')
        self.step(s, a, y, w)
        if name == 'Rainbow':
            ctx.require(len(self.updates) == 1 and np.array_equal(self.updates[0][1], self.got[0][-2].astype(int)), 'priorities', lambda: f'{name}: {len(self.updates)} updates of the priorities')
            pr = num(self.online.predict(s, get_distribution=True)).reshape(len(s), NA, -1)[i, a]
            e = -(y * np.log(np.clip(pr, 1e-5, None))).sum(1)
            ctx.require(close(self.updates[0][0], e, rtol=1e-3, atol=1e-4), 'priorities', lambda: f'{name}: the priorities are updated with {self.updates[0][0].tolist()}, the losses are {e.tolist()}')
        ctx.probe(name)

    def far(self, s, a, n):
        """n steps on from every transition of the batch, or to the end of the episode."""
        R, N, A = list(), list(), list()
        for k in range(len(s)):
            t = self.env.past.get(key(s[k]))
            self.ctx.require(t is not None and int(t[1][0]) == a[k], 'transition', lambda: f'{self.name}: fitted in state {s[k]} with action {a[k]}: this never took place')
            r, c, ns, ab = t[2], 1., t[3], t[4]
            for _ in range(n - 1):
                t = self.env.past.get(key(ns))
                if ab or t is None:
                    break
                c *= GAMMA
                r, ns, ab = r + c * t[2], t[3], t[4]
            R.append(r), N.append(ns), A.append(ab)
        return np.array(R), np.array(N), np.array(A, dtype=bool)

    def step(self, s, a, y, w):
        name = self.name
        net, t, i = self.net, torch.as_tensor(y, dtype=torch.float32), torch.arange(len(s))
        x, act = torch.as_tensor(s, dtype=torch.float32), torch.as_tensor(a)
        if name in ('CategoricalDQN', 'Rainbow'):
            p = net(x, get_distribution=True)[i, act]
            l = -(t * torch.log(torch.clamp(p, 1e-5))).sum(1)
        elif name == 'QuantileDQN':
            q = net(x, get_quantiles=True)[i, act]
            n = q.shape[1]
            u = t[:, :, None] - q[:, None, :]                   # batch, target quantile, quantile
            tau = (torch.arange(n) + .5) / n
            h = torch.where(u.abs() < 1, .5 * u ** 2, u.abs() - .5)
            l = (torch.abs(tau - (u < 0).float()) * h).mean((1, 2))
        else:
            l = (net(x)[i, act] - t.ravel()) ** 2
        l = l.mean() if w is None else (l * torch.as_tensor(w, dtype=torch.float32)).sum() / float(w.sum())
        net.zero_grad()
        l.backward()
        want = np.concatenate([num(p - .1 * p.grad if p.grad is not None else p).ravel() for k, p in net.named_parameters() if 'sigma' not in k])
        got = np.concatenate([num(p).ravel() for k, p in self.agent.approximator.model.network.named_parameters() if 'sigma' not in k])
        self.ctx.require(close(got, want, rtol=1e-3, atol=1e-4), 'step', lambda: f'{name}: fit {self.fits} moves the weights to {got.tolist()}, its loss gives {want.tolist()}')


def distributional(ctx):
    name = ctx.choice('agent', ['CategoricalDQN', 'QuantileDQN', 'Rainbow', 'DuelingDQN', 'NoisyDQN'])
    disk = SimDisk(ctx)
    with world.fresh(ctx), disk.installed():
        env = Line(ctx, True)
        p = dict(init=ctx.choice('initial', [4, 7, 12]), size=ctx.choice('size', [13, 30, 100]), batch=ctx.choice('batch', [5, 1, 9, 2]),
                 freq=ctx.choice('frequency', [1, 2, 3, 7]), clip=ctx.flip('clip', .4), atoms=ctx.choice('atoms', [3, 2, 5, 50]),
                 lo=ctx.choice('low', [-1, 0, -2]), hi=ctx.choice('high', [1, 3]), steps=ctx.choice('n-steps', [1, 2, 3]))

        def build(p):
            kw = dict(batch_size=p['batch'], target_update_frequency=p['freq'], initial_replay_size=p['init'], max_replay_size=p['size'],
                      clip_reward=p['clip'], approximator_params=dict(network=Feat, optimizer={'class': optim.SGD, 'params': {'lr': .1}}, loss=plain,
                                                                      input_shape=(2,), output_shape=(NA,), n_actions=NA, n_features=3, quiet=True))
            law = dict(n_atoms=p['atoms'], v_min=p['lo'], v_max=p['hi'])
            if name == 'CategoricalDQN':
                kw.update(law)
            elif name == 'Rainbow':
                kw.update(law, n_steps_return=p['steps'], alpha_coeff=.6, beta=Parameter(.5), sigma_coeff=0.)
            elif name == 'QuantileDQN':
                kw['n_quantiles'] = p['atoms'] % 7 + 1
            elif name == 'DuelingDQN':
                kw['avg_advantage'] = p['lo'] != 0
            ag = dict(CategoricalDQN=CategoricalDQN, QuantileDQN=QuantileDQN, Rainbow=Rainbow, DuelingDQN=DuelingDQN, NoisyDQN=NoisyDQN)[name](
                env.info, EpsGreedy(Parameter(.4)), **kw)
            return ag

        agent = build(p)
        if ctx.flip('another', .3):
            build(dict(p, atoms=4, lo=-3, hi=4))
            ctx.fault('another-agent')
        per = ctx.choice('per-fit', [1, 2, 4]) if name != 'Rainbow' else ctx.choice('per-fit', [4, 3, 7])
        ctx.ev('case', name, sorted(p.items()), per)
        w = Law(ctx, env, name, p)
        try:
            sessions(ctx, w, agent, env, lambda core: core.learn(n_steps=ctx.int('steps', 1, 40), n_steps_per_fit=per, quiet=True), disk, name)
        finally:
            if hasattr(w, 'mem'):
                w.unhook()


CHECK = Check(
    'P21', dict(deep=deep, batch=batch, critic=critic, distributional=distributional),
    quick=dict(deep=2500, batch=2500, critic=1200, distributional=1500),
    thorough=dict(deep=100000, batch=60000, critic=50000, distributional=40000),
    rule='One case = 2-5 learn, evaluate, save and restart calls of one agent with randomised replay, target and batch options; '
         'every regression the agent starts (observations, actions, targets, weights, priorities) is compared with its rule applied to '
         'the transitions that took place. Distinct = different event-log digest.',
    real=['DQN, DoubleDQN, AveragedDQN, MaxminDQN, CategoricalDQN, QuantileDQN, Rainbow, DuelingDQN, NoisyDQN, FQI, DoubleFQI, BoostedFQI, DDPG, TD3, SAC', 'replay memories', 'Regressor, Ensemble, '
          'TorchApproximator', 'Core, Dataset, Serializable'],
    stub=['environment', 'approximator of the value-based agents (linear, recording)', 'loss of the critics (recording)',
          'file system (simulated disk), process restart'],
    assumptions=['target smoothing noise of TD3 and the noise of noisy networks are zero', 'BoostedFQI is fitted once, as it must'])
