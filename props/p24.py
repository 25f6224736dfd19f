"""P24: on-policy deep actor-critic learning updates actor and critic from the collected batch, each trajectory on its own."""
import os
from copy import deepcopy

import numpy as np
import torch
from torch import nn, optim

from mushroom_rl.algorithms.actor_critic import A2C, PPO, PPO_BPTT, TRPO
from mushroom_rl.core import Agent, Core, VectorCore, VectorizedEnvironment
from mushroom_rl.policy import BoltzmannTorchPolicy, GaussianTorchPolicy, RecurrentGaussianTorchPolicy
from mushroom_rl.rl_utils.preprocessors import Preprocessor

from dst import world
from dst.engine import SimFault
from dst.fp import close
from dst.runner import Check
from dst.simdisk import SimDisk
from props.p06 import rng_get, rng_set
from props.p21 import GAMMA, NA, Line, num


class Dry(Line):
    """Rewards may be missing."""
    dry = False

    def step(self, action):
        ns, r, ab, info = super().step(action)
        return ns, 0. if self.dry else r, ab, info


class Many(VectorizedEnvironment):
    """Several of them side by side."""
    dry = False
    fail = None

    def __init__(self, ctx, discrete, n):
        self.envs = [Dry(ctx, discrete) for _ in range(n)]
        self.cur = [np.zeros(2)] * n
        super().__init__(self.envs[0].info, n)

    def _hit(self):
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                self.fail = None
                raise SimFault('environments')

    def reset_all(self, env_mask, state=None):
        self._hit()
        for i in np.flatnonzero(env_mask):
            self.cur[i], _ = self.envs[i].reset()
        return np.stack(self.cur), [{}] * self.number

    def step_all(self, env_mask, action):
        self._hit()
        r, ab = np.full(self.number, -77.), np.zeros(self.number, dtype=bool)
        for i in np.flatnonzero(env_mask):
            self.envs[i].dry = self.dry
            self.cur[i], r[i], ab[i], _ = self.envs[i].step(action[i])
        return np.stack(self.cur), r, ab, [{}] * self.number

    def stop(self):
        pass


class Diverged(Exception):
    """The learning rates of this run are too large."""


class Stage:
    """What the networks, losses and optimizers of the user see during one fit."""
    on = False
    first = None            # weights of the critic when the fit used it first
    values = list()         # (inputs, targets) of every loss of the critic
    last_v = None           # input of the last forward pass of the critic
    last_p = None           # input of the last forward pass of the actor
    steps = list()          # inputs of the actor at every step of its optimizer
    updates = list()        # what the preprocessor was updated with
    fail = None
    peak = 0.               # largest weight of the actor after a step of its optimizer

    @classmethod
    def clear(cls):
        cls.peak = 0.
        cls.first = cls.last_v = cls.last_p = cls.fail = None
        cls.values, cls.steps, cls.updates = list(), list(), list()


def head(x, lengths=None):
    """The state each row of an input is about."""
    x = num(x)
    if lengths is None:
        return x
    return x[np.arange(len(x)), np.array(lengths) - 1]


class VNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.a = nn.Linear(input_shape[0], 3)
        self.b = nn.Linear(3, 1)

    def forward(self, state):
        if Stage.on:
            if Stage.first is None:
                Stage.first = deepcopy(self.state_dict())
            Stage.last_v = num(state)
        return self.b(torch.tanh(self.a(state.float())))


class PNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.a = nn.Linear(input_shape[0], output_shape[0])

    def forward(self, state):
        if Stage.on and torch.is_grad_enabled():
            Stage.last_p = num(state)
        return self.a(state.float())


class RVNet(nn.Module):
    def __init__(self, input_shape, output_shape, column, **kw):
        super().__init__()
        self.r = nn.RNN(input_shape[0], 2, batch_first=True)
        self.b = nn.Linear(2, 1)
        self.column = column

    def forward(self, state, policy_state, lengths):
        if Stage.on:
            if Stage.first is None:
                Stage.first = deepcopy(self.state_dict())
            Stage.last_v = head(state, lengths)
        out, _ = self.r(state.float(), policy_state.float().view(1, -1, 2))
        v = self.b(out[torch.arange(len(out)), lengths - 1])
        return v if self.column else v[:, 0]


class RPNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.r = nn.RNN(input_shape[0], 2, batch_first=True)
        self.b = nn.Linear(2, output_shape[0])

    def forward(self, state, policy_state, lengths):
        if Stage.on and torch.is_grad_enabled():
            Stage.last_p = head(state, lengths)
        out, _ = self.r(state.float(), policy_state.float().view(1, -1, 2))
        h = out[torch.arange(len(out)), lengths - 1]
        return self.b(h), h


def loss(y_hat, y):
    if Stage.on:
        if Stage.fail is not None:
            Stage.fail -= 1
            if Stage.fail < 0:
                Stage.fail = None
                raise SimFault('loss of the critic')
        Stage.values.append((Stage.last_v, num(y)))
    return ((y_hat - y) ** 2).mean()


def note():
    if Stage.on:
        Stage.steps.append(Stage.last_p)


def peak(o):
    for g in o.param_groups:
        for x in g['params']:
            m = float(x.detach().abs().max())
            if np.isfinite(m):
                Stage.peak = max(Stage.peak, m)


class Sgd(optim.SGD):
    def step(self, closure=None):
        note()
        super().step(closure)
        peak(self)


class Momentum(optim.SGD):
    def __init__(self, params, lr=.1, **kw):
        kw['momentum'] = .8
        super().__init__(params, lr=lr, **kw)

    def step(self, closure=None):
        note()
        super().step(closure)
        peak(self)


class Drift(Preprocessor):
    """A preprocessor of the user, which changes with every update."""
    def __init__(self):
        self._k = 0
        self._add_save_attr(_k='primitive')

    def __call__(self, obs):
        return obs * (1 + .3 * min(self._k, 4)) + .2 * min(self._k, 4)

    def update(self, obs):
        Stage.updates.append(num(obs))
        self._k += 1


def pre(x, k):
    return x if k is None else x * (1 + .3 * min(k, 4)) + .2 * min(k, 4)


def entropy(policy, s, par):
    if par['discrete']:
        lp = torch.log_softmax(policy.distribution_t(s).logits, -1)
        return -(lp.exp() * lp).sum(-1).mean()
    return .5 * np.log(2 * np.pi * np.e) + list(policy.parameters())[-1].sum()          # one-dimensional actions


def log_prob(policy, s, a, par):
    d = policy.distribution_t(s)
    if par['discrete']:
        return torch.log_softmax(d.logits, -1).gather(1, a.long().reshape(-1, 1))
    return torch.distributions.Normal(d.mean[:, 0], d.variance[:, 0].sqrt()).log_prob(a[:, 0])[:, None]


def gae(v, nv, r, ab, last, lam):
    """By the definition: the discounted sum of the temporal differences up to the end of the trajectory or of the batch."""
    n = len(r)
    out = np.zeros(n)
    for k in range(n):
        c = 1.
        for j in range(k, n):
            out[k] += c * (r[j] + (0. if ab[j] else GAMMA * nv[j]) - v[j])
            c *= GAMMA * lam
            if last[j]:
                break
    return out + v, out


def returns(v, nv, r, ab, last):
    """The discounted rewards up to the end of the trajectory or of the batch, plus the value of a state reached there."""
    n = len(r)
    out = np.zeros(n)
    for k in range(n):
        c = 1.
        for j in range(k, n):
            out[k] += c * r[j]
            c *= GAMMA
            if last[j] or ab[j] or j == n - 1:
                out[k] += 0. if ab[j] else c * nv[j]
                break
    return out, out - v


class Watch:
    def __init__(self, ctx, name, par):
        self.ctx, self.name, self.par = ctx, name, par
        self.fits = 0
        self.k = 0 if par['drift'] else None        # updates of the preprocessor

    def attach(self, agent):
        self.agent, fit = agent, agent.fit

        def w_fit(dataset):
            ctx = self.ctx
            old = deepcopy(agent.policy)
            opt = [x for x in vars(agent).values() if isinstance(x, optim.Optimizer)]
            self.opt = deepcopy(opt[0].state_dict()) if len(opt) == 1 else None
            Stage.clear()
            Stage.fail = ctx.int('loss', 0, 3) if ctx.flip('loss-fails', .1) else None
            Stage.on = True
            try:
                fit(dataset)
            except SimFault:
                ctx.fault('loss-error')
                if self.k is not None:
                    self.k += len(Stage.updates)
                raise
            except Exception:
                # the steps went out of bounds, one finite step after the other; or the preprocessor moved the observations so
                # far between the old and the new policy that TRPO has no quadratic model of their distance
                if Stage.peak > 8 or self.name == 'TRPO' and self.k is not None and not np.all(np.isfinite(num(agent.policy.get_weights()))):
                    raise Diverged
                raise
            finally:
                Stage.on = False
            self.fits += 1
            ctx.sim_steps += 1
            self.judge(dataset, old)
            if not np.abs(num(agent.policy.get_weights())).max() < 30:
                raise Diverged

        agent.fit = w_fit

    def detach(self):
        del self.agent.fit

    def judge(self, dataset, old):
        ctx, name, par, n = self.ctx, self.name, self.par, len(dataset)
        s, a, r, ns, ab, last = (num(x) for x in (dataset.state, dataset.action, dataset.reward, dataset.next_state, dataset.absorbing, dataset.last))
        ab, last = ab.astype(bool), last.astype(bool)
        for i in range(n - 1):
            ok = last[i] or close(s[i + 1], ns[i], atol=1e-5)
            ctx.require(ok, 'trajectory', lambda: f'{name}: transition {i} of the batch is not the last of its trajectory, but the next transition starts elsewhere')
        k = self.k
        if k is not None:
            ok = len(Stage.updates) == 1 and close(Stage.updates[0], s, atol=1e-5)
            ctx.require(ok, 'preprocessor', lambda: f'{name}: the preprocessor was updated {len(Stage.updates)} times with {[x.tolist() for x in Stage.updates]}, the states are {s.tolist()}')
            self.k += 1
        so, sn, nsn = pre(s, k), pre(s, self.k), pre(ns, self.k)
        far = np.abs(sn[:, None] - sn[None]).max(-1) + np.eye(n)
        if far.min() < 1e-3:
            return

        def rows(q):
            i = int(np.abs(sn - q).max(-1).argmin())
            return i if np.abs(sn[i] - q).max() < 1e-4 else None

        T = lambda x: torch.as_tensor(x, dtype=torch.float32)

        # the critic: values when the fit began, targets of every epoch
        if Stage.first is None:
            ctx.require(False, 'critic', f'{name}: the critic was not used')
        v, nv = self.value(dataset, sn, nsn, last, ab)
        if name == 'A2C':
            want, adv = returns(v, nv, r, ab, last)
            cut = last & ~ab
            cut[-1] = False
            if cut.any() and Stage.values:
                ctx.probe('A2C-cut')                    # known finding P24-a2c-cut: the returns run on across the cut
                run_on = returns(v, nv, r, ab, ab)
                pairs = [(rows(q), float(t.ravel()[0])) for x, y in Stage.values for q, t in zip(x, y)]
                if not par.get('strict') and all(i is not None and abs(t - run_on[0][i]) < 1e-3 * (1 + abs(t)) for i, t in pairs):
                    want, adv = run_on
        else:
            want, adv = gae(v, nv, r, ab, last, par['lam'])
        used = np.zeros(n, dtype=int)
        for x, y in Stage.values:
            ctx.require(len(x) == len(y) and (par['critic_batch'] == 0 or len(x) <= par['critic_batch']), 'batch', lambda: f'{name}: the critic is fitted with {len(x)} states and {len(y)} targets')
            for q, t in zip(x, y):
                i = rows(q)
                ctx.require(i is not None, 'state', lambda: f'{name}: the critic is fitted in {q.tolist()}, which is no state of the batch')
                used[i] += 1
                ctx.require(abs(float(t.ravel()[0]) - want[i]) < 1e-3 * (1 + abs(want[i])), 'cut' if par.get('strict') else 'target',
                            lambda: f'{name}: target of transition {i} of {n} is {t.tolist()}, its rule gives {want[i]} (rewards {r.tolist()}, values {v.tolist()}, next {nv.tolist()}, absorbing {ab.tolist()}, last {last.tolist()})')
        ctx.require(np.all(used == par['epochs']), 'epochs', lambda: f'{name}: the transitions are fitted {used.tolist()} times in {par["epochs"]} epochs')
        noise = False
        if name != 'A2C' and n > 1:
            noise = 0 < adv.std(ddof=1) < 1e-3 * (1 + np.abs(np.concatenate((want, v))).max())
            adv = (adv - adv.mean()) / (adv.std(ddof=1) + 1e-8)
        adv = T(adv)[:, None]

        w0, w1 = num(old.get_weights()), num(self.agent.policy.get_weights())
        if np.abs(w0).max() > 4 or Stage.peak > 8 or num(w1).size == w0.size and 6 < np.abs(np.nan_to_num(w1, nan=0.)).max() < 1e30:
            ctx.probe('diverged')                       # badly conditioned: nothing to compare
            return
        ctx.require(np.all(np.isfinite(w1)), 'finite', lambda: f'{name}: the weights of the policy are {w1.tolist()} after a fit with the rewards {r.tolist()}')
        if name != 'A2C' and n == 1 or noise:           # the normalised advantage is a matter of choice or of rounding
            return
        if name == 'TRPO':
            self.trust(old, T(so), T(sn), dataset, adv, w0, w1)
        else:
            self.actor(old, so, sn, dataset, adv, w1, rows)
        ctx.probe(name)

    def value(self, dataset, sn, nsn, last, ab):
        net = VNet(sn.shape[1:], (1,))
        net.load_state_dict(Stage.first)
        with torch.no_grad():
            return tuple(num(net(torch.as_tensor(x, dtype=torch.float32)))[:, 0] for x in (sn, nsn))

    def actor(self, ref, so, sn, dataset, adv, w1, rows):
        ctx, name, par, n = self.ctx, self.name, self.par, len(dataset)
        act = torch.as_tensor(num(dataset.action), dtype=torch.long if par['discrete'] else torch.float32)
        lp = self.log_prob(ref, dataset, so, sn, act)
        with torch.no_grad():
            old_lp = lp(range(n), True)
        bs = [list(range(n))] if name == 'A2C' else list()
        if name == 'A2C':
            ctx.require(len(Stage.steps) == 1, 'steps', lambda: f'{name}: {len(Stage.steps)} steps of the actor')
        else:
            used = np.zeros(n, dtype=int)
            for x in Stage.steps:
                ok = x is not None and all(rows(q) is not None for q in x)
                ctx.require(ok, 'state', lambda: f'{name}: a step of the actor in {None if x is None else x.tolist()}, which are no states of the batch')
                bs.append([rows(q) for q in x])
                used[bs[-1]] += 1
                ctx.require(len(x) <= par['batch'], 'batch', lambda: f'{name}: a minibatch of {len(x)}, {par["batch"]} requested')
            ctx.require(np.all(used == par['pi_epochs']) and len(bs) == par['pi_epochs'] * -(-n // par['batch']), 'epochs',
                        lambda: f'{name}: {len(bs)} steps use the transitions {used.tolist()} times in {par["pi_epochs"]} epochs with minibatches of {par["batch"]}')
        if self.opt is None:
            return
        def walk(ref, adv):
            lp = self.log_prob(ref, dataset, so, sn, act)
            params = list(ref.parameters())
            o = par['opt'](params, lr=par['lr'])
            o.load_state_dict(deepcopy(self.opt))
            for b in bs:
                o.zero_grad()
                x = lp(b, False)
                if name == 'A2C':
                    j = (x * adv[b]).mean()
                else:
                    q = torch.exp(x - old_lp[b])
                    j = torch.min(q * adv[b], torch.clamp(q, 1 - par['eps'], 1 + par['eps']) * adv[b]).mean()
                st = torch.as_tensor(sn[b], dtype=torch.float32)
                (-j - par['ent'] * entropy(ref, st, par)).backward()
                if name == 'A2C' and par['norm'] is not None:
                    nn.utils.clip_grad_norm_(params, par['norm'])
                o.step()
            return num(ref.get_weights())

        want = walk(deepcopy(ref), adv)
        if close(w1, want, rtol=2e-3, atol=2e-4):
            return
        # is it rounding?  How far the steps carry a change of the advantages in their last digits
        tilt = torch.as_tensor([[1. if i % 2 else -1.] for i in range(n)])
        slack = max(np.abs(walk(deepcopy(ref), adv + e * 1e-5 * (1 + adv.abs()) * tilt) - want).max() for e in (1, -1))
        ctx.require(not np.abs(w1 - want).max() > 2e-4 + 50 * slack, 'actor', lambda: f'{name}: fit {self.fits} with {n} transitions moves the policy to {w1.tolist()}, its rule gives {want.tolist()} ({par})')
        ctx.probe('sensitive')

    def log_prob(self, ref, dataset, so, sn, act):
        def lp(b, old):
            b = list(b)
            return log_prob(ref, torch.as_tensor((so if old else sn)[b], dtype=torch.float32), act[b], self.par)
        return lp

    def trust(self, old, so, sn, dataset, adv, w0, w1):
        ctx, name, par = self.ctx, self.name, self.par
        act = torch.as_tensor(num(dataset.action), dtype=torch.long if par['discrete'] else torch.float32)
        new = self.agent.policy
        old_lp = log_prob(old, so, act, par).detach()
        old_d = old.distribution_t(so)

        def gain(p):
            j = (torch.exp(log_prob(p, sn, act, par) - old_lp) * adv).mean()
            return j + par['ent'] * entropy(p, sn, par)

        def kl(p):
            return torch.distributions.kl.kl_divergence(old_d, p.distribution_t(sn)).mean()

        def natural():
            ref = deepcopy(old)
            ps = list(ref.parameters())
            g = torch.cat([x.reshape(-1) for x in torch.autograd.grad(gain(ref), ps)]).detach()
            gk = torch.cat([x.reshape(-1) for x in torch.autograd.grad(kl(ref), ps, create_graph=True)])
            F = torch.stack([torch.cat([x.reshape(-1) for x in torch.autograd.grad(gk[i], ps, retain_graph=True)]) for i in range(len(gk))])
            F = F + par['damping'] * torch.eye(len(F))
            return ref, g, F, torch.linalg.solve(F, g)

        if not np.array_equal(w0, w1):
            _, g, F, d = natural()
            st = torch.as_tensor(w1 - w0, dtype=torch.float32)
            c = max(((st @ F @ d) / torch.sqrt((st @ F @ st) * (d @ F @ d))).item() for d in (d, conjugate(F, g, True), conjugate(F, g, False)))
            ctx.require(not c < .8, 'direction', lambda: f'{name}: the step {st.tolist()} is not along the natural gradient {d.tolist()} (cosine {c})')
            with torch.no_grad():
                j0, j1, d = gain(old).item(), gain(new).item(), kl(new).item()
            ctx.require(d <= 1.5 * par['kl'] * 1.01 + 1e-6, 'trust-region', lambda: f'{name}: the new policy is {d} away, {1.5 * par["kl"]} allowed')
            ctx.require(j1 >= j0 - 1e-5 * (1 + abs(j0)), 'improvement', lambda: f'{name}: the objective went from {j0} to {j1}')
            ctx.probe('TRPO-step')
            return
        ctx.probe('TRPO-stays')
        # the natural gradient step, halved until it fits: it exists if it fits with room to spare
        ref, g, F, d = natural()
        q = .5 * d @ F @ d
        if not torch.isfinite(q) or q < 1e-6:
            return
        d = d / torch.sqrt(q / par['kl'])
        with torch.no_grad():
            j0 = gain(old).item()
            for i in range(par['line'] - 2):
                ref.set_weights(torch.as_tensor(w0, dtype=torch.float32) + d * .5 ** i)
                if kl(ref).item() <= par['kl'] and gain(ref).item() - j0 > 1e-3:
                    ctx.require(False, 'no-step', f'{name}: the policy did not move, a step of {.5 ** i} improves by {gain(ref).item() - j0} within {kl(ref).item()}')


def conjugate(F, b, shared):
    """Ten steps of the conjugate gradient method, with or without the first search direction following the residual."""
    r, x = b.clone(), torch.zeros_like(b)
    p = r if shared else b.clone()
    r2 = r @ r
    for _ in range(10):
        z = F @ p
        v = r2 / (p @ z)
        x += v * p
        r -= v * z
        new = r @ r
        p = r + new / r2 * p
        r2 = new
        if r2 < 1e-10:
            break
    return x


class Recurrent(Watch):
    def seqs(self, dataset, last, ab):
        """First transition of the window that ends with each transition."""
        out, start = list(), 0
        for i in range(len(last)):
            out.append(max(start, i - self.par['window'] + 1))
            if last[i] or ab[i]:
                start = i + 1
        self.begin = out
        self.ps, self.nps = num(dataset.policy_state).reshape(len(last), -1), num(dataset.policy_next_state).reshape(len(last), -1)

    def value(self, dataset, sn, nsn, last, ab):
        self.seqs(dataset, last, ab)
        net = RVNet(sn.shape[1:], (1,), True)
        net.load_state_dict(Stage.first)
        T = lambda x: torch.as_tensor(x, dtype=torch.float32)
        with torch.no_grad():
            f = lambda x, p, i: net(T(x[self.begin[i]:i + 1])[None], T(p[self.begin[i]])[None], torch.tensor([i + 1 - self.begin[i]])).item()
            n = range(len(last))
            return np.array([f(sn, self.ps, i) for i in n]), np.array([f(nsn, self.nps, i) for i in n])

    def log_prob(self, ref, dataset, so, sn, act):
        T = lambda x: torch.as_tensor(x, dtype=torch.float32)

        def lp(b, old):
            x = so if old else sn
            out = list()
            for i in b:
                d = ref.distribution_t(T(x[self.begin[i]:i + 1])[None], T(self.ps[self.begin[i]])[None], torch.tensor([i + 1 - self.begin[i]]))
                out.append(d.log_prob(act[i][None])[0])
            return torch.stack(out)[:, None]
        return lp


def sessions(ctx, w, agent, env, per, disk):
    saved, path = None, os.path.join(disk.root, 'a.msh')
    w.attach(agent)
    for _ in range(ctx.int('calls', 2, 4)):
        op = ctx.choice('op', ['learn', 'learn', 'learn', 'evaluate', 'restart', 'save'])
        if op == 'save' or op == 'restart' and saved is None:
            w.detach()
            w.agent.save(path, full_save=True)
            saved = (w.fits, w.k)
            w.attach(w.agent)
        if op == 'restart':
            s = rng_get()
            w.detach()
            world.new_process()
            w.attach(Agent.load(path))
            rng_set(s)
            w.fits, w.k = saved
            ctx.fault('restart')
        if op in ('restart', 'save'):
            continue
        env.fail = ctx.int('at', 0, 25) if ctx.flip('fails', .15) else None
        core = (VectorCore if isinstance(env, Many) else Core)(w.agent, env)
        n = w.fits
        try:
            if op == 'learn':
                if 'n_steps_per_fit' in per:
                    core.learn(n_steps=ctx.int('steps', 1, 3) * per['n_steps_per_fit'], quiet=True, **per)
                else:
                    core.learn(n_episodes=ctx.int('episodes', 1, 3) * per['n_episodes_per_fit'], quiet=True, **per)
            else:
                core.evaluate(n_steps=ctx.int('steps', 1, 8), quiet=True)
                ctx.require(w.fits == n, 'evaluate', f'{w.name}: a fit in an evaluation')
        except Diverged:
            ctx.probe('diverged')
            return
        except SimFault:
            ctx.fault('environment-error')
        env.fail = None
        ctx.ev(op, w.fits, [round(float(x), 4) for x in num(w.agent.policy.get_weights()).ravel()])
        ctx.state(w.name, op, min(w.fits, 6), saved is not None)


def options(ctx, name):
    return dict(lam=ctx.choice('lambda', [.9, 0., 1.]), ent=ctx.choice('entropy', [0., .1]), critic_batch=ctx.choice('critic-batch', [0, 4]),
                epochs=ctx.choice('critic-epochs', [1, 3]), batch=ctx.choice('batch', [4, 1000, 3]), pi_epochs=ctx.choice('epochs', [1, 3]),
                eps=ctx.choice('eps', [.2, .05]), lr=ctx.choice('lr', [.05, .2]), norm=ctx.choice('norm', [None, .2]), kl=ctx.choice('kl', [.01, .1]),
                damping=.01, line=ctx.choice('line', [10, 4]), opt=ctx.choice('optimizer', [Sgd, Momentum]), discrete=False, drift=False,
                window=ctx.choice('window', [3, 1, 2, 5]))


def zero(agent):
    """A critic that starts with zero values."""
    for x in vars(agent).values():
        net = getattr(getattr(x, 'model', None), 'network', None)
        if isinstance(net, (VNet, RVNet)):
            with torch.no_grad():
                net.b.weight.zero_()
                net.b.bias.zero_()


def per_fit(ctx):
    return ctx.choice('per-fit', [dict(n_steps_per_fit=7), dict(n_episodes_per_fit=2), dict(n_episodes_per_fit=1), dict(n_steps_per_fit=16),
                                  dict(n_steps_per_fit=1)])


def case(ctx, names, many=False):
    name = ctx.choice('agent', names)
    disk = SimDisk(ctx)
    try:
        with world.fresh(ctx), disk.installed():
            p = options(ctx, name)
            p['discrete'] = name != 'PPO_BPTT' and ctx.flip('discrete', .4)
            p['drift'] = name != 'A2C' and ctx.flip('drift', .4)
            env = Many(ctx, p['discrete'], ctx.int('environments', 2, 4)) if many else Dry(ctx, p['discrete'])
            critic = dict(network=VNet, optimizer={'class': optim.SGD, 'params': {'lr': .05}}, loss=loss, input_shape=(2,), output_shape=(1,),
                          batch_size=p['critic_batch'], quiet=True)
            actor = {'class': p['opt'], 'params': {'lr': p['lr']}}
            fit = dict(n_epochs=p['epochs'])
            if name == 'PPO_BPTT':
                pi = RecurrentGaussianTorchPolicy(policy_state_shape=(2,), network=RPNet, input_shape=(2,), output_shape=(1,), std_0=.7)
                critic.update(network=RVNet, column=ctx.flip('column'))
            elif p['discrete']:
                pi = BoltzmannTorchPolicy(PNet, (2,), (NA,), beta=ctx.choice('beta', [1., .5]))
            else:
                pi = GaussianTorchPolicy(PNet, (2,), (1,), std_0=.7)
            if name == 'A2C':
                agent = A2C(env.info, pi, actor, critic, p['ent'], max_grad_norm=p['norm'], critic_fit_params=fit)
            elif name == 'TRPO':
                agent = TRPO(env.info, pi, critic, ent_coeff=p['ent'], max_kl=p['kl'], lam=p['lam'], n_epochs_line_search=p['line'], n_epochs_cg=10,
                             cg_damping=p['damping'], critic_fit_params=fit)
            elif name == 'PPO':
                agent = PPO(env.info, pi, actor, critic, p['pi_epochs'], p['batch'], p['eps'], p['lam'], p['ent'], critic_fit_params=fit)
            else:
                agent = PPO_BPTT(env.info, pi, actor, critic, p['pi_epochs'], p['batch'], p['eps'], p['lam'], 2, ent_coeff=p['ent'],
                                 critic_fit_params=fit, truncation_length=p['window'])
            if ctx.flip('sparse', .08):
                env.dry = True
                zero(agent)
            if p['drift']:
                agent.add_agent_preprocessor(Drift())
            per = per_fit(ctx)
            ctx.ev('case', name, sorted((a, str(b)) for a, b in p.items() if a != 'opt'), p['opt'].__name__, per)
            sessions(ctx, (Recurrent if name == 'PPO_BPTT' else Watch)(ctx, name, p), agent, env, per, disk)
    finally:
        Stage.on = False
        Stage.clear()


def batch(ctx):
    case(ctx, ['A2C', 'PPO', 'TRPO'])


def a2c_cut(ctx):
    """Two episodes cut by the horizon in one batch of A2C."""
    with world.fresh(ctx):
        env = Dry(ctx, False)
        env.rs = np.random.RandomState(3)
        p = dict(lam=1., ent=0., critic_batch=0, epochs=1, discrete=False, drift=False, norm=None, lr=.1, opt=Sgd, strict=True)
        critic = dict(network=VNet, optimizer={'class': optim.SGD, 'params': {'lr': .05}}, loss=loss, input_shape=(2,), output_shape=(1,), quiet=True)
        agent = A2C(env.info, GaussianTorchPolicy(PNet, (2,), (1,), std_0=.7), {'class': Sgd, 'params': {'lr': .1}}, critic, 0.)
        try:
            Watch(ctx, 'A2C', p).attach(agent)
            Core(agent, env).learn(n_episodes=6, n_episodes_per_fit=6, quiet=True)
        finally:
            Stage.on = False
            Stage.clear()


def recurrent(ctx):
    case(ctx, ['PPO_BPTT'])


def parallel(ctx):
    case(ctx, ['PPO', 'TRPO', 'A2C'], many=True)


CHECK = Check(
    'P24', dict(batch=batch, recurrent=recurrent, parallel=parallel), pinned={'P24-a2c-cut': a2c_cut}, quick=dict(batch=2300, recurrent=900, parallel=900),
    thorough=dict(batch=100000, recurrent=40000, parallel=40000),
    rule='One case = 2-4 learn, evaluate, save and restart calls of one agent with randomised options; at every fit the targets of the '
         'critic and the new weights of the actor are compared with the rule of the algorithm applied to the batch. '
         'Distinct = different event-log digest.',
    real=['A2C, PPO, TRPO, PPO_BPTT', 'torch policies', 'Regressor, TorchApproximator', 'Core, Dataset, Agent, Serializable'],
    stub=['environment', 'networks, loss, optimizers and preprocessor of the user (recording)', 'file system (simulated disk), process restart'],
    assumptions=['a step of TRPO must be within a cosine of .8 of the natural gradient, in the trust region, must not worsen the objective, and '
                 'be taken where a step clearly fits; its exact length is not decided'])
