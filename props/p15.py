"""P15: target networks, delayed and warm-up updates happen on their schedule, in any history of calls and restarts."""
import os

import numpy as np
import torch

from mushroom_rl.core import Agent, Core

from dst import world, zoo
from dst.engine import SimFault
from dst.runner import Check
from dst.simdisk import SimDisk
from props.p06 import rng_get, rng_set

AFTER_FIRST_UPDATE = ('CategoricalDQN', 'QuantileDQN', 'Rainbow')   # count the fits that learn; the others count all fits


def vec(w):
    w = w.detach().cpu().numpy() if isinstance(w, torch.Tensor) else np.asarray(w)
    return np.array(w, dtype=float).ravel()


def models(regressor):
    """The weights of every model of an approximator."""
    try:
        n = len(regressor)
    except TypeError:
        n = 1
    if n == 1:
        return [vec(regressor.get_weights())]
    return [vec(regressor[i].get_weights()) for i in range(n)]


def near(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-5, atol=1e-6, equal_nan=True)
                                    for x, y in zip(a, b))


def equal(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def resolve(agent, *words):
    """An approximator of the agent by the words of its name."""
    out = [v for k, v in vars(agent).items() if hasattr(v, 'get_weights') and 'approximator' in k and
           all(w in k for w in words) and ('target' in words or 'target' not in k)]
    return out[0] if len(out) == 1 else None


class Watch:
    """Wraps fit and follows the schedule."""
    def __init__(self, ctx, agent):
        self.ctx = ctx
        self.count = 0              # transitions seen
        self.learned = 0            # fits that learned
        self.fits = 0
        self.moved = 0
        self.attach(agent)
        self.seen = self.snap()

    def attach(self, agent):
        self.agent = agent
        self.fit = agent.fit
        agent.fit = self.on_fit

    def detach(self):
        del self.agent.fit

    def same_since(self, what):
        now = self.snap()
        for k in now:
            self.ctx.require(equal(now[k], self.seen[k]), 'changed-outside-fit', lambda: f'{self.name}: {k} changed {what}')

    def on_fit(self, dataset):
        self.same_since('between two fits')
        before = self.seen
        self.count += len(dataset)
        self.fits += 1
        self.fit(dataset)
        after = self.seen = self.snap()
        self.ctx.sim_steps += 1
        self.follow(before, after)


class DQNWatch(Watch):
    def __init__(self, ctx, name, agent, init, freq):
        self.name, self.init, self.freq = name, init, freq
        self.turn = 0
        super().__init__(ctx, agent)
        n = len(self.seen['target'])
        if name == 'AveragedDQN':
            ctx.require(all(equal([t], self.seen['online']) for t in self.seen['target']), 'initial-target', f'{name}: targets differ at the start')
        else:
            ctx.require(equal(self.seen['target'], self.seen['online']), 'initial-target', f'{name}: target differs from the approximator at the start')

    def snap(self):
        return dict(online=models(self.agent.approximator), target=models(self.agent.target_approximator))

    def follow(self, before, after):
        ctx, name = self.ctx, self.name
        learned = not equal(before['online'], after['online'])
        if self.count <= self.init:
            ctx.require(not learned, 'learned-early', lambda: f'{name}: learned with {self.count} transitions, initial size {self.init}')
        elif name != 'Rainbow':
            ctx.require(learned, 'not-learned', lambda: f'{name}: fit {self.fits} with {self.count} transitions (initial size {self.init}) changed nothing')
        self.learned += learned
        n = self.learned if name in AFTER_FIRST_UPDATE else self.fits
        due = n > 0 and n % self.freq == 0 and (learned or name not in AFTER_FIRST_UPDATE)
        want = list(before['target'])
        if due and name == 'AveragedDQN':
            self.turn += 1
            want[self.turn % len(want)] = after['online'][0]
        elif due:
            want = after['online']
        ctx.probe('target-update' if due else 'target-kept')
        ctx.require(equal(after['target'], want), 'target-schedule', lambda: (
            f'{name}: after fit {self.fits} (learned {self.learned} times, frequency {self.freq}) the target is '
            + ('unchanged' if equal(after['target'], before['target']) else 'a copy of the approximator' if
               equal(after['target'], after['online']) else 'something else') + f', expected {"an update" if due else "no change"}'))


class ACWatch(Watch):
    def __init__(self, ctx, name, agent, init, tau, delay=1, warmup=0, size=10 ** 9):
        self.name, self.init, self.tau, self.delay, self.warmup, self.size = name, init, tau, delay, warmup, size
        super().__init__(ctx, agent)
        for k in ('critic', 'actor'):
            if 'target ' + k in self.seen:
                ctx.require(equal(self.seen[k], self.seen['target ' + k]), 'initial-target', f'{name}: target {k} differs at the start')

    def snap(self):
        a = self.agent
        parts = {'critic': resolve(a, 'critic'), 'target critic': resolve(a, 'target', 'critic'),
                 'target actor': resolve(a, 'target', 'actor')}
        out = {k: models(v) for k, v in parts.items() if v is not None}
        out['actor'] = [vec(a.policy.get_weights())]
        if isinstance(getattr(a, '_log_alpha', None), torch.Tensor):
            out['entropy weight'] = [vec(a._log_alpha)]
        return out

    def follow(self, before, after):
        ctx, name = self.ctx, self.name
        learn = min(self.count, self.size) > self.init
        kept = {k: equal(before[k], after[k]) for k in after}
        if not learn:
            for k in kept:
                ctx.require(kept[k], 'learned-early', lambda: f'{name}: {k} changed with {self.count} transitions, initial size {self.init}')
            return
        ctx.require('critic' not in kept or not kept['critic'], 'not-learned', lambda: f'{name}: the critic did not change at fit {self.fits}')
        due = self.learned % self.delay == 0 and min(self.count, self.size) > self.warmup
        self.learned += 1
        ctx.probe('actor-update' if due else 'actor-kept')
        ctx.require(kept['actor'] != due, 'actor-schedule', lambda: (
            f'{name}: at learning fit {self.learned} with {self.count} transitions (delay {self.delay}, warm-up {self.warmup}) the '
            f'actor {"did not change" if kept["actor"] else "changed"}'))
        if 'entropy weight' in kept:
            ctx.require(due or kept['entropy weight'], 'entropy-schedule', lambda: (
                f'{name}: the entropy weight changed with {self.count} transitions, warm-up {self.warmup}'))
        for k in ('critic', 'actor'):
            t = 'target ' + k
            if t in after and k in after:
                want = [self.tau * x + (1 - self.tau) * y for x, y in zip(after[k], before[t])]
                ctx.require(near(after[t], want), 'target-schedule', lambda: (
                    f'{name}: the target {k} after learning fit {self.learned} is '
                    + ('unchanged' if kept[t] else 'not the average with the given weight') + f' (tau {self.tau})'))


def drive(ctx, z, w, disk, opt):
    """Learn, evaluate and restart in any order; environments may fail in between."""
    fail = [None]
    env = z.env
    step = env.step

    def faulty(action):
        if fail[0] is not None:
            fail[0] -= 1
            if fail[0] < 0:
                fail[0] = None
                raise SimFault('environment')
        return step(action)

    env.step = faulty
    for _ in range(ctx.int('calls', 2, 5)):
        op = ctx.choice('op', ['learn', 'learn', 'learn', 'evaluate', 'restart'])
        ctx.ev(op, w.fits)
        if op == 'restart':
            s = rng_get()
            path = os.path.join(disk.root, 'a.msh')
            w.detach()
            w.agent.save(path, full_save=True)
            world.new_process()
            w.attach(Agent.load(path))
            rng_set(s)
            ctx.fault('restart')
        else:
            fail[0] = ctx.int('at', 0, 12) if ctx.flip('fails', .2) else None
            core = Core(w.agent, env)
            try:
                if op == 'learn':
                    core.learn(n_steps=ctx.int('steps', 1, 30), n_steps_per_fit=z.fit['n_steps_per_fit'], quiet=True)
                else:
                    core.evaluate(n_steps=ctx.int('steps', 1, 8), quiet=True)
            except SimFault:
                ctx.fault('environment-error')
            except Exception as e:
                if not zoo.numerical(e):
                    raise
                return
            fail[0] = None
        w.same_since(f'in {op}')
    ctx.state(z.name, w.learned, w.fits)


def value(ctx):
    name = ctx.choice('agent', zoo.DQNS)
    opt = ctx.pick('options', 1 << 16)
    world.seed_all(ctx.pick('rng', 1 << 30))
    over = dict(target_update_frequency=ctx.choice('frequency', [1, 2, 3, 4, 5, 7, 10]), initial_replay_size=ctx.choice('initial', [4, 6, 12]),
                max_replay_size=ctx.choice('size', [14, 30]))
    z = zoo.build(name, opt, over)
    ctx.ev('case', name, opt)
    disk = SimDisk(ctx)
    with disk.installed():
        w = DQNWatch(ctx, name.split('-')[0], z.agent, over['initial_replay_size'], over['target_update_frequency'])
        drive(ctx, z, w, disk, opt)


def actor_critic(ctx):
    name = ctx.choice('agent', ['DDPG', 'TD3', 'SAC'])
    opt = ctx.pick('options', 1 << 16)
    world.seed_all(ctx.pick('rng', 1 << 30))
    over = dict(init=ctx.choice('initial', [4, 6, 10]), size=ctx.choice('size', [16, 30]), tau=ctx.choice('tau', [.1, .5, .01, 1.]),
                policy_delay=ctx.choice('delay', [1, 2, 3, 5]), warmup=ctx.choice('warmup', [0, 8, 14]))
    z = zoo.build(name, opt, over)
    ctx.ev('case', name, opt)
    disk = SimDisk(ctx)
    with disk.installed():
        sac = name == 'SAC'
        w = ACWatch(ctx, name, z.agent, over['init'], over['tau'], 1 if sac else over['policy_delay'],
                    over['warmup'] if sac else 0, over['size'])
        drive(ctx, z, w, disk, opt)


CHECK = Check(
    'P15', dict(value=value, actor_critic=actor_critic), quick=dict(value=3000, actor_critic=2000),
    thorough=dict(value=60000, actor_critic=40000),
    rule='One case = 2-5 learn, evaluate and restart calls of one deep algorithm with environment failures; after every fit the '
         'weights of all networks are compared with what the schedule allows. Distinct = different event-log digest.',
    real=['DQN and its nine variants', 'DDPG, TD3, SAC', 'replay memories', 'torch approximators and policies', 'Core',
          'Serializable', 'environments'],
    stub=['environment failures', 'file system (simulated disk), process restart'],
    assumptions=['target_update_frequency counts fits; CategoricalDQN, QuantileDQN and Rainbow count those that learn (as '
                 'implemented)', 'gradients are not exactly zero'])
