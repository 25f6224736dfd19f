"""P06: an agent that is saved and loaded continues exactly like one that was never interrupted."""
import os
import random

import numpy as np
import torch

from mushroom_rl.core import Core, Agent

from dst import fp, world, zoo
from dst.engine import canon
from dst.runner import Check
from dst.simdisk import SimDisk


class Tap:
    """Records what passes between agent and environment."""
    def __init__(self, env):
        self._env = env
        self.log = list()

    def __getattr__(self, name):
        return getattr(self._env, name)

    def reset(self, state=None):
        out = self._env.reset(state)
        self.log.append(('reset', canon(out[0])))
        return out

    def step(self, action):
        out = self._env.step(action)
        self.log.append(('step', canon(action), canon(out[0]), canon(out[1]), bool(out[2])))
        return out


def rng_get():
    return np.random.get_state(), torch.get_rng_state(), random.getstate()


def rng_set(s):
    np.random.set_state(s[0])
    torch.set_rng_state(s[1])
    random.setstate(s[2])


def plan(ctx, name, z):
    """The calls of one experiment; each is executed by the same agent or by one restored from disk."""
    calls = list()
    per = z.fit.get('n_episodes_per_fit')
    n_fit = 0
    for _ in range(ctx.int('calls', 2, 4)):
        if ctx.flip('evaluate', 0.25):
            calls.append(('evaluate', dict(n_steps=ctx.int('eval-steps', 1, 8))))
        elif name == 'BoostedFQI' and n_fit:
            calls.append(('evaluate', dict(n_steps=3)))
        elif per:
            calls.append(('learn', dict(n_episodes=per, **z.fit)))
            n_fit += 1
        else:
            calls.append(('learn', dict(n_steps=ctx.int('steps', 1, 25), **z.fit)))
    return calls


def run(z, agent, what, kw):
    env = Tap(z.env)
    core = Core(agent, env)
    try:
        d = getattr(core, what)(quiet=True, **kw)
    except Exception as e:
        if not zoo.numerical(e):
            raise
        env.log.append(('raised', type(e).__name__))
        return env.log
    if what == 'evaluate':
        env.log.append(('J', canon(np.asarray(d.discounted_return))))
    return env.log


def pick(ctx):
    name = ctx.choice('agent', zoo.NAMES)
    opt = ctx.pick('options', 1 << 16)
    return name, opt


def decoy(ctx, name):
    """The new process also builds other agents, of the same kind and of others."""
    world.new_process()
    for _ in range(ctx.pick('decoys', 3)):
        zoo.build(name if ctx.flip('same-kind', 0.6) else ctx.choice('decoy', zoo.NAMES), ctx.pick('decoy-options', 1 << 16))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'event {i}: {str(x)[:200]} uninterrupted, {str(y)[:200]} restored'
    return f'{len(a)} events uninterrupted, {len(b)} restored'


def resume(ctx):
    name, opt = pick(ctx)
    seed = ctx.pick('rng', 1 << 30)
    z = zoo.build(name, opt)
    calls = plan(ctx, name, z)
    restart = [ctx.flip('restart', 0.7) for _ in calls]
    ctx.ev('case', name, opt)
    # uninterrupted
    world.seed_all(seed)
    z = zoo.build(name, opt)
    ref = list()
    for c in calls:
        ref.append(run(z, z.agent, *c))
        if ref[-1] and ref[-1][-1][0] == 'raised':
            ctx.probe('numerical-failure')
            break
    calls = calls[:len(ref)]
    fin = fp.describe(weights(z.agent))
    # restored from disk before some of the calls
    disk = SimDisk(ctx)
    with disk.installed():
        path = os.path.join(disk.root, 'ck', 'agent.msh')
        world.seed_all(seed)
        z = zoo.build(name, opt)
        agent = z.agent
        for i, c in enumerate(calls):
            if i > 0 and restart[i]:
                s = rng_get()
                agent.save(path, full_save=True)
                del agent
                decoy(ctx, name)
                agent = Agent.load(path)
                rng_set(s)
                ctx.fault('restart')
                ctx.probe('restart-' + name)
            got = run(z, agent, *c)
            ctx.ev('call', i, c[0], len(got))
            ctx.sim_steps += len(got)
            ctx.require(got == ref[i], 'diverges',
                        lambda: f'{name}, call {i} {c} after restarts {restart[1:i + 1]}: {first_diff(ref[i], got)}')
        d = fp.diff(fin, fp.describe(weights(agent)))
        ctx.require(not d, 'diverges', lambda: f'{name}: {d}')
    ctx.state(name, tuple(restart), tuple(c[0] for c in calls))


def weights(agent):
    """Public view of what was learned."""
    try:
        return agent.policy.get_weights()
    except (AttributeError, NotImplementedError):
        return None


def deploy(ctx):
    """A light save carries the learned behaviour; learning can start again from it."""
    name, opt = pick(ctx)
    seed = ctx.pick('rng', 1 << 30)
    world.seed_all(seed)
    z = zoo.build(name, opt)
    calls = plan(ctx, name, z)
    ctx.ev('case', name, opt)
    for c in calls:
        run(z, z.agent, *c)
    s = rng_get()
    disk = SimDisk(ctx)
    with disk.installed():
        path = os.path.join(disk.root, 'agent.msh')
        z.agent.save(path, full_save=False)
        rng_set(s)
        ref = run(z, z.agent, 'evaluate', dict(n_steps=10))
        decoy(ctx, name)
        agent = Agent.load(path)
        rng_set(s)
        got = run(z, agent, 'evaluate', dict(n_steps=10))
        ctx.require(ref == got, 'behaviour-lost', lambda: f'{name}: {first_diff(ref, got)}')
        if name != 'BoostedFQI':
            per = z.fit.get('n_episodes_per_fit')
            run(z, agent, 'learn', dict(z.fit, **(dict(n_episodes=per) if per else dict(n_steps=ctx.int('more', 1, 25)))))
        ctx.fault('restart')
        ctx.sim_steps += len(got)
    ctx.state(name, len(calls))


CHECK = Check(
    'P06', dict(resume=resume, deploy=deploy), quick=dict(resume=5000, deploy=2000), thorough=dict(resume=60000, deploy=20000),
    rule='One case = one experiment of 2-4 learn/evaluate calls of one of the repository algorithms with randomised options, '
         'executed uninterrupted and with the agent saved, dropped and loaded between calls. Distinct = different '
         'event-log digest.',
    real=['every algorithm, policy, approximator, replay memory, parameter and feature class of the zoo', 'Core',
          'Serializable.save/load', 'environments'],
    stub=['file system (scratch directory)', 'process restart (object dropped, other agents built, loaded again)',
          'global random state carried over the restart'],
    assumptions=['restarts happen between calls', 'the caller restores the random state'])
