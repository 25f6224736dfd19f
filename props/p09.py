"""P09: an experiment is decided by its seed alone: not by memory, clock, hash seed, collector or other instances."""
import gc
import os
import subprocess
import sys
import time

import numpy as np

from mushroom_rl.core import Core

from dst import fp, world, zoo
from dst.engine import canon
from dst.runner import Check
from props.p06 import Tap, first_diff, plan, rng_get, rng_set, run, weights


class Neighbour:
    """Another experiment living in the same process, advanced at arbitrary moments, with a random state of its own."""
    def __init__(self, ctx, name, opt, seed):
        self.ctx, self.name = ctx, name
        s = rng_get()
        world.seed_all(seed)
        self.z = zoo.build(name, opt)
        self.core = Core(self.z.agent, self.z.env)
        self.rng = rng_get()
        rng_set(s)
        self.dead = name == 'BoostedFQI'

    def advance(self):
        if self.dead:
            return
        s = rng_get()
        rng_set(self.rng)
        try:
            per = self.z.fit.get('n_episodes_per_fit')
            n = dict(n_episodes=per) if per else dict(n_steps=self.ctx.int('neighbour-steps', 1, 6))
            self.dead = not zoo.survives(self.core.learn, quiet=True, **n, **self.z.fit)
        finally:
            self.rng = rng_get()
            rng_set(s)
        self.ctx.fault('neighbour')


class JumpTap(Tap):
    def __init__(self, env, disturb):
        super().__init__(env)
        self.disturb = disturb

    def step(self, action):
        self.disturb()
        return super().step(action)


def clock(ctx):
    r = ctx.sub('clock')
    now = [r.choice([0., 1e9, 4e9])]

    def t():
        now[0] += r.choice([0., 1e-9, 3600., -1e6])
        return now[0]
    return [(time, n, t) for n in ('time', 'perf_counter', 'monotonic')] + [(time, 'sleep', lambda s: None)] + \
           [(time, n, lambda: int(t() * 1e9)) for n in ('time_ns', 'perf_counter_ns')]


def disturbed(ctx):
    name = ctx.choice('agent', zoo.NAMES)
    opt, seed = ctx.pick('options', 1 << 16), ctx.pick('rng', 1 << 30)
    z = zoo.build(name, opt)
    calls = plan(ctx, name, z)
    ctx.ev('case', name, opt)
    # left alone
    world.seed_all(seed)
    z = zoo.build(name, opt)
    ref = list()
    for c in calls:
        ref.append(run(z, z.agent, *c))
        if ref[-1] and ref[-1][-1][0] == 'raised':
            break
    calls = calls[:len(ref)]
    fin = fp.describe(weights(z.agent))
    # the same experiment among others, with other memory content and clock
    junk = list()
    with world.poison(ctx.pick('poison', 1 << 20)), world.patched(clock(ctx)):
        others = list()

        def neighbour():
            n = name if ctx.flip('same-kind', .5) else ctx.choice('other', zoo.NAMES)
            others.append(Neighbour(ctx, n, ctx.pick('other-options', 1 << 16), ctx.pick('other-rng', 1 << 30)))

        def disturb():
            if ctx.flip('disturb', .06):
                k = ctx.pick('how', 4)
                if k == 0 and others:
                    ctx.choice('which', others).advance()
                elif k == 1:
                    gc.collect(0)
                    ctx.fault('collect')
                elif k == 2 and others:
                    others.pop()                # an experiment ends, its objects are destroyed
                    ctx.fault('destroyed')
                else:
                    junk.append([object() for _ in range(ctx.pick('junk', 50))])

        for _ in range(ctx.int('before', 0, 2)):
            neighbour()
            others[-1].advance()
        world.seed_all(seed)
        z2 = zoo.build(name, opt)
        for i, c in enumerate(calls):
            if ctx.flip('new-neighbour', .3):
                neighbour()
            s = rng_get()
            env = z2.env
            z2.env = JumpTap(env, disturb)
            got = run(z2, z2.agent, *c)
            z2.env = env
            ctx.ev('call', i, c[0], len(got))
            ctx.sim_steps += len(got)
            ctx.require(got == ref[i], 'not-reproducible', lambda: f'{name}, call {i} {c}: {first_diff(ref[i], got)}'
                        .replace('uninterrupted', 'alone').replace('restored', 'among others'))
        d = fp.diff(fin, fp.describe(weights(z2.agent)))
        ctx.require(not d, 'not-reproducible', lambda: f'{name}: {d}')
    ctx.state(name, len(others), tuple(c[0] for c in calls))


def experiment(name, opt, seed):
    """Used by both processes of the hash-seed scenario."""
    import hashlib
    world.seed_all(seed)
    z = zoo.build(name, opt)
    per = z.fit.get('n_episodes_per_fit')
    log = list()
    with world.poison(seed):
        for _ in range(1 if name == 'BoostedFQI' else 2):
            log.append(run(z, z.agent, 'learn', dict(z.fit, **(dict(n_episodes=per) if per else dict(n_steps=20)))))
        log.append(run(z, z.agent, 'evaluate', dict(n_steps=6)))
    return hashlib.sha256(repr(log).encode()).hexdigest()[:24]


def processes(ctx):
    """The same experiments in a process with another hash seed."""
    cases = [(ctx.choice('agent', zoo.NAMES), ctx.pick('options', 1 << 16), ctx.pick('rng', 1 << 30)) for _ in range(8)]
    env = dict(os.environ, PYTHONHASHSEED=str(1 + ctx.pick('hash-seed', 1 << 20)))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'props.p09'], input=repr(cases), text=True, env=env,
                       capture_output=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = [ln.split()[1] for ln in p.stdout.splitlines() if ln.startswith('DIGEST ')]
    if p.returncode != 0 or len(out) != len(cases):
        raise RuntimeError('harness: child process failed: ' + p.stderr[-500:])
    ctx.fault('other-hash-seed')
    for c, o in zip(cases, out):
        mine = experiment(*c)
        ctx.ev('experiment', c[0], mine)
        ctx.sim_steps += 46
        ctx.require(mine == o, 'not-reproducible', lambda: f'experiment {c} differs between two processes')
    ctx.state(*[c[0] for c in cases])


CHECK = Check(
    'P09', dict(disturbed=disturbed, processes=processes), quick=dict(disturbed=4000, processes=40),
    thorough=dict(disturbed=60000, processes=400),
    rule='One case = one experiment of 2-4 calls of one of the repository algorithms, executed alone and among other '
         'experiments that are built, trained and destroyed between and during its calls, with different uninitialised '
         'memory, a jumping clock and garbage collections; or 8 experiments repeated in a process with another hash '
         'seed. Distinct = different event-log digest.',
    real=['every algorithm, policy, approximator, replay memory, parameter and feature class of the zoo', 'Core',
          'environments'],
    stub=['time', 'np.empty and torch.empty (seeded garbage)', 'global random state switched with the experiment'],
    assumptions=['each experiment has a random state of its own', 'CPU, one thread'])

if __name__ == '__main__':
    import ast
    import warnings
    import torch
    torch.set_num_threads(1)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    for case in ast.literal_eval(sys.stdin.read()):
        print('DIGEST', experiment(*case))
