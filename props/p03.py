"""P03: parallel environments behave as n independent sequential environments under every scheduling of the workers."""
import gc
import pickle

import numpy as np

from mushroom_rl.core import MultiprocessEnvironment, VectorCore
from mushroom_rl.environments import Segway, CarOnHill, InvertedPendulum, CartPole, LQR, PuddleWorld, ShipSteering

from dst.engine import SimHang
from dst.mpe import Hub, WorkerEnv, Reference, SeqVecEnv, StackAgent
from dst.runner import Check
from dst.simproc import SimKernel
from dst.toys import snapshot, snap_info


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


REPO_ENVS = [
    ('Segway', Segway, dict(random_start=True), False),
    ('CarOnHill', CarOnHill, dict(), False),
    ('InvertedPendulum', InvertedPendulum, dict(random_start=True), False),
    ('CartPole', CartPole, dict(), False),
    ('LQR.generate', LQR, dict(dimensions=2, random_init=True), True),
    ('PuddleWorld', PuddleWorld, dict(), False),
    ('ShipSteering', ShipSteering, dict(small=True, n_steps_action=2), False),
]


def drive(ctx, cls, args, kwargs, use_gen, ref_make, hub, kernel, toy):
    n = ctx.choice('n_envs', [3, 2, 4, 5, 6])
    rngs = list()
    kernel.on_fork = lambda p: rngs.append(p.rng_at_fork)
    if use_gen and ctx.flip('static-generate', 0.5):
        env = MultiprocessEnvironment.generate(cls, *args, n_envs=n, **kwargs)
    else:
        env = MultiprocessEnvironment(cls, *args, n_envs=n, use_generator=use_gen, **kwargs)
    ctx.require(env.number == n and len(rngs) == n, 'worker-count', f'{env.number} environments, {len(rngs)} workers')
    ref = Reference(ref_make, n, rngs)
    ctx.require(env.info.observation_space.shape == ref.envs[0].info.observation_space.shape and
                env.info.horizon == ref.envs[0].info.horizon and env.info.gamma == ref.envs[0].info.gamma, 'info',
                'the MDP information differs from the environment\'s')
    dim = env.info.observation_space.shape[0]
    discrete = hasattr(env.info.action_space, 'n')
    adim = env.info.action_space.shape[0]
    started = [False] * n
    cur = [None] * n
    kept = list()       # previously returned arrays with a private copy: must never change afterwards
    rs = ctx.np_sub('actions')
    ops = ctx.int('ops', 2, 22 if ctx.tier == 'quick' else 60)
    for _ in range(ops):
        op = ctx.choice('op', ['step', 'reset', 'step', 'step', 'render', 'seed', 'stop', 'single'])
        if op == 'step' and not any(started):
            op = 'reset'
        if op in ('render', 'seed', 'single') and not toy:
            op = 'reset'
        ctx.ev('op', op)
        ctx.probe('op-' + op)
        if op == 'reset':
            mask = np.array([ctx.flip('m', 0.6) for _ in range(n)])
            init = None
            if toy and ctx.flip('init', 0.4):
                init = np.round(rs.randn(n, dim) * 10, 3)
            st, infos = env.reset_all(mask, init)
            want_inf = list()
            for i in range(n):
                if mask[i]:
                    cur[i], inf = ref.call(i, 'reset', None if init is None else init[i])
                    started[i] = True
                    want_inf.append(inf)
                else:
                    want_inf.append({})
            rows(ctx, st, cur, n, op, mask)
            ctx.require(len(infos) == n and all(eq(a, b) for a, b in zip(infos, want_inf)), 'episode-info',
                        lambda: f'{infos} vs {want_inf}')
        elif op in ('step', 'single'):
            if op == 'single':
                i = ctx.pick('default', n)
                if not started[i]:
                    continue
                env.set_default_env(i)
                mask = np.zeros(n, dtype=bool)
                mask[i] = True
            else:
                mask = np.array([started[i] and ctx.flip('m', 0.75) for i in range(n)])
            act = rs.randint(env.info.action_space.n, size=(n, 1)) if discrete else np.round(rs.randn(n, adim), 3)
            a0 = act.copy()
            if op == 'single':
                st, rew, ab, infos = env.step(act)
            else:
                st, rew, ab, infos = env.step_all(mask, act)
            ctx.require(np.array_equal(a0, act), 'argument-mutated', 'step_all changed the actions it was given')
            ctx.require(len(infos) == n and len(rew) == n and len(ab) == n, 'shape', 'wrong number of results')
            for i in range(n):
                if mask[i]:
                    cur[i], r, b, inf = ref.call(i, 'step', act[i])
                    ctx.require(eq(rew[i], r), 'wrong-reward',
                                lambda: f'environment {i} returned reward {rew[i]}, sequential execution gives {r}')
                    ctx.require(bool(ab[i]) == bool(b), 'wrong-absorbing', lambda: f'environment {i}: {ab[i]} vs {b}')
                    ctx.require(eq(infos[i], inf), 'wrong-info', lambda: f'environment {i}: {infos[i]} vs {inf}')
                else:
                    ctx.require(not bool(ab[i]), 'masked-absorbing', lambda: f'masked environment {i} reported an end')
                    ctx.require(infos[i] == {}, 'masked-info', lambda: f'masked environment {i} has info {infos[i]}')
            rows(ctx, st, cur, n, op, mask)
            kept.append((rew, rew.copy(), ab, ab.copy()))
        elif op == 'render':
            mask = np.array([ctx.flip('m', 0.6) for _ in range(n)])
            rec = ctx.flip('record', 0.7)
            fr = env.render_all(mask, record=rec)
            want = [ref.call(i, 'render', record=rec) for i in range(n) if mask[i]]
            if rec and want:
                got = list(fr) if len(fr) == len(want) else [fr[i] for i in range(n) if mask[i]]
                ctx.require(len(got) == len(want) and all(eq(a, b) for a, b in zip(got, want)), 'frames',
                            'the frames are not those of the selected environments')
        elif op == 'seed':
            s = ctx.int('seed', 0, 50)
            env.seed(s)
            for i in range(n):
                ref.call(i, 'seed', s)
        elif op == 'stop':
            env.stop()
            for i in range(n):
                ref.call(i, 'stop')
        if op in ('reset', 'step', 'single'):
            kept.append((st, st.copy(), None, None))
            ctx.ev('res', st)
        for a, b, c, d in kept[-6:]:
            ctx.require(np.array_equal(a, b, equal_nan=True) and (c is None or np.array_equal(c, d)), 'result-aliased',
                        'an array returned by an earlier call changed afterwards')
        ctx.state(op, n, tuple(started), kernel.capacity)
    if toy:
        # masked environments saw nothing: the command logs of the workers are exactly the reference's
        for i in range(n):
            got = [e for e in hub.log.get(i + 1, [])]
            want = ref.envs[i]._hub.mylog
            ctx.require(got == want, 'worker-commands', lambda: f'worker {i} executed {got}, expected {want}')
    del env
    gc.collect()
    ctx.require(not kernel.deadlock, 'close-hangs', lambda: f'closing hangs: {kernel.deadlock}')
    ctx.require(not kernel.alive(), 'worker-leak', lambda: f'workers {kernel.alive()} survive the environment')


def rows(ctx, st, cur, n, op, mask):
    ctx.require(len(st) == n, 'shape', 'wrong number of states')
    for i in range(n):
        if cur[i] is not None:
            ctx.require(eq(st[i], cur[i]), 'wrong-state',
                        lambda: f'{op}: environment {i} (active={bool(mask[i])}) returned state {st[i]}, '
                                f'sequential execution gives {cur[i]}')


class RefHub(Hub):
    def __init__(self):
        super().__init__(None)
        self.mylog = list()

    def op(self, what, *data):
        self.mylog.append((what,) + data)


def mk_kernel(ctx):
    slow = {ctx.int('slow-pid', 1, 5): 1} if ctx.flip('slow', 0.4) else {}
    if slow:
        ctx.fault('slow-worker')
    return SimKernel(ctx, capacity=ctx.choice('capacity', [10 ** 9, 1, 2]), slow=slow)


def toy(ctx):
    k = mk_kernel(ctx)
    with k.installed():
        hub = Hub(k)
        kw = dict(dim=ctx.choice('dim', [3, 1, 2, 5]), scale=2., discrete=ctx.flip('discrete', 0.3))
        drive(ctx, WorkerEnv, (hub,), kw, False, lambda: WorkerEnv(RefHub(), **kw), hub, k, True)
        ctx.probe('messages', k.n_msgs)


def repo_envs(ctx):
    k = mk_kernel(ctx)
    name, cls, kw, gen = REPO_ENVS[ctx.pick('env', len(REPO_ENVS))]
    with k.installed():
        make = (lambda: cls.generate(**kw)) if gen else (lambda: cls(**kw))
        drive(ctx, cls, (), kw, gen, make, None, k, False)
        ctx.probe('messages', k.n_msgs)


def stack(ctx):
    """The whole stack: VectorCore + agent over simulated workers against the same over sequential environments."""
    k = mk_kernel(ctx)
    rngs = list()
    k.on_fork = lambda p: rngs.append(p.rng_at_fork)
    n = ctx.choice('n_envs', [3, 2, 4, 5])
    with k.installed():
        if ctx.flip('toy', 0.5):
            hub = Hub(k)
            kw = dict(dim=3, scale=2., discrete=ctx.flip('discrete', 0.3), horizon=ctx.int('horizon', 2, 8))
            env = MultiprocessEnvironment(WorkerEnv, hub, n_envs=n, **kw)
            ref = SeqVecEnv(lambda: WorkerEnv(RefHub(), **kw), n, rngs)
        else:
            name, cls, kw, gen = REPO_ENVS[ctx.pick('env', len(REPO_ENVS))]
            env = MultiprocessEnvironment(cls, n_envs=n, use_generator=gen, **kw)
            ref = SeqVecEnv((lambda: cls.generate(**kw)) if gen else (lambda: cls(**kw)), n, rngs)
            ctx.ev('env', name)
        a, b = StackAgent(env.info), StackAgent(ref.info)
        ca, cb = VectorCore(a, env, record_dictionary=dict(fps=5)), VectorCore(b, ref, record_dictionary=dict(fps=5))
        for _ in range(ctx.int('calls', 1, 3)):
            if ctx.flip('learn', 0.5):
                kw = dict(n_steps=ctx.int('n_steps', 1, 50), n_steps_per_fit=ctx.int('per-fit', 1, 20))
                ca.learn(quiet=True, **kw)
                cb.learn(quiet=True, **kw)
                ra = rb = None
            else:
                kw = dict(n_steps=ctx.int('n_steps', 1, 50))
                ra, rb = ca.evaluate(quiet=True, **kw), cb.evaluate(quiet=True, **kw)
                ra, rb = (snapshot(ra), snap_info(ra)), (snapshot(rb), snap_info(rb))
            ctx.ev('call', sorted(kw.items()), ra and ra[0]['reward'])
            ctx.require(ra == rb, 'wrong-dataset', lambda: f'{ra} vs {rb}')
            ctx.require(a.fits == b.fits, 'wrong-fit', lambda: f'{a.fits} vs {b.fits}')
        del env, ca, a
        gc.collect()
        ctx.require(not k.alive(), 'worker-leak', lambda: f'workers {k.alive()} survive the environment')


CHECK = Check(
    'P03', dict(toy=toy, repo_envs=repo_envs, stack=stack), quick=dict(toy=3500, repo_envs=1200, stack=1200),
    thorough=dict(toy=100000, repo_envs=40000, stack=40000),
    rule='One case = one MultiprocessEnvironment (2-6 workers) driven through a random sequence of masked '
         'reset/step/render/seed/stop calls while the seed decides which process runs after every pipe or process '
         'operation. Distinct = different event-log digest (includes the schedule).',
    real=['MultiprocessEnvironment', '_env_worker', 'VectorizedEnvironment', 'repository environments'],
    stub=['multiprocessing.Pipe/Process/cpu_count (simulated kernel: fork inheritance, pickling, per-process RNG)'],
    assumptions=['environments exchange picklable data', 'no interrupt of the parent inside a call'],
    sim_unit='scheduler steps')
