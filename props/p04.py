"""P04: the failure of an environment worker is reported within bounded time, never as data, and leaves no worker behind."""
import gc

import numpy as np

from mushroom_rl.core import MultiprocessEnvironment, VectorCore

from dst.mpe import Hub, WorkerEnv, Reference, SeqVecEnv, StackAgent
from dst.runner import Check
from dst.simproc import SimKernel
from dst.toys import snapshot, snap_info
from props.p03 import RefHub, eq


def mk(ctx, n):
    slow = {ctx.int('slow-pid', 1, 5): 1} if ctx.flip('slow', 0.3) else {}
    k = SimKernel(ctx, capacity=ctx.choice('capacity', [10 ** 9, 2, 3]), slow=slow)
    hub = Hub(k)
    k.fail_fork = None
    kinds = ['none', 'kill', 'exception', 'kill-at-op', 'interrupt', 'exit', 'ctor-exception', 'ctor-exit', 'fork-fails',
             'pipe-fails']
    victims = {}
    for _ in range(ctx.pick('n-victims', 3, (1, 6, 2))):
        pid = ctx.int('victim', 1, n)
        kind = kinds[ctx.pick('kind', len(kinds))]
        victims[pid] = kind
        if kind == 'kill':
            k.kill_at[pid] = ctx.int('point', 1, 60)
        elif kind in ('exception', 'interrupt', 'exit', 'kill-at-op'):
            k.plan[pid] = (ctx.int('env-op', 1, 20), kind)
        elif kind.startswith('ctor'):
            hub.fail_ctor[pid] = kind[5:]
        elif kind == 'fork-fails':
            k.fail_fork = pid
        elif kind == 'pipe-fails':
            k.fail_pipe = pid
    return k, hub, victims


def dead(k):
    """Workers that have failed so far, as environment indices."""
    return {p.pid - 1 for p in k.procs[1:] if p.killed is not None or p.state == 'exited'}


def close(ctx, k, n):
    gc.collect()
    ctx.require(not k.alive(), 'worker-leak', lambda: f'workers {k.alive()} of {n} survive the environment')


def end(ctx, k):
    """Sometimes the program simply ends, with the environment still referenced."""
    if ctx.flip('program-ends', 0.3):
        k.interpreter_exit()
        ctx.probe('program-ends-without-close')


def build(ctx, k, n, *a, **kw):
    """The constructor either works or raises; it may raise only if a fault fired."""
    try:
        env = MultiprocessEnvironment(*a, n_envs=n, **kw)
    except Exception as e:
        ctx.ev('ctor-raised', type(e).__name__)
        ctx.require(dead(k) or k.fork_failed, 'spurious-error', lambda: f'constructor failed without a fault: {e!r}')
        ctx.probe('constructor-error-surfaced')
        return None
    ctx.require(not k.fork_failed, 'lost-error', 'the operating system refused a worker and nothing was reported')
    return env


def calls(ctx):
    n = ctx.choice('n_envs', [3, 2, 4, 5])
    k, hub, victims = mk(ctx, n)
    rngs = list()
    k.on_fork = lambda p: rngs.append(p.rng_at_fork)
    kw = dict(dim=ctx.choice('dim', [3, 2]), discrete=ctx.flip('discrete', 0.3))
    with k.installed():
        env = build(ctx, k, n, WorkerEnv, hub, **kw)
        if env is None:
            close(ctx, k, n)
            return
        # a worker that failed to construct its environment can only be noticed later, unless it answers for all
        ref = Reference(lambda: WorkerEnv(RefHub(), **kw), n, rngs)
        started = [False] * n
        cur = [None] * n
        rs = ctx.np_sub('actions')
        for _ in range(ctx.int('ops', 2, 25)):
            op = ctx.choice('op', ['step', 'reset', 'step', 'render', 'seed', 'stop'])
            mask = np.array([(started[i] or op != 'step') and ctx.flip('m', 0.7) for i in range(n)])
            if op in ('seed', 'stop'):
                mask = np.ones(n, dtype=bool)
            act = rs.randint(5, size=(n, 1)) if kw['discrete'] else np.round(rs.randn(n, 2), 3)
            was_dead = {i for i in dead(k) if mask[i]}
            ctx.ev('op', op, mask, sorted(was_dead))
            try:
                if op == 'reset':
                    st, infos = env.reset_all(mask)
                elif op == 'step':
                    st, rew, ab, infos = env.step_all(mask, act)
                elif op == 'render':
                    env.render_all(mask, record=True)
                elif op == 'seed':
                    env.seed(3)
                else:
                    env.stop()
            except Exception as e:
                e.__traceback__ = None
                now = {i for i in dead(k) if mask[i]}
                ctx.ev('raised', type(e).__name__)
                ctx.require(now, 'spurious-error',
                            lambda: f'{op} on {np.nonzero(mask)[0]} raised {e!r}; failed workers: {dead(k)}')
                ctx.probe('error-surfaced-' + type(e).__name__)
                break
            # a call that returns normally reports what the environments really did
            if was_dead and op != 'stop':
                ctx.fail('lost-error', f'{op} involving the dead workers {was_dead} returned normally')
            if was_dead:
                break
            for i in range(n):
                if not mask[i]:
                    continue
                if op == 'reset':
                    cur[i], inf = ref.call(i, 'reset')
                    started[i] = True
                    ctx.require(eq(infos[i], inf), 'fabricated-data', lambda: f'{infos[i]} vs {inf}')
                elif op == 'step':
                    cur[i], r, b, inf = ref.call(i, 'step', act[i])
                    ctx.require(eq(rew[i], r) and bool(ab[i]) == b and eq(infos[i], inf), 'fabricated-data',
                                lambda: f'environment {i}: {(rew[i], ab[i], infos[i])}, sequential: {(r, b, inf)}')
                elif op == 'render':
                    ref.call(i, 'render', record=True)
                elif op == 'seed':
                    ref.call(i, 'seed', 3)
                else:
                    ref.call(i, 'stop')
            if op in ('reset', 'step'):
                for i in range(n):
                    if cur[i] is not None:
                        ctx.require(eq(st[i], cur[i]), 'fabricated-data', lambda: f'environment {i}: {st[i]} vs {cur[i]}')
            if dead(k):
                ctx.probe('correct-call-beside-dead-worker')
            ctx.state(op, n, tuple(sorted(dead(k))), tuple(mask), tuple(sorted(victims.items())))
        e = None
        end(ctx, k)
        del env
        close(ctx, k, n)
        ctx.probe('closed-with-%d-dead' % len([v for v in victims if v]))


def stack(ctx):
    """VectorCore over failing workers: every fit and dataset delivered before the error is a prefix of the fault-free
    execution; the error reaches the caller; nothing survives."""
    n = ctx.choice('n_envs', [3, 2, 4])
    k, hub, victims = mk(ctx, n)
    rngs = list()
    k.on_fork = lambda p: rngs.append(p.rng_at_fork)
    kw = dict(dim=3, horizon=ctx.int('horizon', 2, 8))
    with k.installed():
        env = build(ctx, k, n, WorkerEnv, hub, **kw)
        if env is None:
            close(ctx, k, n)
            return
        ref = SeqVecEnv(lambda: WorkerEnv(RefHub(), **kw), n, rngs)
        a, b = StackAgent(env.info), StackAgent(ref.info)
        ca, cb = VectorCore(a, env, record_dictionary=dict(fps=5)), VectorCore(b, ref, record_dictionary=dict(fps=5))
        for _ in range(ctx.int('calls', 1, 3)):
            learn = ctx.flip('learn', 0.6)
            par = dict(n_steps=ctx.int('n_steps', 1, 40))
            if learn:
                par['n_steps_per_fit'] = ctx.int('per-fit', 1, 12)
            was_dead = dead(k)
            err, ra = None, None
            try:
                ra = (ca.learn if learn else ca.evaluate)(quiet=True, **par)
            except Exception as e:
                e.__traceback__ = None
                err = type(e).__name__
            rb = (cb.learn if learn else cb.evaluate)(quiet=True, **par)
            ctx.ev('call', learn, err)
            if err is not None:
                ctx.require(dead(k), 'spurious-error', lambda: f'{err} although no worker failed')
                ctx.require(a.fits == b.fits[:len(a.fits)], 'fabricated-data', 'a fit used samples that no worker produced')
                ctx.probe('error-surfaced-' + err)
                break
            ctx.require(not was_dead, 'lost-error', lambda: f'a run with dead workers {was_dead} succeeded')
            ctx.require(a.fits == b.fits, 'fabricated-data', 'the fits differ from the sequential execution')
            if not learn:
                ra, rb = (snapshot(ra), snap_info(ra)), (snapshot(rb), snap_info(rb))
                ctx.require(ra == rb, 'fabricated-data', lambda: f'{ra} vs {rb}')
        end(ctx, k)
        del env, ca, a
        close(ctx, k, n)


CHECK = Check(
    'P04', dict(calls=calls, stack=stack), quick=dict(calls=5000, stack=2000), thorough=dict(calls=140000, stack=50000),
    rule='One case = one MultiprocessEnvironment (or VectorCore over it) with 0-2 workers that are killed at a chosen '
         'seam point, raise, exit or are interrupted inside an environment call, fail to construct, or cannot be '
         'started, under a seeded schedule. Distinct = different event-log digest (includes the schedule).',
    real=['MultiprocessEnvironment', '_env_worker', 'VectorCore'],
    stub=['multiprocessing.Pipe/Process/cpu_count (simulated kernel)', 'environments (state machines)', 'agent'],
    assumptions=['no use of the environment after its first error other than deleting it',
                 'the parent itself is neither killed nor interrupted inside a call'],
    sim_unit='scheduler steps')
