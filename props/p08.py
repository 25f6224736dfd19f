"""P08: replay memories hold exactly the most recent transitions and hand them out unaltered, with the right weights."""
import os

import numpy as np
import torch

from mushroom_rl.core import AgentInfo, Dataset, DatasetInfo, MDPInfo, Serializable
from mushroom_rl.rl_utils.parameters import LinearParameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory, SequenceReplayMemory
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.utils.minibatches import minibatch_generator

from dst import world
from dst.fp import close
from dst.runner import Check
from dst.simdisk import SimDisk

FIELDS = ('state', 'action', 'reward', 'next_state', 'absorbing', 'last', 'ps', 'pns')


def num(x):
    return np.asarray(x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else x)


class Source:
    """Produces datasets whose transitions can be told apart, and the reference list of what they contain."""
    def __init__(self, ctx, backend, stateful):
        self.ctx, self.backend, self.stateful = ctx, backend, stateful
        self.k = 0
        self.start = True           # the next transition begins an episode
        self.p_last = ctx.choice('p-last', [.15, .5, 0.])
        self.mdp_info = MDPInfo(Box(-np.ones(2) * 1e6, np.ones(2) * 1e6, data_type=None) if backend == 'numpy' else
                                Box(-torch.ones(2) * 1e6, torch.ones(2) * 1e6), Box(-np.ones(1) * 1e6, np.ones(1) * 1e6)
                                if backend == 'numpy' else Box(-torch.ones(1) * 1e6, torch.ones(1) * 1e6), .9, 1000,
                                backend=backend)
        self.agent_info = AgentInfo(is_episodic=False, policy_state_shape=(2,) if stateful else None, backend=backend)

    def rows(self, n):
        out = list()
        for _ in range(n):
            self.k += 1
            k = float(self.k)
            last = self.ctx.flip('last', self.p_last) if self.p_last else False
            out.append(dict(k=self.k, state=(k, -k), action=(k + .25,), reward=k + .5, next_state=(k + .75, k),
                            absorbing=last and self.ctx.flip('absorbing', .5), last=last, ps=(k, k + .125),
                            pns=(k + .375, -k), first=self.start))
            self.start = last
        return out

    def dataset(self, rows):
        info = DatasetInfo.create_replay_memory_info(self.mdp_info, self.agent_info)
        d = Dataset(info, n_steps=max(1, len(rows)) + self.ctx.pick('spare', 3))
        conv = (lambda x: torch.tensor(x, dtype=torch.float)) if self.backend == 'torch' else \
            (lambda x: np.array(x, dtype=float))
        for r in rows:
            step = [conv(r['state']), conv(r['action']), r['reward'], conv(r['next_state']), r['absorbing'], r['last']]
            if self.stateful:
                step += [conv(r['ps']), conv(r['pns'])]
            d.append(step, {})
        return d


def nstep(rows, n, gamma):
    """What adding a dataset with n-step returns stores, by definition."""
    out = list()
    for i in range(len(rows) - n + 1):
        w = rows[i:i + n]
        if any(r['last'] for r in w[:-1]):
            continue
        e = w[-1]
        out.append(dict(k=w[0]['k'], state=w[0]['state'], action=w[0]['action'],
                        reward=sum(gamma ** j * r['reward'] for j, r in enumerate(w)), next_state=e['next_state'],
                        absorbing=e['absorbing'], last=e['last'], ps=w[0]['ps'], pns=e['pns'], first=w[0]['first']))
    return out


def row_of(fields, i, stateful):
    names = FIELDS if stateful else FIELDS[:6]
    return {n: num(f[i]).astype(float).ravel().tolist() for n, f in zip(names, fields)}


def same(row, ref):
    return all(close(v, np.ravel(np.asarray(ref[n], dtype=float)), rtol=1e-5, atol=1e-5) for n, v in row.items())


def check_batch(ctx, fields, n, ring, stateful):
    ctx.require(all(len(f) == n for f in fields), 'batch-size', lambda: f'{[len(f) for f in fields]} rows for {n}')
    by = {r['k']: r for r in ring}
    seen = list()
    for i in range(n):
        row = row_of(fields, i, stateful)
        k = int(round(row['state'][0]))
        ctx.require(k in by, 'not-stored', lambda: f'sampled transition {row}; stored are {sorted(by)[:20]}')
        ctx.require(same(row, by[k]), 'altered', lambda: f'sampled {row}, stored {by[k]}')
        seen.append(k)
    return seen


def common_ops(ctx, mem, ring, src, disk):
    """Restarts and resets; returns the memory to go on with."""
    op = ctx.choice('life', ['full-restart', 'light-restart', 'reset'])
    if op == 'reset' and hasattr(mem, 'reset'):
        mem.reset()
        ring.clear()
    elif op != 'reset':
        path = os.path.join(disk.root, 'mem.msh')
        mem.save(path, full_save=op == 'full-restart')
        mem = Serializable.load(path)
        if op == 'light-restart':
            ring.clear()
        ctx.fault('restart')
    ctx.ev(op)
    return mem


def uniform(ctx):
    backend = ctx.choice('backend', ['numpy', 'torch'])
    stateful = ctx.flip('stateful', .3)
    src = Source(ctx, backend, stateful)
    cap = ctx.int('max', 1, 12)
    init = ctx.pick('initial', cap)
    disk = SimDisk(ctx)
    with disk.installed():
        mem = ReplayMemory(src.mdp_info, src.agent_info, init, cap)
        ring = list()
        wrapped = False
        for _ in range(ctx.int('ops', 2, 9)):
            if ctx.flip('life', .15):
                mem = common_ops(ctx, mem, ring, src, disk)
            else:
                rows = src.rows(ctx.int('len', 1, 2 * cap + 2))
                n = ctx.choice('n-step', [1, 1, 2, 3])
                gamma = ctx.choice('gamma', [.5, 1., .9])
                d = src.dataset(rows)
                before = [num(x).copy() for x in d.parse()]
                mem.add(d, n_steps_return=n, gamma=gamma)
                ring += nstep(rows, n, gamma)
                wrapped |= len(ring) > cap
                del ring[:max(0, len(ring) - cap)]
                ctx.require(all(np.array_equal(a, num(b)) for a, b in zip(before, d.parse())), 'caller-data',
                            'adding a dataset to the memory changed the dataset')
                for x in d.parse():
                    x[...] = 0                      # the caller reuses its buffers
                ctx.ev('add', len(rows), n)
            ctx.require(mem.size == len(ring), 'size', lambda: f'size {mem.size}, {len(ring)} transitions stored')
            ctx.require(bool(mem.initialized) == (len(ring) > init), 'initialized', f'initialized with {len(ring)}')
            if ring:
                n = 40 * len(ring) if ctx.flip('many', .3) else ctx.int('batch', 1, 2 * cap)
                out = mem.get(n)
                ctx.require(len(out) == (8 if stateful else 6), 'batch-size', f'{len(out)} fields')
                seen = check_batch(ctx, out, n, ring, stateful)
                if n == 40 * len(ring):
                    ctx.require(set(seen) == {r['k'] for r in ring}, 'never-sampled',
                                lambda: f'{sorted({r["k"] for r in ring} - set(seen))} never sampled in {n}')
                for x in out:
                    x[...] = 0                      # a batch belongs to the caller
                check_batch(ctx, mem.get(len(ring)), len(ring), ring, stateful)
                ctx.sim_steps += n
        ctx.state('uniform', backend, stateful, wrapped, min(len(ring), 3))


def sequence(ctx):
    backend = ctx.choice('backend', ['numpy', 'torch'])
    src = Source(ctx, backend, True)
    cap, T = ctx.int('max', 2, 14), ctx.int('truncation', 1, 5)
    disk = SimDisk(ctx)
    with disk.installed():
        mem = SequenceReplayMemory(src.mdp_info, src.agent_info, 0, cap, T)
        ring = list()
        total = 0
        for _ in range(ctx.int('ops', 2, 9)):
            if ctx.flip('life', .12):
                mem = common_ops(ctx, mem, ring, src, disk)
                total = total if ring else 0
            else:
                rows = src.rows(ctx.int('len', 1, cap + 2))
                mem.add(src.dataset(rows))
                ring += rows
                total += len(rows)
                del ring[:max(0, len(ring) - cap)]
                ctx.ev('add', len(rows))
            if not ring:
                continue
            n = ctx.int('batch', 1, 3 * cap)
            s, a, r, ss, ab, last, ps, nps, pa, lengths = mem.get(n)
            pos = {x['k']: i for i, x in enumerate(ring)}
            ctx.require(len(lengths) == n and len(s) == n, 'batch-size', f'{len(lengths)} sequences for {n}')
            for i in range(n):
                m = int(lengths[i])
                ctx.require(1 <= m <= T, 'length', f'sequence of length {m}, truncation {T}')
                ks = [int(round(float(x[0]))) for x in s[i][:m]]
                ctx.require(all(k in pos for k in ks), 'not-stored', lambda: f'sequence {ks}')
                ctx.require(all(y == x + 1 for x, y in zip(ks, ks[1:])) and
                            not any(ring[pos[k]]['last'] for k in ks[:-1]), 'broken-sequence',
                            lambda: f'sequence {ks} is not one piece of one trajectory; stored {[x["k"] for x in ring]}')
                for j, k in enumerate(ks):
                    ref = ring[pos[k]]
                    row = dict(state=num(s[i][j]).tolist(), action=num(a[i][j]).tolist(),
                               next_state=num(ss[i][j]).tolist(), ps=num(ps[i][j]).tolist(), pns=num(nps[i][j]).tolist())
                    ctx.require(same(row, ref), 'altered', lambda: f'{row} for {ref}')
                end = ring[pos[ks[-1]]]
                row = dict(reward=num(r[i]).ravel().tolist(), absorbing=num(ab[i]).ravel().tolist(),
                           last=num(last[i]).ravel().tolist())
                ctx.require(same(row, end), 'altered', lambda: f'{row} for {end}')
                first = ring[pos[ks[0]]]
                if total <= cap and m < T:
                    ctx.require(first['first'] or pos[ks[0]] == 0, 'short-sequence',
                                lambda: f'sequence {ks} stops short of the start of its episode')
                exp = [(0.,)] + [ring[pos[k]]['action'] for k in ks[:-1]]
                alt = [(ks[0] - 1 + .25,)] + exp[1:]
                got = [tuple(num(x).tolist()) for x in pa[i][:m]]
                ok = close(got, exp) or (not first['first'] and close(got, alt))
                if not first['first'] and total <= cap and pos[ks[0]] > 0:
                    ok = close(got, alt)
                ctx.require(ok, 'previous-actions', lambda: f'sequence {ks}: previous actions {got}')
                if m < T:
                    ctx.require(all(float(abs(num(x[i][m:])).sum()) == 0 for x in (s, a, ss, ps, nps, pa)), 'padding',
                                'the padding of a short sequence is not zero')
            ctx.sim_steps += n
        ctx.state('sequence', backend, T, total > cap)


class Extremes:
    """The uniform generator returning values at the ends of its range, as it may."""
    U = (0., 1 - 2. ** -53, 2. ** -53, .5)

    def __init__(self, ctx):
        self.r = ctx.sub('extremes')

    def __call__(self, low=0., high=1., size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        shape = np.broadcast(low, high).shape if size is None else size
        u = np.array([self.r.choice(self.U) for _ in range(int(np.prod(shape)))]).reshape(shape)
        return low + (high - low) * u


def prioritized(ctx):
    backend = ctx.choice('backend', ['numpy', 'torch'])
    src = Source(ctx, backend, ctx.flip('stateful', .2))
    cap = ctx.int('max', 2, 12)
    init = ctx.pick('initial', cap)
    alpha, eps = ctx.choice('alpha', [.6, 1., 0.]), .01
    lin = ctx.flip('linear-beta', .3)

    def mk():
        return LinearParameter(.4, threshold_value=1., n=20) if lin else .4
    disk = SimDisk(ctx)
    with disk.installed():
        mem = PrioritizedReplayMemory(src.mdp_info, src.agent_info, init, cap, alpha, mk(), eps)
        beta = mk()
        ring, prio = list(), {}
        wild = ctx.flip('wild', .3)
        extremes = Extremes(ctx)

        def get(n):
            pairs = [(np.random, 'uniform', extremes)] if wild else []
            with world.patched(pairs):
                out = mem.get(n)
            b = beta() if lin else beta
            rows, idx, w = out[:-2], num(out[-2]), num(out[-1]).astype(float)
            seen = check_batch(ctx, rows, n, ring, src.stateful)
            p = np.array([prio[k] for k in seen])
            ref = (len(ring) * p / sum(prio.values())) ** -b
            ref /= ref.max()
            ctx.require(w.shape == (n,) and close(w, ref, rtol=1e-4, atol=1e-9), 'weights',
                        lambda: f'importance weights {w[:5]}, expected {ref[:5]} for priorities {p[:5]}')
            return seen, idx

        for _ in range(ctx.int('ops', 2, 10)):
            if ctx.flip('life', .1):
                mem = common_ops(ctx, mem, ring, src, disk)
                prio = {r['k']: prio[r['k']] for r in ring}
            else:
                rows = src.rows(ctx.int('len', 1, cap + 2))
                n, gamma = ctx.choice('n-step', [1, 1, 2, 3]), ctx.choice('gamma', [.5, 1.])
                mode = ctx.pick('priorities', 3)
                ps = [float(mem.max_priority) if mode == 0 else 1. if mode == 1 else
                      ctx.choice('p', [.01, 1., 5., 100., 1e-3, 3.]) for _ in rows]
                d = src.dataset(rows)
                before = [num(x).copy() for x in d.parse()]
                mem.add(d, ps, n_steps_return=n, gamma=gamma)
                ctx.require(all(np.array_equal(a, num(b)) for a, b in zip(before, d.parse())), 'caller-data',
                            'adding a dataset to the memory changed the dataset')
                byk = {r['k']: p for r, p in zip(rows, ps)}
                new = nstep(rows, n, gamma)
                ring += new
                prio.update({r['k']: byk[r['k']] for r in new})
                for r in ring[:max(0, len(ring) - cap)]:
                    del prio[r['k']]
                del ring[:max(0, len(ring) - cap)]
                ctx.ev('add', len(rows), n)
            ctx.require(bool(mem.initialized) == (len(ring) > init), 'initialized', f'initialized with {len(ring)}')
            exp = max(prio.values()) if len(ring) > init else 1.
            ctx.require(abs(float(mem.max_priority) - exp) < 1e-6 * (1 + exp), 'max-priority',
                        lambda: f'max_priority {mem.max_priority}, stored {prio}')
            if not ring:
                continue
            for _ in range(ctx.int('gets', 1, 3)):
                n = ctx.int('batch', 1, cap + 3)
                seen, idx = get(n)
                if ctx.flip('update', .8):
                    # the learner reports new errors for what it has just been given, duplicates included
                    u = sorted(set(zip(seen, idx.tolist())))
                    err = [ctx.choice('error', [0., 1., 10., 1e-3, 1000., -2.]) for _ in u]
                    new = dict(zip(u, err))
                    batch = list(zip(seen, idx.tolist())) if ctx.flip('duplicates', .7) else u
                    mem.update(np.array([new[b] for b in batch]), np.array([j for _, j in batch], dtype=int))
                    for (k, _), e in zip(u, err):
                        prio[k] = (abs(e) + eps) ** alpha
                ctx.sim_steps += n
        if ring and not wild and ctx.flip('statistics', .25):
            n = 1500
            seen, _ = get(n)
            tot = sum(prio.values())
            for k in prio:
                q = prio[k] / tot
                z = (seen.count(k) - n * q) / np.sqrt(n * q * (1 - q) + 1)
                ctx.require(abs(z) < 8, 'proportional',
                            lambda: f'transition {k} with probability {q:.4f} sampled {seen.count(k)} times of {n}')
            ctx.probe('statistics')
        ctx.state('prioritized', backend, min(len(ring), 3), wild)


def minibatches(ctx):
    r = ctx.np_sub('data')
    n = ctx.int('n', 1, 40)
    b = ctx.int('batch', 1, 45)
    tensors = ctx.flip('torch', .5)
    arrays = [np.arange(n), np.arange(n)[:, None] * 2., np.arange(n) + .5][:ctx.int('arrays', 1, 3)]
    data = [torch.from_numpy(a) for a in arrays] if tensors else arrays
    seen = list()
    for batch in minibatch_generator(b, *data):
        m = len(batch[0])
        ctx.require(len(batch) == len(data) and 1 <= m <= b and all(len(x) == m for x in batch), 'batch-size',
                    f'minibatch of {m} for batch size {b}')
        ids = num(batch[0]).astype(int).tolist()
        seen += ids
        for x, a in zip(batch, arrays):
            ctx.require(np.array_equal(num(x), a[ids]), 'misaligned', 'the fields of a minibatch belong to different samples')
    ctx.require(sorted(seen) == list(range(n)), 'not-once', lambda: f'{n} samples, minibatches held {sorted(seen)}')
    ctx.ev('minibatches', n, b, seen)
    ctx.sim_steps += n
    ctx.state('minibatch', n % b == 0, n < b, tensors)


CHECK = Check(
    'P08', dict(uniform=uniform, sequence=sequence, prioritized=prioritized, minibatches=minibatches),
    quick=dict(uniform=5000, sequence=3000, prioritized=3500, minibatches=1500),
    thorough=dict(uniform=150000, sequence=120000, prioritized=150000, minibatches=50000),
    rule='One case = 2-10 operations (add with n-step returns, sample, update priorities, reset, save and load) on a replay '
         'memory of capacity 1-14, compared with a list of the most recent transitions after every operation; the random '
         'generator may return the ends of its range. Distinct = different event-log digest.',
    real=['ReplayMemory, SequenceReplayMemory, PrioritizedReplayMemory, SumTree', 'Dataset', 'Serializable',
          'minibatch_generator'],
    stub=['np.random.uniform in part of the prioritized runs (extreme draws)', 'disk and restart'],
    assumptions=['priorities are positive', 'a priority is updated before further samples are added'],
    sim_unit='sampled transitions')
