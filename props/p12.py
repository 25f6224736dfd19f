"""P12: a dataset is the list of its transitions: operations select and join whole transitions, statistics are those of its episodes."""
import os

import numpy as np
import torch

from mushroom_rl.core import AgentInfo, Dataset, DatasetInfo, MDPInfo, VectorizedDataset
from mushroom_rl.rl_utils.spaces import Box, Discrete

from dst.runner import Check
from dst.simdisk import SimDisk, plan_fault
from props.p05 import attempt

GAMMA = .5


def num(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy()
    if isinstance(x, (list, tuple)):
        return np.array([num(e) for e in x])
    return np.asarray(x)


def same(a, b, tol=0.):
    a, b = num(a), num(b)
    if a.size == 0 and b.size == 0:
        return True
    return a.shape == b.shape and (np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True) if tol else
                                   np.array_equal(a.astype(float), b.astype(float), equal_nan=True))


class Book:
    """One dataset and the list of what it holds."""
    count = 0

    def __init__(self, d, rows, thetas, cap, whole=True):
        self.d, self.rows, self.thetas, self.cap, self.whole = d, rows, thetas, cap, whole
        self.saved = None
        Book.count += 1
        self.name = f'd{Book.count}'


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.backend = ctx.choice('backend', ['numpy', 'torch', 'list'])
        self.stateful = ctx.flip('stateful', .4)
        self.discrete = ctx.flip('discrete', .3)
        self.p_last = ctx.choice('p-last', [.3, .1, .6, 0.])
        self.info = ctx.choice('info', ['none', 'flat', 'nested', 'changing', 'sparse']) if self.backend != 'list' else 'none'
        self.thetas = ctx.flip('thetas', .3)
        self.k = 0
        self.spaces()
        self.pool = list()

    def spaces(self):
        one = torch.ones if self.backend == 'torch' else np.ones
        obs = Box(-one(2) * 1e6, one(2) * 1e6)
        act = Discrete(1000) if self.discrete else Box(-one(1) * 1e6, one(1) * 1e6)
        self.mdp_info = MDPInfo(obs, act, GAMMA, 1000, backend=self.backend)
        self.agent_info = AgentInfo(is_episodic=False, policy_state_shape=(3,) if self.stateful else None,
                                    backend=self.backend)

    def row(self):
        self.k += 1
        k = self.k
        c = self.ctx
        last = c.flip('last', self.p_last) if self.p_last else False
        r = dict(state=(k, -k), action=(k % 1000 if self.discrete else k + .25,), reward=(k * 37 % 64) / 8 - 3,
                 next_state=(k + .75, k), absorbing=last and c.flip('absorbing', .5), last=last,
                 ps=(k, k + .125, 1), pns=(k + .375, -k, 2), info=None)
        if self.info == 'flat':
            r['info'] = dict(a=k + .5, v=(k, 2 * k))
        elif self.info in ('nested', 'changing'):
            r['info'] = dict(a=k + .5, sub=dict(x=float(-k), y=(k, 0., k)))
            if self.info == 'changing' and c.flip('missing', .3):
                r['info'] = dict(a=k + .5)
            elif self.info == 'changing' and c.flip('extra', .2):
                r['info'][c.choice('extra-key', ['late', 'b'])] = k + 3.
        elif self.info == 'sparse':                 # most steps have nothing to tell
            r['info'] = dict()
            if c.flip('told', .15):
                r['info'] = dict(event=k + .5) if c.flip('short', .6) else dict(event=k + .5, at=(k, -k))
        return r

    def conv(self, x, dtype=float):
        if self.backend == 'torch':
            return torch.tensor(x, dtype=torch.float if dtype is float else torch.int64)
        return np.array(x, dtype=float if dtype is float else np.int64)

    def append(self, b, r):
        step = [self.conv(r['state']), self.conv(r['action'], int if self.discrete else float), r['reward'],
                self.conv(r['next_state']), r['absorbing'], r['last']]
        if self.stateful:
            step += [self.conv(r['ps']), self.conv(r['pns'])]

        def info(x):
            return {k: info(v) for k, v in x.items()} if isinstance(x, dict) else (self.conv(x) if isinstance(x, tuple) else x)

        b.d.append(step, info(r['info'] or {}))
        for i, x in enumerate(step):                # the caller goes on with its arrays
            if isinstance(x, (np.ndarray, torch.Tensor)):
                x[...] = -7
        b.rows.append(r)

    def new(self):
        cap = self.ctx.int('capacity', 1, 14)
        b = Book(Dataset(DatasetInfo.create_dataset_info(self.mdp_info, self.agent_info), n_steps=cap), list(), list(), cap)
        self.pool.append(b)
        return b

    def index(self, n):
        """A slice or an index array, and the list of the positions it means."""
        c = self.ctx
        kind = c.choice('index', ['slice', 'array', 'mask', 'prefix', 'stride', 'suffix'])
        if kind == 'slice':
            a = c.int('from', 0, n)
            z = c.int('to', a, n)
            ix = slice(a, z)
        elif kind == 'prefix':
            ix = slice(None, c.int('to', 0, n))
        elif kind == 'suffix':
            ix = slice(-c.int('suffix', 1, n) if n else 0, None)
        elif kind == 'stride':
            ix = slice(None, None, c.int('stride', 1, 3))
        elif kind == 'array':
            pos = [c.int('pos', 0, n - 1) for _ in range(c.int('m', 0, n))] if n else []
            return self.ints(pos), pos
        else:
            m = [c.flip('in', .5) for _ in range(n)]
            pos = [i for i in range(n) if m[i]]
            if self.backend == 'list':
                return self.ints(pos), pos
            return (torch.tensor(m, dtype=torch.bool) if self.backend == 'torch' else np.array(m, dtype=bool)), pos
        return ix, list(range(n))[ix]

    def ints(self, pos):
        if self.backend == 'torch' and self.ctx.flip('tensor', .5):
            return torch.tensor(pos, dtype=torch.long)
        return np.array(pos, dtype=int)


FIELDS = ('state', 'action', 'reward', 'next_state', 'absorbing', 'last')


def flat(info, prefix=''):
    out = dict()
    for k, v in (info or {}).items():
        if isinstance(v, dict):
            out.update(flat(v, prefix + k + '_'))
        else:
            out[prefix + k] = v
    return out


def verify(ctx, w, b, why):
    d, rows = b.d, b.rows
    n = len(rows)
    ctx.require(len(d) == n, 'length', lambda: f'{why}: {len(d)} transitions instead of {n}')
    # deliberately different ways to the same data
    to = ctx.choice('to', ['numpy', 'torch'])
    cols = {f: [r[f] for r in rows] for f in FIELDS}
    got = dict(zip(FIELDS, (getattr(d, f) for f in FIELDS)))
    for f in FIELDS:
        ctx.require(same(got[f], cols[f]), 'field', lambda: f'{why}: {f} is {num(got[f]).tolist()}, expected {cols[f]}')
    if n:
        for f, x in zip(FIELDS, d.parse(to=to)):
            ctx.require(isinstance(x, torch.Tensor if to == 'torch' else np.ndarray), 'parse-type', lambda: f'{why}: parse({to}) of {f}: {type(x)}')
            ctx.require(same(x, cols[f]), 'parse', lambda: f'{why}: parse({to}) {f} is {num(x).tolist()}, expected {cols[f]}')
    ctx.require(bool(d.is_stateful) == w.stateful, 'stateful', lambda: f'{why}: is_stateful is {d.is_stateful}')
    if w.stateful:
        ctx.require(same(d.policy_state, [r['ps'] for r in rows]) and same(d.policy_next_state, [r['pns'] for r in rows]), 'policy-state', lambda: f'{why}: policy states {num(d.policy_state).tolist()}')
        if n:
            p, q = d.parse_policy_state(to=to)
            ctx.require(same(p, [r['ps'] for r in rows]) and same(q, [r['pns'] for r in rows]), 'policy-state', lambda: f'{why}: parsed policy states')
    if b.whole:
        ctx.require(len(d.theta_list) == len(b.thetas) and all(same(x, y) for x, y in zip(d.theta_list, b.thetas)), 'theta', lambda: f'{why}: theta list {d.theta_list}, expected {b.thetas}')
    if n:
        i = ctx.int('at', -n, n - 1)
        step = d[i]
        for f, x in zip(FIELDS, step):
            ctx.require(same(x, rows[i][f]), 'index', lambda: f'{why}: [{i}] of {n} gives {f} {num(x).tolist()}, expected {rows[i][f]}')
        ctx.require(len([s for s in d]) == n, 'iteration', lambda: f'{why}: iteration')
    # statistics
    ends = [i for i in range(n) if rows[i]['last']]
    eps, a = list(), 0
    for e in ends:
        eps.append(rows[a:e + 1])
        a = e + 1
    tail = rows[a:]
    if n:
        ctx.require(int(d.n_episodes) == len(eps) + bool(tail), 'n-episodes', lambda: f'{why}: n_episodes {d.n_episodes} for ends {ends} of {n}')
    ctx.require(same(d.episodes_length, [len(e) for e in eps]), 'episodes-length', lambda: f'{why}: {d.episodes_length} for ends {ends}')
    g = ctx.choice('gamma', [1., .5, 0.])

    def J(e, g):
        return sum(g ** i * r['reward'] for i, r in enumerate(e))

    alle = eps + ([tail] if tail else [])
    want = [J(e, g) for e in alle] or [0.]
    ctx.require(same(d.compute_J(g), want, 1e-5), 'J', lambda: f'{why}: J({g}) is {num(d.compute_J(g)).tolist()}, expected {want}')
    ctx.require(same(d.undiscounted_return, [J(e, 1.) for e in alle] or [0.], 1e-5) and same(d.discounted_return, [J(e, GAMMA) for e in alle] or [0.], 1e-5), 'return', lambda: f'{why}: returns')
    if w.backend != 'list':
        m = [float(x) for x in d.compute_metrics(g)]
        js = [J(e, g) for e in eps]
        med = [np.median(js), sorted(js)[(len(js) - 1) // 2]] if js else [0]
        exp = [min(js), max(js), np.mean(js), m[3], len(js)] if js else [0] * 5
        ctx.require(same(m, exp, 1e-5) and any(abs(m[3] - x) < 1e-4 for x in med), 'metrics', lambda: f'{why}: metrics {m}, expected {exp}, ends {ends} of {n}')
    if n:
        x0 = [e[0]['state'] for e in alle]
        ctx.require(same(d.get_init_states(), x0), 'init-states', lambda: f'{why}: {num(d.get_init_states()).tolist()}, expected {x0}')
    verify_info(ctx, w, d, rows, why)


def verify_info(ctx, w, d, rows, why):
    if w.info == 'none':
        return
    if ctx.flip('parse', .4):
        to = ctx.choice('info-to', [None, 'numpy', 'torch'])
        d.info.parse(to)
        fl = [flat(r['info']) for r in rows]
        keys = sorted(set(k for f in fl for k in f))
        shapes = {k: np.shape(next(f[k] for f in fl if k in f)) for k in keys}
        for k in keys:
            want = [f[k] if k in f else np.full(shapes[k], np.nan) for f in fl]
            ctx.require(k in d.info, 'info', lambda: f'{why}: info {k} is missing, expected {want}')
            ctx.require(same(d.info[k], want), 'info', lambda: f'{why}: info {k} is {num(d.info[k]).tolist()}, expected {want}')


def restart(ctx, w, disk, b):
    """The dataset is saved, perhaps with a fault; the process goes on with what the file holds."""
    path = os.path.join(disk.root, f'{b.name}.msh')
    new = (list(b.rows), list(b.thetas))
    disk.fired = False
    kind = plan_fault(ctx, disk, 12) if ctx.flip('faulty', .3) else None
    out = attempt(ctx, disk, lambda: b.d.save(path, full_save=True))
    ctx.ev('save', kind, out)
    if out == 'crashed':
        w.pool[:] = [b]
    if not os.path.exists(path):
        ctx.require(out != 'ok', 'lost', 'the save reported success and left no file')
        if out == 'crashed':
            w.pool.clear()
            w.new()
        return
    if out == 'failed':
        if b.saved is not None or os.path.exists(path):
            check_file(ctx, w, b, path, [b.saved, new])
        return
    ctx.fault('restart')
    b.rows, b.thetas = check_file(ctx, w, b, path, [new] if out == 'ok' else [new, b.saved])
    b.saved = (list(b.rows), list(b.thetas))
    b.d = Dataset.load(path)


def check_file(ctx, w, b, path, allowed):
    d = Dataset.load(path)
    for a in allowed:
        if a is not None and len(a[0]) == len(d) and same(d.state, [r['state'] for r in a[0]]) and \
                same(d.last, [r['last'] for r in a[0]]) and (not b.whole or len(d.theta_list) == len(a[1])):
            return list(a[0]), list(a[1])
    ctx.fail('restored', f'loaded {len(d)} transitions {num(d.state).tolist()}, saved {[[r["state"] for r in a[0]] for a in allowed if a]}')


def history(ctx):
    w = World(ctx)
    Book.count = 0
    disk = SimDisk(ctx)
    with disk.installed():
        w.new()
        for _ in range(ctx.int('ops', 2, 14)):
            op = ctx.choice('op', ['append', 'append', 'append', 'view', 'add', 'copy', 'clear', 'restart', 'first', 'random', 'array', 'new', 'theta'],)
            b = ctx.choice('which', w.pool)
            n = len(b.rows)
            if op == 'append':
                for _ in range(ctx.int('n', 1, 6)):
                    if len(b.rows) < b.cap:
                        w.append(b, w.row())
            elif op == 'theta' and w.thetas and b.whole:
                t = w.conv((float(w.k), 1.))
                b.d.append_theta(t)
                b.thetas.append(np.array(num(t)))
            elif op == 'view':
                ix, pos = w.index(n)
                w.pool.append(Book(b.d[ix], [b.rows[i] for i in pos], [], len(pos), False))
            elif op == 'copy':
                ix, pos = w.index(n)
                if len(pos) <= b.cap:
                    w.pool.append(Book(b.d.get_view(ix, copy=True), [b.rows[i] for i in pos], [], b.cap, False))
            elif op == 'add':
                o = ctx.choice('other', w.pool)
                rows = [dict(r) for r in b.rows] + o.rows
                if b.rows:
                    rows[n - 1]['last'] = True
                w.pool.append(Book(b.d + o.d, rows, b.thetas + o.thetas, len(rows), b.whole and o.whole))
            elif op == 'clear':
                b.d.clear()
                b.rows, b.thetas = list(), list()
            elif op == 'restart':
                restart(ctx, w, disk, b)
            elif op == 'first':
                k = sum(r['last'] for r in b.rows)
                if k:
                    m = ctx.int('episodes', 1, k)
                    end = [i for i in range(n) if b.rows[i]['last']][m - 1] + 1
                    w.pool.append(Book(b.d.select_first_episodes(m), b.rows[:end], [], end, False))
            elif op == 'random' and n:
                m = ctx.int('samples', 1, 4)
                d = b.d.select_random_samples(m)
                ctx.require(len(d) == m, 'length', f'{len(d)} random samples instead of {m}')
                by = {(r['state'][0], bool(r['last'])): r for r in b.rows}
                rows = [by.get((int(num(s)[0]), bool(t))) for s, t in zip(d.state, d.last)]
                ctx.require(None not in rows, 'random', f'random samples {num(d.state).tolist()} are not in the dataset')
                w.pool.append(Book(d, rows, [], m, False))
            elif op == 'array' and n:
                args = [x.clone() if isinstance(x, torch.Tensor) else np.array(x) for x in b.d.parse(to='numpy')]
                if w.stateful:
                    args += [np.array(x) for x in b.d.parse_policy_state(to='numpy')]
                d = Dataset.from_array(*args, info=b.d.info if w.info != 'none' else None, gamma=GAMMA, backend=w.backend)
                w.pool.append(Book(d, list(b.rows), [], n))
            elif op == 'new':
                w.new()
            else:
                continue
            ctx.ev(op, n)
            ctx.state(w.backend, op, len(w.pool), n)
            w.pool = w.pool[-5:]
            for i, x in enumerate(w.pool):
                verify(ctx, w, x, f'dataset {i} of {len(w.pool)} ({w.backend}) after {op}')


def vectorized(ctx):
    """Parallel steps of several environments, flattened and consumed in pieces."""
    w = World(ctx)
    while w.backend == 'list':
        w.backend = ctx.choice('array-backend', ['numpy', 'torch'])
    w.spaces()
    w.info_list = ctx.flip('info-list', .3)
    n = ctx.int('envs', 2, 4)
    cap = ctx.int('capacity', 2, 12)
    vd = VectorizedDataset(DatasetInfo.create_dataset_info(w.mdp_info, w.agent_info, n_envs=n), n_steps=cap)
    stairs = ctx.flip('stairs', .4)             # environments stop one after another, as with a budget of episodes
    alive = [True] * n
    steps, thetas = list(), [list() for _ in range(n)]
    disk = SimDisk(ctx)
    with disk.installed():
        for _ in range(ctx.int('ops', 2, 12)):
            op = ctx.choice('op', ['append', 'append', 'append', 'theta', 'flatten', 'flatten-part', 'consume', 'clear', 'restart'])
            if op == 'append':
                for _ in range(ctx.int('n', 1, 4)):
                    if len(steps) >= cap:
                        break
                    if stairs:
                        alive = [a and not ctx.flip('stop', .1) for a in alive]
                        mask = list(alive)
                    else:
                        mask = [ctx.flip('active', .8) for _ in range(n)]
                    rows = [w.row() for _ in range(n)]
                    append_vectorized(w, vd, rows, mask)
                    steps.append((rows, mask))
            elif op == 'theta' and w.thetas:
                m = [ctx.flip('active', .5) for _ in range(n)]
                t = [(float(w.k), float(i)) for i in range(n)]
                vd.append_theta_vectorized(w.conv(t), np.array(m))
                for i in range(n):
                    if m[i]:
                        thetas[i].append(t[i])
            elif op in ('flatten', 'flatten-part', 'consume'):
                k = None if op == 'flatten' else ctx.int('k', 1, max(1, sum(sum(m) for _, m in steps)))
                used = list()
                for t, (_, m) in enumerate(steps):
                    used += [(t, e) for e in range(n) if m[e]]
                used = set(used[:k])
                out = vd.flatten(k)
                if not steps:
                    ctx.require(out is None or len(out) == 0, 'flatten-empty', f'{out} from an empty dataset')
                else:
                    rows = list()
                    for e in range(n):
                        for t in range(len(steps)):
                            if (t, e) in used:
                                r = dict(steps[t][0][e])
                                r['last'] = r['last'] or (t + 1, e) not in used
                                rows.append(r)
                    if rows:
                        verify(ctx, w, Book(out, rows, [x for e in range(n) for x in thetas[e]], len(rows)),
                               f'flatten({k}) of {n} environments ({w.backend})')
                if op == 'consume':
                    vd.clear(k)
                    steps = [(r, [m[e] and (t, e) not in used for e in range(n)]) for t, (r, m) in enumerate(steps)]
                    while steps and not any(steps[0][1]):
                        steps.pop(0)
                    thetas = [list() for _ in range(n)]
            elif op == 'clear':
                vd.clear()
                steps, thetas = list(), [list() for _ in range(n)]
            elif op == 'restart':
                path = os.path.join(disk.root, 'vd.msh')
                vd.save(path, full_save=True)
                vd = VectorizedDataset.load(path)
            ctx.ev(op, len(steps))
            ctx.state('vec', w.backend, n, op, len(steps))
            ctx.require(len(vd) == len(steps), 'length', lambda: f'{len(vd)} parallel steps instead of {len(steps)} after {op}')
            if steps:
                ctx.require(same(vd.mask, [m for _, m in steps]), 'mask', lambda: f'mask {num(vd.mask).tolist()}, expected {[m for _, m in steps]} after {op}')
                for t, (rows, m) in enumerate(steps):
                    for e in range(n):
                        if m[e]:
                            ctx.require(same(vd.state[t][e], rows[e]['state']) and same(vd.reward[t][e], rows[e]['reward']), 'field', lambda: f'step {t} of environment {e} is {vd.state[t][e]} after {op}')


def append_vectorized(w, vd, rows, mask):
    def col(f, dtype=float):
        return w.conv([r[f] for r in rows], dtype)

    flags = (lambda x: torch.tensor(x, dtype=torch.bool)) if w.backend == 'torch' else (lambda x: np.array(x, dtype=bool))
    step = [col('state'), col('action', int if w.discrete else float), col('reward'), col('next_state'),
            flags([r['absorbing'] for r in rows]), flags([r['last'] for r in rows])]
    if w.stateful:
        step += [col('ps'), col('pns')]

    def info(xs):
        return {k: info([x[k] for x in xs]) if isinstance(xs[0][k], dict) else w.conv([x[k] for x in xs]) for k in xs[0]}

    def single(x):
        return {k: single(v) for k, v in x.items()} if isinstance(x, dict) else (w.conv(x) if isinstance(x, tuple) else x)

    one_by_one = w.info in ('changing', 'sparse') or w.info_list
    infos = [r['info'] or {} for r in rows]
    vd.append_vectorized(step, [single(x) for x in infos] if one_by_one else info(infos), flags(mask))
    for x in step:
        x[...] = 1


CHECK = Check(
    'P12', dict(history=history, vectorized=vectorized), quick=dict(history=16000, vectorized=8000),
    thorough=dict(history=300000, vectorized=150000),
    rule='One case = 2-14 operations (append, view, copy, join, clear, save with disk faults, crash, restart, select, convert) '
         'on up to five live datasets, or appends, flattenings and partial clears of a vectorized dataset; all of them are '
         'compared with plain lists after every operation. '
         'Distinct = different event-log digest.',
    real=['Dataset, NumpyDataset, TorchDataset, ListDataset', 'ExtraInfo', 'ArrayBackend', 'Serializable.save/load'],
    stub=['file system calls below the scratch directory (simulated disk)', 'process restart'],
    assumptions=['list datasets carry no extra information',
                 'appends stay within the capacity', 'data shared by a view and its dataset is not overwritten'])
