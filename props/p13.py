"""P13: schedules and running statistics follow their law after any history of uses, resets, saves, crashes and restarts."""
import os

import numpy as np
import torch

from mushroom_rl.core import MDPInfo, Serializable
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter, to_parameter
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.rl_utils.variance_parameters import (VarianceDecreasingParameter, VarianceIncreasingParameter,
                                                      WindowedVarianceIncreasingParameter)

from dst.runner import Check
from dst.simdisk import SimDisk, plan_fault
from props.p05 import attempt


def val(x):
    x = x.detach().numpy() if isinstance(x, torch.Tensor) else x
    return np.asarray(x, dtype=float)


def close(a, b, tol=1e-6):
    a, b = val(a), val(b)
    return a.size == b.size and np.allclose(a.ravel(), b.ravel(), rtol=tol, atol=tol, equal_nan=True)


# ------------------------------------------------------------------------------------------------ parameters
def clip(x, lo, hi):
    x = x if lo is None else max(x, lo)
    return x if hi is None else min(x, hi)


def half_life(increasing, exponential, sigma, tol):
    d = .5 ** (sigma / tol) if exponential else tol / (sigma + tol)
    return 1. - d if increasing else d


def adaptive(v0, lo, history, increasing, exponential, tol, window=None):
    """Value after the given targets, computed from the full list of targets."""
    w, p = 0., 0.
    for n, (x, factor) in enumerate(history):
        past = np.array([h[0] for h in history[:n]])
        if n < 2:
            p = v0
        elif window is None:
            p = half_life(increasing, exponential, past.var(ddof=1) * w, tol)
        else:
            p = half_life(increasing, exponential, past[-window:].var() * w, tol)
        w = (1. - factor * p) ** 2 * w + (factor * p) ** 2
    return clip(p, lo, None)


def parameters(ctx):
    """One schedule of a random class and shape, against its closed form."""
    def make():
        size = ctx.choice('size', [(1,), (1,), (4,), (3, 2), (2, 2, 2)])
        v0 = ctx.choice('value', [1., .5, .1, 2., 0., 1])
        kind = ctx.choice('class', ['const', 'linear', 'linear', 'decay', 'decay', 'varinc', 'vardec', 'winvar'])
        lo = ctx.choice('min', [None, None, .05, .3])
        hi = ctx.choice('max', [None, None, .4, .9])
        if lo is not None and hi is not None and lo > hi:
            hi = None
        if kind == 'const':
            p = Parameter(v0, min_value=lo, max_value=hi, size=size)
            law = lambda h: clip(v0, lo, hi)
        elif kind == 'linear':
            th, n = ctx.choice('threshold', [0., .1, 1., 1.5, .5]), ctx.choice('n', [1, 2, 5, 10, 37])
            p = LinearParameter(v0, threshold_value=th, n=n, size=size)
            law = lambda h: v0 + (th - v0) * min(len(h) / n, 1.)
        elif kind == 'decay':
            e = ctx.choice('exp', [1., .5, .8, 2.])
            p = DecayParameter(v0, exp=e, min_value=lo, max_value=hi, size=size)
            law = lambda h: clip(v0 / max(len(h), 1) ** e, lo, hi)
        else:
            ex, tol = ctx.flip('exponential'), ctx.choice('tol', [1., .5, 10.])
            if kind == 'winvar':
                win = ctx.choice('window', [1, 2, 3, 5, 100])
                p = WindowedVarianceIncreasingParameter(v0, exponential=ex, min_value=lo, tol=tol, window=win, size=size)
                law = lambda h: adaptive(v0, lo, h, True, ex, tol, win)
            else:
                inc = kind == 'varinc'
                p = (VarianceIncreasingParameter if inc else VarianceDecreasingParameter)(
                    v0, exponential=ex, min_value=lo, tol=tol, size=size)
                law = lambda h: adaptive(v0, lo, h, inc, ex, tol)
        ctx.require(p.initial_value == v0 and tuple(p.shape) == size, 'law',
                    lambda: f'{kind}: built with value {v0} and size {size}, has {p.initial_value} and {p.shape}')
        ctx.require(to_parameter(p) is p, 'law', 'to_parameter replaces a parameter')
        return [p, kind, size, law, {}]

    objs = [make() for _ in range(ctx.int('instances', 1, 2))]

    def where(size):
        return tuple(ctx.pick('index', s) for s in size)

    def spell(idx):
        return tuple(np.array([i]) if ctx.flip('as-array', .5) else i for i in idx)

    def look(o, hist, idx):
        p, kind, size, law, _ = o
        if kind in ('varinc', 'vardec', 'winvar') and idx not in hist:
            return True
        return close(p.get_value(*(spell(idx) if max(size) > 1 or ctx.flip('spell', .5) else ())), law(hist.get(idx, [])))

    def matches(o, hist):
        return all(look(o, hist, idx) for idx in np.ndindex(*o[2]))

    disk = SimDisk(ctx)
    saved = [None] * len(objs)
    with disk.installed():
        for step in range(ctx.int('ops', 3, 30)):
            k = ctx.pick('object', len(objs))
            o = objs[k]
            p, kind, size, law, hist = o
            idx = where(size)
            op = ctx.pick('op', 10, weights=[8, 3, 3, 1, 1, 1, 0, 0, 0, 0])
            kw = dict(target=float(ctx.pick('target', 9) - 4) / 2, factor=ctx.choice('factor', [1., .5, .99]))
            if op <= 1:
                if kind not in ('varinc', 'vardec', 'winvar') and ctx.flip('plain', .7):
                    kw = {}
                new = hist.get(idx, []) + [(kw.get('target'), kw.get('factor', 1.))]
                args = spell(idx)
                if op == 0:
                    got = p(*args, **kw)
                    ctx.require(close(got, law(new)), 'law',
                                lambda: f'{kind} {size}: use {len(new)} at {idx} gives {val(got)}, the law gives {law(new)}')
                else:
                    p.update(*args, **kw)
                hist[idx] = new
                ctx.ev('use', k, op, idx)
            elif op == 2:
                ctx.require(look(o, hist, idx), 'law', lambda: f'{kind} {size}: value at {idx} after {hist.get(idx)} uses is '
                            f'{val(p.get_value(*idx))}, the law gives {law(hist.get(idx, []))}')
            elif op == 3:
                saved[k] = checkpoint(ctx, disk, o, saved[k], matches, k)
            elif op == 4 and saved[k]:
                restart(ctx, disk, o, saved[k], matches, k)
            ctx.sim_steps += 1
            for q in objs:
                ctx.require(matches(q, q[4]), 'law', lambda: f'{q[1]} {q[2]}: after step {step} the values are not those of '
                            f'the history {q[4]}')
        ctx.state(*[(o[1], o[2], min(sum(map(len, o[4].values())), 9)) for o in objs])


class Holder(Serializable):
    """Stamps each saved version, so that the one found after a crash is known."""
    def __init__(self, obj, version):
        self.obj, self.version = obj, version
        self._add_save_attr(obj='mushroom', version='primitive')


def freeze(h):
    return {i: list(v) for i, v in h.items()} if isinstance(h, dict) else list(h)


def checkpoint(ctx, disk, o, saved, matches, k):
    """Save with a possible disk fault; returns the histories by version the file may stand for afterwards."""
    path = os.path.join(disk.root, f'o{k}.msh')
    saved = dict(saved or {})
    version = max(saved, default=0) + 1
    saved[version] = freeze(o[4])
    disk.fired = False
    kind = plan_fault(ctx, disk, 16) if ctx.flip('faulty', .4) else None
    out = attempt(ctx, disk, lambda: Holder(o[0], version).save(path))
    ctx.ev('save', k, kind, out)
    if not os.path.exists(path):
        return None
    if out == 'crashed':
        restart(ctx, disk, o, saved, matches, k)
    return saved


def restart(ctx, disk, o, saved, matches, k):
    """The process dies; only the file survives."""
    held = Holder.load(os.path.join(disk.root, f'o{k}.msh'))
    o[0], o[4] = held.obj, freeze(saved[held.version])
    ctx.fault('restart')
    ctx.ev('restart', k, held.version)
    ctx.require(matches(o, o[4]), 'lost-history', lambda: f'{o[1]} {o[2]}: the loaded object does not follow the history '
                f'{o[4]} it was saved with')


# ------------------------------------------------------------------------------------------------ statistics
def welford(seq, shape):
    """Mean and standard deviation of an initial pseudo-sample of mean 0 and variance 1 and all values since."""
    data = np.concatenate([np.zeros((1,) + shape)] + [np.reshape(v, (1,) + shape) for v in seq])
    return data.mean(0), np.sqrt(data.var(0) + 1. / len(data))


def statistics(ctx):
    """Running statistics and preprocessors, against the statistics of the recorded values."""
    torched = ctx.flip('torch', .4)
    backend = 'torch' if torched else 'numpy'
    tol = 2e-3 if torched else 1e-7
    dim = ctx.int('dim', 1, 3)
    shape = (dim,)
    kind = ctx.choice('class', ['standard', 'ewa', 'window', 'standard-pre', 'minmax-pre', 'minmax-pre'])

    def arr(x):
        return torch.tensor(np.array(x), dtype=torch.float32) if torched else np.array(x, dtype=float)

    gen = ctx.np_sub('values')
    low = high = None
    if kind == 'standard':
        make = lambda: RunningStandardization(shape, backend)
    elif kind == 'ewa':
        a = ctx.choice('alpha', [.1, .5, .9])
        make = lambda: RunningExpWeightedAverage(shape, a, backend)
    elif kind == 'window':
        w = ctx.choice('window', [1, 2, 3, 7, 50])
        make = lambda: RunningAveragedWindow(shape, w, backend)
    else:
        low, high = np.full(dim, -3.), np.full(dim, 5.)
        if kind == 'minmax-pre':
            free = [ctx.flip('unbounded', .4) for _ in range(dim)]
            if all(free):
                free[ctx.pick('bounded', dim)] = False
            low[free], high[free] = -np.inf, np.inf
        info = MDPInfo(Box(low, high), Discrete(2), .9, 10)
        c = ctx.choice('clip', [10., 1.])
        make = lambda: (StandardizationPreprocessor if kind == 'standard-pre' else MinMaxPreprocessor)(info, backend, clip_obs=c)

    def expected(hist):
        """Everything the public interface shows."""
        start, seq = hist[0], hist[1:]
        if kind == 'standard':
            return welford(seq, shape)
        if kind == 'ewa':
            m = np.zeros(dim) if start is None else start
            for v in seq:
                m = (1 - a) * m + a * v
            return m,
        if kind == 'window':
            return np.mean(([np.zeros(dim) if start is None else start] + list(seq))[-w:], axis=0),
        m, s = welford(seq, shape)
        out = list()
        for x in samples:
            y = np.clip((x - m) / s, -c, c)
            if kind == 'minmax-pre':
                b = np.isfinite(low)
                y[b] = ((x - (low + high) / 2) / ((high - low) / 2))[b]
            out.append(y)
        return tuple(out)

    def shown(obj):
        if kind == 'standard':
            return obj.mean, obj.std
        if kind in ('ewa', 'window'):
            return obj.mean,
        return tuple(obj(arr(x)) for x in samples)

    samples = [gen.uniform(-4, 6, dim) for _ in range(2)]

    def matches(o, hist):
        return all(close(a, b, tol) for a, b in zip(shown(o[0]), expected(hist)))

    o = [make(), kind, shape, None, [None]]
    disk, saved = SimDisk(ctx), None
    with disk.installed():
        for step in range(ctx.int('ops', 2, 20)):
            op = ctx.pick('op', 4, weights=[10, 1, 2, 1])
            if op == 0:
                x = gen.uniform(-4, 6, dim)
                if kind.endswith('-pre'):
                    o[0].update(arr(x))
                    o[4].append(x)
                elif kind != 'standard' and ctx.flip('batch', .3):
                    xs = gen.uniform(-4, 6, (ctx.int('batch-size', 1, 4), dim))
                    o[0].update_stats(arr(xs))
                    o[4] += list(xs)
                else:
                    o[0].update_stats(arr(x))
                    o[4].append(x)
            elif op == 1 and not kind.endswith('-pre'):
                init = None if kind == 'standard' or ctx.flip('init', .5) else gen.uniform(-4, 6, dim)
                o[0].reset(*([] if init is None else [arr(init)]))
                o[4] = [init]
                ctx.fault('reset')
            elif op == 2:
                saved = checkpoint(ctx, disk, o, saved, matches, 0)
            elif op == 3 and saved:
                restart(ctx, disk, o, saved, matches, 0)
            ctx.sim_steps += 1
            ctx.ev('op', op)
            ctx.require(matches(o, o[4]), 'law', lambda: f'{kind} {backend} {shape}: after {len(o[4]) - 1} values shows '
                        f'{[val(x) for x in shown(o[0])]}, expected {expected(o[4])}')
            ctx.require(all(isinstance(x, torch.Tensor) == torched for x in shown(o[0])), 'backend',
                        lambda: f'{kind} {backend}: shows {[type(x).__name__ for x in shown(o[0])]}')
            for s in shown(o[0]):
                ctx.require(val(s).size == dim, 'shape', lambda: f'{kind} {backend}: shape {val(s).shape} for values of {shape}')
        ctx.state(kind, backend, dim, min(len(o[4]), 8))


CHECK = Check(
    'P13', dict(parameters=parameters, statistics=statistics), quick=dict(parameters=6000, statistics=6000),
    thorough=dict(parameters=120000, statistics=120000),
    rule='One case = a history of 3-30 uses, updates, reads, resets, saves with disk faults, crashes and restarts of one or '
         'two schedules or statistics, compared after every operation with the closed form over the recorded history. '
         'Distinct = different event-log digest.',
    real=['Parameter classes', 'running statistics', 'preprocessors', 'Serializable.save/load', 'Table'],
    stub=['file system calls below the scratch directory (simulated disk)', 'process restart'],
    assumptions=['batches are not given to RunningStandardization (documented for single values)'])
