"""Structural fingerprints of object graphs: path -> leaf, for comparing two objects without naming their attributes."""
import collections
import enum
import hashlib
import types

import numpy as np
import torch


def _arr(a):
    a = np.ascontiguousarray(a)
    if a.dtype == object:
        return ('objarr', a.shape, repr(a.tolist())[:200])
    return ('arr', str(a.dtype), a.shape, hashlib.sha256(a.tobytes()).hexdigest()[:16],
            tuple(x if x == x else "nan" for x in a.ravel()[:4].tolist()))


def describe(obj, skip=(), max_nodes=20000):
    """skip: predicate names (attribute names) that are not compared."""
    out = {}
    seen = {}

    def walk(x, path):
        if len(out) > max_nodes:
            return
        if x is None or isinstance(x, (bool, int, str, bytes)):
            out[path] = x if not isinstance(x, bool) else ('bool', x)
            return
        if isinstance(x, float):
            out[path] = ('f', x.hex() if x == x else 'nan')
            return
        if isinstance(x, enum.Enum):
            out[path] = ('enum', x.name)
            return
        if isinstance(x, np.generic):
            return walk(x.item(), path)
        if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType)):
            out[path] = ('ref', getattr(x, '__qualname__', str(x)))
            return
        if isinstance(x, types.MethodType):
            out[path] = ('method', x.__func__.__qualname__)
            return
        if isinstance(x, tuple):
            out[path] = ('tuple', len(x))
            for i, v in enumerate(x):
                walk(v, f'{path}[{i}]')
            return
        if id(x) in seen:
            out[path] = ('seen', seen[id(x)])
            return
        seen[id(x)] = path
        keep.append(x)
        if isinstance(x, np.ndarray):
            out[path] = _arr(x)
            return
        if isinstance(x, torch.Tensor):
            out[path] = ('torch', bool(x.requires_grad)) + _arr(x.detach().cpu().numpy())
            return
        if isinstance(x, (np.random.RandomState, np.random.Generator, torch.Generator)):
            out[path] = ('rng',)
            return
        if isinstance(x, torch.optim.Optimizer):
            out[path] = ('optimizer', type(x).__name__)
            return walk(x.state_dict(), path + '/state_dict')
        if isinstance(x, torch.nn.Module):
            out[path] = ('module', type(x).__name__, bool(x.training))
            for n, p in x.state_dict(keep_vars=True).items():
                walk(p, f'{path}/{n}')
            return
        if isinstance(x, dict):
            out[path] = ('dict', len(x))
            for k in sorted(x, key=lambda k: str(k)):
                walk(x[k], f'{path}[{k!r}]')
            return
        if isinstance(x, (list, tuple, collections.deque)):
            out[path] = (type(x).__name__ if not isinstance(x, tuple) else 'tuple', len(x))
            for i, v in enumerate(x):
                walk(v, f'{path}[{i}]')
            return
        if isinstance(x, (set, frozenset)):
            out[path] = ('set', tuple(sorted(map(str, x))))
            return
        out[path] = ('obj', type(x).__name__)
        d = getattr(x, '__dict__', None)
        if isinstance(d, dict):
            for k in sorted(d):
                if k not in skip and k != '_save_attributes':
                    walk(d[k], f'{path}.{k}')

    keep = list()
    walk(obj, '')
    return out


def diff(a, b, limit=6):
    """Human readable differences of two descriptions, [] when equal."""
    out = list()
    for k in sorted(set(a) | set(b)):
        if a.get(k, '<absent>') != b.get(k, '<absent>'):
            out.append(f'{k or "/"}: {str(a.get(k, "<absent>"))[:120]} != {str(b.get(k, "<absent>"))[:120]}')
            if len(out) >= limit:
                break
    return out


def digest(d):
    return hashlib.sha256(repr(sorted(d.items())).encode()).hexdigest()[:16]


def close(a, b, **kw):
    """np.allclose, where things of different shapes are not close."""
    try:
        return bool(np.allclose(a, b, **kw))
    except (ValueError, TypeError):
        return False
