"""Per-run world: seeded global RNGs, poisoned allocator, quiet warnings."""
import contextlib
import random
import warnings

import numpy as np
import torch

_real = dict(np_empty=np.empty, np_empty_like=np.empty_like, t_empty=torch.empty, t_empty_like=torch.empty_like)


class _Poison:
    """np.empty / torch.empty hand out memory with arbitrary content; here that content is seeded garbage."""

    def __init__(self, rng):
        self._rng = rng

    def _np(self, a):
        try:
            if a.dtype == object or a.size == 0:
                return a
            k = a.dtype.kind
            if k == 'f':
                a.fill(self._rng.choice((1e30, -3.25e17, 7.5, -1.0)))
            elif k in 'iu':
                a.fill(self._rng.choice((3, 77, 1)))
            elif k == 'b':
                a.fill(self._rng.random() < 0.5)
        except Exception:
            pass
        return a

    def np_empty(self, *a, **k):
        return self._np(_real['np_empty'](*a, **k))

    def np_empty_like(self, *a, **k):
        return self._np(_real['np_empty_like'](*a, **k))

    def _t(self, t):
        try:
            if t.numel() and not t.requires_grad:
                if t.is_floating_point():
                    t.fill_(self._rng.choice((1e30, -3.25e17, 7.5, -1.0)))
                elif t.dtype == torch.bool:
                    t.fill_(self._rng.random() < 0.5)
                else:
                    t.fill_(self._rng.choice((3, 77, 1)))
        except Exception:
            pass
        return t

    def t_empty(self, *a, **k):
        return self._t(_real['t_empty'](*a, **k))

    def t_empty_like(self, *a, **k):
        return self._t(_real['t_empty_like'](*a, **k))


def seed_all(s):
    random.seed(s)
    np.random.seed(s % (2 ** 32))
    torch.manual_seed(s)


@contextlib.contextmanager
def poison(seed):
    p = _Poison(random.Random(seed))
    saved = (np.empty, np.empty_like, torch.empty, torch.empty_like)
    np.empty, np.empty_like, torch.empty, torch.empty_like = p.np_empty, p.np_empty_like, p.t_empty, p.t_empty_like
    try:
        yield p
    finally:
        np.empty, np.empty_like, torch.empty, torch.empty_like = saved


_classes = dict()           # class -> its attributes when the process started


def _all_classes():
    import sys
    for mname, mod in sorted(sys.modules.items()):
        if mod is not None and (mname == 'mushroom_rl' or mname.startswith('mushroom_rl.')):
            for v in list(vars(mod).values()):
                if isinstance(v, type) and str(getattr(v, '__module__', '')).startswith('mushroom_rl'):
                    yield v


def new_process():
    """What the old process wrote into the classes of the library is gone, as in a new interpreter."""
    for c in list(_all_classes()):
        if c not in _classes:
            _classes[c] = {k: v for k, v in vars(c).items() if not k.startswith('__') and not k.startswith('_abc')}
            continue
        was = _classes[c]
        for k in [k for k in vars(c) if k not in was and not k.startswith('__') and not k.startswith('_abc')]:
            delattr(c, k)
        for k, v in was.items():
            if vars(c).get(k, was) is not v:
                setattr(c, k, v)


@contextlib.contextmanager
def fresh(ctx):
    s = ctx.pick('world-seed', 1 << 30)
    new_process()
    seed_all(s)
    st = torch.get_default_dtype()
    with warnings.catch_warnings(), poison(s):
        warnings.simplefilter('ignore')
        np_err = np.seterr(all='ignore')
        try:
            yield
        finally:
            np.seterr(**np_err)
            torch.set_default_dtype(st)


@contextlib.contextmanager
def patched(pairs):
    """pairs: list of (object, attribute, replacement)."""
    saved = list()
    try:
        for obj, att, new in pairs:
            saved.append((obj, att, getattr(obj, att)))
            setattr(obj, att, new)
        yield
    finally:
        for obj, att, old in reversed(saved):
            setattr(obj, att, old)


def sut_refs(original):
    """All (module, name) pairs inside mushroom_rl that hold exactly this object."""
    import sys
    out = list()
    for mname, mod in sorted(sys.modules.items()):
        if mod is None or not (mname == 'mushroom_rl' or mname.startswith('mushroom_rl.')):
            continue
        for att, val in list(vars(mod).items()):
            if val is original:
                out.append((mod, att))
    return out
