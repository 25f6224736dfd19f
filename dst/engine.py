"""Choice engine: one integer seed (or one recorded trace) decides a whole simulated run."""
import hashlib
import random

import numpy as np


class Violation(Exception):
    """The property under check does not hold on this simulated execution."""
    def __init__(self, kind, msg):
        super().__init__(f'[{kind}] {msg}')
        self.kind = kind
        self.msg = msg


class SimHang(BaseException):
    """Raised out of a seam when a run exceeded its step budget (liveness)."""


class SimFault(Exception):
    """An injected application-level error (environment, agent or callback failure)."""


class SimInterrupt(KeyboardInterrupt):
    """An injected Ctrl-C."""


def derive_seed(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def canon(x):
    """Canonical, process independent description of a value, for event logs."""
    try:
        import torch
        if isinstance(x, torch.Tensor):
            x = x.detach().cpu().numpy()
    except ImportError:
        pass
    if isinstance(x, np.ndarray):
        if x.size <= 8:
            return ('a', x.shape, tuple(canon(v) for v in np.asarray(x, dtype=float).ravel().round(9).tolist())) \
                if x.dtype != object else ('o', x.shape)
        return ('A', x.shape, hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:12])
    if isinstance(x, (np.generic,)):
        return canon(x.item())
    if isinstance(x, float) and x != x:
        return 'nan'
    if isinstance(x, (list, tuple)):
        return tuple(canon(i) for i in x)
    if isinstance(x, dict):
        return tuple((str(k), canon(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, (int, float, str, bool, bytes)) or x is None:
        return x
    return type(x).__name__


class Ctx:
    """Everything a simulated run may draw on: choices, event log, fault and probe counters."""

    def __init__(self, seed=None, trace=None, tier='quick'):
        self.seed = seed
        self.tier = tier
        self._rng = random.Random(seed if seed is not None else 0)
        self._trace_in = trace
        self._pos = 0
        self.trace = list()
        self.labels = list()
        self.faults = dict()
        self.probes = dict()
        self.sim_steps = 0
        self.budget = 200000
        self._h = hashlib.sha256()
        self.n_events = 0
        self.tail = list()
        self.keep_events = False
        self.events = list()
        self.states = set()
        self.sched = hashlib.sha256()

    # ---- choices
    def pick(self, label, n, weights=None):
        """An integer in [0, n).  0 must always be the most benign alternative."""
        assert n >= 1
        if self._trace_in is not None:
            v = self._trace_in[self._pos] if self._pos < len(self._trace_in) else 0
            v = max(0, min(int(v), n - 1))
        elif n == 1:
            v = 0
        elif weights is not None:
            v = self._rng.choices(range(n), weights=weights)[0]
        else:
            v = self._rng.randrange(n)
        self._pos += 1
        self.trace.append(v)
        self.labels.append(label)
        return v

    def flip(self, label, p=0.5):
        if p <= 0:
            return False
        return bool(self.pick(label, 2, (1 - p, p)))

    def int(self, label, lo, hi):
        return lo + self.pick(label, hi - lo + 1)

    def choice(self, label, seq):
        return seq[self.pick(label, len(seq))]

    def sub(self, label):
        """A sub-generator for bulk content; one recorded draw decides it."""
        return random.Random(self.pick(label, 1 << 30))

    def np_sub(self, label):
        return np.random.RandomState(self.pick(label, 1 << 30))

    # ---- observations
    def ev(self, *what):
        c = canon(what)
        s = repr(c)
        self._h.update(s.encode())
        self.n_events += 1
        if self.keep_events:
            self.events.append(s)
        self.tail.append(s)
        if len(self.tail) > 60:
            del self.tail[:30]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.ev('FAULT', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *abstract):
        self.states.add(hash_state(abstract))

    def tick(self, n=1):
        self.sim_steps += n
        if self.sim_steps > self.budget:
            raise SimHang(f'step budget of {self.budget} exceeded')

    def digest(self):
        return self._h.hexdigest()[:32]

    def fail(self, kind, msg):
        self.ev('VIOLATION', kind)
        raise Violation(kind, msg)

    def require(self, cond, kind, msg):
        if not cond:
            self.fail(kind, msg() if callable(msg) else msg)


def hash_state(abstract):
    return int.from_bytes(hashlib.sha256(repr(canon(abstract)).encode()).digest()[:8], 'big')
