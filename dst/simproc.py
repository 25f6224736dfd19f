"""A simulated process kernel: fork-style processes, reference-counted pipe ends, seeded scheduling, process faults.

Every simulated process is a real thread, but exactly one runs at any time and control moves only at seam operations
(pipe and process calls), where the run's choices decide who continues.  Messages are pickled, global RNG states are
per process and duplicated by fork, pipe ends are inherited by fork exactly as file descriptors are."""
import atexit
import contextlib
import copy
import gc
import multiprocessing
import multiprocessing.connection
import multiprocessing.context
import pickle
import random
import sys
import threading
from collections import deque

import numpy as np
import torch

from .engine import SimHang
from . import world


class SimKilled(BaseException):
    pass


class _End:
    """One end of a duplex pipe (a file description)."""

    def __init__(self, eid):
        self.eid = eid
        self.holders = {}       # pid -> number of descriptors
        self.inbox = deque()
        self.peer = None

    def open(self):
        return any(v > 0 for v in self.holders.values())


class SimConn:
    """A Connection handle owned by one process."""

    def __init__(self, kernel, end, pid):
        self._k, self._end, self._pid, self._closed = kernel, end, pid, False
        end.holders[pid] = end.holders.get(pid, 0) + 1

    def _check(self):
        if self._closed:
            raise OSError('handle is closed')

    def send(self, obj):
        k = self._k
        self._check()
        data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
        k.point(f'send{self._end.eid}')
        k.block(lambda: len(self._end.peer.inbox) < k.capacity or not self._end.peer.open(), 'send')
        if not self._end.peer.open():
            raise BrokenPipeError(32, 'Broken pipe')
        self._end.peer.inbox.append(data)
        k.n_msgs += 1

    def recv(self):
        k = self._k
        self._check()
        k.point(f'recv{self._end.eid}')
        k.block(lambda: self._end.inbox or not self._end.peer.open(), 'recv')
        if self._end.inbox:
            return pickle.loads(self._end.inbox.popleft())
        raise EOFError

    def poll(self, timeout=0.0):
        k = self._k
        self._check()
        k.point('poll')
        ready = lambda: bool(self._end.inbox) or not self._end.peer.open()
        if timeout is None:
            k.block(ready, 'poll')
        elif timeout and not ready():
            k.sleep_until(ready)
        return ready()

    def close(self):
        if not self._closed:
            self._closed = True
            k = self._k
            h = self._end.holders
            h[self._pid] = h.get(self._pid, 1) - 1
            if h[self._pid] <= 0:
                h.pop(self._pid, None)
            k.wake()

    @property
    def closed(self):
        return self._closed

    @property
    def readable(self):
        return True

    @property
    def writable(self):
        return True

    def fileno(self):
        return 10000 + self._end.eid

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass


class SimProcess:
    def __init__(self, kernel, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._k = kernel
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name = name or 'SimProcess'
        self.daemon = bool(daemon)
        self._p = None
        self.exit_code = None

    def start(self):
        assert self._p is None, 'cannot start a process twice'
        self._p = self._k.fork(self)
        self._k.point('fork')

    def join(self, timeout=None):
        assert self._p is not None, 'can only join a started process'
        self._k.point('join')
        done = lambda: self._p.state == 'exited'
        if timeout is None:
            self._k.block(done, 'join')
        elif not done():
            self._k.sleep_until(done)

    def is_alive(self):
        self._k.point('is_alive')
        return self._p is not None and self._p.state != 'exited'

    def terminate(self):
        if self._p is not None:
            self._k.kill(self._p, -15)
            self._k.point('terminate')

    def kill(self):
        if self._p is not None:
            self._k.kill(self._p, -9)
            self._k.point('kill')

    def close(self):
        pass

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    @property
    def exitcode(self):
        return None if self._p is None or self._p.state != 'exited' else self._p.exitcode

    @property
    def pid(self):
        return None if self._p is None else self._p.pid

    ident = pid

    @property
    def sentinel(self):
        return 20000 + (self.pid or 0)


class _Baton:
    def __init__(self):
        self._l = threading.Lock()
        self._l.acquire()

    def acquire(self):
        self._l.acquire()

    def release(self):
        try:
            self._l.release()
        except RuntimeError:
            pass


class _Proc:
    def __init__(self, pid):
        self.pid = pid
        self.state = 'ready'        # ready | blocked | exited
        self.cond = None            # wake-up predicate while blocked
        self.sem = _Baton()
        self.rng = None
        self.killed = None
        self.exitcode = None
        self.thread = None
        self.env_ops = 0
        self.stall = 0
        self.rng_at_fork = None
        self.error = None


def _rng_state():
    return np.random.get_state(), torch.get_rng_state(), random.getstate()


def _set_rng(s):
    np.random.set_state(s[0])
    torch.set_rng_state(s[1])
    random.setstate(s[2])


class SimKernel:
    def __init__(self, ctx, capacity=10 ** 9, max_steps=20000, slow=None):
        self.ctx = ctx
        self.capacity = capacity
        self.max_steps = max_steps
        self.steps = 0
        self.n_msgs = 0
        self.main = _Proc(0)
        self.procs = [self.main]
        self.cur = self.main
        self.ends = list()
        self.deadlock = None
        self.down = False
        self.slow = slow or {}          # pid -> probability of being passed over
        self.plan = {}                  # pid -> (env op number, kind): process fault
        self.kill_at = {}               # pid -> seam point number
        self.points = {}
        self.on_fork = None
        self.fail_fork = self.fail_pipe = None
        self.fork_failed = False
        self.n_pipes = 0
        self.sched_log = list()
        self.atexit = list()

    # ------------------------------------------------------------------ API used as replacement
    def Pipe(self, duplex=True):
        self.n_pipes += 1
        if self.fail_pipe == self.n_pipes:
            self.ctx.fault('pipe-fails')
            self.fork_failed = True
            raise OSError(24, 'Too many open files')
        a, b = _End(len(self.ends)), _End(len(self.ends) + 1)
        a.peer, b.peer = b, a
        self.ends += [a, b]
        return SimConn(self, a, self.cur.pid), SimConn(self, b, self.cur.pid)

    def Process(self, *a, **k):
        return SimProcess(self, *a, **k)

    def cpu_count(self):
        return 3

    def wait(self, objects, timeout=None):
        def ready():
            out = list()
            for o in objects:
                if isinstance(o, SimConn) and (o._end.inbox or not o._end.peer.open()):
                    out.append(o)
            return out
        self.point('wait')
        if timeout is None:
            self.block(ready, 'wait')
        elif not ready():
            self.sleep_until(ready)
        return ready()

    # ------------------------------------------------------------------ processes
    def fork(self, sp):
        parent = self.cur
        if self.fail_fork == len(self.procs):
            self.fail_fork = None
            self.ctx.fault('fork-fails')
            self.fork_failed = True
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        p = _Proc(len(self.procs))
        p.sp = sp
        self.procs.append(p)
        # descriptors are inherited by the child
        for e in self.ends:
            if e.holders.get(parent.pid, 0) > 0:
                e.holders[p.pid] = e.holders.get(p.pid, 0) + e.holders[parent.pid]
        args, kwargs = self._child_copy(sp._args, p.pid), self._child_copy(sp._kwargs, p.pid)
        target = sp._target
        run = (lambda: target(*args, **kwargs)) if type(sp) is SimProcess else sp.run
        p.rng = _rng_state()
        p.rng_at_fork = p.rng
        if self.on_fork is not None:
            self.on_fork(p)
        self.ctx.ev('fork', p.pid)

        def body():
            p.sem.acquire()
            code = 0
            try:
                if p.killed is not None or self.down:
                    raise SimKilled()
                _set_rng(p.rng)
                run()
            except SimKilled:
                code = p.killed if p.killed is not None else -9
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1
            except BaseException as e:
                code = 1
                p.error = e
                e.__traceback__ = None
            self._exit(p, code)
        p.thread = threading.Thread(target=body, daemon=True)
        p.thread.start()
        return p

    def _child_copy(self, x, pid):
        """What the child sees after fork: its own copy of every argument and its own descriptor handles."""
        if isinstance(x, SimConn):
            c = SimConn.__new__(SimConn)
            c._k, c._end, c._pid, c._closed = self, x._end, pid, x._closed
            return c            # the inherited descriptor itself, already counted
        if isinstance(x, tuple):
            return tuple(self._child_copy(i, pid) for i in x)
        if isinstance(x, list):
            return [self._child_copy(i, pid) for i in x]
        if isinstance(x, dict):
            return {k: self._child_copy(v, pid) for k, v in x.items()}
        if getattr(x, '_sim_shared', False):
            return x
        try:
            return copy.deepcopy(x)
        except Exception:
            return x

    def _exit(self, p, code):
        p.state, p.exitcode = 'exited', code
        for e in self.ends:
            e.holders.pop(p.pid, None)
        self.ctx.ev('exit', p.pid, code)
        if not self.down:
            self.wake()
            self._switch(p)

    def kill(self, p, code):
        if p.state == 'exited' or p.killed is not None:
            return
        p.killed = code
        self.ctx.ev('killed', p.pid)
        if p is not self.cur:
            p.state = 'ready'
            p.cond = None

    # ------------------------------------------------------------------ scheduling
    def wake(self):
        for p in self.procs:
            if p.state == 'blocked' and p.cond is not None and p.cond():
                p.state, p.cond = 'ready', None

    def _runnable(self):
        self.wake()
        return [p for p in self.procs if p.state == 'ready']

    def point(self, op):
        """A scheduling point of the current process."""
        me = self.cur
        if self.down and me is self.main:
            raise OSError('the simulated machine is gone')
        self._die_if_killed(me)
        self.steps += 1
        self.ctx.sim_steps += 1
        if self.steps > self.max_steps:
            self._no_progress('step budget exceeded')
        n = self.points[me.pid] = self.points.get(me.pid, 0) + 1
        if self.kill_at.get(me.pid) == n:
            self.ctx.fault('worker-kill')
            me.killed = -9
            self._die_if_killed(me)
        run = self._runnable()
        if len(run) > 1:
            nxt = self._choose(run, me)
            if nxt is not me:
                self._yield_to(me, nxt)

    def _choose(self, run, me):
        cand = [p for p in run if not (p.pid in self.slow and self.ctx.pick(f'stall{p.pid}', 4) != 0)] or run
        if len(cand) < len(run):
            self.ctx.probe('slow-worker-passed-over')
        order = sorted(cand, key=lambda p: (p is not me, p.pid))
        p = order[self.ctx.pick('sched', len(order))]
        self.ctx._h.update(b's%d' % p.pid)
        return p

    def block(self, cond, why):
        me = self.cur
        while not cond():
            me.state, me.cond = 'blocked', cond
            self._switch(me)
        self._die_if_killed(me)

    def sleep_until(self, cond):
        """A timed wait: the others run until the condition holds or the timer fires (both are legal outcomes)."""
        for _ in range(200):
            if cond():
                return
            run = [p for p in self._runnable() if p is not self.cur]
            if not run:
                return
            self._yield_to(self.cur, self._choose(run, self.cur))

    def _switch(self, me):
        """me cannot continue (blocked or exited): somebody else must."""
        run = self._runnable()
        if me in run:
            return
        if not run:
            if self.main.state == 'exited' or me is self.main:
                self._no_progress(f'deadlock: process {me.pid} waits for ever')
            # wake main so that it can report the deadlock
            self.deadlock = f'all processes wait for ever'
            self._resume(self.main)
            if me.state != 'exited':
                self._park(me)
            return
        nxt = self._choose(run, me) if len(run) > 1 else run[0]
        self._yield_to(me, nxt)

    def _yield_to(self, me, nxt):
        me.rng = _rng_state()
        self._resume(nxt)
        if me.state != 'exited':
            self._park(me)

    def _resume(self, p):
        self.cur = p
        if p is not self.main or p.rng is not None:
            if p.rng is not None:
                _set_rng(p.rng)
        p.sem.release()

    def _park(self, me):
        me.sem.acquire()
        self.cur = me
        if me is self.main and self.deadlock:
            self._no_progress(self.deadlock)
        self._die_if_killed(me)

    def _die_if_killed(self, me):
        if me.killed is not None or (self.down and me is not self.main):
            if me is not self.main:
                raise SimKilled()

    def _no_progress(self, why):
        self.deadlock = why
        self.ctx.ev('no-progress', why)
        if self.cur is not self.main:
            me = self.cur
            self._resume(self.main)
            me.state = 'blocked'
            me.cond = lambda: False
            self._park(me)
        raise SimHang(why + ' ' + str([(p.pid, p.state) for p in self.procs]))

    # ------------------------------------------------------------------ faults inside workers
    def env_op(self, op):
        """Called by toy environments running inside a worker: may raise the planned application fault."""
        p = self.cur
        p.env_ops += 1
        f = self.plan.get(p.pid)
        if f is not None and f[0] == p.env_ops:
            self.ctx.fault('worker-' + f[1])
            if f[1] == 'exception':
                raise RuntimeError('injected environment failure')
            if f[1] == 'interrupt':
                raise KeyboardInterrupt()
            if f[1] == 'exit':
                raise SystemExit(3)
            p.killed = -9
            raise SimKilled()
        self.point(op)

    def alive(self):
        return [p.pid for p in self.procs[1:] if p.state != 'exited']

    def interpreter_exit(self):
        """What CPython does when the program ends while objects are still alive: exit handlers in reverse order, then
        multiprocessing terminates the daemonic children and joins all of them."""
        self.ctx.ev('interpreter-exit')
        while self.atexit:
            f, a, k = self.atexit.pop()
            try:
                f(*a, **k)
            except Exception:
                pass
        for p in self.procs[1:]:
            if p.state != 'exited' and p.sp.daemon:
                self.kill(p, -15)
        for p in self.procs[1:]:
            self.block(lambda: p.state == 'exited', 'join at exit')

    def shutdown(self):
        self.down = True
        for p in self.procs[1:]:
            if p.state != 'exited':
                p.killed = p.killed if p.killed is not None else -9
                p.state = 'ready'
                p.sem.release()
                p.thread.join(5)
        if self.main.rng is not None:
            pass

    # ------------------------------------------------------------------ installation
    @contextlib.contextmanager
    def installed(self):
        import mushroom_rl.core.multiprocess_environment  # noqa
        real = multiprocessing
        pairs = list()
        repl = [(real.Pipe, self.Pipe), (real.Process, self.Process), (real.cpu_count, self.cpu_count),
                (multiprocessing.connection.wait, self.wait), (multiprocessing.connection.Pipe, self.Pipe)]
        for orig, new in repl:
            for mod, att in world.sut_refs(orig):
                pairs.append((mod, att, new))
        ctxobj = _FakeContext(self)
        for att, new in (('Pipe', self.Pipe), ('Process', self.Process), ('cpu_count', self.cpu_count),
                         ('get_context', lambda *a, **k: ctxobj)):
            pairs.append((multiprocessing, att, new))
        pairs.append((multiprocessing.connection, 'wait', self.wait))
        pairs.append((multiprocessing.connection, 'Pipe', self.Pipe))
        pairs.append((atexit, 'register', lambda f, *a, **k: self.atexit.append((f, a, k)) or f))
        pairs.append((atexit, 'unregister', lambda f: self.atexit.__setitem__(
            slice(None), [x for x in self.atexit if x[0] != f])))
        unraisable = list()
        old_hook = sys.unraisablehook
        sys.unraisablehook = lambda u: unraisable.append((type(u.exc_value).__name__, str(u.exc_value)))
        self.unraisable = unraisable
        try:
            with world.patched(pairs):
                yield self
        finally:
            self.shutdown()
            sys.unraisablehook = old_hook


class _FakeContext:
    def __init__(self, k):
        self.Pipe, self.Process, self.cpu_count = k.Pipe, k.Process, k.cpu_count
