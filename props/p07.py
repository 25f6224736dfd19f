"""P07: whatever was logged is on disk, complete, in the right files, across crashes, restarts and concurrent runs."""
import contextlib
import io
import logging
import os
import pickle

import numpy as np

from mushroom_rl.core import Logger, Serializable

from dst.engine import SimFault, SimInterrupt
from dst.runner import Check
from dst.simdisk import SimDisk, SimCrash, plan_fault, _open


class Model(Serializable):
    def __init__(self, version, bomb=None):
        self.version = version
        self.data = np.full(3 + version % 5, float(version))
        self.bomb = bomb
        self._add_save_attr(version='primitive', data='numpy', bomb='pickle')


class Bomb:
    def __reduce__(self):
        raise SimFault('cannot be serialised')


SCALARS = ['J', 'R', 'loss1', 'x_2', 'steps']
ARRAYS = ['theta', 'w1']


class Run:
    """The reference for one experiment (one seed in the shared directory)."""
    def __init__(self, root, name, seed):
        self.root, self.name, self.seed = root, name, seed
        self.suffix = '' if seed is None else f'-{seed}'
        self.mem = {}           # name -> possible in-memory series
        self.disk = {}          # name -> possible series on disk (None = no file)
        self.arrays = {}
        self.agents = {}        # file -> possible versions
        self.data = None        # possible pickled datasets
        self.best = None        # (lowest, highest) performance the logger may hold for the stored agent
        self.logger = None
        self.file_log = False
        self.messages = list()

    def path(self, file):
        return os.path.join(self.root, self.name, file)


def series(path):
    if not os.path.exists(path):
        return None
    with _open(path, 'rb') as f:
        return np.load(f).tolist()


def version(path):
    if not os.path.exists(path):
        return None
    m = Serializable.load(path)
    if m is None or not np.array_equal(m.data, np.full(3 + m.version % 5, float(m.version))):
        return 'incomplete'
    return m.version


class Sim:
    def __init__(self, ctx, disk):
        self.ctx, self.disk = ctx, disk
        self.counter = 0
        self.out = io.StringIO()
        self.runs = list()
        self.active = list()

    def fresh(self):
        self.counter += 1
        return self.counter

    # ------------------------------------------------------------------ operations; each returns its check
    def start(self, run, append):
        run.best = None
        run.file_log = self.ctx.flip('log-console', 0.4)
        old, run.logger = run.logger, None
        overlap = old is not None and self.ctx.flip('overlap', 0.5)
        if not overlap:
            old = None
        lg = Logger(run.name, results_dir=run.root, log_console=run.file_log, append=append, seed=run.seed)
        run.logger = lg
        del old                                     # the previous logger of the same run goes away only now
        run.mem = {n: [list(c) for c in cs if c is not None] or [[]] for n, cs in run.disk.items()} if append else {}
        return None

    def scalars(self, run):
        names = [n for n in SCALARS if self.ctx.flip('log-' + n, 0.4)] or ['J']
        vals = {n: self.value() for n in names}
        for n in names:
            mem = run.mem.get(n, [[]])
            new = [m + [vals[n]] for m in mem]
            run.disk[n] = run.disk.get(n, [None]) + new
            run.mem[n] = mem + new
        run.logger.log_numpy(**vals)
        for n in names:
            k = len(run.mem[n]) // 2
            run.mem[n] = run.mem[n][k:]
            run.disk[n] = run.mem[n]

    def value(self):
        v = self.fresh()
        k = self.ctx.pick('value', 5)
        return [v, float(v) + .5, np.float32(v + .25), np.float64(v), -v][k]

    def array(self, run):
        n = self.ctx.choice('array', ARRAYS)
        a = np.arange(self.ctx.int('len', 1, 300)) + self.fresh()
        run.arrays[n] = run.arrays.get(n, [None]) + [a.tolist()]
        run.logger.log_numpy_array(**{n: a})
        run.arrays[n] = [a.tolist()]

    def agent(self, run):
        epoch = self.ctx.choice('epoch', [None, 20, 21, 37])
        file = 'agent' + run.suffix + ('' if epoch is None else f'-{epoch}') + '.msh'
        v = self.fresh()
        run.agents[file] = run.agents.get(file, [None]) + [v]
        run.logger.log_agent(Model(v), epoch, full_save=self.ctx.flip('full', 0.5))
        run.agents[file] = [v]

    def best(self, run):
        file = 'agent' + run.suffix + '-best.msh'
        v = self.fresh()
        J = self.ctx.choice('J', [0., 1., 2., 3., -5., 2.5, -np.inf])
        bad = self.ctx.flip('unserialisable', 0.15)
        prev = run.agents.get(file, [None])
        lo, hi = run.best if run.best is not None else (-np.inf, -np.inf)
        must, may = J > hi, J >= lo
        run.agents[file] = prev + [v] if may else prev
        run.pending = (file, prev, v, J, lo, hi)
        if bad and may:
            run.agents[file] = prev
            self.ctx.fault('serialisation-error')
        try:
            run.logger.log_best_agent(Model(v, Bomb() if bad else None), J)
        except SimFault:
            self.ctx.require(bad, 'exception', 'unexpected serialisation error')
            return
        self.ctx.require(not (bad and must), 'lost-error', 'an agent that cannot be saved was reported as saved')
        run.pending = None
        got = version(run.path(file))
        if must:
            run.agents[file] = [v]
            run.best = (J, J)
        elif may and not bad and got == v:
            run.agents[file] = [v]
            run.best = (J, J)
        elif may and not bad:
            run.agents[file] = prev
            run.best = (max(lo, J), hi) if lo < J else (lo, hi)

    def dataset(self, run):
        d = dict(v=self.fresh(), data=list(range(self.ctx.int('n', 1, 400))))
        run.data = (run.data or [None]) + [d]
        run.logger.log_dataset(d)
        run.data = [d]

    def message(self, run):
        tok = f'<message {self.fresh()}>'
        getattr(run.logger, self.ctx.choice('level', ['info', 'warning', 'debug', 'error']))(tok)
        if not self.disk.fired:
            run.messages.append((tok, run.file_log))

    OPS = ['scalars', 'array', 'agent', 'best', 'dataset', 'message']

    # ------------------------------------------------------------------ driver
    def step(self, run):
        """One operation of one run, with whatever fails inside."""
        what = 'start' if run.logger is None else self.ctx.pick('op', 9)
        run.pending = None
        if what in ('start', 8):
            what, args = 'start', (self.ctx.flip('append', 0.75),)
        else:
            what, args = self.OPS[min(what, 5) if what < 6 else 0], ()
        self.ctx.ev('op', run.seed, what)
        try:
            getattr(self, what)(run, *args)
            if self.disk.dead and what == 'start':
                return 'crashed'                # while the previous logger was being finalised
            self.ctx.require(not self.disk.dead, 'harness', 'a dead process went on')
        except (SimCrash, OSError, KeyboardInterrupt) as e:
            if not self.disk.fired:
                raise
            e.__traceback__ = None
            if self.disk.dead:
                return 'crashed'
            self.ctx.ev('failed', what)
        if run.pending is not None:
            # a failed attempt to store the best agent
            file, prev, v, J, lo, hi = run.pending
            if version(run.path(file)) == v:
                run.best = (lo, max(J, hi))
        return what

    def crash(self):
        """The process dies: objects and handlers are gone, files stay."""
        for r in self.runs:
            logging.getLogger(r.name + r.suffix).handlers.clear()
            r.logger = None
            r.mem = {}
            r.best = None
        self.disk.reboot()

    def verify(self, run):
        ctx = self.ctx
        where = f'run with seed {run.seed}'
        for n, cands in run.disk.items():
            try:
                got = series(run.path(n + run.suffix + '.npy'))
            except Exception as e:
                ctx.fail('torn-log', f'{where}: {n} cannot be read any more: {e!r}')
            ctx.require(got in cands, 'wrong-series', lambda: f'{where}: {n} is {got}, expected {cands[-1]}')
            run.disk[n] = [got]
            if n in run.mem and len(run.mem[n]) > 1 and got in run.mem[n] and got not in cands[:1]:
                run.mem[n] = [got]
        for n, cands in run.arrays.items():
            try:
                got = series(run.path(n + run.suffix + '.npy'))
            except Exception as e:
                ctx.fail('torn-log', f'{where}: {n} cannot be read any more: {e!r}')
            ctx.require(got in cands, 'wrong-array', lambda: f'{where}: array {n} starts with {str(got)[:60]}')
            run.arrays[n] = [got]
        for file, cands in run.agents.items():
            try:
                got = version(run.path(file))
            except Exception as e:
                ctx.fail('torn-log', f'{where}: {file} cannot be loaded any more: {e!r}')
            ctx.require(got in cands, 'wrong-agent', lambda: f'{where}: {file} holds version {got}, expected {cands}')
            run.agents[file] = [got]
        if run.data is not None:
            p = run.path('dataset' + run.suffix + '.pkl')
            try:
                with _open(p, 'rb') as f:
                    got = pickle.load(f)
            except FileNotFoundError:
                got = None
            except Exception as e:
                ctx.fail('torn-log', f'{where}: the dataset cannot be read any more: {e!r}')
            ctx.require(got in run.data, 'wrong-dataset', f'{where}: dataset {str(got)[:60]}')
            run.data = [got]
        text = None
        for tok, to_file in run.messages:
            if to_file:
                if text is None:
                    with _open(run.path(run.name + run.suffix + '.log'), 'r') as f:
                        text = f.read()
                ctx.require(tok in text, 'lost-message', f'{where}: {tok} is not in the log file')
            ctx.require(tok in self.out.getvalue(), 'lost-message', f'{where}: {tok} was not printed')


def scenario(ctx, faults, concurrent):
    disk = SimDisk(ctx)
    keep = logging.raiseExceptions
    logging.raiseExceptions = False
    sim = Sim(ctx, disk)
    try:
        with disk.installed(), contextlib.redirect_stdout(sim.out):
            name = 'exp' + str(ctx.pick('name', 1 << 20))
            seeds = [None, 0, 1, 2, 11, 12]
            for _ in range(ctx.int('runs', 1, 3)):
                s = ctx.choice('seed', seeds)
                seeds.remove(s)
                sim.runs.append(Run(disk.root, name, s))
            if concurrent:
                def between(op):
                    # another process gets the processor in the middle of this operation
                    if ctx.flip('switch', 0.12):
                        others = [r for r in sim.runs if r is not sim.active[-1]]
                        if others:
                            other = ctx.choice('other', others)
                            sim.active.append(other)
                            saved, disk.armed = disk.armed, None
                            fired, disk.fired = disk.fired, False
                            sim.step(other)
                            disk.armed, disk.fired = saved, fired
                            sim.active.pop()
                            ctx.probe('process-switch')
                disk.between = between
            for _ in range(ctx.int('ops', 4, 18)):
                run = ctx.choice('run', sim.runs)
                disk.fired = False
                if faults and not (concurrent and ctx.flip('calm', .5)):
                    kind = plan_fault(ctx, disk, ctx.choice('max', [2, 5, 9]))
                else:
                    kind = None
                sim.active = [run]
                out = sim.step(run)
                disk.disarm()
                disk.short = False
                if out == 'crashed':
                    sim.crash()
                hook, disk.between = disk.between, None
                for r in sim.runs:
                    sim.verify(r)
                disk.between = hook
                ctx.state(out, kind, disk.fired, len(sim.runs))
                ctx.sim_steps += 1
            disk.between = None
            # after the faults: every run starts again and continues its series
            for run in sim.runs:
                disk.fired = False
                sim.start(run, True)
                sim.scalars(run)
                sim.verify(run)
    finally:
        logging.raiseExceptions = keep
        for r in sim.runs:
            logging.getLogger(r.name + r.suffix).handlers.clear()
            r.logger = None


def healthy(ctx):
    scenario(ctx, False, False)


def faulty(ctx):
    scenario(ctx, True, False)


def concurrent(ctx):
    scenario(ctx, ctx.flip('faults', 0.4), True)


CHECK = Check(
    'P07', dict(healthy=healthy, faulty=faulty, concurrent=concurrent),
    quick=dict(healthy=4000, faulty=9000, concurrent=5000), thorough=dict(healthy=60000, faulty=200000, concurrent=120000),
    rule='One case = 4-18 operations of 1-3 logged runs sharing a directory, with a crash, disk error or interrupt at a '
         'chosen disk operation, restarts with and without append, and other processes scheduled between the disk '
         'operations of one call. All files are compared with the reference after every operation. '
         'Distinct = different event-log digest.',
    real=['Logger, DataLogger, ConsoleLogger', 'Serializable.save/load', 'numpy and pickle file formats',
          'logging.FileHandler'],
    stub=['file system calls below the scratch directory (simulated disk, seeded directory order)',
          'the processes of the different runs (one interpreter, switched at disk operations)', 'standard output'],
    assumptions=['a completed write survives the death of the process (no power loss)', 'runs sharing a directory use '
                 'different seeds', 'rename within one directory is atomic', 'an epoch number used by an unseeded run is not the seed of '
                 'another run in the same directory'],
    sim_unit='disk operations')
