"""P23: the callbacks of the library collect exactly what happened, once, and keep it."""
import os

os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')               # no screen here
os.environ.setdefault('QT_LOGGING_RULES', '*=false')

import numpy as np

from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.table import Table
from mushroom_rl.core import Core, VectorCore
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.utils import callbacks as cb_module
from mushroom_rl.utils.callbacks import CollectDataset, CollectMaxQ, CollectParameters, CollectQ

try:
    from mushroom_rl.utils.plots import Window
except ImportError:
    Window = None

from dst import world
from dst.fp import close
from dst.engine import SimFault, SimInterrupt
from dst.runner import Check
from dst.toys import (EpisodeScript, Plan, RecordingAgent, ScriptEnv, VecRecordingAgent, VecScriptEnv, mk_info, snap_info, snapshot,
                      to_np)

NS, NA = 5, 3


class Learner:
    """What the agents learn: a value table and a learning rate, changed by each fit; every fit is written down."""
    def prepare(self, rs, ensemble, schedule, parse):
        self.rs, self.parse, self.history = rs, parse, list()
        self.Q = EnsembleTable(3, (NS, NA)) if ensemble else Table((NS, NA))
        kind, tabular = schedule
        kw = dict(size=(NS,)) if tabular else {}
        self.alpha = dict(constant=lambda: Parameter(.5, **kw), linear=lambda: LinearParameter(1., .1, 9, **kw),
                          decay=lambda: DecayParameter(1., exp=.5, **kw))[kind]()
        self.used = np.zeros(NS if tabular else 1, dtype=int)
        self.kind, self.tabular = kind, tabular

    def table(self):
        if isinstance(self.Q, EnsembleTable):
            return np.mean([self.Q[i].table for i in range(len(self.Q))], axis=0)
        return self.Q.table.copy()

    def rate(self, i):
        n = self.used[i if self.tabular else 0]
        return dict(constant=.5, linear=max(1. - .1 * n, .1), decay=1. / max(n, 1) ** .5)[self.kind]

    def learn(self, dataset):
        tables = [self.Q[i] for i in range(len(self.Q))] if isinstance(self.Q, EnsembleTable) else [self.Q]
        i = int(self.rs.randint(NS))
        self.alpha(np.array([i])) if self.tabular else self.alpha()
        self.used[i if self.tabular else 0] += 1
        for t in tables:
            t.table[int(self.rs.randint(NS)), int(self.rs.randint(NA))] = np.round(self.rs.randn(), 2)
        self.history.append(dict(data=snapshot(dataset), info=snap_info(dataset) if self.parse else None, q=self.table(),
                                 rates=[self.rate(j) for j in range(NS)]))


class OneAgent(Learner, RecordingAgent):
    def fit(self, dataset):
        super().fit(dataset)
        self.learn(dataset)


class VecAgent(Learner, VecRecordingAgent):
    def fit(self, dataset):
        super().fit(dataset)
        self.learn(dataset)


class Watch:
    """A callback of the library, and what it must have collected."""
    def __init__(self, ctx, agent, rs):
        self.ctx, self.agent = ctx, agent
        self.kind = ctx.choice('callback', ['dataset', 'q', 'max-q', 'parameter'])
        self.s = int(rs.randint(NS))
        if self.kind == 'dataset':
            self.live = CollectDataset()
        elif self.kind == 'q':
            self.live = CollectQ(agent.Q)
        elif self.kind == 'max-q':
            self.live = CollectMaxQ(agent.Q, np.array([self.s]))
        else:
            self.live = CollectParameters(agent.alpha, *([np.array([self.s])] if agent.tabular else []))
        self.seen = list()

    def check(self, why):
        got = self.live.get()
        if self.kind == 'dataset':
            if got is None:
                self.ctx.require(not self.seen, 'collected', lambda: f'{why}: no dataset after {len(self.seen)} fits')
                return
            want = {k: sum((h['data'][k] for h in self.seen), type(v)()) for k, v in self.seen[0]['data'].items()} if self.seen else dict(n=0)
            have = snapshot(got)
            end = 0
            for h in self.seen[:-1]:                                # joining datasets closes the episode at the joint
                end += h['data']['n']
                if 'last' in want and end and end <= len(have['last']):
                    want['last'][end - 1] = have['last'][end - 1] = True
            for k in want:
                self.ctx.require(want[k] == have[k], 'collected', lambda: f'{why}: {k} collected {have[k]}, fitted {want[k]}')
            if self.agent.parse and self.seen and all(h['info'] for h in self.seen):
                info = snap_info(got.copy())
                for k in self.seen[0]['info']:
                    w = sum((h['info'][k] for h in self.seen), [])
                    self.ctx.require(info.get(k) == w, 'collected-information', lambda: f'{why}: {k} collected {info.get(k)}, fitted {w}')
            return
        want = [h['q'] if self.kind == 'q' else h['q'][self.s].max() if self.kind == 'max-q' else h['rates'][self.s] for h in self.seen]
        if self.kind == 'max-q' and isinstance(self.agent.Q, EnsembleTable):
            want = [h['q'][self.s].max() for h in self.seen]
        self.ctx.require(len(got) == len(want), 'collected', lambda: f'{why}: {len(got)} values after {len(want)} fits')
        for i, (a, b) in enumerate(zip(got, want)):
            self.ctx.require(np.shape(np.squeeze(to_np(a))) == np.shape(b) and close(to_np(a), b, atol=1e-9), 'collected',
                             lambda: f'{why}: the value of fit {i} is {a}, it was {b}')


class Plot:
    """The plotting callback: the windows hold the last steps."""
    def __init__(self, ctx, info):
        self.size = ctx.int('window', 1, 12)
        self.live = cb_module.PlotDataset(info, window_size=self.size, show=False, obs_normalized=ctx.flip('normalized', .3))
        self.steps, self.complete = list(), True

    def check(self, ctx, why):
        s = self.steps[-self.size:]
        rows = [('action', self.live.action_buffers_list, [x[1] for x in s]), ('observation', self.live.observation_buffers_list, [x[0] for x in s])]
        for name, bufs, want in rows:
            for i, b in enumerate(bufs):
                got = [float(v) for v in b.get()]
                ctx.require(got == [w[i] for w in want], 'plot', lambda: f'{why}: {name} {i} shows {got}, expected {[w[i] for w in want]}')
        got = [float(v) for v in self.live.instant_reward_buffer.get()]
        ctx.require(got == [x[2] for x in s], 'plot', lambda: f'{why}: rewards {got}, expected {[x[2] for x in s]}')
        if self.complete:
            r, n, rs, ns = 0., 0, list(), list()
            for x in self.steps:
                r, n = r + x[2], n + 1
                if x[3]:
                    rs.append(r), ns.append(n)
                    r, n = 0., 0
            got = [float(v) for v in self.live.training_reward_buffer.get()], [int(v) for v in self.live.episodic_len_buffer_training.get()]
            ctx.require(got[1] == ns and len(got[0]) == len(rs) and close(got[0], rs), 'plot-episodes', lambda: f'{why}: episodes {got}, expected {(rs, ns)}')


class StubWindow:
    """No screen here."""
    def __init__(self, *args, **kwargs):
        self.refreshed = 0

    def show(self):
        raise AssertionError('the window was not to be shown')

    def refresh(self):
        self.refreshed += 1


def callbacks(ctx):
    with world.fresh(ctx):
        with world.patched([(m, n, StubWindow) for m, n in world.sut_refs(Window)] if Window is not None else []):
            run(ctx)


def run(ctx):
    rs = ctx.np_sub('values')
    vec = ctx.flip('vectorized', .4)
    backends = ctx.choice('backends', [('numpy', 'numpy'), ('torch', 'torch'), ('numpy', 'torch'), ('torch', 'numpy')] + [('list', 'numpy')] * (not vec))
    stateful, episodic = ctx.flip('stateful', .3) and backends[0] != 'list', ctx.flip('episodic', .3)
    horizon = ctx.choice('horizon', [4, 1, 2, 6])
    keys = ctx.choice('info', ['rich', 'none']) if backends[0] != 'list' else 'none'
    plan, info = Plan(ctx), mk_info(backends[0], horizon)
    scripts = [EpisodeScript(ctx.sub('script'), horizon, .5, 4) for _ in range(ctx.int('n', 2, 4) if vec else 1)]
    if vec:
        env = VecScriptEnv(ctx, plan, info, scripts, keys)
        agent = VecAgent(ctx, plan, info, len(scripts), backend=backends[1], stateful=stateful, episodic=episodic)
    else:
        env = ScriptEnv(ctx, plan, info, scripts[0], info_keys=keys)
        agent = OneAgent(ctx, plan, info, backend=backends[1], stateful=stateful, episodic=episodic)
    schedule = ctx.choice('schedule', ['constant', 'linear', 'decay']), ctx.flip('tabular', .5)
    agent.prepare(rs, ctx.flip('ensemble', .3), schedule, ctx.flip('parse', .5))
    before = [Watch(ctx, agent, rs) for _ in range(ctx.int('before', 1, 3))]
    after = [Watch(ctx, agent, rs) for _ in range(ctx.int('after', 0, 2))]

    def bomb(dataset):
        for w in before:
            w.seen.append(agent.history[-1])
        plan.hit('callback')
        for w in after:                                             # they are called next
            w.seen.append(agent.history[-1])

    plot = None
    if not vec and backends == ('numpy', 'numpy') and hasattr(cb_module, 'PlotDataset') and ctx.flip('plot', .5):
        plot = Plot(ctx, info)

    def step(sample):
        plan.hit('callback_step')
        if plot is not None:
            plot.steps.append((sample[0].tolist(), np.atleast_1d(sample[1]).tolist(), float(sample[2]), bool(sample[5])))
            plot.live(sample)

    core = (VectorCore if vec else Core)(agent, env, callbacks_fit=[w.live for w in before] + [bomb] + [w.live for w in after],
                                         callback_step=step)
    for k in range(ctx.int('calls', 2, 6)):
        op = ctx.choice('op', ['learn', 'learn', 'evaluate', 'clean', 'other'])
        why = f'after {k} calls and {op}'
        if op == 'clean':
            w = ctx.choice('which', before + after)
            w.live.clean()
            w.seen = list()
            ctx.ev('clean', w.kind)
        elif op == 'other':                                         # another run with callbacks of its own
            another(ctx, rs)
        else:
            par = dict(n_episodes=ctx.int('n_episodes', 1, 6)) if ctx.flip('by-episodes', .5) else dict(n_steps=ctx.int('n_steps', 1, 24))
            if op == 'learn':
                par.update(dict(n_episodes_per_fit=ctx.int('per-fit', 1, 4)) if ctx.flip('fit-by-episodes', .4) else dict(n_steps_per_fit=ctx.int('per-fit', 1, 6)))
            plan.disarm()
            if ctx.flip('inject', .3):
                plan.arm(ctx.choice('where', ['callback', 'agent.fit', 'env.step', 'callback_step', 'agent.draw', 'env.reset']), ctx.int('when', 1, 8),
                         ctx.choice('what', ['error', 'interrupt']))
            n0 = len(agent.history)
            ctx.ev(op, sorted(par.items()))
            try:
                getattr(core, op)(quiet=True, **par)
            except (SimFault, SimInterrupt):
                pass
            plan.disarm()
            ctx.require(op == 'learn' or len(agent.history) == n0, 'fit-in-evaluation', why)
            if plot is not None and plot.steps and not plot.steps[-1][3]:
                plot.complete = False                               # the plot cannot know that the next sample begins an episode
        for i, w in enumerate(before + after):
            w.check(f'{why}: callback {i} ({w.kind})')
        if plot is not None:
            plot.check(ctx, why)
        ctx.state(op, vec, backends, len(agent.history), tuple(w.kind for w in before + after))


def another(ctx, rs):
    """Another experiment in the process, with a callback of its own."""
    plan, info = Plan(ctx), mk_info('numpy', 3)
    agent = OneAgent(ctx, plan, info)
    agent.prepare(rs, False, ('constant', False), False)
    w = Watch(ctx, agent, rs)
    Core(agent, ScriptEnv(ctx, plan, info, EpisodeScript(ctx.sub('other-script'), 3, .5, 4), info_keys='none'),
         callbacks_fit=[w.live]).learn(n_steps=4, n_steps_per_fit=2, quiet=True)
    w.seen = list(agent.history)
    w.check(f'another run ({w.kind})')


CHECK = Check(
    'P23', dict(callbacks=callbacks), quick=dict(callbacks=8000), thorough=dict(callbacks=150000),
    rule='One case = 2-6 learn, evaluate, clean calls of a single or vectorized run (five backend pairs, faults in environment, agent and '
         'callbacks) with 1-5 callbacks of the library, and the plotting callback. Distinct = different event-log digest.',
    real=['mushroom_rl.utils.callbacks (all)', 'DataBuffer', 'Core, VectorCore', 'Dataset', 'Table, EnsembleTable, Parameter schedules'],
    stub=['environment, agent (scripted)', 'plot window (no screen)'],
    assumptions=['the plotting callback sees samples only: after a call that ends within an episode its per-episode curves are not checked'])
