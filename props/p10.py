"""P10: agents neither change the data they are given nor depend on what the caller does with it afterwards."""
import numpy as np
import torch

from mushroom_rl.core import Core, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis import GaussianRBF, PolynomialBasis
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box

from dst import fp, world, zoo
from dst.fp import close
from dst.engine import canon
from dst.runner import Check
from props.p06 import Tap, first_diff, plan, weights


def arrays(dataset):
    out = list(dataset.parse())
    if dataset.is_stateful:
        out += list(dataset.parse_policy_state())
    if len(getattr(dataset, 'theta_list', None) or []):
        out += [t for t in dataset.theta_list if isinstance(t, (np.ndarray, torch.Tensor))]
    return out


def copy(x):
    return x.detach().clone() if isinstance(x, torch.Tensor) else np.array(x, copy=True)


def same(a, b):
    if isinstance(a, torch.Tensor):
        return torch.equal(torch.nan_to_num(a.detach()), torch.nan_to_num(b))
    return np.array_equal(np.nan_to_num(a), np.nan_to_num(b))


def scribble(x, r):
    """The caller reuses the memory."""
    if isinstance(x, torch.Tensor):
        with torch.no_grad():
            if x.is_floating_point():
                x.fill_(r.choice([0., 3.5, -60.]))
            else:
                x.zero_()
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = r.choice([0., 3.5, -60.]) if x.dtype.kind == 'f' else 0


class Hostile:
    """Watches the arguments of an agent and overwrites them once the call is over."""
    def __init__(self, ctx, z, what):
        self.ctx, self.z, self.what = ctx, z, what
        self.r = ctx.sub('scribble')
        self.prev = None
        agent = z.agent
        self._draw, self._fit = agent.draw_action, agent.fit
        agent.draw_action, agent.fit = self.draw_action, self.fit

    def draw_action(self, state, policy_state=None):
        s, p = copy(state), None if policy_state is None else copy(policy_state)
        out = self._draw(state, policy_state)
        self.ctx.require(same(state, s) and (p is None or same(policy_state, p)), 'changed-argument',
                         lambda: f'{self.z.name}: drawing an action changed the state from {s} to {state}')
        return out

    def fit(self, dataset):
        before = [copy(x) for x in arrays(dataset)]
        self._fit(dataset)
        after = arrays(dataset)
        self.ctx.require(len(before) == len(after) and all(same(a, b) for a, b in zip(after, before)), 'changed-argument',
                         lambda: f'{self.z.name}: fit changed its dataset '
                                 f'(field {[same(a, b) for a, b in zip(after, before)].index(False)})')

    def step(self, sample):
        if 'samples' in self.what:
            if self.prev is not None:
                for x in self.prev:
                    scribble(x, self.r)
                self.ctx.fault('reused-sample')
            # the next state and policy state are the current ones of the next step
            self.prev = [sample[0], sample[1]]
            if sample[5]:
                self.prev += [sample[3]]

    def fitted(self, dataset):
        if 'fit' in self.what:
            for x in arrays(dataset):
                scribble(x, self.r)
            self.ctx.fault('reused-dataset')

    def done(self, dataset):
        if 'returned' in self.what and dataset is not None:     # evaluate only
            for x in arrays(dataset):
                scribble(x, self.r)
            self.ctx.fault('reused-result')


def run(z, hostile, what, kw):
    env = Tap(z.env)
    core = Core(z.agent, env, callbacks_fit=[hostile.fitted] if hostile else None,
                callback_step=hostile.step if hostile else None)
    try:
        d = getattr(core, what)(quiet=True, **kw)
    except Exception as e:
        if not zoo.numerical(e):
            raise
        env.log.append(('raised', type(e).__name__))
        return env.log
    if hostile:
        hostile.done(d)
    return env.log


def agents(ctx):
    name = ctx.choice('agent', zoo.NAMES)
    opt, seed = ctx.pick('options', 1 << 16), ctx.pick('rng', 1 << 30)
    calls = plan(ctx, name, zoo.build(name, opt))
    what = [w for w in ('samples', 'fit', 'returned') if ctx.flip(w, .7)]
    ctx.ev('case', name, opt)
    logs = list()
    for hostile in (False, True):
        world.seed_all(seed)
        z = zoo.build(name, opt)
        h = Hostile(ctx, z, what) if hostile else None
        log = list()
        for c in calls:
            log.append(run(z, h, *c))
            if log[-1] and log[-1][-1][0] == 'raised':
                break
        logs.append((log, fp.describe(weights(z.agent))))
    (ref, rw), (got, gw) = logs
    for i, (a, b) in enumerate(zip(ref, got)):
        ctx.ev('call', i, len(a))
        ctx.sim_steps += len(b)
        ctx.require(a == b, 'aliased', lambda: f'{name}, caller overwrites {what}, call {i} {calls[i]}: {first_diff(a, b)}'
                    .replace('uninterrupted', 'untouched').replace('restored', 'after the caller reused its arrays'))
    d = fp.diff(rw, gw)
    ctx.require(not d, 'aliased', lambda: f'{name}, caller overwrites {what}: {d}')
    ctx.state(name, tuple(what), tuple(c[0] for c in calls))


def parametric(agent):
    """The public objects of an agent with weights or parameters that can be read and set."""
    out = list()
    for owner, get, set_ in ((agent.policy, 'get_weights', 'set_weights'),
                             (getattr(agent, 'distribution', None), 'get_parameters', 'set_parameters')):
        if owner is not None and hasattr(owner, set_):
            try:
                getattr(owner, get)()
            except (AttributeError, NotImplementedError, TypeError):
                continue
            out.append((type(owner).__name__, getattr(owner, get), getattr(owner, set_)))
    return out


def vectors(ctx):
    """Weights are values: what was read does not change later, what was set belongs to the caller."""
    name = ctx.choice('agent', [n for n in zoo.NAMES if n not in zoo.TD])
    opt, seed = ctx.pick('options', 1 << 16), ctx.pick('rng', 1 << 30)
    world.seed_all(seed)
    zs = [zoo.build(name, opt), zoo.build(name, opt)]
    r = ctx.sub('scribble')
    ctx.ev('case', name, opt)
    kept = list()
    for _ in range(ctx.int('ops', 2, 6)):
        z = zs[ctx.pick('which', 2)]
        objs = parametric(z.agent)
        if not objs:
            return
        k = ctx.pick('object', len(objs))
        what, get, set_ = objs[k]
        op = ctx.choice('op', ['set', 'share', 'learn', 'overwrite-read'])
        ctx.ev(op, what)
        if op == 'learn':
            if name == 'BoostedFQI':
                continue
            per = z.fit.get('n_episodes_per_fit')
            n = dict(n_episodes=per) if per else dict(n_steps=ctx.int('steps', 1, 20))
            if not zoo.survives(Core(z.agent, z.env).learn, quiet=True, **n, **z.fit):
                ctx.probe('numerical-failure')
                return
        elif op == 'overwrite-read':
            w = get()
            c = copy(w)
            scribble(w, r)
            ctx.require(same(get(), c), 'aliased', lambda: f'{name}: overwriting what {what} returned changed it')
            ctx.fault('overwritten')
        else:
            w = copy(get()) * 1.01
            set_(w)
            ctx.require(close(np.asarray(copy(get())), np.asarray(w), rtol=1e-5, atol=1e-6), 'not-set',
                        lambda: f'{name}: {what} holds {get()} after {w} was set')
            if op == 'share':
                # the same vector initialises another agent
                parametric(zs[0 if z is zs[1] else 1].agent)[k][2](w)
            c = copy(get())
            if ctx.flip('overwrite', .5):
                scribble(w, r)
                ctx.fault('overwritten')
                ctx.require(same(get(), c), 'aliased',
                            lambda: f'{name}: overwriting the vector that was set changed {what} from {c} to {get()}')
            else:
                kept.append((what, w, copy(w)))
        for what_, w, c in kept:
            ctx.require(same(w, c), 'aliased', lambda: f'{name}: a vector passed to {what_} changed from {c} to {w}')
        ctx.sim_steps += 1
    ctx.state('vectors', name, len(kept))


def component_cases(ctx):
    """(name, build, call): components that are given arrays again and again."""
    torched = ctx.flip('torch', .4)
    backend = 'torch' if torched else 'numpy'
    low = np.array([-1., -2., -np.inf]) if ctx.flip('unbounded', .5) else np.array([-1., -2., -4.])
    info = MDPInfo(Box(low, -low), Box(-np.ones(1), np.ones(1)), .9, 10) if not torched else \
        MDPInfo(Box(torch.from_numpy(low).float(), -torch.from_numpy(low).float()), Box(-torch.ones(1), torch.ones(1)), .9, 10,
                backend='torch')
    maximize = ctx.flip('maximize', .5)

    def prep(p, x):
        p.update(x)
        return p(x)

    def stat(s, x):
        s.update_stats(x)
        return s.mean
    pol = PolynomialBasis.generate(2, 3)
    cases = [('StandardizationPreprocessor', lambda: StandardizationPreprocessor(info, backend), prep, 1),
             ('MinMaxPreprocessor', lambda: MinMaxPreprocessor(info, backend), prep, 1),
             ('RunningStandardization', lambda: RunningStandardization((3,), backend), stat, 1),
             ('RunningExpWeightedAverage', lambda: RunningExpWeightedAverage((3,), .3, backend), stat, 1),
             ('RunningAveragedWindow', lambda: RunningAveragedWindow((3,), 3, backend), stat, 1)]
    if not torched:
        cases += [('SGDOptimizer', lambda: SGDOptimizer(.1, maximize), lambda o, p, g: o(p, g), 2),
                  ('AdamOptimizer', lambda: AdamOptimizer(.1, maximize=maximize), lambda o, p, g: o(p, g), 2),
                  ('AdaptiveOptimizer', lambda: AdaptiveOptimizer(.1, maximize), lambda o, p, g: o(p, g), 2),
                  ('AdaptiveOptimizer-natural', lambda: AdaptiveOptimizer(.1, maximize), lambda o, p, g, n: o(p, g, n), 3),
                  ('Features', lambda: Features(basis_list=pol), lambda o, x: o(x), 1),
                  ('Tiles', lambda: Features(tilings=Tiles.generate(2, [3, 3, 3], [-3.] * 3, [3.] * 3)), lambda o, x: o(x), 1),
                  ('GaussianRBF', lambda: Features(basis_list=GaussianRBF.generate([2, 2, 2], [-3.] * 3, [3.] * 3)),
                   lambda o, x: o(x), 1),
                  ('Box', lambda: Box(np.full(3, -1.), np.full(3, 2.)), lambda o, x: o.low + o.high + x, 1)]
    return cases, torched


def components(ctx):
    cases, torched = component_cases(ctx)
    name, build, call, n = cases[ctx.pick('component', len(cases))]
    gen = ctx.np_sub('values')
    r = ctx.sub('scribble')
    values = [[gen.uniform(-2, 2, 3) for _ in range(n)] for _ in range(ctx.int('calls', 2, 6))]
    if torched:
        values = [[torch.from_numpy(x).float() for x in v] for v in values]
    results = list()
    for hostile in (False, True):
        obj, out = build(), list()
        for v in values:
            args = [copy(x) for x in v]
            res = call(obj, *args)
            out.append(copy(res))
            ctx.require(all(same(a, b) for a, b in zip(args, v)), 'changed-argument',
                        lambda: f'{name}: an argument was changed from {v} to {args}')
            if hostile:
                for x in args + [res] * (not name.startswith('Running')):
                    if isinstance(x, torch.Tensor) or x.flags.writeable:
                        scribble(x, r)
                ctx.fault('overwritten')
        results.append(out)
    for i, (a, b) in enumerate(zip(*results)):
        ctx.require(same(a, b), 'aliased', lambda: f'{name}: call {i} returns {b} after the caller reused its arrays, else {a}')
    ctx.ev('component', name, len(values), results[0][-1])
    ctx.sim_steps += len(values)
    ctx.state(name, torched)


CHECK = Check(
    'P10', dict(agents=agents, vectors=vectors, components=components),
    quick=dict(agents=4500, vectors=2500, components=3000), thorough=dict(agents=80000, vectors=40000, components=40000),
    rule='One case = one experiment of 2-4 calls of one of the repository algorithms, executed with a caller that leaves the '
         'data alone and with one that overwrites states, actions, datasets and results once each call is over; the '
         'arguments of every draw_action and fit are compared before and after. Distinct = different event-log digest.',
    real=['every algorithm, policy, approximator, replay memory, parameter and feature class of the zoo', 'Core', 'Dataset',
          'environments'],
    stub=['the caller'],
    assumptions=['the current state and policy state are not overwritten while they are in use'])
