"""P01: the sequential interaction loop delivers every transition exactly once, in order, on the requested schedule."""
import numpy as np

from mushroom_rl.core import Core
from mushroom_rl.rl_utils.preprocessors import Preprocessor

from dst.fp import close
from dst.engine import SimFault, SimInterrupt
from dst.runner import Check
from dst.toys import (ScriptEnv, RecordingAgent, EpisodeScript, Plan, mk_info, snapshot, snap_info, to_np)


class Shift(Preprocessor):
    """Pure, invertible preprocessor: adds a constant to the last component."""

    def __init__(self, k, log):
        self.k, self.log = k, log

    def __call__(self, obs):
        if hasattr(obs, 'clone'):
            o = obs.clone()
        else:
            o = np.array(obs, dtype=float)
        o[3] += self.k
        return o

    def update(self, obs):
        self.log.append(tuple(to_np(obs).ravel().tolist()))


class FrameSink:
    all = None

    def __init__(self, fps, sink):
        self.sink = sink
        sink.append(self)
        self.frames, self.videos = [], []
        self.fps = fps

    def __call__(self, frame):
        self.frames.append(int(frame[0, 0, 0]))

    def stop(self):
        self.videos.append(self.frames)
        self.frames = []


def build(ctx):
    c = {}
    c['backends'] = ctx.choice('backends', [('numpy', 'numpy'), ('numpy', 'torch'), ('torch', 'torch'),
                                            ('torch', 'numpy'), ('list', 'numpy')])
    c['stateful'] = ctx.flip('stateful', 0.35)
    c['discrete'] = ctx.flip('discrete', 0.25)
    c['episodic'] = ctx.flip('episodic', 0.3)
    if c['backends'][0] == 'list':
        c['stateful'] = False
    c['horizon'] = ctx.choice('horizon', [3, 1, 2, 4, 6, 9, np.inf])
    c['absorb_p'] = ctx.choice('absorb_p', [0.5, 0., 1.])
    c['max_len'] = ctx.choice('max_len', [4, 1, 2, 7])
    if not np.isfinite(c['horizon']):
        c['absorb_p'] = 1.
    c['n_pre'] = ctx.pick('n_pre', 3, (5, 2, 1))
    c['n_cb'] = ctx.pick('n_cb', 4)
    c['sarsa'] = (not c['stateful']) and ctx.flip('sarsa', 0.25)
    c['info_keys'] = ctx.choice('info', ['rich', 'none'])
    if c['backends'][0] == 'list':
        c['info_keys'] = 'none'
    return c


class Session:
    def __init__(self, ctx):
        self.ctx = ctx
        c = self.c = build(ctx)
        plan = self.plan = Plan(ctx)
        info = mk_info(c['backends'][0], c['horizon'], discrete_action=c['discrete'])
        self.env = ScriptEnv(ctx, plan, info, EpisodeScript(ctx.sub('script'), c['horizon'], c['absorb_p'],
                                                            c['max_len']), info_keys=c['info_keys'])
        self.agent = RecordingAgent(ctx, plan, info, backend=c['backends'][1], stateful=c['stateful'],
                                    discrete=c['discrete'], episodic=c['episodic'])
        self.upd = list()
        self.pre = [Shift(1000. * (i + 1), self.upd) for i in range(c['n_pre'])]
        for p in self.pre:
            self.agent.add_core_preprocessor(p)
        self.trace = self.agent.trace
        self.sarsa_tags = {}
        if c['sarsa']:
            self.agent.touch = self._sarsa
        self.sinks = list()
        self.core = Core(self.agent, self.env, callbacks_fit=[self._mk_cb(j) for j in range(c['n_cb'])],
                         callback_step=self._step_cb,
                         record_dictionary=dict(recorder_class=FrameSink, sink=self.sinks, fps=7))
        self.sink = self.sinks[0]

    def _sarsa(self, dataset):
        k = len(self.sarsa_tags) + 1
        a = np.array([k % 7]) if self.c['discrete'] else np.array([-float(k), 1.])
        if self.c['backends'][1] == 'torch':
            import torch
            a = torch.as_tensor(a)
        self.sarsa_tags[len(self.env.ledger)] = tuple(float(x) for x in to_np(a))
        self.agent.next_action = a

    def _mk_cb(self, j):
        def cb(dataset):
            self.plan.hit(f'callback')
            self.trace.append(('cb', j, snapshot(dataset), snap_info(dataset)))
        return cb

    def _step_cb(self, sample):
        self.plan.hit('callback_step')
        s, a, r, ns, ab, last = sample[:6]
        self.trace.append(('stepcb', (tuple(to_np(s).ravel().tolist()),
                                      tuple(np.atleast_1d(to_np(a)).astype(float).ravel().tolist()), float(r),
                                      tuple(to_np(ns).ravel().tolist()), bool(ab), bool(last))))

    def P(self, raw):
        v = list(raw)
        for i in range(self.c['n_pre']):
            v[3] += 1000. * (i + 1)
        return tuple(v)

    # --------------------------------------------------------------- one public call
    def call(self):
        ctx, c = self.ctx, self.c
        finite = np.isfinite(c['horizon'])
        mode = ctx.choice('mode', ['learn', 'evaluate'])
        par = {}
        init = None
        if mode == 'learn':
            if ctx.flip('fit-by-episodes', 0.45) and finite and not c['sarsa']:
                par['n_episodes_per_fit'] = ctx.int('n_episodes_per_fit', 1, 4)
            else:
                par['n_steps_per_fit'] = 1 if c['sarsa'] else ctx.int('n_steps_per_fit', 1, 7)
            if ctx.flip('by-episodes', 0.5):
                par['n_episodes'] = ctx.int('n_episodes', 1, 9)
            else:
                par['n_steps'] = ctx.int('n_steps', 1, 30)
        else:
            k = ctx.pick('evalmode', 3 if finite else 1)
            if k == 0:
                par['n_steps'] = ctx.int('n_steps', 1, 25)
            elif k == 1:
                par['n_episodes'] = ctx.int('n_episodes', 1, 7)
            else:
                n = ctx.int('n_init', 1, 5)
                init = np.array([[7000. + 10 * len(self.env.ledger) + i, -1., -1., i] for i in range(n)])
                if c['backends'][0] == 'torch':
                    import torch
                    init = torch.as_tensor(init)
                par['initial_states'] = init
        record = ctx.flip('record', 0.2)
        if record:
            par.update(render=True, record=True)
        self.plan.disarm()
        if ctx.flip('inject', 0.35):
            op = ctx.choice('op', ['env.step', 'env.reset', 'agent.draw', 'agent.fit', 'callback', 'callback_step',
                                   'agent.episode_start', 'env.render', 'env.stop', 'agent.stop'])
            self.plan.arm(op, ctx.int('when', 1, 12), ctx.choice('what', ['error', 'interrupt']))
        l0, t0, p0, u0 = len(self.env.ledger), len(self.trace), len(self.agent.policy.log), len(self.upd)
        th0, es0, r0 = self.agent.n_theta, len(self.agent.episode_starts), self.agent.policy.resets
        st0 = (self.env.stops, self.agent.stops, len(self.sink.videos), len(self.sink.frames))
        aborted, res = False, None
        try:
            res = getattr(self.core, mode)(quiet=True, **par)
        except (SimFault, SimInterrupt):
            aborted = True
        self.plan.disarm()
        ctx.ev('call', mode, sorted((k, v) for k, v in par.items() if k != 'initial_states'), aborted)
        ctx.probe('calls')
        if aborted:
            ctx.probe('aborted-calls')
        self.verify(mode, par, init, self.env.ledger[l0:], l0, self.trace[t0:], self.agent.policy.log[p0:],
                    self.upd[u0:], th0, self.agent.episode_starts[es0:], r0, st0, aborted, res, record)

    def verify(self, mode, par, init, ledger, l0, trace, plog, upd, th0, starts, r0, st0, aborted, res, record):
        ctx, c, P = self.ctx, self.c, self.P
        H = c['horizon']
        # ---- 1. what the environment saw defines the expected sample stream
        exp, need_reset, cur, ep, thetas, resets = list(), True, None, 0, list(), 0
        act_i = 0
        expected_updates = list()
        raw_resets = list()
        for off, e in enumerate(ledger):
            if e[0] == 'reset':
                ctx.require(need_reset, 'spurious-reset', lambda: f'environment reset in the middle of an episode: {ledger}')
                if init is not None:
                    want = tuple(float(v) for v in to_np(init[ep]))
                    ctx.require(e[1] == want, 'wrong-initial-state',
                                lambda: f'episode {ep} started from {e[1]}, requested {want}')
                else:
                    ctx.require(e[1] is None, 'unrequested-initial-state', lambda: f'{e}')
                ep += 1
                resets += 1
                t = 0
                need_reset = False
                cur = e[2]
                raw_resets.append(e[2])
                expected_updates.append(e[2])
            elif e[0] == 'step':
                ctx.require(not need_reset, 'step-without-reset',
                            'environment stepped after the end of an episode without a reset')
                t += 1
                ctx.require(e[1] == cur, 'env-model', 'internal')
                absorbing = e[5]
                last = absorbing or t >= H
                prev_e = ledger[off - 1]
                tag = self.sarsa_tags.get(l0 + off)
                if tag is not None and prev_e[0] == 'step':
                    ctx.require(e[2] == tag, 'next-action-ignored',
                                lambda: f'agent chose next action {tag}, environment executed {e[2]}')
                else:
                    ctx.require(act_i < len(plog), 'stale-action',
                                'an action was executed that the policy did not draw for the current state')
                    s, a, ps = plog[act_i]
                    act_i += 1
                    ctx.require(a == e[2], 'wrong-action', lambda: f'policy drew {a}, environment executed {e[2]}')
                    ctx.require(s == P(e[1]), 'policy-saw-wrong-state',
                                lambda: f'policy was given {s}, the current (preprocessed) state is {P(e[1])}')
                    if c['stateful']:
                        ctx.require(ps == (float(r0 + resets), float(t - 1)), 'policy-state',
                                    lambda: f'policy state {ps} at step {t} of episode {r0 + resets}')
                exp.append(dict(s=P(e[1]), a=e[2], r=e[3], ns=P(e[4]), ab=absorbing, last=last, uid=e[4][0], ep=ep,
                                ps=(float(r0 + resets), float(t - 1)), nps=(float(r0 + resets), float(t)), t=t))
                expected_updates.append(e[4])
                cur = e[4]
                need_reset = last
        # ---- 2. run length
        n_eps = sum(1 for x in exp if x['last'])
        if not aborted:
            if 'n_steps' in par:
                ctx.require(len(exp) == par['n_steps'], 'wrong-run-length',
                            lambda: f'asked for {par["n_steps"]} steps, environment executed {len(exp)}')
            else:
                want = par.get('n_episodes', None)
                if want is None:
                    want = len(init)
                ctx.require(n_eps == want and (not exp or exp[-1]['last']), 'wrong-run-length',
                            lambda: f'asked for {want} episodes, completed {n_eps}')
            ctx.require(self.env.stops - st0[0] == 1 and self.agent.stops - st0[1] == 1, 'stop-hooks',
                        lambda: f'stop hooks called {self.env.stops - st0[0]}/{self.agent.stops - st0[1]} times')
        else:
            bound = par.get('n_steps')
            ctx.require(bound is None or len(exp) <= bound, 'wrong-run-length', 'too many steps')
        # ---- 3. episode starts are announced to the agent with the (raw) initial state
        n_st = len(starts)
        ctx.require(starts == raw_resets[:n_st] and (aborted or n_st == len(raw_resets)), 'episode-start',
                    lambda: f'agent was told about episode starts {starts}, environment did {raw_resets}')
        # ---- 4. preprocessors saw every state exactly once (first preprocessor's argument is the raw state)
        if c['n_pre']:
            k = c['n_pre']
            got = upd[::k] if len(upd) % k == 0 else upd
            tol = 1 if aborted else 0
            ctx.require(got == expected_updates[:len(got)] and len(expected_updates) - len(got) <= tol,
                        'preprocessor-updates', lambda: f'preprocessor updated with {got}, states were {expected_updates}')
        # ---- 5. step callbacks, fits, fit callbacks
        si, fi, pend, open_cbs = 0, 0, list(), None
        chunk_start = 0
        fits = list()
        last_fit = None
        for ev in trace:
            if ev[0] == 'stepcb':
                ctx.require(open_cbs is None or open_cbs == c['n_cb'], 'callback-missing', 'a fit callback was skipped')
                ctx.require(si < len(exp), 'ghost-sample', 'callback_step got a sample the environment never produced')
                x = exp[si]
                want = (x['s'], x['a'], x['r'], x['ns'], x['ab'], x['last'])
                ctx.require(ev[1] == want, 'step-callback-sample', lambda: f'callback_step got {ev[1]}, expected {want}')
                si += 1
                open_cbs = None
            elif ev[0] == 'fit':
                snap = ev[1]
                ctx.require(mode == 'learn', 'fit-in-evaluate', 'the agent was fitted by evaluate')
                ctx.require(open_cbs is None, 'callback-missing', 'two fits without callbacks in between')
                chunk = exp[chunk_start:si]
                self.same(snap, chunk, 'fit')
                if 'n_steps_per_fit' in par:
                    ctx.require(len(chunk) == par['n_steps_per_fit'], 'fit-schedule',
                                lambda: f'fit with {len(chunk)} steps, requested {par["n_steps_per_fit"]}')
                else:
                    k = par['n_episodes_per_fit']
                    ctx.require(sum(x['last'] for x in chunk) == k and chunk[-1]['last'], 'fit-schedule',
                                lambda: f'fit with {sum(x["last"] for x in chunk)} episodes, requested {k}')
                fits.append(chunk)
                if c['episodic']:
                    self.thetas(snap, chunk, th0)
                last_fit = chunk
                chunk_start = si
                open_cbs = 0
            else:
                ctx.require(open_cbs == ev[1], 'callback-order',
                            lambda: f'fit callback {ev[1]} called out of order (expected {open_cbs})')
                self.same(ev[2], last_fit, 'callback')
                self.infos(ev[3], last_fit, 'callback')
                open_cbs += 1
        if not aborted:
            ctx.require(si == len(exp), 'lost-sample', 'callback_step did not see every sample')
            ctx.require(open_cbs is None or open_cbs == c['n_cb'], 'callback-missing', 'a fit callback was skipped')
            if mode == 'learn':
                if 'n_steps_per_fit' in par:
                    want = len(exp) // par['n_steps_per_fit']
                else:
                    want = n_eps // par['n_episodes_per_fit']
                ctx.require(len(fits) == want, 'fit-count', lambda: f'{len(fits)} fits, expected {want}')
                ctx.probe('fits', len(fits))
            else:
                snap = snapshot(res)
                self.same(snap, exp, 'evaluate')
                if c['episodic']:
                    self.thetas(snap, exp, th0)
                self.infos({k: [np.atleast_1d(to_np(v)).ravel().astype(float).tolist() for v in res.info[k]]
                            for k in sorted(res.info.data.keys())}, exp, 'evaluate')
                self.metrics(res, exp)
            if record:
                want = [int(x['uid']) % 251 for x in exp]
                vids = self.sink.videos[st0[2]:]
                pre = st0[3]
                ctx.require(len(vids) == 1 and vids[0][pre:] == want, 'recording',
                            lambda: f'recorded {vids}, expected {want}')
        ctx.state(mode, tuple(sorted(par.keys())), aborted, len(fits), min(n_eps, 4), c['horizon'], c['backends'],
                  c['stateful'], c['episodic'], bool(exp and exp[-1]['last']), len(exp) % 5)

    def same(self, snap, exp, where):
        ctx = self.ctx
        ctx.require(snap['n'] == len(exp), 'sample-count',
                    lambda: f'{where} dataset has {snap["n"]} samples, {len(exp)} were collected')
        for i, x in enumerate(exp):
            got = (snap['state'][i], snap['action'][i], snap['reward'][i], snap['next_state'][i],
                   snap['absorbing'][i], snap['last'][i])
            want = (x['s'], x['a'], x['r'], x['ns'], x['ab'], x['last'])
            if where == 'callback' and self.c.get('fit_mutates'):
                continue
            ctx.require(got == want, 'wrong-sample', lambda: f'{where} sample {i} is {got}, expected {want}')
            if self.c['stateful']:
                g = (snap['ps'][i], snap['nps'][i])
                ctx.require(g == (x['ps'], x['nps']), 'policy-state',
                            lambda: f'{where} policy states of sample {i} are {g}, expected {(x["ps"], x["nps"])}')

    def thetas(self, snap, exp, th0):
        # one theta for every episode that started inside this dataset, in order
        want = [(float(th0 + x['ep']), 0.5) for x in exp if x['t'] == 1]
        self.ctx.require(snap['theta'] == want, 'theta-list',
                         lambda: f'dataset carries policy parameters {snap["theta"]}, episodes used {want}')

    def infos(self, info, exp, where):
        if self.c['info_keys'] == 'none':
            self.ctx.require(not info, 'step-info', f'{info}')
            return
        want = {'uid': [[x['uid']] for x in exp], 'nested_twice': [[2 * x['uid']] for x in exp]}
        if self.c['backends'][0] != 'list':
            want['vec'] = [[x['uid'] + 0.25, -x['uid']] for x in exp]
        self.ctx.require(info == want, 'step-info', lambda: f'{where} step info {info}, expected {want}')

    def metrics(self, res, exp):
        ctx = self.ctx
        J, G, L, j, g, n, init = list(), list(), list(), 0., 0., 0, list()
        gamma = 0.9
        for x in exp:
            if n == 0:
                init.append(x['s'])
            j += x['r']
            g += gamma ** n * x['r']
            n += 1
            if x['last']:
                J.append(j); G.append(g); L.append(n)
                j, g, n = 0., 0., 0
        full = len(J)
        Jf, Gf = (J + [j], G + [g]) if n else (J, G)
        got = [float(v) for v in np.atleast_1d(to_np(res.undiscounted_return))]
        ctx.require(close(got, Jf), 'returns', lambda: f'{got} vs {Jf}')
        got = [float(v) for v in np.atleast_1d(to_np(res.discounted_return))]
        ctx.require(close(got, Gf), 'discounted-returns', lambda: f'{got} vs {Gf}')
        if self.c['backends'][0] != 'list':
            got = [int(v) for v in np.atleast_1d(to_np(res.episodes_length))]
            ctx.require(got == L, 'episodes-length', lambda: f'{got} vs {L}')
            got = [tuple(to_np(v).ravel().tolist()) for v in res.get_init_states()] if full + bool(n) > 1 or \
                self.c['backends'][0] == 'numpy' else init
            ctx.require(got == init, 'init-states', lambda: f'{got} vs {init}')
            if full and self.c['backends'][0] == 'numpy':
                m = res.compute_metrics(1.)
                ctx.require(close([float(m[0]), float(m[1]), float(m[2]), int(m[4])],
                                        [min(J), max(J), np.mean(J), full]), 'metrics', lambda: f'{m} vs {J}')
        ctx.require(int(res.n_episodes) == full + bool(n), 'n-episodes', lambda: f'{res.n_episodes} vs {full}+{bool(n)}')


def history(ctx):
    ctx.budget = 5000
    s = Session(ctx)
    for _ in range(ctx.int('n-calls', 1, 5)):
        s.call()


def vectorized(ctx):
    """The same promises for the loop over parallel environments."""
    from props import p02
    p02.history(ctx)


CHECK = Check(
    'P01', dict(history=history, vectorized=vectorized), quick=dict(history=16000, vectorized=4000),
    thorough=dict(history=600000, vectorized=150000),
    rule='One case = one Core (or VectorCore with 2-7 environments) driven through 1-5 learn/evaluate calls; environment termination pattern, '
         'horizon, budgets, fit period, backends, policy state, callbacks, recording and the injected failure are '
         'drawn from the seed. Distinct = different event-log digest.',
    real=['mushroom_rl.core.Core and VectorCore', 'CoreLogic, VectorizedCoreLogic', 'Dataset/NumpyDataset/TorchDataset/ListDataset', 'ExtraInfo',
          'Agent.draw_action/episode_start', 'ArrayBackend conversions'],
    stub=['environment (scripted)', 'policy and fit (recording)', 'video recorder (frame sink)'],
    assumptions=['environments return fresh arrays', 'preprocessors are pure functions'])
