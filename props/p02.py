"""P02: the vectorised interaction loop: exactly-once delivery per environment, exact budgets, masking, progress."""
import numpy as np

from mushroom_rl.core import VectorCore
from mushroom_rl.rl_utils.preprocessors import Preprocessor

from dst.fp import close
from dst.engine import SimFault, SimInterrupt
from dst.runner import Check
from dst.toys import (VecScriptEnv, VecRecordingAgent, EpisodeScript, Plan, mk_info, snapshot, snap_info, to_np)


class VShift(Preprocessor):
    def __call__(self, obs):
        o = obs.clone() if hasattr(obs, 'clone') else np.array(obs, dtype=float)
        o[..., 3] += 1000.
        return o


class Session:
    def __init__(self, ctx):
        self.ctx = ctx
        c = self.c = {}
        c['backends'] = ctx.choice('backends', [('numpy', 'numpy'), ('torch', 'torch'), ('numpy', 'torch'),
                                                ('torch', 'numpy')])
        c['n'] = ctx.choice('n_envs', [3, 2, 4, 5, 7])
        c['stateful'] = ctx.flip('stateful', 0.3)
        c['episodic'] = ctx.flip('episodic', 0.35)
        c['horizon'] = ctx.choice('horizon', [4, 1, 2, 3, 6, 9, np.inf])
        c['absorb_p'] = ctx.choice('absorb_p', [0.6, 0., 1.]) if np.isfinite(c['horizon']) else 1.
        c['max_len'] = ctx.choice('max_len', [4, 1, 2, 7])
        c['pre'] = ctx.flip('pre', 0.25)
        c['n_cb'] = ctx.pick('n_cb', 3)
        c['info'] = 'sparse' if ctx.flip('sparse-info', .3) else 'rich'
        plan = self.plan = Plan(ctx)
        info = mk_info(c['backends'][0], c['horizon'])
        scripts = [EpisodeScript(ctx.sub('script'), c['horizon'], c['absorb_p'], c['max_len']) for _ in range(c['n'])]
        self.env = self.make_env(ctx, plan, info, scripts)
        self.agent = VecRecordingAgent(ctx, plan, info, c['n'], backend=c['backends'][1], stateful=c['stateful'],
                                       episodic=c['episodic'])
        if c['pre']:
            self.agent.add_core_preprocessor(VShift())
        self.trace = self.agent.trace
        self.core = VectorCore(self.agent, self.env, callbacks_fit=[self._mk_cb(j) for j in range(c['n_cb'])],
                               callback_step=self._step_cb, record_dictionary=dict(fps=5))

    def make_env(self, ctx, plan, info, scripts):
        return VecScriptEnv(ctx, plan, info, scripts, self.c['info'])

    def envs(self):
        return self.env.envs

    def _mk_cb(self, j):
        def cb(dataset):
            self.plan.hit('callback')
            if hasattr(dataset, 'mask'):
                dataset = dataset.flatten()
            self.trace.append(('cb', j, snapshot(dataset)))
        return cb

    def _step_cb(self, samples):
        self.plan.hit('callback_step')
        self.trace.append(('stepcb', tuple(len(e.ledger) for e in self.envs())))

    def P(self, raw):
        v = list(raw)
        if self.c['pre']:
            v[3] += 1000.
        return tuple(v)

    def call(self):
        ctx, c = self.ctx, self.c
        finite = np.isfinite(c['horizon'])
        mode = ctx.choice('mode', ['learn', 'evaluate'])
        par = {}
        init = None
        if mode == 'learn':
            if ctx.flip('fit-by-episodes', 0.5) and finite:
                par['n_episodes_per_fit'] = ctx.int('n_episodes_per_fit', 1, 9)
            else:
                par['n_steps_per_fit'] = ctx.int('n_steps_per_fit', 1, 16)
            if ctx.flip('by-episodes', 0.5):
                par['n_episodes'] = ctx.int('n_episodes', 1, 16)
            else:
                par['n_steps'] = ctx.int('n_steps', 1, 60)
        else:
            if finite and ctx.flip('eval-episodes', 0.6):
                par['n_episodes'] = ctx.int('n_episodes', 1, 14)
                if ctx.flip('initial-states', 0.35):
                    base = 7000. + 10 * sum(len(e.ledger) for e in self.envs())
                    init = np.array([[base + i, -1., -1., i] for i in range(par['n_episodes'])])
                    if c['backends'][0] == 'torch':
                        import torch
                        init = torch.as_tensor(init)
                    ctx.probe('initial-states')
            else:
                par['n_steps'] = ctx.int('n_steps', 1, 40)
        self.plan.disarm()
        if ctx.flip('inject', 0.25):
            op = ctx.choice('op', ['env.step', 'env.reset', 'agent.draw', 'agent.fit', 'callback', 'callback_step',
                                   'agent.episode_start', 'env.stop', 'agent.stop'])
            self.plan.arm(op, ctx.int('when', 1, 10), ctx.choice('what', ['error', 'interrupt']))
        e0 = [len(e.ledger) for e in self.envs()]
        t0, p0, s0, r0 = len(self.trace), len(self.agent.policy.log), len(self.agent.starts), self.agent.policy.resets
        th0, st0 = self.agent.theta_calls, (self.env.stops, self.agent.stops)
        aborted, res = False, None
        ctx.ev('call', mode, sorted(par.items()))
        try:
            kw = par if init is None else dict(initial_states=init)
            res = getattr(self.core, mode)(quiet=True, **kw)
        except (SimFault, SimInterrupt):
            aborted = True
        self.plan.disarm()
        ctx.probe('calls')
        if aborted:
            ctx.probe('aborted-calls')
        used = sorted(e[1] for i, en in enumerate(self.envs()) for e in en.ledger[e0[i]:]
                      if e[0] == 'reset' and e[1] is not None)
        want = [] if init is None else [tuple(float(v) for v in r) for r in to_np(init)]
        if aborted:
            ctx.require(len(set(used)) == len(used) and set(used) <= set(want), 'wrong-initial-state',
                        lambda: f'episodes started in {used}, requested {want}')
        else:
            ctx.require(used == sorted(want), 'wrong-initial-state',
                        lambda: f'episodes started in {used}, requested {want}')
        self.verify(mode, par, e0, t0, p0, s0, r0, th0, st0, aborted, res)

    def verify(self, mode, par, e0, t0, p0, s0, r0, th0, st0, aborted, res):
        ctx, c, P = self.ctx, self.c, self.P
        H, n = c['horizon'], c['n']
        led = [e.ledger[e0[i]:] for i, e in enumerate(self.envs())]
        plog, trace = self.agent.policy.log[p0:], self.trace[t0:]
        starts = self.agent.starts[s0:]
        # ---- per-environment streams
        stream = [list() for _ in range(n)]
        n_resets = [0] * n
        start_rows = [[k for k, st in enumerate(starts) if st[0][i]] for i in range(n)]
        for i in range(n):
            need, t, cur, ep = True, 0, None, 0
            for e in led[i]:
                if e[0] == 'reset':
                    ctx.require(need, 'spurious-reset', lambda: f'environment {i} reset in the middle of an episode')
                    need, t, cur = False, 0, e[2]
                    ep += 1
                    n_resets[i] += 1
                elif e[0] == 'step':
                    ctx.require(not need, 'step-without-reset',
                                lambda: f'environment {i} stepped after its episode ended without reset')
                    t += 1
                    last = e[5] or t >= H
                    # the action must be row i of a policy draw, made for this very state
                    call = int(e[2][0])
                    k = call - 1 - (self.agent.policy.calls - len(self.agent.policy.log)) - p0
                    ctx.require(0 <= k < len(plog), 'wrong-action', lambda: f'environment {i} executed {e[2]}')
                    s, a, ps = plog[k]
                    ctx.require(tuple(a[i]) == e[2], 'wrong-action',
                                lambda: f'environment {i} executed {e[2]}, policy drew {a[i]} for it')
                    ctx.require(tuple(s[i]) == P(e[1]), 'policy-saw-wrong-state',
                                lambda: f'policy was given {s[i]} for environment {i}, current state {P(e[1])}')
                    ps_want = None
                    if c['stateful'] and ep <= len(start_rows[i]):
                        ps_want = (float(r0 + start_rows[i][ep - 1] + 1), float(t - 1))
                        ctx.require(tuple(ps[i]) == ps_want, 'policy-state',
                                    lambda: f'policy state {ps[i]} for environment {i}, expected {ps_want}')
                    stream[i].append(dict(s=P(e[1]), a=e[2], r=e[3], ns=P(e[4]), ab=e[5], last=last, uid=e[4][0],
                                          env=i, ep=ep, t=t, k=k, ps=ps_want,
                                          nps=None if ps_want is None else (ps_want[0], ps_want[1] + 1)))
                    need, cur = last, e[4]
        total = sum(len(s) for s in stream)
        n_eps = sum(x['last'] for s in stream for x in s)
        ctx.probe('samples', total)
        # ---- run length
        if not aborted:
            if 'n_steps' in par:
                N = par['n_steps']
                kmax = max((x['k'] for s in stream for x in s), default=-1)
                final = sum(1 for s in stream for x in s if x['k'] == kmax)
                ctx.require(total >= N and total - final < N, 'wrong-run-length',
                            lambda: f'asked for {N} steps, executed {total} ({final} in the last parallel step)')
            else:
                N = par['n_episodes']
                ctx.require(n_eps == N, 'wrong-run-length', lambda: f'asked for {N} episodes, completed {n_eps}')
                ctx.require(all(not s or s[-1]['last'] for s in stream), 'wrong-run-length',
                            'a run over episodes left an episode unfinished')
            ctx.require(self.env.stops - st0[0] == 1 and self.agent.stops - st0[1] == 1, 'stop-hooks', 'stop hooks')
        else:
            ctx.require('n_episodes' not in par or n_eps <= par['n_episodes'], 'wrong-run-length', 'too many episodes')
        # ---- episode starts
        for i in range(n):
            told = [tuple(starts[k][1][i]) for k in start_rows[i]]
            did = [e[2] for e in led[i] if e[0] == 'reset']
            ctx.require(told == did[:len(told)] and (aborted or len(told) == len(did)), 'episode-start',
                        lambda: f'environment {i}: agent told {told}, environment reset to {did}')
        # ---- fits and callbacks
        done = [0] * n          # samples of each env already delivered to a fit
        nfit, open_cbs, last_snap = 0, None, None
        seen = [0] * n
        for ev in trace:
            if ev[0] == 'stepcb':
                ctx.require(open_cbs in (None, c['n_cb']), 'callback-missing', 'a fit callback was skipped')
                open_cbs = None
                if 'n_steps_per_fit' in par:
                    lag = sum(seen) - sum(done)
                    ctx.require(lag < par['n_steps_per_fit'], 'fit-schedule',
                                lambda: f'{lag} samples waited for a fit of {par["n_steps_per_fit"]} steps')
                seen = [sum(1 for e in led[i][:ev[1][i] - e0[i]] if e[0] == 'step') for i in range(n)]
            elif ev[0] == 'fit':
                ctx.require(mode == 'learn', 'fit-in-evaluate', 'the agent was fitted by evaluate')
                ctx.require(open_cbs in (None, c['n_cb']), 'callback-missing', 'two fits without callbacks')
                nfit += 1
                snap, inf = ev[1], ev[2]
                segs = self.segments(snap, inf, stream, done, 'fit')
                new = list(done)
                for (i, a, b) in segs:
                    new[i] = max(new[i], b)
                ctx.require(all(new[i] <= seen[i] for i in range(n)), 'ghost-sample', 'fit saw samples of the future')
                if 'n_steps_per_fit' in par:
                    ctx.require(snap['n'] == par['n_steps_per_fit'], 'fit-schedule',
                                lambda: f'fit with {snap["n"]} steps, requested {par["n_steps_per_fit"]}')
                else:
                    k = par['n_episodes_per_fit']
                    ctx.require(new == seen, 'lost-sample',
                                lambda: f'fit delivered {new} samples per environment, {seen} were collected')
                    eps = sum(x['last'] for i in range(n) for x in stream[i][done[i]:new[i]])
                    ctx.require(eps == k, 'fit-schedule', lambda: f'fit with {eps} episodes, requested {k}')
                    if c['episodic']:
                        self.thetas(snap, segs, stream, start_rows, th0)
                done = new
                open_cbs = 0
                last_snap = snap
            else:
                ctx.require(open_cbs == ev[1], 'callback-order', lambda: f'callback {ev[1]} out of order')
                open_cbs += 1
                ctx.require({k: v for k, v in ev[2].items() if k != 'theta'} ==
                            {k: v for k, v in last_snap.items() if k != 'theta'}, 'callback-dataset',
                            lambda: f'fit callback got {ev[2]["n"]} samples, the fit had {last_snap["n"]}')
        if not aborted:
            ctx.require(open_cbs in (None, c['n_cb']), 'callback-missing', 'a fit callback was skipped')
            if mode == 'learn':
                if 'n_steps_per_fit' in par:
                    want = total // par['n_steps_per_fit']
                else:
                    want = n_eps // par['n_episodes_per_fit']
                ctx.require(nfit == want, 'fit-count', lambda: f'{nfit} fits, expected {want}')
                ctx.probe('fits', nfit)
            else:
                snap = snapshot(res)
                inf = {k: [np.atleast_1d(to_np(v)).ravel().astype(float).tolist() for v in res.info[k]]
                       for k in sorted(res.info.data.keys())}
                segs = self.segments(snap, inf, stream, [0] * n, 'evaluate')
                got = [sum(b - a for (i, a, b) in segs if i == j) for j in range(n)]
                ctx.require(got == [len(s) for s in stream], 'lost-sample',
                            lambda: f'evaluate returned {got} samples per environment, {[len(s) for s in stream]} collected')
                if c['episodic']:
                    self.thetas(snap, segs, stream, start_rows, th0)
                # public metrics over episodes
                J = list()
                for (i, a, b) in segs:
                    J.append(sum(x['r'] for x in stream[i][a:b]))
                got = np.atleast_1d(to_np(res.undiscounted_return)).astype(float)
                ctx.require(len(got) == len(J) and close(got, J), 'returns', lambda: f'{got} vs {J}')
                L = [int(v) for v in np.atleast_1d(to_np(res.episodes_length))]
                ctx.require(L == [b - a for (i, a, b) in segs], 'episodes-length', lambda: f'{L} vs {segs}')
                # a further view of the returned dataset keeps samples and step information aligned
                if snap['n'] > 1:
                    h = snap['n'] // 2
                    v = res[h:]
                    vi = {k: [np.atleast_1d(to_np(x)).ravel().astype(float).tolist() for x in v.info[k]]
                          for k in sorted(v.info.data.keys())}
                    ctx.require(repr({k: x[h:] for k, x in inf.items()}) == repr(vi) and len(v) == snap['n'] - h, 'view-info',
                                lambda: f'view of the evaluation dataset lost its step information: {vi}')
        ctx.state(mode, tuple(sorted(par)), aborted, min(nfit, 5), min(n_eps, 6), c['horizon'], n, c['backends'],
                  tuple(sorted(len(s) % 3 for s in stream)), total % 4)

    def segments(self, snap, inf, stream, done, where):
        """Split a delivered dataset into fragments of single environments; every fragment must continue the
        stream of its environment exactly where the previous delivery ended."""
        ctx, c = self.ctx, self.c
        ctx.require(len(snap['state']) == snap['n'] == len(snap['reward']) == len(snap['last']), 'sample-count', 'len')
        index = {}
        for s in stream:
            for k, x in enumerate(s):
                index[x['s'] + x['ns']] = (x['env'], k)
        pos = list(done)
        segs, start = list(), None
        for j in range(snap['n']):
            key = snap['state'][j] + snap['next_state'][j]
            ctx.require(key in index, 'ghost-sample',
                        lambda: f'{where}: sample {j} ({snap["state"][j]} -> {snap["next_state"][j]}) was never produced')
            i, k = index[key]
            x = stream[i][k]
            ctx.require(k == pos[i], 'duplicated-or-lost-sample',
                        lambda: f'{where}: sample {j} is number {k} of environment {i}, expected number {pos[i]}')
            got = (snap['action'][j], snap['reward'][j], snap['absorbing'][j])
            ctx.require(got[0] == x['a'] and abs(got[1] - x['r']) < 1e-4 and got[2] == x['ab'], 'wrong-sample',
                        lambda: f'{where}: sample {j} is {got}, expected {(x["a"], x["r"], x["ab"])}')
            if c['stateful']:
                ctx.require('ps' in snap and (snap['ps'][j], snap['nps'][j]) == (x['ps'], x['nps']), 'policy-state',
                            lambda: f'{where}: policy states of sample {j}: '
                                    f'{(snap["ps"][j], snap["nps"][j]) if "ps" in snap else None}, '
                                    f'expected {(x["ps"], x["nps"])}')
            if start is None:
                start = (i, k)
            ctx.require(start[0] == i, 'mixed-trajectory',
                        lambda: f'{where}: sample {j} of environment {i} continues a trajectory of environment {start[0]}')
            pos[i] += 1
            if snap['last'][j]:
                segs.append((i, start[1], k + 1))
                start = None
            else:
                ctx.require(not x['last'], 'last-flag', lambda: f'{where}: sample {j} ends an episode but is not flagged')
        ctx.require(start is None, 'last-flag', f'{where}: the dataset ends inside a trajectory without a last flag')
        for idx, (i, a, b) in enumerate(segs):
            if not stream[i][b - 1]['last']:
                ctx.require(pos[i] == b, 'last-flag',
                            lambda: f'{where}: environment {i} flagged last in the middle of an episode')
        if c['info'] == 'sparse':
            told = [x['uid'] + .5 if x['uid'] % 7 == 0 else None for (i, a, b) in segs for x in stream[i][a:b]]
            got = inf.get('event', [[np.nan]] * len(told))
            ctx.require(set(inf) <= {'event'} and len(got) == len(told) and
                        all(g == [t] if t is not None else np.isnan(g).all() for g, t in zip(got, told)), 'step-info',
                        lambda: f'{where}: step info {inf}, expected {told}')
            return segs
        want = {'uid': [], 'nested_twice': [], 'vec': []}
        for (i, a, b) in segs:
            for x in stream[i][a:b]:
                want['uid'].append([x['uid']]); want['nested_twice'].append([2 * x['uid']])
                want['vec'].append([x['uid'] + .25, -x['uid']])
        ctx.require(inf == want, 'step-info', lambda: f'{where}: step info {inf}, expected {want}')
        return segs

    def thetas(self, snap, segs, stream, start_rows, th0):
        want = list()
        for (i, a, b) in segs:
            want.append((float(th0 + start_rows[i][stream[i][a]['ep'] - 1] + 1), float(i)))
        self.ctx.require(snap['theta'] == want, 'theta-list',
                         lambda: f'policy parameters {snap["theta"]} do not match the episodes {want}')


def history(ctx):
    ctx.budget = 4000
    s = Session(ctx)
    for _ in range(ctx.int('n-calls', 1, 4)):
        s.call()


def single(ctx):
    """The same promises for the loop over one environment."""
    from props import p01
    p01.history(ctx)


CHECK = Check(
    'P02', dict(history=history, single=single), quick=dict(history=6000, single=6000),
    thorough=dict(history=250000, single=200000),
    rule='One case = one VectorCore (or Core) driven through 1-4 learn/evaluate calls over 2-7 scripted environments; per '
         'environment termination patterns, budgets, fit periods, backends, policy state and the injected failure '
         'come from the seed. Distinct = different event-log digest.',
    real=['mushroom_rl.core.VectorCore and Core', 'VectorizedCoreLogic, CoreLogic', 'VectorizedDataset', 'ExtraInfo', 'Agent'],
    stub=['environments (scripted)', 'policy and fit (recording)'],
    assumptions=['environments return fresh arrays', 'video recording is not used with VectorCore'])
