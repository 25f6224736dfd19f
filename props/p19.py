"""P19: a recording holds exactly the frames of the steps of its environment, in order, in a video of its own."""
import gc
import os
import pathlib
import shutil
import tempfile

import cv2
import numpy as np

import mushroom_rl.utils.record as record_module
from mushroom_rl.core import Agent, Core, Environment, MDPInfo, MultiprocessEnvironment, VectorCore, VectorizedEnvironment
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box

from dst.engine import SimFault
from dst.runner import Check
from dst.simproc import SimKernel

H, W = 4, 6


class Hub:
    """Out-of-band record of what every environment did (never part of the memory of a simulated process)."""
    _sim_shared = True

    def __init__(self, kernel):
        self.kernel = kernel
        self.log = dict()
        self.made = 0
        self.fail = None

    def who(self):
        if self.kernel is not None and self.kernel.cur.pid:
            return self.kernel.cur.pid - 1
        self.made += 1
        return self.made - 1

    def op(self, i, *what):
        if self.fail is not None and what[0] == self.fail[0]:
            self.fail[1] -= 1
            if self.fail[1] < 0:
                self.fail = None
                raise SimFault(what[0])
        self.log.setdefault(i, []).append(what)


class Cam(Environment):
    """An environment with a camera: the image tells the environment and the step."""
    def __init__(self, hub, horizon, dt, seed):
        self._hub, self._id = hub, hub.who()
        self._rs = np.random.RandomState(seed + 17 * self._id)
        self._k, self._left = 0, 0
        self._frame = np.zeros((H, W, 3), dtype=np.uint8)
        super().__init__(MDPInfo(Box(-1, 1, shape=(1,)), Box(-1, 1, shape=(1,)), .9, horizon, dt=dt))

    def reset(self, state=None):
        self._hub.op(self._id, 'reset')
        self._left = 1 + self._rs.randint(6)
        return np.zeros(1), {}

    def step(self, action):
        self._hub.op(self._id, 'step', self._k + 1)
        self._k += 1
        self._left -= 1
        return np.zeros(1), 0., self._left <= 0, {}

    def render(self, record=False):
        self._hub.op(self._id, 'render', bool(record), self._k)
        if not record:
            return None
        self._frame[:] = picture(self._id, self._k)     # one buffer for all images, as many renderers have
        return self._frame

    def stop(self):
        pass


def picture(i, k):
    return i + 1, k % 256, 100 + k // 256


class Cams(VectorizedEnvironment):
    def __init__(self, n, *args):
        self.envs = [Cam(*args) for _ in range(n)]
        super().__init__(self.envs[0].info, n)

    def reset_all(self, env_mask, state=None):
        for i in np.flatnonzero(env_mask):
            self.envs[i].reset()
        return np.zeros((self.number, 1)), [{}] * self.number

    def step_all(self, env_mask, action):
        done = np.zeros(self.number, dtype=bool)
        for i in np.flatnonzero(env_mask):
            done[i] = self.envs[i].step(action[i])[2]
        return np.zeros((self.number, 1)), np.zeros(self.number), done, [{}] * self.number

    def render_all(self, env_mask, record=False):
        frames = [self.envs[i].render(record) if env_mask[i] else None for i in range(self.number)]
        return frames if record else None

    def stop(self):
        pass


class Still(Policy):
    def draw_action(self, state, policy_state=None):
        return np.zeros_like(state), None

    def reset(self):
        return None


class Idle(Agent):
    def __init__(self, info):
        super().__init__(info, Still(), backend='numpy')

    def fit(self, dataset):
        pass


class Film:
    """One video file being written."""
    def __init__(self, path, fps, size):
        self.path, self.fps, self.size = path, fps, size
        self.frames, self.released = list(), False


class Studio:
    """Stands for the video encoder: keeps what is written, file by file."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.films = list()
        self.fail_mkdir = None
        self.session = 0

    def writer(self, path, fourcc, fps, size, *a, **k):
        film = Film(os.path.normpath(str(path)), fps, tuple(size))
        self.ctx.require(os.path.isdir(os.path.dirname(film.path)), 'directory', f'no directory for {film.path}')
        film.session = self.session
        self.films.append(film)
        return Writer(film)

    def mkdir(self, path, *a, **k):
        if self.fail_mkdir is not None:
            self.fail_mkdir -= 1
            if self.fail_mkdir < 0:
                self.fail_mkdir = None
                self.ctx.fault('disk-full@mkdir')
                raise OSError(28, 'No space left on device')
        return self.real_mkdir(path, *a, **k)

    def __enter__(self):
        self.real, self.real_destroy, self.real_mkdir = cv2.VideoWriter, cv2.destroyAllWindows, pathlib.Path.mkdir
        self.names = [n for n, v in vars(record_module).items() if v is self.real]
        cv2.VideoWriter = self.writer
        cv2.destroyAllWindows = lambda: None
        for n in self.names:
            setattr(record_module, n, self.writer)
        me = self
        pathlib.Path.mkdir = lambda path, *a, **k: me.mkdir(path, *a, **k)
        return self

    def __exit__(self, *a):
        cv2.VideoWriter, cv2.destroyAllWindows, pathlib.Path.mkdir = self.real, self.real_destroy, self.real_mkdir
        for n in self.names:
            setattr(record_module, n, self.real)


class Writer:
    def __init__(self, film):
        self.film = film

    def write(self, frame):
        if self.film.released:
            return                                      # what the encoder does with frames after the release
        f = np.array(frame)
        ok = f.shape == (H, W, 3) and f.dtype == np.uint8 and (f == f[0, 0]).all()
        self.film.frames.append(tuple(int(x) for x in f[0, 0][::-1]) if ok else ('not the image', f.shape))

    def release(self):
        self.film.released = True

    def isOpened(self):
        return not self.film.released


class Sink:
    """A recorder class of the user."""
    def __init__(self, fps, store, **kw):
        self.fps, self.kw = fps, kw
        self.id = len(store)
        self.frames, self.films = list(), list()
        store.append(self)

    def __call__(self, frame):
        f = np.array(frame)
        self.frames.append(tuple(int(x) for x in f[0, 0]) if f.shape == (H, W, 3) else ('not the image', f.shape))

    def stop(self):
        if self.frames:
            self.films.append(self.frames)
        self.frames = list()


def check(ctx):
    kind = ctx.choice('world', ['vector', 'single', 'processes', 'vector'])
    kernel = None
    root = tempfile.mkdtemp(prefix='p19-')
    try:
        with Studio(ctx) as studio:
            if kind == 'processes':
                kernel = SimKernel(ctx, capacity=ctx.choice('capacity', [10 ** 9, 1, 2]))
                with kernel.installed():
                    drive(ctx, kind, kernel, studio, root)
                    gc.collect()
            else:
                drive(ctx, kind, None, studio, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def drive(ctx, kind, kernel, studio, root):
    hub = Hub(kernel)
    horizon = ctx.choice('horizon', [4, 2, 7, 1])
    dt = ctx.choice('dt', [.1, .02, .5])
    seed = ctx.int('episodes-of', 0, 10 ** 6)
    n = 1 if kind == 'single' else ctx.choice('n_envs', [3, 2, 4])
    if kind == 'single':
        env = Cam(hub, horizon, dt, seed)
    elif kind == 'vector':
        env = Cams(n, hub, horizon, dt, seed)
    else:
        env = MultiprocessEnvironment(Cam, hub, horizon, dt, seed, n_envs=n)
    agent = Idle(env.info)
    store = list()
    sessions = ctx.int('sessions', 1, 2)
    for session in range(sessions):
        mine = ctx.flip('own-recorder', .35)
        par = dict(recorder_class=Sink, store=store, tag='x') if mine else dict(path=root, tag=f'run{session}')
        fps = ctx.choice('fps', [None, 25])
        if fps:
            par['fps'] = fps
        name = ctx.choice('name', [None, 'film']) if not mine else None
        if name:
            par['video_name'] = name
        del store[:]
        studio.session = session
        given = dict(par)
        core = (Core if kind == 'single' else VectorCore)(agent, env, record_dictionary=par)
        ctx.require(par == given, 'argument', 'the record dictionary of the caller was changed')
        pend = {i: list() for i in range(n)}
        for _ in range(ctx.int('calls', 1, 4)):
            call(ctx, kind, core, hub, studio, store, n, mine, fps or int(1 / dt), pend, root, session)
        if session + 1 < sessions:
            ctx.fault('new-core')
    del core, env
    gc.collect()


def call(ctx, kind, core, hub, studio, store, n, mine, fps, pend, root, session):
    render = ctx.flip('render', .85)
    record = render and ctx.flip('record', .85)
    kw = dict(render=render, record=record, quiet=True)
    learn = ctx.flip('learn', .4)
    if ctx.flip('by-steps', .4):
        kw['n_steps'] = ctx.int('n_steps', 1, 25)
    else:
        kw['n_episodes'] = ctx.int('n_episodes', 1, 7)
    if learn:
        if ctx.flip('fit-steps', .5):
            kw['n_steps_per_fit'] = ctx.int('per-fit', 1, 9)
        else:
            kw['n_episodes_per_fit'] = ctx.int('per-fit', 1, 4)
    hub.log = dict()
    films0 = len(studio.films)
    begun = [f for f in studio.films if f.session == session and not f.released]
    sinks0 = [len(s.films) for s in store]
    hub.fail = None
    studio.fail_mkdir = None
    if kind != 'processes' and ctx.flip('fails', .2):
        if record and not mine and ctx.flip('disk', .3):
            studio.fail_mkdir = ctx.int('at', 0, n)
        else:
            hub.fail = [ctx.choice('op', ['step', 'render', 'reset']), ctx.int('at', 0, 12)]
    aborted = False
    try:
        (core.learn if learn else core.evaluate)(**kw)
    except SimFault:
        aborted = True
        ctx.fault('environment-error')
    except OSError as e:
        if e.errno != 28:
            raise
        aborted = True
    hub.fail, studio.fail_mkdir = None, None
    films = studio.films[films0:]
    shot = dict()
    for i in range(n):
        log = hub.log.get(i, [])
        steps = [x[1] for x in log if x[0] == 'step']
        ctx.sim_steps += len(steps)
        shown = [x for x in log if x[0] == 'render']
        expect = [('render', record, k) for k in steps] if render else []
        if aborted:
            expect = expect[:len(shown)]
        ctx.require(shown == expect, 'rendered', lambda: f'{kind}: environment {i} was rendered {shown} for the steps {steps} (render={render}, record={record})')
        for a, b in zip(log, log[1:]):
            ctx.require(not (a[0] == 'step' and b[0] != 'render' and render), 'rendered', lambda: f'{kind}: environment {i} rendered too late: {log}')
        shot[i] = [picture(i, x[2]) for x in shown if x[1]]
    ctx.ev(kind, mine, learn, aborted, sorted((i, len(v)) for i, v in shot.items()), len(films))
    ctx.state(kind, mine, learn, render, record, aborted, n, tuple(len(v) for v in shot.values()))
    if mine:
        ctx.require(len(store) == n and all(s.fps == fps and s.kw == dict(tag='x') for s in store), 'recorder', lambda: f'{len(store)} recorders with {[(s.fps, s.kw) for s in store]} for {n} environments')
        new = [[f for f in s.films[sinks0[i]:]] for i, s in enumerate(store)]
        ctx.require(not films, 'recorder', 'the default recorder is used in place of the given one')
    else:
        paths = [f.path for f in films]
        old = [f.path for f in studio.films[:films0]]
        ctx.require(len(set(paths)) == len(paths), 'overwritten', lambda: f'two videos of {kind} {core.__class__.__name__} are written to one file: {paths}')
        ctx.require(not set(paths) & set(old), 'overwritten', lambda: f'{sorted(set(paths) & set(old))} written again: the earlier recording is lost')
        for f in films:
            where = os.path.normpath(os.path.join(root, f'run{session}'))
            ctx.require(os.path.dirname(f.path) == where, 'directory', lambda: f'{f.path} is not in {where}')
            ctx.require(f.size == (W, H) and f.fps == fps, 'format', lambda: f'{f.size} at {f.fps} frames per second, expected {(W, H)} at {fps}')
        new = None
    if aborted or not record:
        if not record:
            ctx.require(not films and not (mine and any(new)), 'recorded', 'a video without recording')
        for i in shot:
            pend[i] += shot[i]
        return
    # everything recorded since the last finished call, environment by environment
    if not mine:
        open_ = [f for f in studio.films if f.session == session and not f.released]
        ctx.require(not open_, 'unfinished', lambda: f'{len(open_)} videos are not finished at the end of the call')
        new = [list() for _ in range(n)]
        for f in begun + films:
            ids = {x[0] for x in f.frames}
            ctx.require(len(ids) == 1 and isinstance(list(ids)[0], int) and 1 <= list(ids)[0] <= n, 'mixed', lambda: f'a video shows the environments {ids}')
            new[list(ids)[0] - 1].append(f.frames)
    for i in range(n):
        want = shot[i]
        got = [x for f in new[i] for x in f]
        if want:
            ctx.require(len(new[i]) == 1, 'videos', lambda: f'{kind}: {len(new[i])} videos of environment {i}')
        pre = got[:len(got) - len(want)]
        it = iter(pend[i])
        ctx.require(got[len(pre):] == want and all(x in it for x in pre), 'frames', lambda: f'{kind}: the video of environment {i} shows {got}, the steps of the call were {want} (after interrupted {pend[i]})')
        pend[i] = list()
    ctx.probe('recorded-' + kind)


CHECK = Check(
    'P19', dict(recording=check), quick=dict(recording=6000), thorough=dict(recording=250000),
    rule='One case = 1-2 cores with 1-4 learn or evaluate calls each, rendered and recorded or not, with one environment, several or '
         'simulated worker processes, failures of environment, camera and disk in between; every image names its environment and '
         'step. Distinct = different event-log digest.',
    real=['Core, VectorCore', 'VideoRecorder', 'MultiprocessEnvironment.render_all'],
    stub=['environments with a camera', 'video encoder (cv2.VideoWriter)', 'worker processes (simulated kernel)'],
    assumptions=['one core at a time records under one tag'])
