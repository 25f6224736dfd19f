"""P11: an episode depends on its start, its actions and its random draws only, whatever happened to the environment before."""
import contextlib
import os
import tempfile

import numpy as np

import mushroom_rl.environments as E
from mushroom_rl.environments.generators import generate_grid_world, generate_simple_chain, generate_taxi

from dst import fp, world
from dst.engine import canon
from dst.runner import Check
from props.p06 import rng_get, rng_set

TAXI = 'S#F.\n.#..\n..F.\nF..G\n'
GRID = '#####\n#S.*#\n#...#\n##..#\n#G..#\n#####\n'


@contextlib.contextmanager
def files(*texts):
    names = list()
    try:
        for t in texts:
            with tempfile.NamedTemporaryFile('w', suffix='.xml', delete=False, dir='/dev/shm') as f:
                f.write(t)
            names.append(f.name)
        yield names
    finally:
        for n in names:
            os.unlink(n)


def _file(text, f, *a):
    with files(text) as names:
        return f(names[0], *a)


def maybe(name, f):
    return (name, f) if getattr(E, name, None) is not None else None


FAST = [
    ('GridWorld', lambda: E.GridWorld(width=4, height=3, goal=(2, 3))), ('GridWorld-start', lambda: E.GridWorld(3, 3, (0, 0), (1, 1))),
    ('GridWorldVanHasselt', E.GridWorldVanHasselt), ('CarOnHill', E.CarOnHill), ('CartPole', E.CartPole),
    ('InvertedPendulum', E.InvertedPendulum), ('InvertedPendulum-random', lambda: E.InvertedPendulum(random_start=True)),
    ('LQR', lambda: E.LQR.generate(dimensions=2)), ('LQR-random', lambda: E.LQR.generate(dimensions=2, random_init=True)),
    ('LQR-start', lambda: E.LQR.generate(dimensions=2, initial_state=np.array([.4, -.6]), episodic=True, max_pos=1.)),
    ('LQR-bounded', lambda: E.LQR.generate(dimensions=3, s_dim=None, max_pos=2., max_action=.5)),
    ('PuddleWorld', E.PuddleWorld), ('PuddleWorld-start', lambda: E.PuddleWorld(start=np.array([.1, .9]))),
    ('Segway', E.Segway), ('Segway-random', lambda: E.Segway(random_start=True)),
    ('ShipSteering', E.ShipSteering), ('ShipSteering-large', lambda: E.ShipSteering(small=False)),
    ('simple-chain', lambda: generate_simple_chain(state_n=4, goal_states=[2], prob=.8, rew=1)),
    ('simple-chain-mu', lambda: generate_simple_chain(state_n=4, goal_states=[3], prob=.8, rew=1, mu=np.array([.5, .5, 0, 0]))),
    ('taxi', lambda: _file(TAXI, generate_taxi)),
    ('grid', lambda: _file(GRID, generate_grid_world, .9, 1, -1)),
]
GYM = [('gym-' + n, lambda n=n: E.Gym(n, 50, .9)) for n in
       ('CartPole-v1', 'Pendulum-v1', 'Acrobot-v1', 'MountainCarContinuous-v0', 'FrozenLake-v1')] \
    if getattr(E, 'Gym', None) is not None else []
MUJOCO = [maybe(n, lambda n=n, k=k: getattr(E, n)(**k)) for n, k in
          (('AirHockeyHit', {}), ('AirHockeyHit', dict(random_init=True)), ('AirHockeyDefend', dict(random_init=True)),
           ('AirHockeyPrepare', dict(random_init=True)), ('AirHockeyRepel', dict(random_init=True)),
           ('AirHockeyHit', dict(init_robot_state='random', env_noise=True, obs_noise=True)))]
MUJOCO = [m for m in MUJOCO if m]

# an arm with a plain motor and one with activation dynamics, and a ball that rests on the floor and can be hit
XML = '''<mujoco><option timestep="0.01"/><worldbody><geom name="floor" type="plane" size="5 5 .1"/>
 <body name="b" pos="0 0 1"><joint name="j" type="hinge" axis="0 1 0" damping="%s"/>
 <geom name="g" type="capsule" fromto="0 0 0 0 0 -.5" size=".05"/><site name="t" pos="0 0 -.5"/>
 <body name="c" pos="0 0 -.5"><joint name="k" type="hinge" axis="0 1 0" damping=".1"/>
 <geom name="h" type="capsule" fromto="0 0 0 0 0 -.4" size=".05"/></body></body>
 <body name="ball" pos=".3 0 .1"><freejoint name="f"/><geom name="o" type="sphere" size=".1" mass=".2"/></body></worldbody>
 <actuator><motor name="m" joint="j" gear="2" ctrllimited="true" ctrlrange="-1 1"/>
 <general name="n" joint="k" dyntype="filter" dynprm=".3" gainprm="3" ctrllimited="true" ctrlrange="-1 1"/></actuator></mujoco>'''

if getattr(E, 'MuJoCo', None) is not None:
    from mushroom_rl.utils.mujoco import ObservationType

    class Task:
        SPEC = dict(actuation_spec=['m', 'n'], observation_spec=[('p', 'j', ObservationType.JOINT_POS),
                                                            ('v', 'j', ObservationType.JOINT_VEL),
                                                            ('q', 'k', ObservationType.JOINT_POS),
                                                            ('f', 'f', ObservationType.JOINT_POS),
                                                            ('x', 'c', ObservationType.BODY_VEL)],
                    gamma=.9, horizon=50, n_substeps=2)

        def setup(self, obs):
            super().setup(obs)
            if obs is None:
                self._data.joint('j').qpos = np.random.uniform(-1, 1)

        def reward(self, obs, action, next_obs, absorbing):
            return float(obs[0] - 2 * next_obs[0] + obs[1] + action[0])

        def is_absorbing(self, obs):
            return bool(obs[0] > 2.5)

    class Pendulum(Task, E.MuJoCo):
        def __init__(self, n=1):
            with files(XML % '.1') as x:
                super().__init__(x[0], n_intermediate_steps=n, **self.SPEC)

    class Pendulums(Task, E.MultiMuJoCo):
        def __init__(self):
            with files(XML % '.1', XML % '1.') as x:
                super().__init__(x, random_env_reset=True, **self.SPEC)

    MUJOCO += [('MuJoCo', Pendulum), ('MuJoCo-intermediate', lambda: Pendulum(3)), ('MultiMuJoCo', Pendulums)]


@contextlib.contextmanager
def hush():
    """The physics engine writes its warnings to the terminal itself."""
    old, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1)
        yield
    finally:
        os.dup2(old, 1)
        os.close(old)
        os.close(null)


def bullet(n, k):
    with hush():
        return getattr(E, n)(**k)


BULLET = [('bullet-' + n, lambda n='AirHockey' + n + 'Bullet', k=k: bullet(n, k)) for n, k in
          (('Hit', {}), ('Hit', dict(random_init=True, obs_delay=True, n_intermediate_steps=2)), ('Defend', dict(random_init=True, torque_control=False)),
           ('Defend', dict(random_init=True, obs_noise=True, obs_delay=True)), ('Prepare', dict(random_init=True, env_noise=True)),
           ('Prepare', dict(sub_problem='bottom', random_init=True, obs_delay=True)),
           ('Repel', dict(random_init=True, table_boundary_terminate=True)), ('Repel', dict(random_init=True, n_intermediate_steps=25)),
           ('Defend', dict(random_init=True, n_intermediate_steps=25)), ('Hit', dict(init_robot_state='random', env_noise=True, obs_noise=True)))
          if getattr(E, 'AirHockey' + n + 'Bullet', None) is not None]


class Suite:
    """A task of the control suite with a random state of its own, which is set like the global one."""
    def __init__(self, d, t):
        self.rs = np.random.RandomState(0)
        self.env = E.DMControl(d, t, 50, .9, task_kwargs=dict(random=self.rs))
        self.info, self.reset, self.step, self.stop = self.env.info, self.env.reset, self.env.step, self.env.stop

    def seed(self, seed):
        self.rs.seed(seed)


if getattr(E, 'DMControl', None) is not None:
    BULLET += [('suite-' + d, lambda d=d, t=t: Suite(d, t)) for d, t in
               (('pendulum', 'swingup'), ('cartpole', 'swingup'), ('ball_in_cup', 'catch'), ('point_mass', 'hard'))]
STATEFUL = ('CarOnHill', 'CartPole', 'InvertedPendulum', 'LQR', 'PuddleWorld', 'Segway', 'ShipSteering',
            'gym-CartPole', 'gym-MountainCarContinuous')

# Bullet itself does not restore the warm start of resting contacts: observations drift by 1e-4, and nothing more can be asked
LOOSE = ('bullet-Hit', 'bullet-Prepare')


def similar(a, b):
    for x, y in zip(a, b):
        if not np.allclose(x[0], y[0], rtol=.05, atol=.05) or x[1:2] != y[1:2] and abs(x[1] - y[1]) > .05 * (1 + abs(x[1])):
            return False
        if x[2:] != y[2:]:
            return True             # the end of an episode is a threshold
    return len(a) == len(b)


NOISY = ('CartPole', 'PuddleWorld', 'PuddleWorld-start')


def action(space, r):
    if hasattr(space, 'n'):
        return np.array([r.randrange(space.n)])
    lo, hi = np.maximum(np.asarray(space.low, float), -2.), np.minimum(np.asarray(space.high, float), 2.)
    # also beyond the bounds: environments clip
    return np.array([r.uniform(a, b) if r.random() < .8 else r.choice([a, b, 3 * b]) for a, b in zip(lo.ravel(), hi.ravel())]
                    ).reshape(lo.shape)


def kind(name):
    return '-'.join(name.split('-')[:2 if name.startswith('gym') else 1])


def start_state(name, r):
    n = kind(name)
    if n == 'gym-CartPole':
        return np.array([r.uniform(-.2, .2) for _ in range(4)])
    if n == 'gym-MountainCarContinuous':
        return np.array([r.uniform(-.8, .2), r.uniform(-.05, .05)])
    d = dict(CarOnHill=2, CartPole=2, InvertedPendulum=2, LQR=2, PuddleWorld=2, Segway=3, ShipSteering=4)[n]
    if name == 'LQR-bounded':
        d = 3
    if n == 'PuddleWorld':
        return np.array([r.uniform(.1, .9) for _ in range(d)])
    if n == 'ShipSteering':
        return np.array([r.uniform(20, 100), r.uniform(20, 100), r.uniform(-3, 3), 0.])
    if n in ('CartPole', 'InvertedPendulum', 'Segway'):
        return np.array([r.choice([r.uniform(-1., 1.), r.uniform(-1., 1.) + 2 * np.pi])] + [r.uniform(-.5, .5)] * (d - 1))
    return np.array([r.uniform(-.7, .7) for _ in range(d)])


class Handed:
    """Everything that crossed the interface and must stay as it was, and what the caller does with it."""
    def __init__(self, ctx):
        self.ctx, self.kept = ctx, list()

    def given(self, what, x):
        if isinstance(x, np.ndarray):
            self.kept.append((what, x, x.copy()))

    def check(self):
        for what, x, c in self.kept:
            self.ctx.require(np.array_equal(x, c, equal_nan=True), 'changed-later',
                             lambda: f'{what} was {c}, is now {x}')

    def scribble(self, r):
        """The caller reuses its arrays."""
        for what, x, c in self.kept:
            if x.flags.writeable:
                x[...] = r.choice([0, 1]) if x.dtype.kind in 'biu' else r.choice([0., 7., -55.])
        self.kept.clear()


def drive(ctx, env, name, seed, start, acts, handed=None, r=None, disturb=None, upto=None):
    """One episode with its own random state; returns what was observed."""
    world.seed_all(seed)
    if hasattr(env, 'seed'):
        with contextlib.suppress(NotImplementedError):
            env.seed(seed)
    log = list()
    s = None if start is None else start.copy()
    if handed and s is not None:
        handed.given('the initial state passed by the caller', s)
    out = env.reset(s) if s is not None else env.reset()
    ctx.require(isinstance(out, tuple) and len(out) == 2 and np.shape(out[0]) == env.info.observation_space.shape, 'interface',
                lambda: f'{name}: reset returns {str(out)[:100]}, not an observation and its information')
    note = (lambda x: np.array(x, dtype=float)) if name in LOOSE else canon
    log.append((note(out[0]),))
    if handed:
        handed.given('the first observation', out[0])
    for i, a in enumerate(acts[:upto]):
        if disturb:
            handed.check()
            if ctx.flip('scribble', .4):
                handed.scribble(r)
                ctx.fault('reused-buffers')
            rs = rng_get()
            disturb()
            rng_set(rs)
        a = a.copy()
        if handed:
            handed.given('the action of the caller', a)
        obs, rew, ab, info = env.step(a)
        log.append((note(obs), note(rew), bool(ab)))
        if handed:
            handed.given('an observation', obs)
        if ab:
            break
    if handed:
        handed.check()
    return log


def scenario(ctx, table, max_steps):
    name, mk = table[ctx.pick('env', len(table))]
    r = ctx.sub('content')
    seed = ctx.pick('episode-seed', 1 << 30)
    start = start_state(name, r) if kind(name) in STATEFUL and ctx.flip('given-start', .4) else None
    s0 = ctx.pick('build-seed', 1 << 30)
    world.seed_all(s0)
    env = mk()
    acts = [action(env.info.action_space, r) for _ in range(ctx.int('steps', 1, max_steps))]
    ref = drive(ctx, env, name, seed, start, acts)
    if start is not None and name not in NOISY:
        again = drive(ctx, env, name, seed + 1, start, acts)
        ctx.require(again == ref, 'given-start', lambda: f'{name}: two episodes from {start} with the same actions differ')
    if ctx.flip('same-object', .5):
        world.seed_all(s0)
        env = mk()
    others = list()

    def neighbour():
        k = ctx.pick('other-seed', 1 << 30)
        world.seed_all(k)
        n2, mk2 = (name, mk) if ctx.flip('same-kind', .6) else table[ctx.pick('other', len(table))]
        e = mk2()
        if hasattr(e, 'seed'):
            with contextlib.suppress(NotImplementedError):
                e.seed(k)
        e.reset()
        others.append((n2, e))

    def disturb():
        if others and ctx.flip('neighbour', .5):
            n2, e = ctx.choice('which', others)
            ctx.fault('neighbour')
            if e.step(action(e.info.action_space, r))[2] or ctx.flip('neighbour-reset', .1):
                e.reset()
        elif ctx.flip('new-neighbour', .1):
            neighbour()

    # a history that ends anywhere
    for _ in range(ctx.int('history', 0, 3)):
        h = [action(env.info.action_space, r) for _ in range(ctx.int('cut', 0, max_steps))]
        hs = start_state(name, r) if start is not None and ctx.flip('history-start', .5) else None
        handed = Handed(ctx)
        drive(ctx, env, name, ctx.pick('history-seed', 1 << 30), hs, h, handed, r, disturb)
        if ctx.flip('scribble-after', .5):
            handed.scribble(r)
        if ctx.flip('stop', .3):
            env.stop()
        ctx.fault('aborted-episode')
    handed = Handed(ctx)
    got = drive(ctx, env, name, seed, start, acts, handed, r, disturb)
    ctx.ev('case', name, len(ref) if name in LOOSE else ref)
    ctx.sim_steps += len(got)
    if name in LOOSE:
        ctx.require(similar(ref, got), 'depends-on-past', lambda: f'{name}: the episode is {got}, in a new environment {ref}')
    elif got != ref:
        i = [a == b for a, b in zip(ref, got)].index(False) if len(ref) == len(got) else min(len(ref), len(got)) - 1
        ctx.fail('depends-on-past', f'{name}: observation {i} of the episode is {str(got[i])[:200]}, in a new environment '
                                    f'{str(ref[i])[:200]}')
    ctx.state(name, start is not None, len(others), len(ref) // 5)


def classic(ctx):
    scenario(ctx, FAST, 20)


def wrapped(ctx):
    scenario(ctx, GYM, 20)


def simulated(ctx):
    scenario(ctx, MUJOCO, 12)


def engines(ctx):
    scenario(ctx, BULLET, 12)


CHECK = Check(
    'P11', {k: v for k, v in dict(classic=classic, wrapped=wrapped, simulated=simulated, engines=engines).items()},
    quick=dict(classic=20000, wrapped=4000, simulated=3000, engines=800), thorough=dict(classic=150000, wrapped=30000, simulated=12000, engines=8000),
    rule='One case = an episode of 1-20 steps of one environment, executed in a new instance and again after 0-3 '
         'episodes cut anywhere, with other instances stepped in between and the caller overwriting the arrays it was '
         'given and those it passed. Distinct = different event-log digest.',
    real=['GridWorld, GridWorldVanHasselt, CarOnHill, CartPole, InvertedPendulum, LQR, PuddleWorld, Segway, ShipSteering, '
          'FiniteMDP and its generators', 'Gym wrapper with classic control', 'MuJoCo air hockey',
          'PyBullet air hockey', 'DeepMind control suite wrapper'],
    stub=['global random state set at the start of each episode'],
    assumptions=['rendering is off'], sim_unit='environment steps')
