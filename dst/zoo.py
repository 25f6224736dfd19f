"""Small instances of every algorithm of the repository, with randomised options.

build(name, opt_seed) is deterministic: the same call gives an identical agent and environment."""
import random
from types import SimpleNamespace

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
import torch.optim as optim
from sklearn.tree import DecisionTreeRegressor

from mushroom_rl.algorithms.value import *
from mushroom_rl.algorithms.actor_critic import *
from mushroom_rl.algorithms.policy_search import *
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.distributions import GaussianDiagonalDistribution, GaussianCholeskyDistribution, GaussianDistribution
from mushroom_rl.environments import (GridWorld, CartPole, CarOnHill, InvertedPendulum, LQR, PuddleWorld,
                                      GridWorldVanHasselt)
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis, GaussianRBF
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.policy import (EpsGreedy, Boltzmann, Mellowmax, DeterministicPolicy, GaussianPolicy,
                                StateLogStdGaussianPolicy, StateStdGaussianPolicy, DiagonalGaussianPolicy,
                                GaussianTorchPolicy, BoltzmannTorchPolicy, OrnsteinUhlenbeckPolicy, ClippedGaussianPolicy)
from mushroom_rl.policy.recurrent_torch_policy import RecurrentGaussianTorchPolicy
from mushroom_rl.rl_utils.optimizers import AdaptiveOptimizer, SGDOptimizer, AdamOptimizer
from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter, DecayParameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory


class QNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], 4)
        self._o = nn.Linear(4, output_shape[0])

    def forward(self, state, action=None):
        q = self._o(torch.tanh(self._h(state.float())))
        if action is None:
            return q
        return torch.squeeze(q.gather(1, action.long()), -1)


class Feat(nn.Module):
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], output_shape[0])

    def forward(self, state, action=None):
        return torch.tanh(self._h(state.float()))


class VNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], output_shape[0])

    def forward(self, state, **kwargs):
        return self._h(state.float())


class Critic(nn.Module):
    def __init__(self, input_shape, output_shape, action_scaling=None, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], 4)
        self._o = nn.Linear(4, 1)

    def forward(self, state, action):
        x = torch.cat((state.float(), action.float()), dim=1)
        return torch.squeeze(self._o(torch.tanh(self._h(x))), -1)


class RnnCritic(nn.Module):
    def __init__(self, input_shape, output_shape, dim_env_state, n_hidden, **kwargs):
        super().__init__()
        self._rnn = nn.GRU(input_size=dim_env_state, hidden_size=n_hidden, batch_first=True)
        self._o = nn.Linear(n_hidden, 1)

    def forward(self, state, policy_state, lengths):
        packed = nn.utils.rnn.pack_padded_sequence(state, lengths, enforce_sorted=False, batch_first=True)
        out, _ = self._rnn(packed)
        feat, _ = nn.utils.rnn.pad_packed_sequence(out, batch_first=True)
        idx = lengths.view(-1, 1, 1) - 1
        return torch.squeeze(self._o(torch.squeeze(torch.take_along_dim(feat, idx, dim=1), dim=1)))


class RnnActor(nn.Module):
    def __init__(self, input_shape, output_shape, dim_env_state, n_hidden, **kwargs):
        super().__init__()
        self._n_hidden = n_hidden
        self._rnn = nn.GRU(input_size=dim_env_state, hidden_size=n_hidden, batch_first=True)
        self._o = nn.Linear(n_hidden, output_shape[0])

    def forward(self, state, policy_state, lengths):
        packed = nn.utils.rnn.pack_padded_sequence(state, lengths, enforce_sorted=False, batch_first=True)
        h = torch.swapaxes(policy_state.view(-1, 1, self._n_hidden), 0, 1).contiguous()
        out, nh = self._rnn(packed, h)
        feat, _ = nn.utils.rnn.pad_packed_sequence(out, batch_first=True)
        idx = lengths.view(-1, 1, 1) - 1
        a = self._o(torch.squeeze(torch.take_along_dim(feat, idx, dim=1), dim=1))
        return a, torch.swapaxes(nh, 0, 1)


def _eps(r, lo=.2):
    k = r.randrange(3)
    if k == 0:
        return Parameter(r.choice([lo, .5, 1.]))
    if k == 1:
        return LinearParameter(1., .05, r.choice([5, 17, 40]))
    return DecayParameter(1., exp=r.choice([.5, 1.]))


def _td_policy(r):
    k = r.randrange(4)
    if k < 2:
        return EpsGreedy(epsilon=_eps(r))
    if k == 2:
        return Boltzmann(beta=r.choice([Parameter(1.), Parameter(3.)]))
    return Mellowmax(omega=Parameter(2.))


def _lr(r):
    return r.choice([Parameter(.5), Parameter(.1), DecayParameter(1., exp=.6), LinearParameter(.6, .1, 30)])


def _grid(r):
    return GridWorld(3, 2, start=(0, 0), goal=(2, 1)) if r.random() < .7 else GridWorldVanHasselt()


TD = {
    'QLearning': (QLearning, {}), 'DoubleQLearning': (DoubleQLearning, {}), 'WeightedQLearning': (WeightedQLearning, {}),
    'WeightedQLearningInf': (WeightedQLearning, dict(sampling=True, precision=20)),
    'MaxminQLearning': (MaxminQLearning, dict(n_tables=3)), 'SpeedyQLearning': (SpeedyQLearning, {}),
    'RLearning': (RLearning, 'beta'), 'RQLearning': (RQLearning, 'rq'), 'SARSA': (SARSA, {}),
    'SARSALambda': (SARSALambda, 'lambda'), 'ExpectedSARSA': (ExpectedSARSA, {}), 'QLambda': (QLambda, 'lambda'),
}


def _td(name, r):
    mdp = _grid(r)
    cls, par = TD[name]
    pi = _td_policy(r)
    if par == 'beta':
        ag = cls(mdp.info, pi, _lr(r), _lr(r))
    elif par == 'rq':
        ag = cls(mdp.info, pi, _lr(r), **r.choice([dict(beta=Parameter(.5)), dict(delta=Parameter(.5)),
                                                   dict(beta=Parameter(.5), off_policy=True)]))
    elif par == 'lambda':
        ag = cls(mdp.info, pi, _lr(r), r.choice([.9, .5, Parameter(.7)]),
                 **(dict(trace=r.choice(['replacing', 'accumulating']))))
    else:
        ag = cls(mdp.info, pi, _lr(r), **par)
    return ag, mdp, dict(n_steps_per_fit=1)


def _td_cont(name, r):
    mdp = PuddleWorld(horizon=r.choice([8, 15]))
    tilings = Tiles.generate(1, [3, 3], mdp.info.observation_space.low, mdp.info.observation_space.high)
    phi = Features(tilings=tilings)
    par = dict(input_shape=(phi.size,), output_shape=(mdp.info.action_space.n,), n_actions=mdp.info.action_space.n,
               phi=phi)
    pi = _td_policy(r)
    if name == 'SARSALambdaContinuous':
        ag = SARSALambdaContinuous(mdp.info, pi, LinearApproximator, _lr(r), .9, approximator_params=par)
    else:
        ag = TrueOnlineSARSALambda(mdp.info, pi, _lr(r), .9, approximator_params=par)
    return ag, mdp, dict(n_steps_per_fit=1)


def _batch(name, r):
    mdp = CarOnHill(horizon=12)
    pi = EpsGreedy(epsilon=Parameter(1.))
    if name == 'LSPI':
        mdp = CartPole(horizon=12)
        phi = Features(basis_list=[PolynomialBasis()])
        par = dict(input_shape=(phi.size,), output_shape=(mdp.info.action_space.n,), n_actions=mdp.info.action_space.n,
                   phi=phi)
        return LSPI(mdp.info, pi, approximator_params=par, epsilon=.1, fit_params=dict()), mdp, dict(n_episodes_per_fit=3)
    n_it = 3
    par = dict(input_shape=mdp.info.observation_space.shape, n_actions=mdp.info.action_space.n,
               n_models=n_it if name == 'BoostedFQI' else 1, max_depth=3, random_state=0)
    cls = dict(FQI=FQI, DoubleFQI=DoubleFQI, BoostedFQI=BoostedFQI)[name]
    ag = cls(mdp.info, pi, DecisionTreeRegressor, approximator_params=par, n_iterations=n_it, quiet=True)
    # two fits of a boosted model would exceed its number of models
    return ag, mdp, dict(n_episodes_per_fit=2)


DQNS = ['DQN', 'DoubleDQN', 'AveragedDQN', 'MaxminDQN', 'DuelingDQN', 'CategoricalDQN', 'NoisyDQN', 'QuantileDQN',
        'Rainbow', 'DQN-prioritized']


def _dqn(name, r, over=None):
    mdp = CartPole(horizon=r.choice([6, 12]))
    pi = EpsGreedy(epsilon=_eps(r)) if r.random() < .8 or name in ('Rainbow',) else Boltzmann(beta=Parameter(1.))
    feat = name in ('DuelingDQN', 'CategoricalDQN', 'NoisyDQN', 'QuantileDQN', 'Rainbow')
    par = dict(network=Feat if feat else QNet, optimizer={'class': optim.Adam, 'params': {'lr': .01}},
               loss=None if name in ('CategoricalDQN', 'Rainbow') else F.smooth_l1_loss,
               input_shape=mdp.info.observation_space.shape, output_shape=mdp.info.action_space.size,
               n_actions=mdp.info.action_space.n, n_features=3)
    if name == 'QuantileDQN':
        par.pop('loss')
    kw = dict(batch_size=r.choice([4, 6]), initial_replay_size=r.choice([6, 12]), max_replay_size=r.choice([14, 30]),
              target_update_frequency=r.choice([4, 8, 12]))
    kw.update(over or {})
    if name != 'Rainbow':
        kw['clip_reward'] = r.random() < .3
    base = name.split('-')[0]
    cls = globals()[base]
    if name == 'DQN-prioritized':
        kw['replay_memory'] = {'class': PrioritizedReplayMemory,
                               'params': dict(alpha=.6, beta=LinearParameter(.4, threshold_value=1, n=30))}
    if name == 'AveragedDQN':
        ag = cls(mdp.info, pi, NumpyTorchApproximator, approximator_params=par, n_approximators=2, **kw)
    elif name == 'MaxminDQN':
        ag = cls(mdp.info, pi, NumpyTorchApproximator, approximator_params=par, n_approximators=2, **kw)
    elif name == 'CategoricalDQN':
        ag = cls(mdp.info, pi, approximator_params=par, n_atoms=3, v_min=-1, v_max=1, **kw)
    elif name == 'Rainbow':
        ag = cls(mdp.info, pi, approximator_params=par, n_atoms=3, v_min=-1, v_max=1, n_steps_return=r.choice([1, 2]),
                 alpha_coeff=.6, beta=LinearParameter(.4, threshold_value=1, n=30), **kw)
    elif name == 'QuantileDQN':
        ag = cls(mdp.info, pi, approximator_params=par, n_quantiles=r.choice([2, 3, 5]), **kw)
    elif name in ('DuelingDQN', 'NoisyDQN'):
        if name == 'DuelingDQN':
            kw['avg_advantage'] = r.random() < .7
        ag = cls(mdp.info, pi, approximator_params=par, **kw)
    else:
        ag = cls(mdp.info, pi, NumpyTorchApproximator, approximator_params=par, **kw)
    return ag, mdp, dict(n_steps_per_fit=r.choice([1, 2, 4]))


def _pend(r):
    return InvertedPendulum(horizon=r.choice([6, 10]), random_start=True)


def _vcritic(mdp, lr=.01):
    return dict(network=VNet, optimizer={'class': optim.Adam, 'params': {'lr': lr}}, loss=F.mse_loss,
                input_shape=mdp.info.observation_space.shape, output_shape=(1,), batch_size=8)


def _onpolicy(name, r):
    disc = name != 'TRPO' and r.random() < .25
    mdp = CartPole(horizon=8) if disc else _pend(r)
    if disc:
        pi = BoltzmannTorchPolicy(VNet, mdp.info.observation_space.shape, (mdp.info.action_space.n,), beta=1.)
    else:
        pi = GaussianTorchPolicy(VNet, mdp.info.observation_space.shape, mdp.info.action_space.shape, std_0=1.)
    opt = {'class': optim.Adam, 'params': {'lr': .01}}
    if name == 'A2C':
        ag = A2C(mdp.info, pi, actor_optimizer={'class': optim.RMSprop, 'params': {'lr': 7e-3, 'eps': 3e-3}},
                 critic_params=_vcritic(mdp), ent_coeff=.01, max_grad_norm=.5)
    elif name == 'TRPO':
        ag = TRPO(mdp.info, pi, critic_params=_vcritic(mdp), ent_coeff=0., max_kl=.01, lam=.95, n_epochs_line_search=3,
                  n_epochs_cg=3, critic_fit_params=dict(n_epochs=2))
    else:
        ag = PPO(mdp.info, pi, actor_optimizer=opt, critic_params=_vcritic(mdp), n_epochs_policy=2, batch_size=8,
                 eps_ppo=r.choice([.2, LinearParameter(.2, .01, 10)]), lam=.95, ent_coeff=r.choice([0., .01]),
                 critic_fit_params=dict(n_epochs=2))
    return ag, mdp, r.choice([dict(n_steps_per_fit=12), dict(n_episodes_per_fit=2)])


def _bptt(name, r):
    mdp = LQR.generate(dimensions=2, horizon=r.choice([5, 8]), random_init=True)
    n_h = 3
    dim = mdp.info.observation_space.shape[0]
    pi = RecurrentGaussianTorchPolicy(network=RnnActor, policy_state_shape=(n_h,), input_shape=(dim,),
                                      output_shape=mdp.info.action_space.shape, n_hidden=n_h, dim_env_state=dim, std_0=.5)
    critic = dict(network=RnnCritic, optimizer={'class': optim.Adam, 'params': {'lr': .01}}, loss=nn.MSELoss(),
                  batch_size=8, input_shape=(dim,), output_shape=(1,), n_hidden=n_h, dim_env_state=dim)
    ag = PPO_BPTT(mdp_info=mdp.info, policy=pi, critic_params=critic,
                  actor_optimizer={'class': optim.Adam, 'params': {'lr': .01}}, n_epochs_policy=2, batch_size=8,
                  dim_env_state=dim, eps_ppo=.2, lam=.95, truncation_length=r.choice([2, 3, 4]),
                  critic_fit_params=dict(n_epochs=2))
    return ag, mdp, r.choice([dict(n_steps_per_fit=12), dict(n_episodes_per_fit=2)])


def _offpolicy(name, r, over=None):
    mdp = _pend(r)
    si, ai = mdp.info.observation_space.shape, mdp.info.action_space.shape
    critic = dict(network=Critic, optimizer={'class': optim.Adam, 'params': {'lr': .01}}, loss=F.mse_loss,
                  input_shape=(si[0] + ai[0],), output_shape=(1,))
    actor = dict(network=VNet, input_shape=si, output_shape=ai)
    opt = {'class': optim.Adam, 'params': {'lr': .01}}
    o = dict(init=r.choice([6, 10]), size=r.choice([16, 30]), batch=r.choice([4, 6]), tau=.1)
    o.update(over or {})
    init, size, batch = o['init'], o['size'], o['batch']
    if name == 'SAC':
        ag = SAC(mdp.info, dict(actor), dict(actor), opt, critic, batch, init, size, warmup_transitions=o.get('warmup') if 'warmup' in o else r.choice([8, 14]),
                 tau=o['tau'], lr_alpha=.01, critic_fit_params=None)
    else:
        pol, pp = OrnsteinUhlenbeckPolicy, dict(sigma=torch.ones(1) * r.choice([.2, .4]), theta=r.choice([.15, .3]), dt=1e-2)
        cls = dict(DDPG=DDPG, TD3=TD3)[name]
        kw = dict(policy_delay=o.get('policy_delay') or r.choice([1, 2, 3]))
        ag = cls(mdp.info, pol, pp, actor, opt, critic, batch, init, size, o['tau'], **kw)
    return ag, mdp, dict(n_steps_per_fit=r.choice([1, 2, 5]))


def _classic(name, r):
    mdp = _pend(r)
    hi = mdp.info.observation_space.high + 1e-3
    phi = Features(tilings=Tiles.generate(1, [2, 2], mdp.info.observation_space.low, hi))
    mu = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=mdp.info.action_space.shape, phi=phi)
    if name == 'COPDAC_Q':
        pi = GaussianPolicy(mu, 1e-1 * np.eye(1))
        ag = COPDAC_Q(mdp.info, pi, mu, Parameter(5e-2), _lr(r), Parameter(.5), value_function_features=phi)
    else:
        std = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=mdp.info.action_space.shape, phi=phi)
        pi = StateLogStdGaussianPolicy(mu, std)
        if name == 'StochasticAC':
            ag = StochasticAC(mdp.info, pi, Parameter(1e-2), Parameter(.1), lambda_par=.5, value_function_features=phi)
        else:
            ag = StochasticAC_AVG(mdp.info, pi, Parameter(1e-2), Parameter(.1), Parameter(1e-2), lambda_par=.5,
                                  value_function_features=phi)
    return ag, mdp, dict(n_steps_per_fit=1) if r.random() < .5 else dict(n_episodes_per_fit=1)


def _opt(r):
    return r.choice([lambda: AdaptiveOptimizer(eps=.01), lambda: SGDOptimizer(lr=.001),
                     lambda: AdamOptimizer(lr=.001)])()


def _pg(name, r):
    mdp = LQR.generate(dimensions=1, horizon=6, random_init=True)
    shp = dict(input_shape=mdp.info.observation_space.shape, output_shape=mdp.info.action_space.shape)
    mu, sg = Regressor(LinearApproximator, **shp), Regressor(LinearApproximator, **shp)
    sg.set_weights(2 * np.ones(sg.weights_size))
    pi = StateStdGaussianPolicy(mu, sg) if r.random() < .5 else DiagonalGaussianPolicy(mu, .5 * np.ones(1))
    ag = dict(REINFORCE=REINFORCE, GPOMDP=GPOMDP, eNAC=eNAC)[name](mdp.info, pi, optimizer=_opt(r))
    return ag, mdp, dict(n_episodes_per_fit=r.choice([4, 6]))


def _bbo(name, r):
    mdp = LQR.generate(dimensions=1, horizon=5, random_init=True)
    mu = Regressor(LinearApproximator, input_shape=mdp.info.observation_space.shape,
                   output_shape=mdp.info.action_space.shape)
    if name == 'ePPO':
        mu = Regressor(TorchApproximator, network=VNet, input_shape=mdp.info.observation_space.shape,
                       output_shape=mdp.info.action_space.shape)
    pi = DeterministicPolicy(mu=mu)
    n = pi.weights_size
    if name in ('MORE',):
        dist = GaussianCholeskyDistribution(np.zeros(n), .1 * np.eye(n))
        ag = MORE(mdp.info, dist, pi, eps=.5)
        return ag, mdp, dict(n_episodes_per_fit=8)
    if name == 'ePPO':
        from mushroom_rl.distributions import DiagonalGaussianTorchDistribution
        dist = DiagonalGaussianTorchDistribution(torch.zeros(n), .3 * torch.ones(n))
        ag = ePPO(mdp.info, dist, pi, optimizer={'class': optim.Adam, 'params': {'lr': .01}}, n_epochs_policy=2,
                  batch_size=4, eps_ppo=.1)
        return ag, mdp, dict(n_episodes_per_fit=6)
    if name == 'ConstrainedREPS' or r.random() < .6:
        dist = GaussianDiagonalDistribution(np.zeros(n), .3 * np.ones(n))
    elif r.random() < .5:
        dist = GaussianCholeskyDistribution(np.zeros(n), .3 * np.eye(n))
    else:
        dist = GaussianDistribution(np.zeros(n), .1 * np.eye(n)) if name != 'PGPE' else \
            GaussianDiagonalDistribution(np.zeros(n), .3 * np.ones(n))
    if name == 'RWR':
        ag = RWR(mdp.info, dist, pi, beta=r.choice([1., .5]))
    elif name == 'PGPE':
        ag = PGPE(mdp.info, dist, pi, optimizer=AdaptiveOptimizer(eps=.05))
    elif name == 'REPS':
        ag = REPS(mdp.info, dist, pi, eps=r.choice([.7, .3]))
    else:
        ag = ConstrainedREPS(mdp.info, dist, pi, eps=.7, kappa=.1)
    return ag, mdp, dict(n_episodes_per_fit=r.choice([5, 8]))


REGISTRY = {}
for _n in TD:
    REGISTRY[_n] = _td
for _n in ('SARSALambdaContinuous', 'TrueOnlineSARSALambda'):
    REGISTRY[_n] = _td_cont
for _n in ('FQI', 'DoubleFQI', 'BoostedFQI', 'LSPI'):
    REGISTRY[_n] = _batch
for _n in DQNS:
    REGISTRY[_n] = _dqn
for _n in ('A2C', 'PPO', 'TRPO'):
    REGISTRY[_n] = _onpolicy
REGISTRY['PPO_BPTT'] = _bptt
for _n in ('DDPG', 'TD3', 'SAC'):
    REGISTRY[_n] = _offpolicy
for _n in ('COPDAC_Q', 'StochasticAC', 'StochasticAC_AVG'):
    REGISTRY[_n] = _classic
for _n in ('REINFORCE', 'GPOMDP', 'eNAC'):
    REGISTRY[_n] = _pg
for _n in ('RWR', 'PGPE', 'REPS', 'ConstrainedREPS', 'MORE', 'ePPO'):
    REGISTRY[_n] = _bbo
NAMES = list(REGISTRY)


def build(name, opt_seed, over=None):
    r = random.Random(f'{name}/{opt_seed}')
    agent, env, fit = REGISTRY[name](name, r, *([] if over is None else [over]))
    return SimpleNamespace(name=name, agent=agent, env=env, fit=fit, per_episode='n_episodes_per_fit' in fit,
                           finite=bool(np.isfinite(env.info.horizon)))


def numerical(e):
    """A learning run that blows up; which one does is a matter of step sizes, not of this property."""
    return isinstance(e, (np.linalg.LinAlgError, FloatingPointError, OverflowError)) or \
        any(w in str(e).lower() for w in ('nan', 'inf ', 'infinite', 'invalid values', 'positive definite', 'positivedefinite'))


def survives(f, *args, **kw):
    """(result,) of f, or () when the learning run blew up numerically."""
    try:
        return f(*args, **kw),
    except Exception as e:
        if not numerical(e):
            raise
        return ()
