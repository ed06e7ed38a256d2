"""Movement primitives and recurrent policies: the action depends on a phase or memory that the policy carries along an episode (P34)."""
from props.common import *
from props.policies import check_density
from props.serial import LinNet, SeqNet, net_weights
from mushroom_rl.core import Core, Agent, Environment, MDPInfo
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.policy import ProMP, DMP, RecurrentGaussianTorchPolicy

LOG2PI = float(np.log(2 * np.pi))


class Env(Environment):
    """notes the actions; every observation is arbitrary"""

    def __init__(self, ctx, dim, horizon, size=1):
        self.ctx, self.log, self.n, self.size = ctx, [], 0, size
        super().__init__(MDPInfo(Box(-10, 10, (size,)), Box(-10, 10, (dim,)), .5, horizon))

    def obs(self):
        self.n += 1
        return self.ctx.array('o%d' % self.n, (self.size,), -2, 2)

    def reset(self, state=None):
        self.log.append([])
        return self.obs(), {}

    def step(self, action):
        self.log[-1].append(action + 0.)
        return self.obs(), 0., False, {}


class Idle(Agent):
    def fit(self, dataset):
        pass


def phase(z):
    """features of the phase: itself and a quadratic one"""
    z = np.asarray(z).reshape(-1)
    return np.concatenate((z, z * z + 1.))


def regressor(ctx, dim):
    m = Regressor(LinearApproximator, input_shape=(2,), output_shape=(dim,))
    w = ctx.array('w', (dim * 2,), -2, 2)
    m.set_weights(w)
    return m, w.reshape(dim, 2)


def mean(w, z, dim):
    return [w[i, 0] * z + w[i, 1] * (z * z + 1.) for i in range(dim)]


@scenario('P34', 'durations 1-4, 5 steps in each of 2 episodes, periodic or not; 1-2 action dimensions; arbitrary weights', tol=1e-5,
          quick=[dict(dim=d, per=p) for d in (1, 2) for p in (False, True)])
def promp_rollout(ctx, dim, per):
    m, w = regressor(ctx, dim)
    D = ctx.pick('duration', [1, 2, 3, 4, 7])
    pi = ProMP(m, phase, D, periodic=per)
    env = Env(ctx, dim, 5)
    d = Core(Idle(env.info, pi), env).evaluate(n_episodes=2, quiet=True)
    ctx.check(len(env.log) == 2 and all(len(e) == 5 for e in env.log), 'two episodes')
    ps, ns = d.policy_state, d.policy_next_state
    for e in range(2):
        for t in range(5):
            k = t if per else min(t, D)
            k1 = t + 1 if per else min(t + 1, D)
            want = mean(w, float(k) / D, dim)
            for i in range(dim):
                ctx.eq(env.log[e][t][i], want[i], 'the mean of the phase, which starts again in every episode')
                ctx.eq(d.action[e * 5 + t][i], want[i], 'recorded action')
            ctx.eq(ps[e * 5 + t].reshape(-1)[0], float(k), 'recorded time before the action')
            ctx.eq(ns[e * 5 + t].reshape(-1)[0], float(k1), 'recorded time after the action')


@scenario('P34', 'arbitrary time, weights, covariance, noise and action; 1-2 action dimensions', tol=1e-4, quick=[dict(dim=1), dict(dim=2)])
def promp_noise(ctx, dim):
    m, w = regressor(ctx, dim)
    D = ctx.pick('duration', [2, 5])
    sd = [ctx.real('sd%d' % i, .5, 2) for i in range(dim)]
    pi = ProMP(m, phase, D, sigma=ctx.pack([sd[i] * sd[i] if i == j else 0. for i in range(dim) for j in range(dim)], (dim, dim), 'f'))
    t = ctx.pick('t', [0, 1, 2])
    h = ctx.pack([float(t)], (1,), 'f')
    del ctx.normals[:]
    a, n = pi.draw_action(np.zeros(1), h)
    z = list(ctx.normals)
    ctx.check(len(z) == dim, 'noise in every dimension')
    mu = mean(w, float(t) / D, dim)
    v = [(a[i] - mu[i]) / sd[i] for i in range(dim)]
    ctx.eq(asum([x * x for x in v]), asum([x * x for x in z]), 'mean plus noise with the given covariance')
    ctx.eq(h[0], float(t), 'the time handed in is not modified')
    ctx.eq(n.reshape(-1)[0], float(min(t + 1, D)), 'time goes on')
    x = ctx.array('a', (dim,), -2, 2)
    check_density(ctx, lambda u, v: pi(u, v, h), np.zeros(1), x, mu, [v * v for v in sd])
    det = ProMP(m, phase, D)
    ctx.check(float(det(np.zeros(1), ctx.pack(mu, (dim,), 'f'), h)) == 1., 'without noise the mean has probability one')
    for i in range(dim):
        ctx.check(float(det(np.zeros(1), ctx.pack([v + (1. if j == i else 0.) for j, v in enumerate(mu)], (dim,), 'f'), h)) == 0.,
                  'without noise any other action has probability zero')
    w2 = ctx.array('w2', (2 * dim,), -1, 1)
    pi.set_weights(w2)
    ctx.eq(pi.get_weights(), w2, 'weights read are the weights set')
    ctx.check(pi.weights_size == 2 * dim, 'number of weights')


@scenario('P34', '2 (two dimensions) or 4 steps in each of 2 episodes; 1-2 dimensions; arbitrary goal and weights, goal changed between the episodes', tol=1e-4, quick=[dict(dim=1), dict(dim=2)])
def dmp(ctx, dim):
    m = Regressor(LinearApproximator, input_shape=(2 * dim,), output_shape=(dim,))
    W = ctx.array('w', (2 * dim * dim,), -1, 1)
    m.set_weights(W)
    W = W.reshape(dim, 2 * dim)
    gs = [[ctx.pick('g%d%d' % (e, i), [1., 2.] if i == 0 else [.5]) for i in range(dim)] for e in range(2)]
    dt, tau, av, bv, az, bz = 1., 2., 1., 2., 2., .5
    full = lambda v: np.full(dim, v)
    pi = DMP(m, phase, np.array(gs[0]), dt, tau, full(av), full(bv), full(az), full(bz))
    held = []
    T = 4 if dim == 1 else 2
    for e in range(2):
        if e:
            pi.set_goal(np.array(gs[1]))
        h = pi.reset()
        x, v, y, z = [[0.] * dim for _ in range(4)]
        g = gs[e]
        for t in range(T):
            a, h = pi.draw_action(np.zeros(1), h)
            f = [(asum([W[i, j] * (x[j] / g[j]) for j in range(dim)]) + asum([W[i, dim + j] * ((x[j] / g[j]) ** 2 + 1.) for j in range(dim)])) * v[i] for i in range(dim)]
            vd = [av * (bv * (g[i] - y[i]) - v[i]) / tau for i in range(dim)]
            xd = [v[i] / tau for i in range(dim)]
            zd = [az * (bz * (g[i] - y[i]) - z[i]) / tau for i in range(dim)]
            yd = [(z[i] + f[i]) / tau for i in range(dim)]
            v, x, z, y = [[p[i] + q[i] * dt for i in range(dim)] for p, q in ((v, vd), (x, xd), (z, zd), (y, yd))]
            held.append((a, list(y)))
            for i in range(dim):
                ctx.eq(a[i], y[i], 'the action follows the dynamical system toward the goal, from rest in every episode')
            ctx.check(float(pi(np.zeros(1), a)) == 1., 'the action that was drawn has probability one')
            ctx.check(float(pi(np.zeros(1), a + 1.)) == 0., 'any other action has probability zero')
    for a, y in held:
        for i in range(dim):
            ctx.eq(a[i], y[i], 'actions returned earlier stay as they were')


@scenario('P34', '4 steps in each of 2 episodes through Core; arbitrary goal and weights', tol=1e-4, quick=[{}])
def dmp_rollout(ctx):
    m, w = regressor(ctx, 1)
    env = Env(ctx, 1, 4)
    mk = lambda: DMP(m, phase, np.ones(1), .25, 2., np.ones(1), np.ones(1) / 4, np.ones(1), np.ones(1) / 2)
    d = Core(Idle(env.info, mk()), env).evaluate(n_episodes=2, quiet=True)
    pi = mk()
    for t in range(4):
        a, _ = pi.draw_action(np.zeros(1), None)
        for e in range(2):
            ctx.eq(env.log[e][t], a, 'every episode follows the same movement')
            ctx.eq(d.action[4 * e + t], a, 'recorded action')


@scenario('P34', 'sequences of 1-2 states, batches of 1-2, 1-2 action dimensions; arbitrary weights, states, memories, actions and noise', tol=1e-3,
          quick=[dict(dim=d, n=n) for d in (1, 2) for n in (1, 2)])
def recurrent(ctx, dim, n):
    net_weights(ctx, 2 * dim)
    W = LinNet.init[0]
    pi = RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=SeqNet, input_shape=(2,), output_shape=(dim,), std_0=1.5)
    S, H = ctx.tensor('S', (n, 2, 2), -2, 2), ctx.tensor('H', (n, 1), -2, 2)
    A = ctx.tensor('A', (n, dim), -2, 2)
    L = [ctx.pick('len%d' % i, [1, 2]) for i in range(n)]
    lp = pi.log_prob_t(S, A, H, torch.tensor(L))
    ctx.shape(lp, (n, 1), 'one log-probability per sequence')
    for k in range(n):
        s = S[k, L[k] - 1]
        q = []
        for i in range(dim):
            mu = (W[2 * i] * s[0] + W[2 * i + 1] * s[1] + H[k, 0] / 4).item()
            q.append((A[k, i].item() - mu) / 1.5)
        ctx.eq(lp[k, 0], -.5 * asum([v * v for v in q]) - dim * (float(np.log(1.5)) + .5 * LOG2PI), 'log-density of the Gaussian around the output for the sequence and memory')
    ctx.eq(pi.entropy_t(), dim * (float(np.log(1.5)) + .5 * (LOG2PI + 1.)), 'entropy of the Gaussian')
    s, h = S[0, 0], H[0]
    del ctx.normals[:]
    a, nx = pi.draw_action(s, h)
    z = list(ctx.normals)
    ctx.check(tuple(a.reshape(-1).shape) == (dim,) and len(z) == dim, 'an action')
    e = [a.reshape(-1)[i].item() - (W[2 * i] * s[0] + W[2 * i + 1] * s[1] + h[0] / 4).item() for i in range(dim)]
    ctx.eq(asum([v * v for v in e]), 2.25 * asum([v * v for v in z]), 'mean of the state and memory plus noise')
    ctx.eq(nx.reshape(-1)[0], h[0] / 2 + 1., 'the memory the network returns')
    r = pi.reset()
    ctx.check(tuple(r.shape) == (1,), 'memory of the given shape')
    ctx.eq(r, torch.zeros(1), 'the memory is empty at the start')


@scenario('P34', 'log standard deviations below, within and above the limits; arbitrary states, memory and noise', tol=1e-3, quick=[dict(v=v) for v in (-4., .5, 5.)])
def recurrent_limits(ctx, v):
    net_weights(ctx, 2)
    W = LinNet.init[0]
    pi = RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=SeqNet, input_shape=(2,), output_shape=(1,), std_0=1., log_std_min=-1., log_std_max=1.)
    w = pi.get_weights()
    w[-1] = v
    pi.set_weights(w)
    ctx.eq(pi.get_weights()[-1], v, 'weights read are the weights set')
    sd = float(np.exp(min(max(v, -1.), 1.)))
    s, h = ctx.tensor('s', (2,), -1, 1), ctx.tensor('h', (1,), -1, 1)
    mu = (W[0] * s[0] + W[1] * s[1] + h[0] / 4).item()
    del ctx.normals[:]
    a, _ = pi.draw_action(s, h)
    z = ctx.normals[0]
    ctx.eq((a.reshape(-1)[0].item() - mu) ** 2, sd * sd * z * z, 'the standard deviation of draws is kept within its limits')
    lp = pi.log_prob_t(s.reshape(1, 1, 2), a.reshape(1, 1), h.reshape(1, 1), torch.tensor([1]))
    ctx.eq(lp.reshape(-1)[0], -.5 * z * z - float(np.log(sd)) - .5 * LOG2PI, 'the density uses the same limits')


class Torch(Agent):
    def __init__(self, info, policy):
        super().__init__(info, policy, backend='torch')

    def fit(self, dataset):
        pass


@scenario('P34', '3 steps in each of 2 episodes through Core with a torch agent; arbitrary weights and observations', tol=1e-3, quick=[{}])
def recurrent_rollout(ctx):
    net_weights(ctx, 2)
    W = LinNet.init[0]
    pi = RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=SeqNet, input_shape=(2,), output_shape=(1,), std_0=1.5)
    env = Env(ctx, 1, 3, 2)
    del ctx.normals[:]
    d = Core(Torch(env.info, pi), env).evaluate(n_episodes=2, quiet=True)
    z = list(ctx.normals)
    st, ps, ns = d.state, d.policy_state, d.policy_next_state
    ctx.check(len(z) == 6, 'one draw per step')
    for e in range(2):
        h = 0.
        for t in range(3):
            k = 3 * e + t
            ctx.eq(ps[k].reshape(-1)[0], h, 'memory before the action, empty at the start of an episode')
            mu = W[0].item() * st[k][0] + W[1].item() * st[k][1] + h / 4
            ctx.eq(env.log[e][t][0] - mu, 1.5 * z[k], 'the action comes from the state and the memory')
            h = h / 2 + 1.
            ctx.eq(ns[k].reshape(-1)[0], h, 'memory after the action')
