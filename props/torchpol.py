"""Torch policies: Gaussian, Boltzmann, SAC's squashed Gaussian (P19)."""
from props.common import *
from props.deepac import World, Par
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import TorchApproximator
from mushroom_rl.policy import GaussianTorchPolicy, BoltzmannTorchPolicy
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy

LOG2PI = float(np.log(2 * np.pi))


def net_class(ctx, name, dim, nS, lo=-2, hi=2):
    """a network with an arbitrary output per state 0..nS-1; its parameters are those outputs"""
    class Net:
        made = []

        def __init__(self, input_shape, output_shape, **kw):
            self.p = Par(ctx.tensor('%s%d' % (name, len(Net.made)), (nS * dim,), lo, hi))
            Net.made.append(self)

        def to(self, d):
            return self

        def parameters(self):
            return [self.p]

        def __call__(self, state, **kw):
            r = [int(x) for x in state.reshape(-1)]
            return torch.stack([self.p.data[i * dim + j] for i in r for j in range(dim)]).reshape(len(r), dim)
    return Net


def col(x):
    return x.reshape(-1)


@scenario('P19', '2 states, 1 or 2 action dimensions; arbitrary network, standard deviations, actions, noise', tol=1e-3,
          quick=[dict(dim=1), dict(dim=2)])
def gaussian(ctx, dim):
    N = net_class(ctx, 'mu', dim, 2)
    pi = GaussianTorchPolicy(N, (1,), (dim,), std_0=1.5)
    net = N.made[0]
    s = ctx.to_tensor(ctx.arr([[1.0], [0.0]]))
    a = ctx.tensor('a', (2, dim), -4, 4)
    for k in range(2):
        if k == 0:
            ls = [float(np.log(1.5))] * dim
            m = net.p.data
        else:
            w = ctx.tensor('w', (2 * dim + dim,), -1, 1)
            pi.set_weights(w)
            ctx.eq(pi.get_weights(), w, 'get_weights returns the weights that were set')
            m, ls = w[:2 * dim], [w[2 * dim + i].item() for i in range(dim)]
        sd = [np.exp(x) for x in ls]
        mu = lambda i: [m[i * dim + j].item() for j in range(dim)]
        lp = pi.log_prob_t(s, a)
        ctx.shape(lp, (2, 1), 'one log-probability per sample')
        for r, st in enumerate((1, 0)):
            u = mu(st)
            z = [(a[r, j].item() - u[j]) / sd[j] for j in range(dim)]
            want = asum([-0.5 * x * x for x in z]) - asum(ls) - 0.5 * dim * LOG2PI
            ctx.eq(lp[r, 0], want, 'log-density of the Gaussian')
            ctx.eq(col(pi(s[r], a[r]))[0], np.exp(lp[r, 0].item()), 'density = exponential of the log-density')
        ctx.eq(pi.entropy_t(s), asum(ls) + 0.5 * dim * (LOG2PI + 1.0), 'entropy of the Gaussian')
        ctx.eq(col(pi.entropy())[0], asum(ls) + 0.5 * dim * (LOG2PI + 1.0), 'entropy of the Gaussian')
        j = len(ctx.normals)
        b, ps = pi.draw_action(s[0])
        z = ctx.normals[j:]
        ctx.check(ps is None and len(z) == dim, 'one random variable per action dimension')
        ctx.shape(b, (dim,), 'a single action for a single state')
        for i in range(dim):
            ctx.eq(b[i], mu(1)[i] + sd[i] * z[i], 'drawn actions: mean plus standard deviation times noise')
        j = len(ctx.normals)
        b = pi.draw_action_t(s)
        z = ctx.normals[j:]
        ctx.shape(b, (2, dim), 'one action per state of a batch')
        for r, st in enumerate((1, 0)):
            for i in range(dim):
                ctx.eq(b[r, i], mu(st)[i] + sd[i] * z[r * dim + i], 'drawn actions: mean plus standard deviation times noise')
    ctx.check(sum(1 for _ in pi.parameters()) == 2, 'the network and the standard deviation are optimised')


@scenario('P19', '2 states, 2 or 3 actions; arbitrary logits and inverse temperature', tol=1e-3,
          quick=[dict(nA=2), dict(nA=3)])
def boltzmann(ctx, nA):
    N = net_class(ctx, 'q', nA, 2)
    beta = ctx.real('beta', 0, 2)
    pi = BoltzmannTorchPolicy(N, (1,), (nA,), beta=beta)
    net = N.made[0]
    w = ctx.tensor('w', (2 * nA,), -2, 2)
    pi.set_weights(w)
    ctx.eq(pi.get_weights(), w, 'get_weights returns the weights that were set')
    s = ctx.to_tensor(ctx.arr([[1.0], [0.0]]))
    e = {st: [np.exp(beta * w[st * nA + j].item()) for j in range(nA)] for st in (0, 1)}
    a = ctx.to_tensor(ctx.arr([[nA - 1], [0]]), torch.int64)
    lp = pi.log_prob_t(s, a)
    ctx.shape(lp, (2, 1), 'one log-probability per sample')
    for r, st, act in ((0, 1, nA - 1), (1, 0, 0)):
        ctx.eq(np.exp(lp[r, 0].item()) * asum(e[st]), e[st][act], 'probability proportional to the exponential of the scaled logit')
    ent = 0.0
    for st in (0, 1):
        tot = asum(e[st])
        for k in range(nA):
            ent = ent - e[st][k] / tot * (beta * w[st * nA + k].item() - np.log(tot)) / 2
    ctx.eq(pi.entropy_t(s), ent, 'entropy averaged over the states')
    d = ctx.distribution(lambda: pi.draw_action(s[0])[0])
    p = [0.0] * nA
    for x, o in d:
        ctx.shape(o, (1,), 'an action is an array of one index')
        p[int(o[0])] = p[int(o[0])] + x
    for k in range(nA):
        ctx.eq(p[k] * asum(e[1]), e[1][k], 'actions are drawn with the probabilities of the policy')


@scenario('P19', '2 states, 1 or 2 action dimensions; arbitrary networks, action limits, noise', tol=1e-3, quick=[dict(dim=1), dict(dim=2)])
def sac(ctx, dim):
    """squashed Gaussian within the action limits, with the log-density of the squashed variable"""
    M, S = net_class(ctx, 'mu', dim, 2), net_class(ctx, 'ls', dim, 2, -3, 3)
    mk = lambda N: Regressor(TorchApproximator, (1,), (dim,), network=N)
    lo = np.array([-2.0, 0.5])[:dim]
    hi = np.array([3.0, 1.0])[:dim]
    pi = SACPolicy(mk(M), mk(S), lo, hi, -1.0, 2.0)
    w = ctx.tensor('w', (4 * dim,), -3, 3)
    pi.set_weights(w)
    g = pi.get_weights()
    for i in range(4 * dim):
        ctx.eq(g[i], w[i], 'get_weights returns the weights that were set')
    m, l = w[:2 * dim], w[2 * dim:]
    s = ctx.to_tensor(ctx.arr([[1.0], [0.0]]))
    j = len(ctx.normals)
    a, lp = pi.compute_action_and_log_prob_t(s)
    z = ctx.normals[j:]
    ctx.shape(a, (2, dim), 'one action per state')
    ctx.shape(lp, (2,), 'one log-probability per state')
    for r, st in enumerate((1, 0)):
        want = 0.0
        for i in range(dim):
            ls = smin(smax(l[st * dim + i].item(), -1.0), 2.0)
            raw = m[st * dim + i].item() + np.exp(ls) * z[r * dim + i]
            t = np.tanh(raw)
            unsaturated(ctx, t)
            ctx.eq(a[r, i], 0.5 * (hi[i] - lo[i]) * t + 0.5 * (hi[i] + lo[i]), 'squashed Gaussian scaled to the action limits')
            ctx.le(a[r, i], hi[i], 'actions within the limits')
            ctx.le(lo[i], a[r, i], 'actions within the limits')
            want = want - 0.5 * z[r * dim + i] ** 2 - ls - 0.5 * LOG2PI - np.log(1.0 - t * t + 1e-6)
        ctx.eq(lp[r], want, 'log-density of the squashed action')
    j = len(ctx.normals)
    b, ps = pi.draw_action(s)
    z = ctx.normals[j:]
    for r, st in enumerate((1, 0)):
        for i in range(dim):
            ls = smin(smax(l[st * dim + i].item(), -1.0), 2.0)
            t = np.tanh(m[st * dim + i].item() + np.exp(ls) * z[r * dim + i])
            ctx.eq(b[r, i], 0.5 * (hi[i] - lo[i]) * t + 0.5 * (hi[i] + lo[i]), 'squashed Gaussian scaled to the action limits')
    ctx.check(sum(1 for _ in pi.parameters()) == 2, 'both networks are optimised')
