"""Parametric continuous policies on numpy: Gaussian family, deterministic, vector; noise policies (P18)."""
from props.common import *
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.policy import (GaussianPolicy, DiagonalGaussianPolicy, StateStdGaussianPolicy, StateLogStdGaussianPolicy,
                                DeterministicPolicy, OrnsteinUhlenbeckPolicy, ClippedGaussianPolicy, Policy, VectorPolicy)

NS = 2
LOG2PI = float(np.log(2 * np.pi))


def linear(ctx, name, dim):
    m = Regressor(LinearApproximator, input_shape=(NS,), output_shape=(dim,))
    w = ctx.array(name, (dim * NS,), -2, 2)
    m.set_weights(w)
    return m, w


def state(ctx, dim):
    return ctx.array('s', (NS,), -2, 2) if dim == 1 else ctx.arr([0.5, -1.5])


def lin(w, s, dim):
    return [asum([w[i * NS + j] * s[j] for j in range(NS)]) for i in range(dim)]


def log_density(delta, var):
    """diagonal Gaussian"""
    d = 1.0
    for v in var:
        d = d * v
    return -0.5 * (len(var) * LOG2PI + np.log(d) + asum([x * x / v for x, v in zip(delta, var)]))


def check_density(ctx, pi, s, a, mu, var):
    dim = len(mu)
    p = pi(s, a)
    ctx.eq(p, np.exp(log_density([a[i] - mu[i] for i in range(dim)], var)), 'density of the Gaussian at the action')


def check_draw(ctx, pi, s, mu, std):
    dim = len(mu)
    k = len(ctx.normals)
    a, ps = pi.draw_action(s)
    z = ctx.normals[k:]
    ctx.shape(a, (dim,), 'one component per action dimension')
    ctx.check(ps is None, 'a policy without state returns none')
    ctx.check(len(z) == dim, 'one random variable per action dimension')
    for i in range(dim):
        ctx.eq(a[i], mu[i] + std[i] * z[i], 'drawn actions: mean plus standard deviation times independent noise')


def check_gradient(ctx, pi, s, a, want):
    g = pi.diff_log(s, a)
    ctx.shape(g, (len(want),), 'one derivative per weight')
    for k, w in enumerate(want):
        ctx.eq(g[k], w, 'gradient of the logarithm of the density, in the order of the weights')
    p = pi(s, a)
    d = pi.diff(s, a)
    for k, w in enumerate(want):
        ctx.eq(d[k], p * g[k], 'gradient of the density = density times gradient of its logarithm')


def check_weights(ctx, pi, name, n, positive=()):
    """weights round-trip, and fully determine the policy"""
    ctx.check(pi.weights_size == n, 'number of weights')
    w = ctx.array(name, (n,), 0.5, 2) if positive else ctx.array(name, (n,), -2, 2)
    pi.set_weights(w)
    ctx.eq(pi.get_weights(), w, 'get_weights returns the weights that were set')
    return w


BOUNDS = '2 features, 1 or 2 action dimensions; arbitrary weights, states (one state for 2 dimensions), actions and noise'


@scenario('P18', BOUNDS + '; covariance diagonal with arbitrary entries, or full with one arbitrary entry', tol=1e-5,
          quick=[dict(dim=1, full=False), dict(dim=2, full=False), dict(dim=2, full=True)])
def gaussian(ctx, dim, full):
    m, w = linear(ctx, 'w', dim)
    s, a = state(ctx, dim), ctx.array('a', (dim,), -4, 4)
    var = [ctx.real('v%d' % i, 0.5, 3) for i in range(dim)]
    c = 0.25 if full else 0.0
    sig = ctx.pack([var[i] if i == j else c for i in range(dim) for j in range(dim)], (dim, dim), 'f')
    pi = GaussianPolicy(m, ctx.arr(np.eye(dim)))
    for k in range(2):
        if k == 0:
            pi.set_sigma(sig)
        else:
            w = check_weights(ctx, pi, 'wn', dim * NS)
        mu = lin(w, s, dim)
        dl = [a[i] - mu[i] for i in range(dim)]
        if full:
            det = var[0] * var[1] - c * c
            inv = [[var[1] / det, -c / det], [-c / det, var[0] / det]]
        else:
            inv = [[1.0 / var[i] if i == j else 0.0 for j in range(dim)] for i in range(dim)]
            check_density(ctx, pi, s, a, mu, var)
        check_gradient(ctx, pi, s, a, [asum([inv[i][q] * dl[q] for q in range(dim)]) * s[j] for i in range(dim) for j in range(NS)])
    if not full:
        std = [np.sqrt(v) for v in var]
        check_draw(ctx, pi, s, mu, std)


@scenario('P18', BOUNDS, tol=1e-5, quick=[dict(dim=1), dict(dim=2)])
def diagonal(ctx, dim):
    m, w = linear(ctx, 'w', dim)
    s, a = state(ctx, dim), ctx.array('a', (dim,), -4, 4)
    std = ctx.array('std', (dim,), 0.5, 2)
    pi = DiagonalGaussianPolicy(m, ctx.arr([1.0] * dim))
    for k in range(2):
        if k == 0:
            pi.set_std(std)
        else:
            wn = check_weights(ctx, pi, 'wn', dim * NS + dim, positive=True)
            w, std = wn[:dim * NS], wn[dim * NS:]
        mu = lin(w, s, dim)
        dl = [a[i] - mu[i] for i in range(dim)]
        check_density(ctx, pi, s, a, mu, [std[i] ** 2 for i in range(dim)])
        check_gradient(ctx, pi, s, a, [dl[i] * s[j] / std[i] ** 2 for i in range(dim) for j in range(NS)] +
                       [dl[i] ** 2 / std[i] ** 3 - 1.0 / std[i] for i in range(dim)])
    check_draw(ctx, pi, s, mu, [std[i] for i in range(dim)])


@scenario('P18', BOUNDS, tol=1e-4, quick=[dict(dim=1), dict(dim=2)])
def state_std(ctx, dim):
    m, w = linear(ctx, 'w', dim)
    t, u = linear(ctx, 'u', dim)
    eps = 0.25
    s, a = state(ctx, dim), ctx.array('a', (dim,), -4, 4)
    pi = StateStdGaussianPolicy(m, t, eps=eps)
    for k in range(2):
        if k == 1:
            wn = check_weights(ctx, pi, 'wn', 2 * dim * NS)
            w, u = wn[:dim * NS], wn[dim * NS:]
        mu, std = lin(w, s, dim), lin(u, s, dim)
        var = [x ** 2 + eps for x in std]
        dl = [a[i] - mu[i] for i in range(dim)]
        check_density(ctx, pi, s, a, mu, var)
        check_gradient(ctx, pi, s, a, [dl[i] * s[j] / var[i] for i in range(dim) for j in range(NS)] +
                       [(dl[i] ** 2 - var[i]) * std[i] / var[i] ** 2 * s[j] for i in range(dim) for j in range(NS)])
    check_draw(ctx, pi, s, mu, [np.sqrt(v) for v in var])


@scenario('P18', BOUNDS, tol=1e-4, quick=[dict(dim=1), dict(dim=2)])
def state_log_std(ctx, dim):
    m, w = linear(ctx, 'w', dim)
    t, u = linear(ctx, 'u', dim)
    s, a = state(ctx, dim), ctx.array('a', (dim,), -4, 4)
    pi = StateLogStdGaussianPolicy(m, t)
    for k in range(2):
        if k == 1:
            wn = check_weights(ctx, pi, 'wn', 2 * dim * NS)
            w, u = wn[:dim * NS], wn[dim * NS:]
        mu, std = lin(w, s, dim), [np.exp(x) for x in lin(u, s, dim)]
        var = [x ** 2 for x in std]
        dl = [a[i] - mu[i] for i in range(dim)]
        check_density(ctx, pi, s, a, mu, var)
        check_gradient(ctx, pi, s, a, [dl[i] * s[j] / var[i] for i in range(dim) for j in range(NS)] +
                       [(dl[i] ** 2 / var[i] - 1.0) * s[j] for i in range(dim) for j in range(NS)])
    check_draw(ctx, pi, s, mu, std)


@scenario('P18', BOUNDS, quick=[dict(dim=1), dict(dim=2)])
def deterministic(ctx, dim):
    m, w = linear(ctx, 'w', dim)
    s, a = state(ctx, dim), ctx.array('a', (dim,), -4, 4)
    pi = DeterministicPolicy(m)
    w = check_weights(ctx, pi, 'wn', dim * NS)
    mu = lin(w, s, dim)
    b, ps = pi.draw_action(s)
    for i in range(dim):
        ctx.eq(b[i], mu[i], 'the action is the prediction of the regressor')
    ctx.eq(pi(s, b), 1.0, 'the chosen action has probability one')
    same = LAND(*[binop('eq', a[i], mu[i]) for i in range(dim)])
    ctx.eq(pi(s, a), ite(same, 1.0, 0.0), 'any other action has probability zero')


class Net:
    """regressor with torch output"""

    def __init__(self, ctx, dim):
        self.v = ctx.tensor('mu', (dim,), -4, 4)
        self.output_shape = (dim,)
        self.weights_size = dim

    def predict(self, s, **kw):
        return self.v if s.ndim == 1 else self.v.reshape(1, -1)

    def __call__(self, s, **kw):
        return self.predict(s)

    def get_weights(self):
        return self.v

    def set_weights(self, w):
        self.v = w


@scenario('P18', '1-2 action dimensions, 1-3 steps; arbitrary mean, noise, initial state and parameters', tol=1e-4,
          quick=[dict(dim=1, n=2, init=False), dict(dim=2, n=2, init=True)], thorough=[dict(dim=2, n=4, init=True)])
def ornstein_uhlenbeck(ctx, dim, n, init):
    """the noise is carried by the policy state: x' = x - theta x dt + sigma sqrt(dt) z"""
    net = Net(ctx, dim)
    sigma = ctx.tensor('sigma', (dim,), 0, 2)
    theta = ctx.real('theta', 0, 2)
    dt = 0.25
    x0 = ctx.tensor('x0', (dim,), -2, 2) if init else None
    first = [x0[i].item() for i in range(dim)] if init else [0.0] * dim
    pi = OrnsteinUhlenbeckPolicy(net, sigma, theta, dt, x0)
    ctx.check(pi.is_stateful and tuple(pi.policy_state_shape) == (dim,), 'the noise is the state of the policy')
    s = ctx.tensor('s', (NS,), -2, 2)
    for ep in range(2):
        st = pi.reset()
        x = list(first)
        for i in range(dim):
            ctx.eq(st[i], x[i], 'every episode starts from the initial noise')
        for k in range(n):
            j = len(ctx.normals)
            old, before = st, x
            a, st = pi.draw_action(s, old)
            for i in range(dim):
                ctx.eq(old[i], before[i], 'the state given to the policy (which the caller records) is not modified')
            z = ctx.normals[j:]
            ctx.check(len(z) == dim, 'one random variable per action dimension')
            x = [x[i] - theta * x[i] * dt + sigma[i] * 0.5 * z[i] for i in range(dim)]
            for i in range(dim):
                ctx.eq(st[i], x[i], 'noise follows the Ornstein-Uhlenbeck recursion')
                ctx.eq(a[i], net.v[i] + x[i], 'action = mean plus noise')


@scenario('P18', '1-2 action dimensions; arbitrary mean, noise, limits; fixed covariance', tol=1e-4, quick=[dict(dim=1), dict(dim=2)])
def clipped(ctx, dim):
    net = Net(ctx, dim)
    L = np.array([[1.5, 0.0], [0.5, 2.0]])[:dim, :dim]
    sig = torch.as_tensor((L @ L.T).astype(np.float32))
    lo = ctx.array('lo', (dim,), -4, 0)
    hi = ctx.array('hi', (dim,), 0.5, 4)
    pi = ClippedGaussianPolicy(net, sig, lo, hi)
    s = ctx.array('s', (NS,), -2, 2)
    a, ps = pi.draw_action(s)
    z = ctx.normals
    ctx.check(len(z) == dim, 'one random variable per action dimension')
    ctx.shape(a, (dim,), 'one component per action dimension')
    for i in range(dim):
        raw = net.v[i].item() + asum([float(L[i, j]) * z[j] for j in range(i + 1)])
        ctx.eq(a[i], smin(smax(raw, lo[i]), hi[i]), 'Gaussian action clipped to the limits')


class StatePol(Policy):
    """remembers what it was given; moves its state by one"""

    def __init__(self, shape=None):
        super().__init__(shape)
        self.w = None
        self.log = []
        self.n = 0
        self.weights_size = 2

    def draw_action(self, state, policy_state=None):
        self.log.append((state, policy_state))
        if self.policy_state_shape is None:
            return state + self.w + 8 * self.n, None       # an internal state that only reset changes
        return state + self.w, None if policy_state is None else policy_state + self.w[:1]

    def set_weights(self, w):
        self.w = w

    def get_weights(self):
        return self.w

    def reset(self):
        self.n += 1
        return None if self.policy_state_shape is None else np.array([self.n * 1.0])


def vec(ctx, shape, n):
    vp = VectorPolicy(StatePol(shape), n)
    w = ctx.array('w', (n, 2), -4, 4)
    vp.set_weights(w)
    return vp, w


@scenario('P18', '1-3 copies of a policy; arbitrary weights and states', quick=[dict(n=1), dict(n=2), dict(n=3)])
def vector(ctx, n):
    """a vector policy applies the i-th weights to the i-th environment"""
    vp, w = vec(ctx, None, n)
    ctx.check(len(vp) == n and tuple(vp.weights_size) == (n, 2), 'one set of weights per environment')
    ctx.eq(vp.get_weights(), w, 'get_weights returns the weights that were set')
    s = ctx.array('s', (n, 2), -4, 4)
    a, ps = vp.draw_action(s, None)
    for i in range(n):
        for j in range(2):
            ctx.eq(a[i][j], s[i][j] + w[i][j], 'the i-th action comes from the i-th policy')
    ctx.check(ps is None, 'no policy state')
    m = [bool(x) for x in ctx.bools('mask', n)]
    ctx.check(vp.reset() is None and vp.reset(np.array(m)) is None, 'no policy state')
    a, ps = vp.draw_action(s, None)
    for i in range(n):
        for j in range(2):
            ctx.eq(a[i][j], s[i][j] + w[i][j] + 8 * (1 + m[i]), 'reset reaches the policies of the given environments')


@scenario('P18', '2 copies of a policy with state', quick=[dict()])
def vector_stateful(ctx):
    vp, w = vec(ctx, (1,), 2)
    st = vp.reset()
    ctx.shape(st, (2, 1), 'one policy state per environment')
    ctx.eq(st, np.array([[1.0], [1.0]]), 'reset resets every policy')
    m = [bool(x) for x in ctx.bools('mask', 2)]
    st = vp.reset(np.array(m))
    for i in range(2):
        if m[i]:
            ctx.eq(st[i], np.array([2.0]), 'the masked policies are reset')
    ctx.eq(vp.reset(), np.array([[3.0 if x else 2.0] for x in m]), 'only the masked policies are reset')
    s = ctx.array('s', (2, 2), -4, 4)
    p = ctx.array('p', (2, 1), -4, 4)
    a, ps = vp.draw_action(s, p)
    ctx.shape(ps, (2, 1), 'one next policy state per environment')
    for i in range(2):
        ctx.eq(ps[i][0], p[i][0] + w[i][0], 'the i-th policy state comes from the i-th policy')


@scenario('P18', 'from 1-3 to 1-3 copies', quick=[dict(n=2, m=3), dict(n=3, m=1), dict(n=2, m=2)])
def vector_resize(ctx, n, m):
    vp, w = vec(ctx, None, n)
    vp.set_n(m)
    ctx.check(len(vp) == m, 'set_n sets the number of policies')
    w = ctx.array('wn', (m, 2), -4, 4)
    vp.set_weights(w)
    ctx.eq(vp.get_weights(), w, 'the policies are independent')
