"""Black-box policy search and search distributions."""
import sys
from contextlib import contextmanager
import scipy.optimize
from props.common import *
from mushroom_rl.algorithms.policy_search import RWR, REPS, PGPE, ConstrainedREPS, MORE, ePPO
from mushroom_rl.algorithms.policy_search.black_box_optimization import ContextBuilder
from mushroom_rl.distributions import *
from mushroom_rl.distributions.distribution import Distribution
from mushroom_rl.policy import ParametricPolicy

PI = np.pi


class WPolicy(ParametricPolicy):
    """parametric policy that only stores its weights"""

    def __init__(self, w):
        super().__init__()
        self.w = w

    def draw_action(self, state, policy_state=None):
        return self.w * 1., None

    def set_weights(self, w):
        self.w = w

    def get_weights(self):
        return self.w

    @property
    def weights_size(self):
        return len(self.w)

    def reset(self):
        return None


class Duck(Distribution):
    """search distribution with arbitrary samples; records how it is used"""

    def __init__(self, ctx, n, contextual=False, torch_=False):
        super().__init__((1,) if contextual else None)
        self.ctx, self.n, self.torch_ = ctx, n, torch_
        self.drawn, self.fitted, self.params, self.contexts = [], [], None, []

    def vec(self, name):
        v = self.ctx.array(name, (self.n,), -2, 2)
        return self.ctx.to_tensor(v) if self.torch_ else v

    def sample(self, context=None):
        self.contexts.append(context)
        self.drawn.append(self.vec('th%d' % len(self.drawn)))
        return self.drawn[-1]

    def mean(self, context=None):
        self.contexts.append(context)
        if not hasattr(self, 'mu'):
            self.mu = self.vec('mean')
        c = 0. if context is None else context.reshape(-1)[0]
        return self.mu + c

    def mle(self, theta, weights=None):
        self.fitted.append((theta, weights))

    def con_wmle(self, theta, weights, eps, kappa):
        self.fitted.append((theta, weights, eps, kappa))

    def diff_log(self, theta, context=None):
        if context is None:
            return theta * 1.
        return theta * context.reshape(-1)[0]

    def get_parameters(self):
        return self.params

    def set_parameters(self, rho):
        self.params = rho

    @property
    def parameters_size(self):
        return self.n


class Ctxb(ContextBuilder):
    """the context is the first state, shifted by a number in the episode information"""

    def __init__(self):
        super().__init__((1,))

    def __call__(self, initial_state, **info):
        return initial_state + 1. if 'shift' not in info else initial_state + 10.


class Opt(object):
    def __init__(self):
        self.calls = []

    def __call__(self, params, grads):
        self.calls.append((params, grads))
        return params + 2. * grads


def info(g):
    return MDPInfo(Box(-10, 10, shape=(1,)), Box(-10, 10, shape=(1,)), g, 10)


class Search(object):
    """stand-in for scipy's minimizer: evaluates the objective and its gradient at an arbitrary feasible point and returns it"""

    def __init__(self, ctx, n, hi=4.):
        self.ctx, self.n = ctx, n
        self.x = [ctx.real('opt%d' % i, .25, hi) for i in range(n)]
        self.calls = []

    def __call__(self, fun, x0, args=(), method=None, jac=None, bounds=None, **kw):
        if not isinstance(args, tuple):
            args = (args,)
        x = self.ctx.pack(list(self.x), (self.n,), 'f')
        f = fun(x, *args)
        g = None
        if jac is True:
            f, g = f
        elif callable(jac):
            g = jac(self.ctx.pack(list(self.x), (self.n,), 'f'), *args)
        self.calls.append((f, g, bounds))
        self.ctx.check(len(x0) == self.n, 'number of multipliers')

        class Res(object):
            pass
        res = Res()
        res.x, res.fun, res.success = x, f, True
        return res


@contextmanager
def minimizer(s):
    real = scipy.optimize.minimize
    saved = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name.startswith('mushroom_rl') or name == 'scipy.optimize'):
            continue
        for k, v in list(mod.__dict__.items()):
            if v is real:
                saved.append((mod, k))
                setattr(mod, k, s)
    try:
        yield s
    finally:
        for mod, k in saved:
            setattr(mod, k, real)


def scal(x):
    while hasattr(x, 'shape') and tuple(x.shape) != ():
        x = x[0]
    return x


def run(ctx, agent, dist, lens, g, torch_=False, shift=False, states=None):
    """a dataset of episodes, their parameters and discounted returns"""
    d = Dataset.generate(agent.mdp_info, agent.info, n_steps=sum(lens)) if not torch_ else \
        Dataset.generate(agent.mdp_info, agent.info, n_steps=sum(lens))
    J, th, first = [], [], []
    for e, n in enumerate(lens):
        s0 = np.array([states[e]]) if states else ctx.array('s%d' % e, (1,), -2, 2)
        first.append(s0[0])
        _, theta = agent.episode_start(s0 if not torch_ else ctx.to_tensor(s0), dict(shift=1.) if shift else {})
        th.append(theta)
        ret, disc = 0., 1.
        for t in range(n):
            r = ctx.real('r%d%d' % (e, t), -2, 2)
            ret = ret + disc * r
            disc = disc * g
            d.append((s0 if t == 0 else np.zeros(1), np.zeros(1), r, np.zeros(1), False, t == n - 1), {})
        d.append_theta(theta)
        J.append(ret)
    return d, J, th, first


@scenario('P27', 'every episode start: arbitrary samples, mean, initial state; with and without context, deterministic or not',
          quick=[dict(det=d, cx=c) for d in (False, True) for c in (False, True)])
def episode_start(ctx, det, cx):
    dist = Duck(ctx, 2, cx)
    pol = WPolicy(np.zeros(2))
    agent = PGPE(info(.9), dist, pol, Opt(), context_builder=Ctxb() if cx else None)
    if det:
        agent.set_deterministic()
    for e in range(2):
        s = ctx.array('s%d' % e, (1,), -2, 2)
        ps, theta = agent.episode_start(s, {} if e == 0 else dict(shift=0.))
        c = s[0] + (1. if e == 0 else 10.)
        want = (dist.mu + (c if cx else 0.)) if det else dist.drawn[e]
        ctx.check(len(dist.drawn) == (0 if det else e + 1), 'one draw per episode, none in deterministic mode')
        if cx:
            ctx.eq(scal(dist.contexts[-1]), c, 'the context of this episode is used')
        else:
            ctx.check(dist.contexts[-1] is None, 'no context')
        for i in range(2):
            ctx.eq(theta[i], want[i], 'the parameters of the episode')
            ctx.eq(pol.get_weights()[i], want[i], 'the policy acts with the parameters of the episode')
        ctx.check(ps is None, 'stateless policy')
    agent.set_deterministic(False)
    n = len(dist.drawn)
    agent.episode_start(np.zeros(1), {})
    ctx.check(len(dist.drawn) == n + 1, 'stochastic again after set_deterministic(False)')


@scenario('P27', '2-3 parallel environments, every mask of starting environments; with and without context, deterministic or not',
          quick=[dict(n=n, det=d, cx=c) for n in (2, 3) for d in (False, True) for c in (False, True)])
def vectorized_start(ctx, n, det, cx):
    dist = Duck(ctx, 2, cx)
    agent = PGPE(info(.9), dist, WPolicy(np.zeros(2)), Opt(), context_builder=Ctxb() if cx else None)
    if det:
        agent.set_deterministic()
    cur = None
    for e in range(2):
        s = ctx.array('s%d' % e, (n, 1), -2, 2)
        mask = np.array([True] * n if e == 0 else [bool(ctx.bool('m%d' % i)) for i in range(n)])
        k = len(dist.drawn)
        ps, theta = agent.episode_start_vectorized(s, {}, mask)
        new = []
        j = 0
        for i in range(n):
            if not mask[i]:
                new.append(cur[i])
            elif det:
                new.append([dist.mu[q] + (s[i, 0] + 1. if cx else 0.) for q in range(2)])
            else:
                new.append([dist.drawn[k + j][q] for q in range(2)])
                if cx:
                    ctx.eq(scal(dist.contexts[k + j]), s[i, 0] + 1., 'every environment uses its own context')
                j += 1
        cur = new
        ctx.check(len(dist.drawn) - k == j, 'one draw per starting environment')
        w = agent.policy.get_weights()
        for i in range(n):
            for q in range(2):
                ctx.eq(theta[i][q], cur[i][q], 'starting environments get new parameters, the others keep theirs')
                ctx.eq(w[i][q], cur[i][q], 'every environment acts with its own parameters')


def thetas(ctx, got, th):
    ctx.check(len(got) == len(th), 'one parameter vector per episode')
    for i in range(len(th)):
        for q in range(len(th[i])):
            ctx.eq(got[i][q], th[i][q], 'parameters of the episodes, in order')


@scenario('P27', '2-3 episodes of 1-2 steps; arbitrary parameters, rewards, discount and temperature', quick=[dict(lens=(1, 2)), dict(lens=(1, 1, 1))], tol=1e-5)
def rwr(ctx, lens):
    g, b = ctx.real('g', .25, 1), ctx.real('b', .25, 2)
    dist = Duck(ctx, 2)
    agent = RWR(info(g), dist, WPolicy(np.zeros(2)), b)
    d, J, th, _ = run(ctx, agent, dist, lens, g)
    agent.fit(d)
    m = amax(J)
    ctx.check(len(dist.fitted) == 1, 'one maximum-likelihood fit')
    got, w = dist.fitted[0]
    thetas(ctx, got, th)
    for i in range(len(J)):
        ctx.eq(w[i], np.exp(b * (J[i] - m)), 'weights exp(beta (J - max J))')


@scenario('P27', '2 episodes of 1-2 steps; arbitrary parameters, rewards, discount and bound; objective at an arbitrary multiplier',
          quick=[dict(con=False, lens=(1, 2)), dict(con=True, lens=(1, 1)), dict(con=False, lens=(1, 1, 1))], tol=1e-4)
def reps(ctx, con, lens):
    g, eps, kap = ctx.real('g', .25, 1), ctx.real('eps', .25, 2), ctx.real('kap', .25, 2)
    dist = Duck(ctx, 2)
    agent = ConstrainedREPS(info(g), dist, WPolicy(np.zeros(2)), eps, kap) if con else REPS(info(g), dist, WPolicy(np.zeros(2)), eps)
    d, J, th, _ = run(ctx, agent, dist, lens, g)
    with minimizer(Search(ctx, 1)) as s:
        agent.fit(d)
    eta = s.x[0]
    m = amax(J)
    n = len(J)
    e = [np.exp((v - m) / eta) for v in J]
    S = asum(e) / n
    ctx.check(len(s.calls) == 1 and len(dist.fitted) == 1, 'one dual and one fit')
    f, gr, bounds = s.calls[0]
    ctx.eq(scal(f), eta * eps + eta * np.log(S) + m, 'dual of the divergence-bounded problem')
    if gr is not None:
        ctx.eq(scal(gr), eps + np.log(S) - asum([e[i] * (J[i] - m) for i in range(n)]) / n / (eta * S), 'gradient of the dual')
    ctx.check(bounds is not None and bool(bounds[0][0] > 0), 'the multiplier is positive')
    thetas(ctx, dist.fitted[0][0], th)
    for i in range(n):
        ctx.eq(dist.fitted[0][1][i], e[i], 'weights exp((J - max J) / eta) at the solution')
    if con:
        ctx.eq(dist.fitted[0][2], eps, 'divergence bound')
        ctx.eq(dist.fitted[0][3], kap, 'entropy bound')


@scenario('P27', '2-3 episodes; arbitrary scores, rewards, discount; with and without context; one parameter without information',
          quick=[dict(lens=(1, 2), cx=False), dict(lens=(1, 1, 1), cx=False), dict(lens=(1, 1), cx=True)], tol=1e-5)
def pgpe(ctx, lens, cx):
    g = ctx.real('g', .25, 1) if not cx else .5
    dist, opt = Duck(ctx, 2, cx), Opt()
    zero = np.zeros(2) if not cx else None
    p0 = ctx.array('p', (2,), -2, 2)
    p = [p0[0], p0[1]]
    dist.params = p0
    agent = PGPE(info(g), dist, WPolicy(np.zeros(2)), opt, context_builder=Ctxb() if cx else None)
    real = dist.diff_log
    dist.diff_log = lambda theta, context=None: real(theta, context) * np.array([1., 0.])
    d, J, th, first = run(ctx, agent, dist, lens, g, states=[1., -.5] if cx else None)
    agent.fit(d)
    n = len(J)
    s = [th[i][0] * (first[i] + 1. if cx else 1.) for i in range(n)]
    den = asum([v * v for v in s])
    b = asum([J[i] * s[i] * s[i] for i in range(n)]) / den if bool(den != 0) else 0.
    grad = [asum([s[i] * (J[i] - b) for i in range(n)]) / n, 0.]
    ctx.check(len(opt.calls) == 1, 'one optimizer step')
    for j in range(2):
        ctx.eq(opt.calls[0][0][j], p[j], 'the optimizer starts from the parameters of the distribution')
        ctx.eq(opt.calls[0][1][j], grad[j], 'parameter-exploring gradient with the variance-minimizing baseline')
        ctx.eq(dist.params[j], p[j] + 2. * grad[j], 'the distribution gets the optimized parameters')


class TDist(Distribution):
    """torch search distribution with arbitrary log-densities (depending on the row, the update and the context) and entropies"""

    def __init__(self, ctx, contextual):
        super().__init__((1,) if contextual else None)
        self.ctx, self.version, self.k = ctx, 0, 0
        self.calls, self.ents, self.lp, self.contextual = [], [], {}, contextual

    def sample(self, context=None):
        self.k += 1
        return torch.tensor([float(self.k - 1), 0.])

    def value(self, row, ver):
        if (row, ver) not in self.lp:
            self.lp[row, ver] = self.ctx.real('lp%d_%d' % (row, ver), -1, 1)
        return self.lp[row, ver]

    def log_pdf(self, theta, context=None):
        rows = [int(round(float(v))) for v in theta[:, 0]]
        self.calls.append((rows, self.version, context))
        t = self.ctx.to_tensor(self.ctx.pack([self.value(r, self.version) for r in rows], (len(rows),), 'f'))
        return t if self.ctx.symbolic else t.requires_grad_()

    def entropy(self, context=None):
        self.ents.append(self.ctx.real('ent%d' % len(self.ents), 0, 2))
        return self.ctx.to_tensor(self.ctx.pack([self.ents[-1]], (1,), 'f'))[0]

    def parameters(self):
        return []


@scenario('P27', '2-3 episodes, 1-2 epochs, minibatches of 1-3; arbitrary log-densities, entropies and returns; with and without context',
          quick=[dict(n=2, epochs=1, mb=2, cx=False), dict(n=2, epochs=2, mb=1, cx=False), dict(n=3, epochs=1, mb=2, cx=False), dict(n=2, epochs=1, mb=2, cx=True)],
          tol=1e-3, max_paths=400)
def eppo(ctx, n, epochs, mb, cx):
    g, c, eps = .5, ctx.real('c', 0, 2), .25
    dist = TDist(ctx, cx)

    class OptT(Protocol):
        def __init__(self, params, **kw):
            self.ctx = ctx

        def zero_grad(self, *a, **k):
            self.clearing()

        def step(self, *a, **k):
            self.stepping()
            dist.version += 1
    agent = ePPO(info(g), dist, WPolicy(torch.zeros(2)), dict(**{'class': OptT, 'params': {}}), epochs, mb, eps, ent_coeff=c, context_builder=Ctxb() if cx else None)
    d, J, th, first = run(ctx, agent, dist, (1,) * n, g)
    m = asum(J) / n
    var = asum([(v - m) * (v - m) for v in J]) / (n - 1)
    ctx.assume(var >= .01)
    agent.fit(d)
    a = torch.stack([ctx.to_tensor(ctx.pack([v], (1,), 'f'))[0] for v in J])
    mean, std = torch.mean(a), torch.std(a)
    nb = -(-n // mb)
    ctx.check(len(ctx.losses) == nb * epochs == dist.version, 'one optimizer step per minibatch and epoch')
    ctx.check(dist.calls[0][0] == list(range(n)) and dist.calls[0][1] == 0, 'old log-densities of all the episodes')
    if cx:
        for i, cc in enumerate(dist.calls):
            ctx.check(cc[2] is not None, 'log-densities are those of the context')
            for j, row in enumerate(cc[0]):
                ctx.eq(scal(cc[2][j]), first[row] + 1., 'every episode is evaluated in its own context')
    for e in range(epochs):
        seen = []
        for b in range(nb):
            rows, ver, _ = dist.calls[1 + e * nb + b]
            ctx.check(ver == e * nb + b, 'log-densities of the current distribution')
            seen += rows
            terms = []
            for i in rows:
                A = (a[i] - mean) / (std + 1e-8)
                lpn = ctx.to_tensor(ctx.pack([dist.value(i, ver) - dist.value(i, 0)], (1,), 'f'))[0]
                rho = torch.exp(lpn)
                terms.append(torch.min(rho * A, torch.clamp(rho, 1 - eps, 1 + eps) * A))
            want = 0.0 - asum(terms) / len(rows) - ctx.to_tensor(ctx.pack([c * dist.ents[e * nb + b]], (1,), 'f'))[0]
            ctx.eq(ctx.losses[e * nb + b].reshape(-1)[0], want, 'clipped surrogate of the standardized returns with the entropy bonus')
        ctx.check(sorted(seen) == list(range(n)), 'each epoch uses every episode exactly once')


# ---- search distributions -------------------------------------------------------------------------------------------------------

def make(ctx, kind, n, fixed=False):
    """a Gaussian search distribution with arbitrary parameters; returns it with its mean and lower Cholesky factor (scalars)"""
    mu = ctx.array('mu', (n,), -2, 2)
    m = [mu[i] for i in range(n)]
    if n == 2 and kind == 'chol' and fixed:
        L = ctx.pick('L', [[[1., 0.], [0., 2.]], [[.5, 0.], [1., 1.]], [[2., 0.], [-.5, .25]]])
        return GaussianCholeskyDistribution(mu, np.array(L).dot(np.array(L).T)), m, L
    sd = [ctx.real('sd%d' % i, .25, 2) for i in range(n)]
    L = [[sd[i] if i == j else 0. for j in range(n)] for i in range(n)]
    if kind == 'diag':
        return GaussianDiagonalDistribution(mu, ctx.pack(list(sd), (n,), 'f')), m, L
    if n == 2:
        L[1][0] = ctx.real('off', -1, 1)
    S = [[asum([L[i][k] * L[j][k] for k in range(n)]) for j in range(n)] for i in range(n)]
    Sg = ctx.pack([S[i][j] for i in range(n) for j in range(n)], (n, n), 'f')
    if kind == 'full':
        return GaussianDistribution(mu, Sg), m, L
    return GaussianCholeskyDistribution(mu, Sg), m, L


def whiten(L, d):
    """L^-1 d"""
    z = []
    for i in range(len(d)):
        z.append((d[i] - asum([L[i][k] * z[k] for k in range(i)])) / L[i][i])
    return z


def score(L, z, kind):
    """gradient of the log-density with respect to the parameters"""
    n = len(z)
    if n == 1:
        gm, gl = [z[0] / L[0][0]], [(z[0] * z[0] - 1) / L[0][0]]
    else:
        a, b, c = L[0][0], L[1][0], L[1][1]
        gm = [z[0] / a - b * z[1] / (a * c), z[1] / c]
        gl = [z[0] * z[0] / a - z[0] * z[1] * b / (a * c) - 1 / a, z[0] * z[1] / c, (z[1] * z[1] - 1) / c]
        if kind == 'diag':
            gl = [gl[0], gl[2]]
    return gm if kind == 'full' else gm + gl


KN = [dict(kind=k, n=n) for k in ('full', 'diag', 'chol') for n in (1, 2)]


@scenario('P27', '1-2 dimensions, arbitrary mean, spread and point (Cholesky in two dimensions: three spreads)', quick=KN, tol=1e-5)
def density(ctx, kind, n):
    dist, m, L = make(ctx, kind, n, True)
    th = ctx.array('th', (n,), -2, 2)
    z = whiten(L, [th[i] - m[i] for i in range(n)])
    q = asum([v * v for v in z])
    ld = asum([np.log(L[i][i]) for i in range(n)])
    ctx.check(not dist.is_contextual, 'no context')
    for i in range(n):
        ctx.eq(dist.mean()[i], m[i], 'mean')
    g = dist.diff_log(th)
    want = score(L, z, kind)
    ctx.check(len(g) == len(want) == dist.parameters_size, 'number of parameters')
    for a, b in zip(g, want):
        ctx.eq(a, b, 'the score is the gradient of the log-density')


@scenario('P27', '1-2 dimensions, three values of the spread, arbitrary mean and point', quick=KN, tol=1e-5)
def log_density(ctx, kind, n):
    L = ctx.pick('L', [[[1., 0.], [0., 2.]], [[.5, 0.], [1., 1.]], [[2., 0.], [-.5, .25]]])
    if kind == 'diag':
        L = [[L[0][0], 0.], [0., L[1][1]]]
    L = [r[:n] for r in L[:n]]
    mu = ctx.array('mu', (n,), -2, 2)
    m = [mu[i] for i in range(n)]
    S = np.array(L).dot(np.array(L).T)
    dist = GaussianDiagonalDistribution(mu, np.array([L[i][i] for i in range(n)])) if kind == 'diag' else \
        (GaussianDistribution if kind == 'full' else GaussianCholeskyDistribution)(mu, S)
    th = ctx.array('th', (n,), -2, 2)
    z = whiten(L, [th[i] - m[i] for i in range(n)])
    q = asum([v * v for v in z])
    ld = asum([float(np.log(L[i][i])) for i in range(n)])
    lp = -.5 * q - ld - .5 * n * float(np.log(2 * PI))
    ctx.eq(scal(dist.log_pdf(th)), lp, 'log-density')
    got = scal(dist.log_pdf(th))
    ctx.eq(scal(dist(th)), np.exp(got), 'density')
    ctx.eq(scal(dist.entropy()), .5 * n * (1 + float(np.log(2 * PI))) + ld, 'entropy')
    df = dist.diff(th)
    sc = score(L, z, kind)
    p = np.exp(got)
    for a, b in zip(df, sc):
        ctx.eq(a, p * b, 'gradient of the density', tol=1e-4)


@scenario('P27', '1-2 dimensions, arbitrary mean, spread and noise', quick=KN, tol=1e-5)
def sampling(ctx, kind, n):
    dist, m, L = make(ctx, kind, n)
    del ctx.normals[:]
    s = dist.sample()
    z = list(ctx.normals)
    ctx.check(len(z) == n, 'one noise component per dimension')
    w = whiten(L, [s[i] - m[i] for i in range(n)])
    ctx.eq(asum([v * v for v in w]), asum([v * v for v in z]), 'the sample is the mean plus noise with the covariance of the distribution')


@scenario('P27', '1-2 dimensions, arbitrary parameters', quick=KN, tol=1e-5)
def parameters(ctx, kind, n):
    dist, m, L = make(ctx, kind, n)
    low = [L[i][j] for i in range(n) for j in range(i + 1)] if kind == 'chol' else [L[i][i] for i in range(n)]
    want = m if kind == 'full' else m + low
    got = dist.get_parameters()
    ctx.check(len(got) == dist.parameters_size == len(want), 'number of parameters')
    for a, b in zip(got, want):
        ctx.eq(a, b, 'parameters: mean and spread')
    new = ctx.array('new', (len(want),), .5, 2)
    nv = [new[i] for i in range(len(want))]
    dist.set_parameters(new)
    for a, b in zip(dist.get_parameters(), nv):
        ctx.eq(a, b, 'parameters are those that were set')
    for i in range(n):
        ctx.eq(dist.mean()[i], nv[i], 'the mean follows')
    if kind == 'full':
        L2 = L
    elif kind == 'diag':
        L2 = [[nv[n + i] if i == j else 0. for j in range(n)] for i in range(n)]
    else:
        it = iter(nv[n:])
        L2 = [[next(it) if j <= i else 0. for j in range(n)] for i in range(n)]
    th = ctx.array('th', (n,), -2, 2)
    z = whiten(L2, [th[i] - nv[i] for i in range(n)])
    for a, b in zip(dist.diff_log(th), score(L2, z, kind)):
        ctx.eq(a, b, 'the density follows')


@scenario('P27', '2-3 samples in 1-2 dimensions, arbitrary samples and positive weights (or none)',
          quick=[dict(kind=k, n=1, N=N, w=w) for k in ('full', 'diag', 'chol') for N in (2, 3) for w in (True, False) if not (k == 'chol' and not w)] +
                [dict(kind='full', n=2, N=2, w=True), dict(kind='diag', n=2, N=3, w=True), dict(kind='diag', n=2, N=2, w=False)], tol=1e-4)
def mle(ctx, kind, n, N, w):
    dist, m, L = make(ctx, kind, n)
    th = ctx.array('x', (N, n), -2, 2)
    W = ([.5, 1., .25][:N] if kind == 'chol' or N == 3 and kind == 'diag' else [ctx.real('w%d' % i, .25, 2) for i in range(N)]) if w else [1.] * N
    if kind == 'chol':
        ctx.assume(abs(th[0, 0] - th[1, 0]) >= .1)
    if w:
        dist.mle(th, ctx.pack(list(W), (N,), 'f'))
    else:
        dist.mle(th)
    S = asum(W)
    mu = [asum([W[i] * th[i, j] for i in range(N)]) / S for j in range(n)]
    rho = dist.get_parameters()
    for j in range(n):
        ctx.eq(rho[j], mu[j], 'weighted mean of the samples')
    if kind == 'full':
        return
    # effective-sample-size correction with weights; without, plain standard deviation
    Z = S - asum([v * v for v in W]) / S if w else S
    for j in range(n):
        v = asum([W[i] * (th[i, j] - mu[j]) * (th[i, j] - mu[j]) for i in range(N)]) / Z
        sd = rho[n + j]
        ctx.check(sd >= 0, 'the spread is not negative')
        ctx.eq(sd * sd, v, 'weighted variance of the samples')


@scenario('P27', '3 samples in 2 dimensions of arbitrary scale, two weightings or none: full covariance of the Cholesky distribution',
          quick=[dict(w=True), dict(w=False)], tol=1e-4)
def mle_chol(ctx, w):
    x = [[0., 0.], [1., 2.], [-1., 1.]]
    dist = GaussianCholeskyDistribution(np.zeros(2), np.eye(2))
    k = [ctx.real('k%d' % i, .25, 2) for i in range(2)]
    x = [[v[0] * k[0], v[1] * k[1]] for v in x]
    th = ctx.pack([v for r in x for v in r], (3, 2), 'f')
    W = ctx.pick('W', [[1., .5, .25], [.25, .5, 2.]]) if w else [1.] * 3
    if w:
        dist.mle(th, np.array(W))
    else:
        dist.mle(th)
    S = asum(W)
    Z = S - asum([v * v for v in W]) / S
    mu = [asum([W[i] * x[i][j] for i in range(3)]) / S for j in range(2)]
    C = [[asum([W[i] * (x[i][a] - mu[a]) * (x[i][b] - mu[b]) for i in range(3)]) / Z for b in range(2)] for a in range(2)]
    r = dist.get_parameters()
    a, b, c = r[2], r[3], r[4]
    ctx.eq(r[0], mu[0], 'weighted mean of the samples')
    ctx.eq(r[1], mu[1], 'weighted mean of the samples')
    ctx.eq(a * a, C[0][0], 'weighted covariance of the samples')
    ctx.eq(a * b, C[0][1], 'weighted covariance of the samples')
    ctx.eq(b * b + c * c, C[1][1], 'weighted covariance of the samples')
    ctx.check(LAND(a > 0, c > 0), 'the Cholesky factor has a positive diagonal')


@scenario('P27', '2 samples, one dimension (two for the fixed covariance); two weightings, arbitrary samples and multipliers (diagonal, Cholesky: two values of the first; diagonal: one of the second)',
          quick=[dict(kind='full', n=1), dict(kind='full', n=2), dict(kind='diag', n=1), dict(kind='chol', n=1)], tol=1e-4, budget=40)
def con_wmle(ctx, kind, n):
    N = 2
    mu = ctx.array('mu', (n,), -2, 2) if kind == 'full' else np.array([.5])
    m = [mu[i] for i in range(n)]
    sd = [2., .5][:n]
    if kind == 'diag':
        dist = GaussianDiagonalDistribution(mu, np.array(sd))
    else:
        dist = (GaussianDistribution if kind == 'full' else GaussianCholeskyDistribution)(mu, np.diag([v * v for v in sd]))
    th = ctx.array('x', (N, n), -2, 2)
    W = ctx.pick('W', [[1., .5], [.25, 1.]])
    eps, kap = ctx.real('eps', .1, 2), ctx.real('kap', .1, 2)
    S = asum(W)
    s = Search(ctx, 1 if kind == 'full' else 2)
    if kind != 'full':
        s.x[0] = ctx.pick('eta', [.5, 2.])
    if kind == 'diag':
        s.x[1] = .25
    eta, om = s.x[0], s.x[1] if kind != 'full' else 0.
    if kind != 'full':
        ctx.assume(om <= S + eta - .25)
    with minimizer(s):
        dist.con_wmle(th, ctx.pack(list(W), (N,), 'f'), eps, kap)
    mn = [(asum([W[i] * th[i, j] for i in range(N)]) + eta * m[j]) / (S + eta) for j in range(n)]
    rho = dist.get_parameters()
    for j in range(n):
        ctx.eq(rho[j], mn[j], 'mean between the weighted samples and the old mean')
    f = scal(s.calls[0][0])
    c = float(np.log(2 * PI))
    if kind == 'full':
        ll = asum([W[i] * (-.5 * asum([((th[i, j] - mn[j]) / sd[j]) * ((th[i, j] - mn[j]) / sd[j]) for j in range(n)]) -
                           float(np.sum(np.log(sd))) - .5 * n * c) for i in range(N)])
        kl = .5 * asum([((mn[j] - m[j]) / sd[j]) * ((mn[j] - m[j]) / sd[j]) for j in range(n)])
        ctx.eq(f, ll + eta * (eps - kl), 'Lagrangian of the divergence-bounded likelihood')
        return
    v = (asum([W[i] * (th[i, 0] - mn[0]) * (th[i, 0] - mn[0]) for i in range(N)]) + eta * sd[0] * sd[0] + eta * (mn[0] - m[0]) * (mn[0] - m[0])) / (S + eta - om)
    ctx.eq(rho[1] * rho[1], v, 'variance of the constrained fit')
    ldn = np.log(v)
    ll = asum([W[i] * (-.5 * (th[i, 0] - mn[0]) * (th[i, 0] - mn[0]) / v - .5 * ldn - .5 * c) for i in range(N)])
    kl = .5 * (sd[0] * sd[0] / v - 1 + ldn - 2 * float(np.log(sd[0])) + (mn[0] - m[0]) * (mn[0] - m[0]) / v)
    ent = .5 * ldn - float(np.log(sd[0])) + kap
    ctx.eq(f, ll + eta * (eps - kl) + om * ent, 'Lagrangian of the divergence- and entropy-bounded likelihood')


@scenario('P27', '1-2 dimensions, arbitrary mean and point; arbitrary (diagonal) or three fixed (full) spreads',
          quick=[dict(kind=k, n=n) for k in ('diag', 'chol') for n in (1, 2)], tol=1e-4)
def torch_density(ctx, kind, n):
    L = ctx.pick('L', [[[1., 0.], [0., 2.]], [[.5, 0.], [1., 1.]], [[2., 0.], [-.5, .25]]])
    if kind == 'diag':
        L = [[L[0][0], 0.], [0., L[1][1]]]
    L = [r[:n] for r in L[:n]]
    mu = ctx.tensor('mu', (n,), -2, 2)
    m = [mu[i] for i in range(n)]
    Lt = torch.tensor(L)
    dist = DiagonalGaussianTorchDistribution(mu, torch.diagonal(Lt).clone()) if kind == 'diag' else CholeskyGaussianTorchDistribution(mu, Lt @ Lt.T)
    th = ctx.tensor('th', (n,), -2, 2)
    z = whiten(L, [th[i] - m[i] for i in range(n)])
    ld = asum([float(np.log(L[i][i])) for i in range(n)])
    lp = -.5 * asum([v * v for v in z]) - ld - .5 * n * float(np.log(2 * PI))
    ctx.eq(dist.log_pdf(th), lp, 'log-density')
    ctx.eq(dist(th), torch.exp(lp), 'density')
    ctx.eq(dist.entropy(), .5 * n * (1 + float(np.log(2 * PI))) + ld, 'entropy')
    for i in range(n):
        ctx.eq(dist.mean()[i], m[i], 'mean')
    del ctx.normals[:]
    s = dist.sample()
    w = whiten(L, [s[i] - m[i] for i in range(n)])
    ctx.eq(asum([v * v for v in w]), asum([v * v for v in ctx.normals]), 'the sample is the mean plus noise with the covariance of the distribution')
    low = [L[i][j] for i in range(n) for j in range(i + 1)] if kind == 'chol' else [float(np.log(L[i][i])) for i in range(n)]
    rho = dist.get_parameters()
    ctx.check(len(rho) == dist.parameters_size == n + len(low), 'number of parameters')
    for a, b in zip(rho, m + low):
        ctx.eq(a, b, 'parameters: mean and spread')
    new = ctx.tensor('new', (n + len(low),), .5, 2)
    dist.set_parameters(new)
    got = dist.get_parameters()
    for i in range(n + len(low)):
        ctx.eq(got[i], new[i], 'parameters are those that were set')
    for i in range(n):
        ctx.eq(dist.mean()[i], new[i], 'the mean follows')


DESIGNS = {1: [[-1.], [0.], [1.], [.5]], 2: [[0., 0.], [1., 0.], [0., 1.], [-1., 0.], [0., -1.], [1., 1.], [-1., 1.]],
           3: [[0., 0., 0.]] + [[s if i == j else 0. for j in range(3)] for i in range(3) for s in (1., -1.)] + [[1., 1., 0.], [1., 0., 1.], [0., 1., 1.], [-1., 1., 1.]]}
QUADS = {1: [([[-1.]], [.5], 2.), ([[-.25]], [-1.], 0.)],
         2: [([[-1., .25], [.25, -.5]], [.5, -1.], 1.), ([[-2., 0.], [0., -1.]], [1., 0.], -1.), ([[-1., -.75], [-.75, -1.]], [0., 1.], 0.)],
         3: [([[-1., .25, 0.], [.25, -1., -.5], [0., -.5, -2.]], [1., 0., -1.], 1.)]}


@scenario('P27', '1-3 parameters; returns of 6 concave quadratic functions at 4-11 fixed parameter vectors; multipliers arbitrary (1 parameter) or one of 6; arbitrary bounds and entropy targets', tol=1e-5,
          quick=[dict(n=1, free=True), dict(n=1, free=False), dict(n=2, free=False), dict(n=3, free=False)])
def more(ctx, n, free):
    A, b, c = [np.array(v) for v in ctx.pick('quad', QUADS[n])]
    th = np.array(DESIGNS[n])
    J = np.einsum('ni,ij,nj->n', th, A, th) + th @ b + c
    m0, L0 = np.array([.5, -.25, .125][:n]), np.array([[1., 0., 0.], [.5, 2., 0.], [-.5, .25, 1.]])[:n, :n]
    dist = GaussianCholeskyDistribution(m0.copy(), L0.dot(L0.T))
    eps, h0, kap = ctx.real('eps', .25, 2), ctx.real('h0', -4, 0), ctx.real('kappa', .5, 1)
    ag = MORE(info(.5), dist, WPolicy(np.zeros(n)), eps, h0, kap)
    H = float(dist.entropy())
    d = Dataset.generate(ag.mdp_info, ag.info, n_steps=len(J))
    for t, r in zip(th, J):
        d.append((np.zeros(1), np.zeros(1), float(r), np.zeros(1), True, True), {})
        d.append_theta(t.copy())
    search = Search(ctx, 2, 2.)
    if not free:
        search.x = list(ctx.pick('multipliers', [(1., 1.), (.25, 2.), (2., .5), (4., .125), (.5, .25), (.125, .125)]))
    with minimizer(search) as s:
        ag.fit(d)
    eta, om = s.x
    sd = J.std()
    R, r, r0 = A / sd, b / sd, (c - J.mean()) / sd
    Q = np.linalg.inv(L0.dot(L0.T))
    M = eta * Q - 2. * R
    F = np.linalg.inv(M)
    f = eta * (Q @ m0) + r
    par = dist.get_parameters()
    mu = F @ f
    for i in range(n):
        ctx.eq(par[i], mu[i], 'mean of the closed-form solution for the quadratic model of the returns')
    at = n
    L = [[0.] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            L[i][j] = par[at]
            at += 1
    for i in range(n):
        for j in range(i + 1):
            ctx.eq(asum([L[i][k] * L[j][k] for k in range(j + 1)]), F[i, j] * (eta + om), 'covariance of the closed-form solution')
    ctx.check(len(s.calls) == 1, 'one dual')
    fval, gr, bounds = s.calls[0]
    ctx.check(bounds is not None and all(lo > 0 for lo, hi in bounds), 'the multipliers are positive')
    if free:
        return
    ld0 = float(np.linalg.slogdet(2 * np.pi * L0.dot(L0.T))[1])
    ld1 = np.linalg.slogdet(2 * np.pi * (eta + om) * F)[1]
    beta = kap * (H - h0) + h0
    ctx.eq(scal(fval), eta * eps - om * beta + .5 * ((f @ (F @ f)) - eta * float(m0 @ (Q @ m0)) - eta * ld0 + (eta + om) * ld1 + r0), 'dual of the entropy- and divergence-bounded problem')
