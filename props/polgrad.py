"""Policy-gradient and classic actor-critic updates."""
from props.common import *
from mushroom_rl.algorithms.policy_search import REINFORCE, GPOMDP, eNAC
from mushroom_rl.algorithms.actor_critic.classic_actor_critic import StochasticAC, StochasticAC_AVG, COPDAC_Q
from mushroom_rl.policy import ParametricPolicy


class GradPolicy(ParametricPolicy):
    """parametric policy whose score is an arbitrary vector: the state and action components, or linear in the weights"""

    def __init__(self, w, linear=False):
        super().__init__()
        self.w, self.linear = w, linear

    def diff_log(self, state, action, policy_state=None):
        if self.linear:
            return state * (action[0] - state.dot(self.w))
        return np.concatenate((state, action))

    def draw_action(self, state, policy_state=None):
        return np.zeros(1), None

    def set_weights(self, w):
        self.w = w

    def get_weights(self):
        return self.w

    @property
    def weights_size(self):
        return len(self.w)

    def reset(self):
        return None


class Opt(object):
    def __init__(self):
        self.calls = []

    def __call__(self, params, grads):
        self.calls.append((params, grads))
        return params + 2. * grads


def info(gamma, ns=1):
    return MDPInfo(Box(-10, 10, shape=(ns,)), Box(-10, 10, shape=(1,)), gamma, 10)


def episodes(ctx, lens, tag='', zero=False):
    """steps (state, action, reward, last) of consecutive episodes; absorbing flags arbitrary"""
    out = []
    for e, n in enumerate(lens):
        for t in range(n):
            k = '%s%d%d' % (tag, e, t)
            out.append((ctx.real('s' + k, -2, 2), 0. if zero else ctx.real('a' + k, -2, 2), ctx.real('r' + k, -2, 2), t == n - 1))
    return out


def dataset(ctx, agent, steps, tail=()):
    d = Dataset.generate(agent.mdp_info, agent.info, n_steps=len(steps) + len(tail))
    for i, (s, a, r, last) in enumerate(list(steps) + list(tail)):
        one = lambda v: ctx.pack([v], (1,), 'f')
        d.append((one(s), one(a), r, one(0.), last and i % 2 == 0, last), {})
    return d


def split(steps):
    eps, cur = [], []
    for s in steps:
        cur.append(s)
        if s[3]:
            eps.append(cur)
            cur = []
    return eps


def ratio(num, den):
    """num/den, or 0 where the data carries no information"""
    if isinstance(den, Sym):
        return num / den if bool(den != 0) else 0.
    return num / den if den != 0 else 0.


def reinforce_grad(steps, g, n):
    eps = split(steps)
    G = [[asum([st[j] for st in e]) for j in range(n)] for e in eps]
    J = [asum([g ** t * st[2] for t, st in enumerate(e)]) for e in eps]
    out = []
    for j in range(n):
        b = ratio(asum([J[i] * G[i][j] * G[i][j] for i in range(len(eps))]), asum([G[i][j] * G[i][j] for i in range(len(eps))]))
        out.append(asum([G[i][j] * (J[i] - b) for i in range(len(eps))]) / len(eps))
    return out


def gpomdp_grad(steps, g, n):
    eps = split(steps)
    T = max(len(e) for e in eps)
    C = [[[asum([st[j] for st in e[:t + 1]]) for j in range(n)] for t in range(len(e))] for e in eps]
    out = []
    for j in range(n):
        tot = 0.
        for t in range(T):
            act = [i for i in range(len(eps)) if len(eps[i]) > t]
            b = ratio(asum([g ** t * eps[i][t][2] * C[i][t][j] * C[i][t][j] for i in act]), asum([C[i][t][j] * C[i][t][j] for i in act]))
            tot = tot + asum([C[i][t][j] * (g ** t * eps[i][t][2] - b) for i in act])
        out.append(tot / len(eps))
    return out


def check_update(ctx, opt, k, pol, w0, grad, label):
    ctx.check(len(opt.calls) == k + 1, 'one optimizer step per fit')
    p, g = opt.calls[k]
    for j in range(len(grad)):
        ctx.eq(p[j], w0[j], 'the optimizer starts from the policy weights')
        ctx.eq(g[j], grad[j], label)
        ctx.eq(pol.get_weights()[j], w0[j] + 2. * grad[j], 'the policy gets the optimized weights')


@scenario('P26', '2-3 complete episodes of 1-3 steps, arbitrary scores, rewards and discount; one or two parameters (one without information)',
          quick=[dict(alg=a, lens=l, zero=z) for a in ('reinforce', 'gpomdp') for l, z in (((1, 2), False), ((2, 1, 1), True), ((1, 3), True))] +
          [dict(alg='gpomdp', lens=(1, 2, 2), zero=True)],
          thorough=[dict(alg=a, lens=l, zero=z) for a in ('reinforce', 'gpomdp') for l, z in (((3, 2), True), ((2, 2), False))], tol=1e-5)
def gradient(ctx, alg, lens, zero):
    g = ctx.real('g', .25, 1)
    w = ctx.array('w', (2,), -2, 2)
    w0 = [w[0], w[1]]
    pol, opt = GradPolicy(w), Opt()
    agent = (REINFORCE if alg == 'reinforce' else GPOMDP)(info(g), pol, opt)
    steps = episodes(ctx, lens, zero=zero)
    agent.fit(dataset(ctx, agent, steps))
    grad = (reinforce_grad if alg == 'reinforce' else gpomdp_grad)(steps, g, 2)
    check_update(ctx, opt, 0, pol, w0, grad, 'likelihood-ratio gradient with the variance-minimizing baseline')


@scenario('P26', 'two fits on complete episodes, the first with an unfinished episode at the end', quick=[dict(alg='reinforce'), dict(alg='gpomdp'), dict(alg='enac')], tol=1e-5)
def refit(ctx, alg):
    g = .5
    w = ctx.array('w', (2,), -2, 2)
    pol, opt = GradPolicy(w), Opt()
    agent = {'reinforce': REINFORCE, 'gpomdp': GPOMDP, 'enac': eNAC}[alg](info(g), pol, opt)
    if alg == 'enac':
        first = [(1., 2., 1., True), (0., 1., 2., True), (1., 0., 3., True)]
    else:
        first = [(1., 0., 1., True), (2., 0., 2., True)]
    tail = [(ctx.real('ts', -2, 2), ctx.real('ta', -2, 2), ctx.real('tr', -2, 2), False)]
    agent.fit(dataset(ctx, agent, first, tail))
    wn = pol.get_weights()
    w1 = [wn[0], wn[1]]
    if alg == 'enac':
        ra, rb, rc = ctx.real('ra', -2, 2), ctx.real('rb', -2, 2), ctx.real('rc', -2, 2)
        steps = [(1., 0., ra, True), (0., 1., rb, True), (0., 0., rc, True)]
        grad = [ra - rc, rb - rc]
    else:
        steps = episodes(ctx, (1, 2), 'n', zero=True)
        grad = (reinforce_grad if alg == 'reinforce' else gpomdp_grad)(steps, g, 2)
    agent.fit(dataset(ctx, agent, steps))
    check_update(ctx, opt, 1, pol, w1, grad, 'the gradient comes from the episodes of this fit')


@scenario('P26', '3-4 episodes of 1-2 steps, one parameter with arbitrary scores plus a constant or two-feature critic (whose features vanish in the later states when shifted); arbitrary rewards and discount',
          quick=[dict(n=2, k=1), dict(n=2, k=2), dict(n=3, k=1), dict(n=3, k=2, feat=True), dict(n=3, k=2, feat=True, shift=1.)], tol=1e-4)
def enac(ctx, n, k, feat=False, shift=0.):
    g = ctx.real('g', .25, 1)
    w = ctx.array('w', (1,), -2, 2)
    w0 = [w[0]]
    pol, opt = GradPolicy(w), Opt()
    pol.diff_log = lambda s, a, policy_state=None: s * 1.
    # the critic features only depend on the first state of the episode
    first = (lambda x: np.concatenate((x - shift, x * x - 1))) if shift else (lambda x: np.concatenate((np.ones(1), x * x)))
    agent = eNAC(info(g), pol, opt, critic_features=first if feat else None)
    steps, gs, fs, Js = [], [], [], []
    for e in range(n):
        # scores of the episode are chosen by a case, rewards are arbitrary: the least-squares problem stays linear
        ss = ([[2., shift], [-1., shift], [-2., shift]] if shift else [[1., 2.], [-1., .5], [2., -1.]])[e][:k]
        rs = [ctx.real('r%d%d' % (e, t), -2, 2) for t in range(k)]
        steps += [(ss[t], 0., rs[t], t == k - 1) for t in range(k)]
        gs.append(asum([g ** t * ss[t] for t in range(k)]))
        fs.append(([ss[0] - shift, ss[0] * ss[0] - 1] if shift else [1., ss[0] * ss[0]]) if feat else [1.])
        Js.append(asum([g ** t * rs[t] for t in range(k)]))
    # assume a well-posed regression
    if not feat:
        m = asum(gs) / n
        den = asum([(v - m) * (v - m) for v in gs])
        ctx.assume(den >= .01)
        jm = asum(Js) / n
        grad = [asum([(gs[i] - m) * (Js[i] - jm) for i in range(n)]) / den]
    else:
        # square system: solve by Cramer's rule
        A = [[gs[i]] + fs[i] for i in range(3)]

        def det(M):
            return M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])
        D = det(A)
        ctx.assume(D >= .01 if not shift else D <= -.01)
        grad = [det([[Js[i]] + A[i][1:] for i in range(3)]) / D]
    agent.fit(dataset(ctx, agent, steps))
    check_update(ctx, opt, 0, pol, w0, grad, 'natural gradient: least-squares fit of the returns by the discounted scores and the critic features')


@scenario('P26', 'fewer than two complete episodes', quick=[dict(n=0), dict(n=1)])
def too_few(ctx, n):
    w = ctx.array('w', (2,), -2, 2)
    w0 = [w[0], w[1]]
    pol, opt = GradPolicy(w), Opt()
    agent = ctx.pick('alg', [REINFORCE, GPOMDP, eNAC])(info(.9), pol, opt)
    steps = episodes(ctx, (1,) * n) + [(1., 1., 1., False)]
    failed = False
    try:
        agent.fit(dataset(ctx, agent, steps))
    except AssertionError:
        failed = True
    ctx.check(failed and not opt.calls, 'a gradient needs two episodes')
    ctx.eq(pol.get_weights()[0], w0[0], 'the policy is unchanged')


def feed(ctx, agent, s, a, r, n, absorbing, last=False):
    d = Dataset.generate(agent.mdp_info, agent.info, n_steps=1)
    d.append((s, a, r, n, absorbing, last), {})
    agent.fit(d)


@scenario('P26', '3 steps over two episodes, state dimension 1-2, arbitrary states, actions, rewards, absorbing flags, rates, discount and trace decay',
          quick=[dict(avg=False, ns=1, psi=False), dict(avg=True, ns=1, psi=False), dict(avg=False, ns=1, psi=True), dict(avg=False, ns=2, psi=False),
                 dict(avg=False, ns=1, psi=False, cut=1), dict(avg=True, ns=1, psi=False, cut=1)],
          thorough=[dict(avg=True, ns=2, psi=True)], tol=1e-4)
def stochastic_ac(ctx, avg, ns, psi, cut=2):
    g, lam = ctx.real('g', .25, 1), ctx.real('lam', 0, 1)
    at, av, ar = ctx.real('at', 0, 1), ctx.real('av', 0, 1), ctx.real('ar', 0, 1)
    w = ctx.array('w', (ns,), -2, 2)
    th = [w[i] for i in range(ns)]
    pol = GradPolicy(w, linear=True)

    class Psi(object):
        size = ns + 1

        def __call__(self, x):
            return np.concatenate((x, np.ones(1)))
    kw = dict(value_function_features=Psi()) if psi else {}
    agent = StochasticAC_AVG(info(g, ns), pol, at, av, ar, lam, **kw) if avg else StochasticAC(info(g, ns), pol, at, av, lam, **kw)
    nv = ns + 1 if psi else ns
    f = lambda x: list(x) + [1.] if psi else list(x)
    dot = lambda a, b: asum([u * v for u, v in zip(a, b)])
    v, ev, et, rb = [0.] * nv, [0.] * nv, [0.] * ns, 0.
    gg = 1. if avg else g
    n_steps = 3 if ns == 1 else 2
    for t in range(n_steps):
        if t in (0, cut):
            agent.episode_start(np.zeros(ns), {})
            ev, et = [0.] * nv, [0.] * ns
        S, A, N = ctx.array('s%d' % t, (ns,), -2, 2), ctx.array('a%d' % t, (1,), -2, 2), ctx.array('n%d' % t, (ns,), -2, 2)
        R, ab = ctx.real('r%d' % t, -2, 2), bool(ctx.bool('ab%d' % t))
        s, n = f(S[i] for i in range(ns)), f(N[i] for i in range(ns))
        a = A[0]
        feed(ctx, agent, S, A, R, N, ab, ab)
        delta = R - rb + gg * (0. if ab else dot(v, n)) - dot(v, s)
        if avg:
            rb = rb + ar * delta
        score = [s[i] * (a - dot(s[:ns], th)) for i in range(ns)]
        ev = [gg * lam * e + x for e, x in zip(ev, s)]
        et = [gg * lam * e + x for e, x in zip(et, score)]
        v = [x + av * delta * e for x, e in zip(v, ev)]
        th = [x + at * delta * e for x, e in zip(th, et)]
        pw = pol.get_weights()
        for i in range(ns):
            ctx.eq(pw[i], th[i], 'policy weights after step %d' % t)


class Det(object):
    """deterministic actor, linear in its weights: mu(s) = W s"""

    def __init__(self, w, na, ns):
        self.w, self.na, self.ns = w, na, ns

    def __call__(self, s):
        return np.reshape(self.w, (self.na, self.ns)).dot(s)

    def diff(self, s):
        out = np.zeros((self.na, self.na * self.ns))
        for i in range(self.na):
            out[i, i * self.ns:(i + 1) * self.ns] = s
        return out if self.na > 1 else out[0]

    def get_weights(self):
        return self.w

    def set_weights(self, w):
        self.w = w

    @property
    def weights_size(self):
        return self.na * self.ns


@scenario('P26', '2-3 steps, 1-2 states, 1-2 actions; arbitrary transitions, rates and discount',
          quick=[dict(na=1, ns=1, n=3, psi=False), dict(na=1, ns=1, n=2, psi=True), dict(na=2, ns=1, n=2, psi=False), dict(na=1, ns=2, n=2, psi=False)], tol=1e-4)
def copdac(ctx, na, ns, n, psi):
    g = ctx.real('g', .25, 1)
    at, ao, av = ctx.real('at', 0, 1), ctx.real('ao', 0, 1), ctx.real('av', 0, 1)
    W = ctx.array('w', (na * ns,), -2, 2)
    th = [W[i] for i in range(na * ns)]
    mu = Det(W, na, ns)

    class Psi(object):
        size = ns + 1

        def __call__(self, x):
            return np.concatenate((x, np.ones(1)))
    mi = MDPInfo(Box(-10, 10, shape=(ns,)), Box(-10, 10, shape=(na,)), g, 10)
    agent = COPDAC_Q(mi, GradPolicy(W), mu, at, ao, av, value_function_features=Psi() if psi else None)
    f = lambda x: list(x) + [1.] if psi else list(x)
    dot = lambda a, b: asum([u * v for u, v in zip(a, b)])
    v, om = [0.] * (ns + 1 if psi else ns), [0.] * (na * ns)
    for t in range(n):
        S, A, N = ctx.array('s%d' % t, (ns,), -2, 2), ctx.array('a%d' % t, (na,), -2, 2), ctx.array('n%d' % t, (ns,), -2, 2)
        R, ab = ctx.real('r%d' % t, -2, 2), bool(ctx.bool('ab%d' % t))
        s0 = [S[i] for i in range(ns)]
        s, nx = f(s0), f([N[i] for i in range(ns)])
        feed(ctx, agent, S, A, R, N, ab, ab)
        m = [dot(th[i * ns:(i + 1) * ns], s0) for i in range(na)]
        nu = [(A[i] - m[i]) * s0[j] for i in range(na) for j in range(ns)]
        delta = R + g * (0. if ab else dot(v, nx)) - dot(v, s) - dot(om, nu)
        # natural-gradient direction: (grad mu^T grad mu) omega, block by block
        step = [s0[j] * dot(s0, om[i * ns:(i + 1) * ns]) for i in range(na) for j in range(ns)]
        th = [x + at * d for x, d in zip(th, step)]
        om = [x + ao * delta * d for x, d in zip(om, nu)]
        v = [x + av * delta * d for x, d in zip(v, s)]
        got = mu.get_weights()
        for i in range(na * ns):
            ctx.eq(got[i], th[i], 'actor weights after step %d' % t)
