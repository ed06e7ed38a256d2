"""Dynamic programming and linear-quadratic solvers."""
from props.common import *
from props.finite import mdp, simplex
from mushroom_rl.solvers.dynamic_programming import value_iteration, policy_iteration
from mushroom_rl.solvers.lqr import (compute_lqr_feedback_gain, compute_lqr_P, compute_lqr_V, compute_lqr_V_gaussian_policy,
                                     compute_lqr_Q, compute_lqr_Q_gaussian_policy, compute_lqr_V_gaussian_policy_gradient_K,
                                     compute_lqr_Q_gaussian_policy_gradient_K)
from mushroom_rl.environments import LQR


def q_value(P, R, g, v, s, a):
    n = len(v)
    return asum([P[s, a, j] * (R[s, a, j] + g * v[j]) for j in range(n)])


CHOICES = [[1., 0.], [0., 1.], [.5, .5], [.75, .25], [.125, .875]]


def fixed_mdp(ctx, nS, nA, absorbing, seed, full=True):
    """concrete transition probabilities, arbitrary rewards (one arbitrary reward per state and action unless full)"""
    P = np.zeros((nS, nA, nS))
    k = seed
    for s in range(nS):
        for a in range(nA):
            if s not in absorbing:
                row = CHOICES[k % 5] + [0.] * (nS - 2)
                P[s, a] = row[k % nS:] + row[:k % nS]
                k = 3 * k + 1
    if full:
        return P, ctx.array('r', (nS, nA, nS), -4, 4)
    r = [ctx.real('r%d%d' % (s, a), -4, 4) if j == (s + a + seed) % nS else float(s - j + 2 * a)
         for s in range(nS) for a in range(nA) for j in range(nS)]
    return P, ctx.pack(r, (nS, nA, nS), 'f')


@scenario('P24', '2 states, 2 actions; arbitrary transition probabilities and rewards; discount 1/2; tolerances that stop after at most 3 sweeps',
          max_paths=6000, budget=100, quick=[dict(seed=s, eps=e, absorbing=b) for s, e, b in ((2, 6., ()), (3, 3., ()), (5, 3., (1,)))],
          thorough=[dict(seed=7, eps=2., absorbing=())])
def value_iterates(ctx, seed, eps, absorbing):
    nS, nA, g = 2, 2, .5
    P, R = fixed_mdp(ctx, nS, nA, absorbing, seed, False)
    v = value_iteration(P, R, g, eps)
    # Bellman residual: the last sweep moved the value by at most eps, the next moves it by at most gamma * eps
    for s in range(nS):
        t = amax([q_value(P, R, g, v, s, a) for a in range(nA)])
        ctx.le(t - v[s], g * eps, 'the value returned satisfies the Bellman optimality equation up to the tolerance')
        ctx.le(v[s] - t, g * eps, 'the value returned satisfies the Bellman optimality equation up to the tolerance')
        if s in absorbing:
            ctx.eq(v[s], 0.0, 'absorbing states have no value')


@scenario('P24', '2 states, 2 actions; arbitrary rewards; discount 0: one sweep gives the exact value', quick=[dict(nS=2), dict(nS=3)])
def value_myopic(ctx, nS):
    P, R = fixed_mdp(ctx, nS, 2, (), 1)
    v = value_iteration(P, R, 0.0, 1e-6)
    for s in range(nS):
        ctx.eq(v[s], amax([q_value(P, R, 0.0, [0.0] * nS, s, a) for a in range(2)]), 'best expected immediate reward')


@scenario('P24', '2-3 states, 2-3 actions; arbitrary rewards, arbitrary or fixed transition probabilities; discount 1/2 or arbitrary', tol=1e-6, max_paths=6000, budget=100,
          quick=[dict(nS=2, seed=s, absorbing=b, gam=.5) for s, b in ((1, ()), (2, (1,)), (4, ()))] + [dict(nS=2, seed=3, absorbing=(1,), gam=None), dict(nS=2, seed=5, absorbing=(1,), gam=.5, nA=3)],
          thorough=[dict(nS=3, seed=2, absorbing=(), gam=.5), dict(nS=2, seed=4, absorbing=(), gam=None)])
def policy_optimal(ctx, nS, seed, absorbing, gam, nA=2):
    P, R = fixed_mdp(ctx, nS, nA, absorbing, seed, seed % 2 == 0 and bool(absorbing))
    g = ctx.real('g', 0, .9) if gam is None else gam
    v, pi = policy_iteration(P, R, g)
    for s in range(nS):
        a = int(pi[s])
        ctx.check(0 <= a < nA, 'the policy maps states to actions')
        ctx.eq(v[s], q_value(P, R, g, v, s, a), 'the value is the value of the policy')
        for b in range(nA):
            # improvements smaller than the tolerance of np.isclose are not taken
            ctx.le(q_value(P, R, g, v, s, b), v[s] + 1e-3, 'no action improves on the policy')
        if s in absorbing:
            ctx.eq(v[s], 0.0, 'absorbing states have no value')


def lqr(ctx, n, m, sym, g):
    """arbitrary system: all of it symbolic in one dimension, a fixed stable system with symbolic costs in two"""
    if sym:
        A, B = ctx.array('A', (n, n), -1, 1), ctx.array('B', (n, m), -1, 1)
    else:
        A, B = np.array([[.5, .25], [0., .75]])[:n, :n], np.array([[1., 0.5], [.5, -1.]])[:n, :m]
    q, r = [ctx.real('q%d' % i, .1, 2) for i in range(n)], [ctx.real('r%d' % i, .1, 2) for i in range(m)]
    Q = ctx.pack([q[i] if i == j else 0.0 for i in range(n) for j in range(n)], (n, n), 'f')
    R = ctx.pack([r[i] if i == j else 0.0 for i in range(m) for j in range(m)], (m, m), 'f')
    return LQR(A, B, Q, R, gamma=g, horizon=5), A, B, Q, R


def gain(ctx, n, m, sym):
    return ctx.array('K', (m, n), -1, 1) if sym else np.array([[.25, .5], [-.25, .125]])[:m, :n]


def rew(A, B, Q, R, x, u):
    return -(x.dot(Q).dot(x) + u.dot(R).dot(u)), A.dot(x) + B.dot(u)


LB = 'one-dimensional systems with arbitrary dynamics, costs, gain, state and action; two-dimensional ones with fixed dynamics and gain'
SYS = [dict(n=1, m=1, sym=True), dict(n=2, m=1, sym=False), dict(n=2, m=2, sym=False), dict(n=1, m=2, sym=False)]


@scenario('P24', LB, tol=1e-6, quick=SYS)
def lqr_bellman(ctx, n, m, sym):
    g = .5
    env, A, B, Q, R = lqr(ctx, n, m, sym, g)
    K = gain(ctx, n, m, sym)
    if sym:     # the closed loop is stable: |A - BK|^2 gamma < 1
        c = A[0, 0] - B[0, 0] * K[0, 0]
        ctx.assume(LAND(c <= 1.2, c >= -1.2))
    x, u = ctx.array('x', (n,), -2, 2), ctx.array('u', (m,), -2, 2)
    a = -K.dot(x)
    r, y = rew(A, B, Q, R, x, a)
    V = compute_lqr_V(x, env, K)
    ctx.check(tuple(V.shape) == (1, 1), 'one value per state')
    ctx.eq(V[0, 0], r + g * compute_lqr_V(y, env, K)[0, 0], 'V is the discounted value of the linear controller')
    r, y = rew(A, B, Q, R, x, u)
    ctx.eq(compute_lqr_Q(x, u, env, K)[0, 0], r + g * compute_lqr_V(y, env, K)[0, 0], 'Q is reward plus discounted value of the next state')
    # the environment's own reward and dynamics
    env.reset(x)
    ny, nr, ab, _ = env.step(u)
    ctx.eq(nr, r, 'the solver uses the reward of the environment')
    ctx.eq(ny, y, 'the solver uses the dynamics of the environment')


@scenario('P24', LB + '; diagonal noise covariance', tol=1e-6, quick=SYS)
def lqr_gaussian(ctx, n, m, sym):
    """E over a ~ N(-Kx, S): V(x) = E[r + g V(x')], Q(x, u) = r + g V(x')"""
    g = .5
    env, A, B, Q, R = lqr(ctx, n, m, sym, g)
    K = gain(ctx, n, m, sym)
    if sym:
        c = A[0, 0] - B[0, 0] * K[0, 0]
        ctx.assume(LAND(c <= 1.2, c >= -1.2))
    S = np.diag([.5, .25][:m])
    x, u = ctx.array('x', (n,), -2, 2), ctx.array('u', (m,), -2, 2)
    P = compute_lqr_P(env, K)

    def V(z):
        return compute_lqr_V_gaussian_policy(z, env, K, S)[0, 0]
    r, y = rew(A, B, Q, R, x, u)
    ctx.eq(compute_lqr_Q_gaussian_policy(x, u, env, K, S)[0, 0], r + g * V(y), 'Q of the Gaussian policy is reward plus discounted value')
    # expectation over the action: quadratic, so mean plus trace of the covariance
    r, y = rew(A, B, Q, R, x, -K.dot(x))
    extra = asum([S[i, i] * R[i, i] for i in range(m)]) + g * asum([S[i, i] * B[j, i] * P[j, k] * B[k, i] for i in range(m) for j in range(n) for k in range(n)])
    ctx.eq(V(x), r + g * V(y) - extra, 'V of the Gaussian policy is its discounted value')


@scenario('P24', 'batches of two states and actions', tol=1e-6, quick=[dict(n=1, m=1, sym=True), dict(n=2, m=1, sym=False)])
def lqr_batch(ctx, n, m, sym):
    g = .5
    env, A, B, Q, R = lqr(ctx, n, m, sym, g)
    K = gain(ctx, n, m, sym)
    if sym:
        c = A[0, 0] - B[0, 0] * K[0, 0]
        ctx.assume(LAND(c <= 1.2, c >= -1.2))
    S = np.diag([.5, .25][:m])
    X, U = ctx.array('x', (2, n), -2, 2), ctx.array('u', (2, m), -2, 2)
    for f, args in ((compute_lqr_V, ()), (compute_lqr_V_gaussian_policy, (S,)), (compute_lqr_V_gaussian_policy_gradient_K, (S,))):
        b = f(X, env, K, *args)
        for i in range(2):
            ctx.eq(b[i], f(X[i], env, K, *args)[0], 'a batch of states is evaluated row by row')
    for f, args in ((compute_lqr_Q, ()), (compute_lqr_Q_gaussian_policy, (S,)), (compute_lqr_Q_gaussian_policy_gradient_K, (S,))):
        b = f(X, U, env, K, *args)
        for i in range(2):
            ctx.eq(b[i], f(X[i], U[i], env, K, *args)[0], 'a batch of states and actions is evaluated row by row')


@scenario('P24', LB, tol=1e-6, quick=[dict(n=1, m=1, sym=True), dict(n=2, m=1, sym=False)])
def lqr_gradient(ctx, n, m, sym):
    """the gradient of V(x) = E[r + g V(x')] with respect to K, by differentiating the fixed point equation"""
    g = .5
    env, A, B, Q, R = lqr(ctx, n, m, False, g)
    K = gain(ctx, n, m, sym)
    if sym:
        c = A[0, 0] - B[0, 0] * K[0, 0]
        ctx.assume(LAND(c <= 1.2, c >= -1.2))
    S = np.diag([.5, .25][:m])
    x, u = ctx.array('x', (n,), -2, 2), ctx.array('u', (m,), -2, 2)
    P = compute_lqr_P(env, K)

    def grad(z):
        return compute_lqr_V_gaussian_policy_gradient_K(z, env, K, S)[0]
    # d/dK [ r(x, -Kx) + g V_K(Ax - BKx) - noise terms ], V_K(y) = -y'Py - b
    k = -K.dot(x)
    y = A.dot(x) + B.dot(k)
    gy, g0 = grad(y), grad(0.0 * x)
    gx = grad(x)
    Py = (P + P.T).dot(y)
    for i in range(m):
        for j in range(n):
            e = i * n + j
            dk = [-x[j] if l == i else 0.0 for l in range(m)]
            dr = -asum([2 * k[l] * R[l, l] * dk[l] for l in range(m)])
            dy = [asum([B[a, l] * dk[l] for l in range(m)]) for a in range(n)]
            through = -asum([Py[a] * dy[a] for a in range(n)])
            # the state-independent part satisfies d0 = g d0 - g tr(S B' dP B) where -x' dP x = grad(x) - d0
            cols = [ctx.arr([B[a, l] for a in range(n)]) for l in range(m)]
            noise = asum([S[l, l] * (grad(cols[l])[e] - g0[e]) for l in range(m)])
            ctx.eq(gx[e], dr + g * (through + gy[e]) + g * noise, 'gradient of the value with respect to the gain')
    r, y2 = rew(A, B, Q, R, x, u)
    ctx.eq(compute_lqr_Q_gaussian_policy_gradient_K(x, u, env, K, S)[0], g * grad(y2), 'gradient of Q is the discounted gradient of V at the next state')


@scenario('P24', 'one-dimensional systems, arbitrary dynamics and costs, 0-2 iterations; two-dimensional fixed dynamics, arbitrary costs, 0-1', tol=1e-6,
          quick=[dict(n=1, m=1, sym=True, it=i) for i in (0, 1)] + [dict(n=2, m=1, sym=False, it=0)],
          thorough=[dict(n=1, m=1, sym=False, it=2), dict(n=2, m=2, sym=False, it=0), dict(n=2, m=1, sym=False, it=1)])
def lqr_gain(ctx, n, m, sym, it):
    """after k iterations the gain is the optimal first move of the problem with k more steps and terminal cost y'y"""
    g = .5
    env, A, B, Q, R = lqr(ctx, n, m, sym, g)
    K = compute_lqr_feedback_gain(env, max_iterations=it)
    ctx.check(tuple(K.shape) == (m, n), 'one row of the gain per action')
    Pk = np.eye(n)
    for _ in range(it):
        Kp = compute_lqr_feedback_gain(env, max_iterations=_)
        C = A - B.dot(Kp)
        Pk = Q + Kp.T.dot(R).dot(Kp) + g * C.T.dot(Pk).dot(C)
    # stationarity of u'Ru + g (Ax+Bu)'P(Ax+Bu) at u = -Kx for every x
    hess = R + g * B.T.dot(Pk).dot(B)
    lhs = hess.dot(K)
    rhs = g * B.T.dot(Pk).dot(A)
    for i in range(m):
        for j in range(n):
            pair = (K[i, j], rhs[i, j] / hess[0, 0]) if m == 1 else (lhs[i, j], rhs[i, j])
            ctx.eq(*pair, 'the gain is the optimal move for the cost to go of the previous iteration')
