"""Value-based policies: epsilon-greedy, Boltzmann, Mellowmax (P17)."""
from props.common import *
from mushroom_rl.approximators.table import Table
from mushroom_rl.policy import EpsGreedy, Boltzmann, Mellowmax
from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter


def table(ctx, nS, nA):
    t = Table((nS, nA))
    v = ctx.array('q', (nS, nA), -4, 4)
    t.table = v
    return t, v


def law(ctx, outcomes, nA, label):
    """the probability of each action; every outcome must be a valid one-element action"""
    p = [0.0] * nA
    for w, (a, ps) in outcomes:
        ctx.shape(a, (1,), label + ': actions are arrays of one index')
        k = int(a[0])
        ctx.check(0 <= k < nA, label + ': valid action index')
        p[k] = p[k] + w
    return p


def greedy_set(q, s):
    m = amax([q[s, a] for a in range(q.shape[1])])
    return [binop('eq', q[s, a], m) for a in range(q.shape[1])]


def check_eps(ctx, pi, q, s, e, e_draw):
    nA = q.shape[1]
    g = greedy_set(q, s)
    k = asum([ite(x, 1.0, 0.0) for x in g])
    st = np.array([s])
    p = pi(st)
    ctx.shape(p, (nA,), 'one probability per action')
    for a in range(nA):
        want = e / nA + ite(g[a], (1.0 - e) / k, 0.0)
        ctx.eq(p[a], want, 'probability: uniform share plus the greedy mass shared by the maximisers')
        ctx.eq(pi(st, np.array([a])) if a else pi(st, a), want, 'probability of one action agrees with the probability vector')
    ctx.eq(asum([p[a] for a in range(nA)]), 1.0, 'probabilities sum to one')
    d = law(ctx, ctx.distribution(lambda: pi.draw_action(st)), nA, 'drawing')
    for a in range(nA):
        ctx.eq(d[a], e_draw / nA + ite(g[a], (1.0 - e_draw) / k, 0.0), 'actions are drawn with the probabilities of the policy')


@scenario('P17', '2 states, 2-3 actions; arbitrary action values (ties included) and epsilon in [0, 1]',
          quick=[dict(nA=2), dict(nA=3)], thorough=[dict(nA=4)], max_paths=600)
def eps_greedy(ctx, nA):
    q, v = table(ctx, 2, nA)
    e = ctx.real('eps', 0, 1)
    pi = EpsGreedy(e)
    pi.set_q(q)
    check_eps(ctx, pi, v, 1, e, e)


@scenario('P17', 'as eps_greedy, after replacing epsilon', quick=[dict()])
def eps_set(ctx):
    q, v = table(ctx, 2, 2)
    e0, e = ctx.real('e0', 0, 1), ctx.real('e', 0, 1)
    pi = EpsGreedy(e0)
    pi.set_q(q)
    ctx.check(pi.get_q() is q, 'the policy keeps the approximator it was given')
    pi.set_epsilon(Parameter(e))
    check_eps(ctx, pi, v, 0, e, e)


@scenario('P17', '2 states; linear epsilon per state or global, 1-3 draws or updates', quick=[dict(k=1, per=False), dict(k=2, per=True)],
          thorough=[dict(k=3, per=True), dict(k=3, per=False)])
def eps_schedule(ctx, k, per):
    """evaluating probabilities leaves the schedule alone; drawing and updating advance it by one (for that state)"""
    q, v = table(ctx, 2, 2)
    e0, e1 = ctx.real('e0', 0, 1), ctx.real('e1', 0, 1)
    pi = EpsGreedy(LinearParameter(e0, threshold_value=e1, n=10, size=(2,) if per else (1,)))
    pi.set_q(q)
    st, other = np.array([1]), np.array([0])
    for i in range(k):
        how = int(ctx.pick('how%d' % i, [0, 1]))
        if how:
            pi.draw_action(st)
        else:
            pi.update(st if per else 0)
        pi(st)
        pi(other)
    for s, n in ((1, k), (0, 0 if per else k)):
        x = np.array([s])
        e = e0 + (e1 - e0) / 10 * n
        g = greedy_set(v, s)
        c = asum([ite(y, 1.0, 0.0) for y in g])
        p = pi(x)
        for a in range(2):
            ctx.eq(p[a], e / 2 + ite(g[a], (1.0 - e) / c, 0.0), 'epsilon follows its schedule of draws and updates')


@scenario('P17', '2 states, 2-3 actions; arbitrary action values and inverse temperature', quick=[dict(nA=2), dict(nA=3)], thorough=[dict(nA=4)],
          max_paths=300, tol=1e-5)
def boltzmann(ctx, nA):
    q, v = table(ctx, 2, nA)
    b0, b = ctx.real('b0', 0, 3), ctx.real('beta', 0, 3)
    pi = Boltzmann(b0)
    pi.set_q(q)
    for s, beta in ((1, b0), (0, b)):
        st = np.array([s])
        if s == 0:
            pi.set_beta(b)
        p = pi(st)
        ctx.shape(p, (nA,), 'one probability per action')
        # pi_a / pi_c = exp(beta (q_a - q_c)), normalised
        z = [beta * v[s, a] for a in range(nA)]
        m = amax(z)
        e = [np.exp(x - m) for x in z]
        tot = asum(e)
        for a in range(nA):
            ctx.eq(p[a] * tot, e[a], 'probability proportional to the exponential of the scaled action value')
            one = pi(st, np.array([a]))
            ctx.eq(one.reshape(-1)[0] if hasattr(one, 'reshape') else one, p[a], 'probability of one action agrees with the probability vector')
        ctx.eq(asum([p[a] for a in range(nA)]), 1.0, 'probabilities sum to one')
        d = law(ctx, ctx.distribution(lambda: pi.draw_action(st)), nA, 'drawing')
        for a in range(nA):
            ctx.eq(d[a], p[a], 'actions are drawn with the probabilities of the policy')


@scenario('P17', '2 states, 2 actions; an inverse temperature that changes over 1-3 updates, of one state or for all; arbitrary action values',
          quick=[dict(size=(1,)), dict(size=(2,))], tol=1e-5)
def boltzmann_schedule(ctx, size):
    """update moves the inverse temperature (of the given state) along its schedule"""
    q, v = table(ctx, 2, 2)
    k = ctx.pick('k', [1, 2, 3])
    pi, ref = Boltzmann(LinearParameter(2., .5, 4, size)), LinearParameter(2., .5, 4, size)
    pi.set_q(q)
    st = np.array([ctx.pick('s', [0, 1])])
    for i in range(k):
        pi.update(st)
        ref.update(st)
    for s in (1, 0):
        p = pi(np.array([s]))
        beta = ref(np.array([s]))
        z = [beta * v[s, a] for a in range(2)]
        m = amax(z)
        e = [np.exp(x - m) for x in z]
        for a in range(2):
            ctx.eq(p[a] * asum(e), e[a], 'probabilities at the scheduled temperature')



@scenario('P17', '1 state, 2 actions, the value of one of them arbitrary, omega 0.5 or 2', quick=[dict()], tol=1e-5, budget=40)
def mellowmax(ctx):
    """the Mellowmax policy: the Boltzmann policy whose expected value is the mellowmax of the action values"""
    q, v = table(ctx, 1, 2)
    w = ctx.pick('omega', [0.5, 2.0])
    ctx.assume(binop('eq', v[0, 0], 0.5))
    pi = Mellowmax(Parameter(w))
    pi.set_q(q)
    st = np.array([0])
    p = pi(st)
    ctx.eq(p[0] + p[1], 1.0, 'probabilities sum to one')
    mm = (np.log(np.exp(w * v[0, 0]) + np.exp(w * v[0, 1])) - np.log(2)) / w
    ctx.eq(ite(binop('eq', p[0], p[1]), mm, p[0] * v[0, 0] + p[1] * v[0, 1]), mm,
           'expected action value equals the mellowmax (uniform where no temperature within the limits attains it)')
    ctx.raises(lambda: pi.set_beta(ctx.real('b', 0, 1)), RuntimeError, 'the parameter of the Mellowmax policy is not replaced')
    ctx.raises(lambda: pi.update(0), RuntimeError, 'the parameter of the Mellowmax policy is not updated')
