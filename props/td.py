"""Tabular temporal-difference updates: one transition from an arbitrary table."""
from props.common import *
from mushroom_rl.algorithms.value import (QLearning, SARSA, ExpectedSARSA, DoubleQLearning, SpeedyQLearning, RLearning,
                                          RQLearning, MaxminQLearning, WeightedQLearning, QLambda, SARSALambda)
from mushroom_rl.rl_utils.parameters import Parameter, DecayParameter

NS, NA = 3, 2
B = 'tables of %d states x %d actions with arbitrary real entries, one transition with arbitrary state, action, ' \
    'reward, next state and absorbing flag, arbitrary learning rate in [0,1] and discount in [0,1]' % (NS, NA)


def setup(ctx, cls, nS=NS, nA=NA, **kw):
    gamma = ctx.real('gamma', 0, 1)
    alpha = ctx.real('alpha', 0, 1)
    pol = ScriptPolicy()
    ag = cls(tabular_info(nS, nA, gamma), pol, Parameter(alpha), **kw)
    return ag, pol, gamma, alpha


def transition(ctx, nS=NS, nA=NA, tag=''):
    s = ctx.int('s' + tag, 0, nS - 1)
    a = ctx.int('a' + tag, 0, nA - 1)
    ns = ctx.int('ns' + tag, 0, nS - 1)
    r = ctx.real('r' + tag)
    ab = ctx.bool('ab' + tag)
    last = ctx.bool('last' + tag)
    ctx.assume(LOR(LNOT(ab), last))
    return s, a, r, ns, ab, last


def feed(ctx, ag, s, a, r, ns, ab, last):
    ag.fit(one_step_dataset(ag, ctx.arr([s]), ctx.arr([a]), r, ctx.arr([ns]), ab, last))


def rows(t):
    return t.table if hasattr(t, 'table') else t


def expect(ctx, tab, old, s, a, new, label):
    """only entry (s,a) of the table changes, to `new`"""
    s, a = int(s), int(a)
    e = old.copy()
    e[s, a] = new
    ctx.eq(tab.table, e, label)


@scenario('P01', B)
def q_learning(ctx):
    ag, pol, g, al = setup(ctx, QLearning)
    T = ctx.array('Q', (NS, NA))
    ag.Q.table[:] = T
    s, a, r, ns, ab, last = transition(ctx)
    feed(ctx, ag, s, a, r, ns, ab, last)
    i, j, n = int(s), int(a), int(ns)
    q = T[i, j]
    tgt = r + ite(ab, 0.0, g * amax(list(T[n])))
    expect(ctx, ag.Q, T, i, j, q + al * (tgt - q), 'Q-learning update')
    # the contraction every user relies on: between old value and target for alpha in [0,1]


@scenario('P01', B)
def sarsa(ctx):
    ag, pol, g, al = setup(ctx, SARSA)
    na = ctx.int('na', 0, NA - 1)
    pol.actions = [ctx.arr([na])]
    T = ctx.array('Q', (NS, NA))
    ag.Q.table[:] = T
    s, a, r, ns, ab, last = transition(ctx)
    feed(ctx, ag, s, a, r, ns, ab, last)
    i, j, n = int(s), int(a), int(ns)
    q = T[i, j]
    tgt = r + ite(ab, 0.0, g * T[n, int(na)])
    expect(ctx, ag.Q, T, i, j, q + al * (tgt - q), 'SARSA update')
    # on-policy: the action evaluated is the one the agent plays next
    act, _ = ag.draw_action(ctx.arr([n]))
    ctx.eq(act, ctx.arr([na]), 'SARSA plays the evaluated action')


@scenario('P01', B)
def expected_sarsa(ctx):
    ag, pol, g, al = setup(ctx, ExpectedSARSA)
    p = ctx.array('p', (NA,), 0, 1)
    pol.probs = p
    T = ctx.array('Q', (NS, NA))
    ag.Q.table[:] = T
    s, a, r, ns, ab, last = transition(ctx)
    feed(ctx, ag, s, a, r, ns, ab, last)
    i, j, n = int(s), int(a), int(ns)
    q = T[i, j]
    ev = asum([p[k] * T[n, k] for k in range(NA)])
    tgt = r + ite(ab, 0.0, g * ev)
    expect(ctx, ag.Q, T, i, j, q + al * (tgt - q), 'expected SARSA update')


def tables(Q):
    return [Q[i].table for i in range(len(Q))]


@scenario('P01', B + '; two transitions in a row (the second uses the table before the first)')
def speedy_q_learning(ctx):
    ag, pol, g, al = setup(ctx, SpeedyQLearning, nS=2)
    old, cur = ctx.array('Q0', (2, NA)), ctx.array('Q1', (2, NA))
    ag.Q.table[:] = cur
    ag.old_q.table[:] = old
    for t in range(2):
        s, a, r, ns, ab, last = transition(ctx, nS=2, tag=str(t))
        feed(ctx, ag, s, a, r, ns, ab, last)
        i, j, n = int(s), int(a), int(ns)
        q = cur[i, j]
        tc = r + ite(ab, 0.0, g * amax(list(cur[n])))
        to = r + ite(ab, 0.0, g * amax(list(old[n])))
        new = cur.copy()
        new[i, j] = q + al * (to - q) + (1.0 - al) * (tc - to)
        ctx.eq(ag.Q.table, new, 'speedy Q-learning update %d' % (t + 1))
        old, cur = cur, new


@scenario('P01', B + '; average-reward estimate followed over two transitions; arbitrary second rate in [0,1]')
def r_learning(ctx):
    beta = ctx.real('beta', 0, 1)
    ag, pol, g, al = setup(ctx, RLearning, nS=2, beta=Parameter(beta))
    cur = ctx.array('Q', (2, NA))
    ag.Q.table[:] = cur
    rho = 0.0
    for t in range(2):
        s, a, r, ns, ab, last = transition(ctx, nS=2, tag=str(t))
        feed(ctx, ag, s, a, r, ns, ab, last)
        i, j, n = int(s), int(a), int(ns)
        q = cur[i, j]
        nx = ite(ab, 0.0, amax(list(cur[n])))
        new = cur.copy()
        new[i, j] = q + al * (r - rho + nx - q)
        ctx.eq(ag.Q.table, new, 'R-learning update %d' % (t + 1))
        mx = amax(list(new[i]))
        rho = ite(ctx.same(new[i, j], mx), rho + beta * (r + nx - mx - rho), rho)
        cur = new


@scenario('P01', B + '; two transitions in a row; reward and value tracked by separate rates (fixed or relative)',
          quick=[dict(off=o, mode=m) for o in (True, False) for m in ('beta', 'delta')])
def rq_learning(ctx, off, mode):
    b = ctx.real('b', 0, 1)
    ag, pol, g, al = setup(ctx, RQLearning, nS=2, off_policy=off, **{mode: Parameter(b)})
    Q, Qt, Rt = ctx.array('Q', (2, NA)), ctx.array('Qt', (2, NA)), ctx.array('Rt', (2, NA))
    ag.Q.table[:], ag.Q_tilde.table[:], ag.R_tilde.table[:] = Q, Qt, Rt
    for t in range(2):
        s, a, r, ns, ab, last = transition(ctx, nS=2, tag=str(t))
        na = ctx.int('na%d' % t, 0, NA - 1)
        pol.actions = [ctx.arr([na])]
        feed(ctx, ag, s, a, r, ns, ab, last)
        i, j, n = int(s), int(a), int(ns)
        Rt, Qt, Q2 = Rt.copy(), Qt.copy(), Q.copy()
        Rt[i, j] = Rt[i, j] + al * (r - Rt[i, j])
        nx = amax(list(Q[n])) if off else Q[n, int(na)]
        rate = b if mode == 'beta' else al * b
        Qt[i, j] = ite(ab, Qt[i, j], Qt[i, j] + rate * (nx - Qt[i, j]))
        Q2[i, j] = Rt[i, j] + g * Qt[i, j]
        Q = Q2
        ctx.eq(ag.Q.table, Q, 'RQ-learning update %d' % (t + 1))
        if not off:
            pol.actions.append(ctx.arr([na]))
            ag.draw_action(ctx.arr([n]))


@scenario('P01', B + '; three transitions, rates that decay with the visits of the state and action', quick=[dict(mode=m) for m in ('beta', 'delta')])
def rq_learning_decay(ctx, mode):
    pol = ScriptPolicy()
    g = ctx.real('gamma', 0, 1)
    ag = RQLearning(tabular_info(3, NA, g), pol, DecayParameter(.5, exp=1., size=(3, NA)), off_policy=True, **{mode: DecayParameter(.25, exp=1., size=(3, NA))})
    Q, Qt, Rt = [[[0.] * NA for _ in range(3)] for _ in range(3)]
    visits, boots = {}, {}
    seq = ctx.pick('path', [((0, 1), (1, 0), (0, 1)), ((1, 0), (0, 1), (1, 0)), ((2, 1), (2, 0), (2, 1))])
    for k, (i, j) in enumerate(seq):
        n = (i + 1) % 3
        r, ab = ctx.real('r%d' % k), ctx.bool('ab%d' % k)
        feed(ctx, ag, i, j, r, n, ab, ab)
        visits[i, j] = visits.get((i, j), 0) + 1
        al = .5 / visits[i, j]
        Rt[i][j] = Rt[i][j] + al * (r - Rt[i][j])
        if not bool(ab):
            boots[i, j] = boots.get((i, j), 0) + 1
            b = .25 / boots[i, j]
            Qt[i][j] = Qt[i][j] + (b if mode == 'beta' else al * b) * (amax(list(Q[n])) - Qt[i][j])
        Q[i][j] = Rt[i][j] + g * Qt[i][j]
        for x in range(3):
            for y in range(NA):
                ctx.eq(ag.Q.table[x, y], Q[x][y], 'RQ-learning with rates of the visited state and action')


@scenario('P01', B + '; two tables, arbitrary random selection and tie-break', goals=('table 0', 'table 1'))
def double_q_learning(ctx):
    ag, pol, g, al = setup(ctx, DoubleQLearning, nS=2)
    T = [ctx.array('A', (2, NA)), ctx.array('B', (2, NA))]
    for k in range(2):
        ag.Q[k].table[:] = T[k]
    s, a, r, ns, ab, last = transition(ctx, nS=2)
    feed(ctx, ag, s, a, r, ns, ab, last)
    i, j, n = int(s), int(a), int(ns)
    alts = []
    for k in range(2):
        q = T[k][i, j]
        untouched = ctx.same(ag.Q[1 - k].table, T[1 - k])
        for b in range(NA):
            e = T[k].copy()
            e[i, j] = q + al * (r + ite(ab, 0.0, g * T[1 - k][n, b]) - q)
            best = LAND(*[binop('ge', T[k][n, b], T[k][n, c]) for c in range(NA)])
            ok = LAND(LAND(untouched, LOR(best, ab)), ctx.same(ag.Q[k].table, e))
            alts.append(ok)
    ctx.check(LOR(*alts), 'double Q-learning: one table updated with the greedy action of it valued by the other')
    for k in range(2):
        if not bool(ctx.same(ag.Q[k].table, T[k])):
            ctx.cover('table %d' % k)


@scenario('P01', B + '; two tables, arbitrary random selection', goals=('table 0', 'table 1'),
          thorough=[dict(n=3)], quick=[dict(n=2)])
def maxmin_q_learning(ctx, n):
    N = n
    ag, pol, g, al = setup(ctx, MaxminQLearning, nS=2, n_tables=N)
    T = [ctx.array('T%d' % k, (2, NA)) for k in range(N)]
    for k in range(N):
        ag.Q[k].table[:] = T[k]
    s, a, r, ns, ab, last = transition(ctx, nS=2)
    feed(ctx, ag, s, a, r, ns, ab, last)
    i, j, n = int(s), int(a), int(ns)
    nx = amax([amin([T[k][n, b] for k in range(N)]) for b in range(NA)])
    alts = []
    for k in range(N):
        q = T[k][i, j]
        e = T[k].copy()
        e[i, j] = q + al * (r + ite(ab, 0.0, g * nx) - q)
        ok = ctx.same(ag.Q[k].table, e)
        for l in range(N):
            if l != k:
                ok = LAND(ok, ctx.same(ag.Q[l].table, T[l]))
        alts.append(ok)
    ctx.check(LOR(*alts), 'maxmin Q-learning: one table moves to the max over actions of the min over tables')
    for k in range(N):
        if not bool(ctx.same(ag.Q[k].table, T[k])):
            ctx.cover('table %d' % k)


@scenario('P01', B + '; arbitrary posterior samples, 1 or 2 samples per update',
          quick=[dict(n=1), dict(n=2)])
def weighted_q_learning(ctx, n):
    ag, pol, g, al = setup(ctx, WeightedQLearning, nS=2, precision=n)
    T = ctx.array('Q', (2, NA))
    ag.Q.table[:] = T
    s, a, r, ns, ab, last = transition(ctx, nS=2)
    feed(ctx, ag, s, a, r, ns, ab, last)
    i, j, m = int(s), int(a), int(ns)
    q = T[i, j]
    import itertools
    alts = []
    for combo in itertools.product(range(NA), repeat=n):
        e = T.copy()
        e[i, j] = q + al * (r + ite(ab, 0.0, g * asum([T[m, b] for b in combo]) / n) - q)
        alts.append(ctx.same(ag.Q.table, e))
    ctx.check(LOR(*alts), 'weighted Q-learning: target is a convex combination of next action values')


@scenario('P01', 'one state, 2 actions, 2 or 3 updates of each action with rewards from a list (learning rate 1/2 or 1), then one update with arbitrary posterior noise',
          quick=[dict(alpha=.5), dict(alpha=1.)])
def weighted_q_spread(ctx, alpha):
    """the posterior of an action value has the standard error of its targets: actions with equal targets are not explored again"""
    pol = ScriptPolicy()
    ag = WeightedQLearning(tabular_info(2, NA, .5), pol, Parameter(alpha), precision=1)
    mean, sd = [], []
    for b in range(NA):
        q = q2 = w1 = w2 = 0.
        for k in range(ctx.pick('n%d' % b, [2, 3])):
            r = ctx.pick('r%d_%d' % (b, k), [-1., .5, 2.] if k < 2 else [1.])
            feed(ctx, ag, 0, b, r, 1, True, True)
            q, q2 = q + alpha * (r - q), q2 + alpha * (r * r - q2)
            w1, w2 = (1 - alpha) * w1 + alpha, (1 - alpha) ** 2 * w2 + alpha ** 2
        mean.append(q)
        sd.append(float(np.sqrt(max((q2 - q * q) * w2 / (2 * w1), 1e-10))))
        ctx.eq(ag.Q.table[0, b], q, 'value of an action')
    r = ctx.real('r', -2, 2)
    del ctx.normals[:]
    feed(ctx, ag, 1, 0, r, 0, False, False)
    z = list(ctx.normals)
    ctx.check(len(z) == NA, 'one posterior draw per action')
    for v in z:
        ctx.assume(LAND(v >= -4., v <= 4.))
    x = [mean[b] + sd[b] * z[b] for b in range(NA)]
    for b in range(NA):
        ctx.implies(x[b] > x[1 - b] + 1e-6, ctx.same(ag.Q.table[1, 0], alpha * (r + .5 * mean[b])), 'the action whose posterior draw is largest gives the target')


@scenario('P01', 'per state-action learning rate schedule 1/n: 3 transitions of arbitrary pairs over 2 states x 2 actions',
          quick=[dict(alg='q'), dict(alg='sarsa')])
def visit_counts(ctx, alg):
    """the k-th update of a pair uses the k-th value of its own schedule"""
    g = ctx.real('gamma', 0, 1)
    pol = ScriptPolicy()
    info = tabular_info(2, NA, g)
    ag = {'q': QLearning, 'sarsa': SARSA}[alg](info, pol, DecayParameter(1.0, exp=1.0, size=info.size))
    cur = ctx.array('Q', (2, NA))
    ag.Q.table[:] = cur
    n_vis = {}
    for t in range(3):
        i, j = int(ctx.int('s%d' % t, 0, 1)), int(ctx.int('a%d' % t, 0, NA - 1))
        r = ctx.real('r%d' % t)
        pol.actions = [ctx.arr([1])]
        feed(ctx, ag, i, j, r, 0, False, False)
        n_vis[i, j] = n_vis.get((i, j), 0) + 1
        q = cur[i, j]
        nx = cur[0, 1] if alg == 'sarsa' else amax(list(cur[0]))
        e = cur.copy()
        e[i, j] = q + (1.0 / n_vis[i, j]) * (r + g * nx - q)
        cur = e
        ctx.eq(ag.Q.table, cur, 'k-th visit uses the k-th learning rate')
        if alg == 'sarsa':
            ag.draw_action(ctx.arr([0]))
