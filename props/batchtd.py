"""Batch value-based methods: fitted Q iteration family and LSPI (P13)."""
from props.common import *
from props.dqn import net_class
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.algorithms.value import FQI, DoubleFQI, BoostedFQI, LSPI

NA = 2
BB = '%s transitions with arbitrary actions, rewards and flags, %s iterations, arbitrary networks and discount'


def make(ctx, cls, n, iters, policy=None, **kw):
    g = ctx.real('gamma', 0, 1)
    Net = net_class(ctx, 2 * n, NA)
    info = MDPInfo(Box(0, 100, (1,)), Discrete(NA), g, 10)
    par = dict(input_shape=(1,), output_shape=(NA,), n_actions=NA)
    par.update(kw)
    ag = cls(info, policy or ScriptPolicy(), Net, n_iterations=iters, approximator_params=par, quiet=True)
    return ag, Net, g


def dataset(ctx, ag, n, tag='', base=0, flags=True):
    d = Dataset.generate(ag.mdp_info, ag.info, n_steps=n)
    ts = []
    for k in range(n):
        i = base + k
        t = (ctx.arr([2.0 * i]), ctx.iarray('a%s%d' % (tag, i), (1,), 0, NA - 1), ctx.real('r%s%d' % (tag, i)), ctx.arr([2.0 * i + 1]),
             ctx.bool('ab%s%d' % (tag, i)) if flags else np.False_, ctx.bool('l%s%d' % (tag, i)))
        ts.append(t)
        d.append(t, {})
    return d, ts


def rows(x):
    return [int(v) // 2 for v in x.reshape(-1)]


def unchanged(ctx, d, ts):
    for i, t in enumerate(ts):
        ctx.eq(d.reward[i], t[2], 'fitting leaves the data unchanged')
        ctx.eq(d.action[i], t[1], 'fitting leaves the data unchanged')


def covers(ctx, e, ts, label, first=0):
    """the regression uses every transition of the block once, in order, with its action"""
    ctx.check(rows(e[1]) == [int(t[0][0]) // 2 for t in ts], label)
    for j, t in enumerate(ts):
        ctx.eq(e[2][j], t[1], 'the fitted action is the one of the transition')


@scenario('P13', BB % (2, 3) + ', two consecutive fits', max_paths=400)
def fqi(ctx):
    ag, Net, g = make(ctx, FQI, 3, 2)
    d, ts = dataset(ctx, ag, 2)
    for f in range(2):
        if f:
            d, ts = dataset(ctx, ag, 1, 'x', base=2)
        del Net.log[:]
        w = [ag.approximator.get_weights().copy()]
        real = Net.fit

        def fit(self, *a, **k):
            real(self, *a, **k)
            w.append(self.W.copy())
        Net.fit = fit
        ag.fit(d)
        Net.fit = real
        ctx.check(len(Net.log) == 2, 'one regression per iteration')
        for k, e in enumerate(Net.log):
            covers(ctx, e, ts, 'every transition is used once')
            for j, t in enumerate(ts):
                i = int(t[0][0]) // 2
                want = t[2]
                if k > 0 or f > 0:
                    want = t[2] + ite(t[4], 0.0, g * amax(list(w[k][2 * i + 1])))
                ctx.eq(e[3][j], want, 'fitted Q iteration target')
        unchanged(ctx, d, ts)


@scenario('P13', BB % ('4 or 5', 2) + '; the two halves of the data', quick=[dict(n=4), dict(n=5)], max_paths=3000, budget=40)
def double_fqi(ctx, n):
    ag, Net, g = make(ctx, DoubleFQI, n, 2)
    d, ts = dataset(ctx, ag, n)
    nets = [ag.approximator[i] for i in range(2)]
    h = n // 2
    halves = [ts[:h], ts[h:2 * h]]
    w = []
    real = Net.fit

    def fit(self, *a, **k):
        real(self, *a, **k)
        if len(Net.log) == 2:
            w.extend(x.W.copy() for x in nets)
            for i in range(2):
                for t in halves[i]:
                    q = w[i][int(t[3][0])]
                    ctx.assume(q[0] != q[1])
    Net.fit = fit
    ag.fit(d)
    Net.fit = real
    ctx.check(len(Net.log) == 4, 'two regressions per iteration')
    for k, e in enumerate(Net.log):
        i = nets.index(e[0])
        ctx.check(i == k % 2 or len({nets.index(x[0]) for x in Net.log[k // 2 * 2:k // 2 * 2 + 2]}) == 2, 'each network once per iteration')
        covers(ctx, e, halves[i], 'each network is fitted on its own half')
        for j, t in enumerate(halves[i]):
            want = t[2]
            if k > 1:
                q = w[i][int(t[3][0])]
                o = w[1 - i][int(t[3][0])]
                want = t[2] + ite(t[4], 0.0, g * ite(q[0] > q[1], o[0], o[1]))
            ctx.eq(e[3][j], want, 'double fitted Q iteration target: action by one network, value by the other')
    unchanged(ctx, d, ts)


@scenario('P13', BB % (2, 3), max_paths=1000, budget=40)
def boosted_fqi(ctx):
    ag, Net, g = make(ctx, BoostedFQI, 2, 3, n_models=3, prediction='sum')
    d, ts = dataset(ctx, ag, 2)
    nets = [ag.approximator[i] for i in range(3)]
    ag.fit(d)
    ctx.check([nets.index(e[0]) for e in Net.log] == [0, 1, 2], 'one new model per iteration')
    prev = [0.0, 0.0]
    for k, e in enumerate(Net.log):
        covers(ctx, e, ts, 'every transition is used once')
        for j, t in enumerate(ts):
            y = t[2]
            if k > 0:
                # value of the next state: the sum of the models fitted so far
                y = t[2] + ite(t[4], 0.0, g * amax([asum([nets[m].W[2 * j + 1, a] for m in range(k)]) for a in range(NA)]))
            ctx.eq(e[3][j], y - prev[j], 'each model is fitted on the residual of the new target')
            prev[j] = y
    unchanged(ctx, d, ts)


def lspi_agent(ctx, g, eps, policy=None):
    info = MDPInfo(Box(-10, 10, (1,)), Discrete(NA), g, 10)
    return LSPI(info, policy or ScriptPolicy(), approximator_params=dict(input_shape=(1,), output_shape=(NA,), n_actions=NA), epsilon=eps)


def lspi_case(ctx, states, nexts, acts, absorbing):
    """data of two transitions in which both actions occur, so that A is 2x2"""
    g = 0.75
    ag = lspi_agent(ctx, g, 1e9)          # one sweep
    w0 = ctx.array('w', (NA,), -8, 8)
    ag.approximator.set_weights(w0.copy())
    d = Dataset.generate(ag.mdp_info, ag.info, n_steps=len(states))
    r = []
    for k in range(len(states)):
        r.append(ctx.real('r%d' % k, -8, 8) if k < 3 else 1.5)
        d.append((ctx.arr([states[k]]), ctx.iarray('a%d' % k, (1,), acts[k], acts[k]), r[k], ctx.arr([nexts[k]]), absorbing[k], np.False_), {})
    na = []
    for k in range(len(states)):
        q = [w0[a] * nexts[k] for a in range(NA)]
        ctx.assume(q[0] != q[1])
        na.append(0 if bool(q[0] > q[1]) else 1)
    ag.fit(d)
    w = ag.approximator.get_weights()
    # w is a fixed point of the projected Bellman operator of the greedy policy:
    # sum over transitions phi(s,a) (Q_w(s,a) - r - gamma Q_w(s',greedy)) = 0
    for b in range(NA):
        tot = 0.0
        for k in range(len(states)):
            if acts[k] != b:
                continue
            nxt = 0.0 if absorbing[k] else w[na[k]] * nexts[k]
            tot = tot + states[k] * (w[acts[k]] * states[k] - r[k] - g * nxt)
        ctx.eq(tot, 0.0, 'projected Bellman equation of the greedy policy')


LS = [dict(k=0), dict(k=1), dict(k=2)]
DATA = [((1., 2.), (2., -1.), (0, 1)), ((1., -2., .5), (.25, 1., -1.), (1, 0, 1)), ((1., -2., -1., -1.), (1., -3., 3., -2.), (0, 1, 1, 0))]


@scenario('P13', 'one policy-iteration sweep, 1 feature, 2 actions, 2-4 transitions; arbitrary rewards and initial weights, concrete states',
          quick=LS, tol=1e-4)
def lspi(ctx, k):
    s, n, a = DATA[k]
    lspi_case(ctx, s, n, a, [np.False_] * len(s))


@scenario('P13', 'as lspi, with an absorbing next state', tol=1e-4)
def lspi_absorbing(ctx):
    s, n, a = DATA[0]
    lspi_case(ctx, s, n, a, [np.False_, np.True_])


@scenario('P13', 'as lspi, iterated until the weights change by at most epsilon; arbitrary rewards', tol=1e-3, max_paths=60)
def lspi_converges(ctx):
    """when fit returns, the weights solve the projected Bellman equation of a policy greedy for weights at most epsilon away"""
    g = 0.5
    eps = 0.25
    ag = lspi_agent(ctx, g, eps)
    d = Dataset.generate(ag.mdp_info, ag.info, n_steps=2)
    r = [ctx.real('r%d' % k, -8, 8) for k in range(2)]
    s, n, acts = (1., 1.), (1., 1.), (0, 1)
    for k in range(2):
        d.append((ctx.arr([s[k]]), ctx.iarray('a%d' % k, (1,), acts[k], acts[k]), r[k], ctx.arr([n[k]]), np.False_, np.False_), {})
    ag.fit(d)
    w = ag.approximator.get_weights()
    alts = []
    for c in range(NA):
        # policy: always action c
        res = [w[acts[k]] - r[k] - g * w[c] for k in range(2)]
        solves = LAND(*[abs(x) <= 1e-4 for x in res])
        alts.append(LAND(solves, w[c] >= w[1 - c] - 2 * eps))
    ctx.check(LOR(*alts), 'the returned weights evaluate an (almost) greedy policy')


@scenario('P13', '1-2 transitions, 1-2 iterations; greedy policy; arbitrary networks, rewards and actions', tol=1e-4, max_paths=1000,
          quick=[dict(alg=a) for a in ('fqi', 'double', 'boosted', 'lspi')])
def follows(ctx, alg):
    """the policy handed over acts on the values that are learned, before and after a fit"""
    pol = EpsGreedy(0.)
    if alg == 'lspi':
        ag = lspi_agent(ctx, .5, 1e9, pol)
        ag.approximator.set_weights(ctx.array('w', (NA,), -8, 8))
        d = Dataset.generate(ag.mdp_info, ag.info, n_steps=2)
        for k in range(2):
            d.append((ctx.arr([1. + k]), np.array([k]), ctx.real('r%d' % k, -8, 8), ctx.arr([2. - k]), np.False_, np.False_), {})
    else:
        cls, kw = dict(fqi=(FQI, {}), double=(DoubleFQI, {}), boosted=(BoostedFQI, dict(n_models=2, prediction='sum')))[alg]
        ag, Net, g = make(ctx, cls, 2, 2, policy=pol, **kw)
        d, ts = dataset(ctx, ag, 2, flags=False)
    ctx.check(ag.policy is pol, 'the agent acts with the policy handed over')
    for k in range(2):
        for x in ctx.arr([[3.]]):
            q = ag.approximator.predict(x)
            p = pol(x)
            ctx.eq(asum(list(p)), 1.0, 'probabilities')
            for a in range(NA):
                ctx.implies(q[a] > q[1 - a], binop('eq', p[a], 1.), 'the policy is greedy for the values that are learned')
        if k == 0:
            ag.fit(d)
