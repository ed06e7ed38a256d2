"""Eligibility-trace control algorithms, followed over several transitions and episode boundaries."""
from props.common import *
from mushroom_rl.algorithms.value import QLambda, SARSALambda, SARSALambdaContinuous, TrueOnlineSARSALambda
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.rl_utils.parameters import Parameter

NA = 2
B = '2 states x 2 actions, arbitrary table, reward, discount, rate and trace decay in [0,1]; %s'


def feed(ag, s, a, r, ns, ab, last):
    ag.fit(one_step_dataset(ag, s, a, r, ns, ab, last))


def traced(ctx, cls, kind, T, plan, sarsa):
    g, al, lam = ctx.real('gamma', 0, 1), ctx.real('alpha', 0, 1), ctx.real('lam', 0, 1)
    pol = ScriptPolicy()
    ag = cls(tabular_info(2, NA, g), pol, Parameter(al), lambda_coeff=Parameter(lam), trace=kind)
    Q = ctx.array('Q', (2, NA))
    ag.Q.table[:] = Q
    ag.episode_start(ctx.arr([0]), {})
    e = ctx.arr([[0.0] * NA] * 2)
    for t in range(T):
        i, j, n = int(ctx.int('s%d' % t, 0, 1)), int(ctx.int('a%d' % t, 0, NA - 1)), int(ctx.int('ns%d' % t, 0, 1))
        r = ctx.real('r%d' % t)
        ab = ctx.bool('ab%d' % t) if plan == 'absorb' and t == T - 1 else False
        last = plan == 'episodes' and t == 0
        na = int(ctx.int('na%d' % t, 0, NA - 1)) if sarsa else 0
        pol.actions = [ctx.arr([na]), ctx.arr([na])]
        feed(ag, ctx.arr([i]), ctx.arr([j]), r, ctx.arr([n]), ab, LOR(ab, last))
        nx = Q[n, na] if sarsa else amax(list(Q[n]))
        delta = r + ite(ab, 0.0, g * nx) - Q[i, j]
        e = e.copy()
        e[i, j] = 1.0 if kind == 'replacing' else e[i, j] + 1.0
        Q = Q + al * delta * e
        ctx.eq(ag.Q.table, Q, 'trace update %d' % (t + 1))
        e = g * lam * e
        if last:
            ag.episode_start(ctx.arr([n]), {})
            e = ctx.arr([[0.0] * NA] * 2)
        if sarsa:
            act, _ = ag.draw_action(ctx.arr([n]))
            ctx.eq(act, ctx.arr([na]), 'plays the evaluated action')


Q3 = [dict(kind=k, T=2, plan=p) for k in ('replacing', 'accumulating') for p in ('absorb', 'episodes')]
T3 = [dict(kind=k, T=3, plan=p) for k in ('replacing', 'accumulating') for p in ('absorb', 'episodes')]


@scenario('P02', B % 'two transitions (quick) or three (thorough), with and without an episode boundary', quick=Q3, thorough=T3)
def q_lambda(ctx, kind, T, plan):
    traced(ctx, QLambda, kind, T, plan, False)


@scenario('P02', B % 'two transitions (quick) or three (thorough), with and without an episode boundary', quick=Q3, thorough=T3)
def sarsa_lambda(ctx, kind, T, plan):
    traced(ctx, SARSALambda, kind, T, plan, True)


def lin(ctx, cls, T, boundary, true_online):
    """linear action values: the exact recursion of SARSA(lambda) / true online SARSA(lambda)"""
    D = 2
    g, al, lam = ctx.real('gamma', 0, 1), ctx.real('alpha', 0, 1), ctx.real('lam', 0, 1)
    pol = ScriptPolicy()
    info = MDPInfo(Box(-1e3, 1e3, (D,)), Discrete(NA), g, 100)
    params = dict(input_shape=(D,), output_shape=(NA,), n_actions=NA)
    if true_online:
        ag = cls(info, pol, Parameter(al), lambda_coeff=Parameter(lam), approximator_params=params)
    else:
        ag = cls(info, pol, LinearApproximator, Parameter(al), lambda_coeff=Parameter(lam), approximator_params=params)
    w = ctx.array('w', (NA * D,))
    ag.Q.set_weights(w)
    s = ctx.array('x0', (D,))
    ag.episode_start(s, {})
    a = int(ctx.int('a0', 0, NA - 1))
    e = ctx.arr([0.0] * (NA * D))
    qold = None

    def phi(x, b):
        v = [0.0] * (NA * D)
        for k in range(D):
            v[b * D + k] = x[k]
        return ctx.arr(v)

    def q(w, x, b):
        return asum([w[b * D + k] * x[k] for k in range(D)])
    for t in range(T):
        ns = ctx.array('x%d' % (t + 1), (D,))
        na = int(ctx.int('a%d' % (t + 1), 0, NA - 1))
        r = ctx.real('r%d' % t)
        ab = ctx.bool('ab%d' % t) if t == T - 1 else False
        last = boundary and t == 0
        pol.actions = [ctx.arr([na]), ctx.arr([na])]
        feed(ag, s, ctx.arr([a]), r, ns, ab, LOR(ab, last))
        f = phi(s, a)
        qc = q(w, s, a)
        qn = ite(ab, 0.0, q(w, ns, na))
        if true_online:
            qo = qc if qold is None else qold
            ef = asum([e[k] * f[k] for k in range(NA * D)])
            e = g * lam * e + al * (1.0 - g * lam * ef) * f
            w = w + (r + g * qn - qo) * e + al * (qo - qc) * f
            qold = qn
        else:
            e = g * lam * e + f
            w = w + al * (r + g * qn - qc) * e
        ctx.eq(ag.Q.get_weights(), w, 'weights after transition %d' % (t + 1))
        if last:
            ag.episode_start(ns, {})
            e = ctx.arr([0.0] * (NA * D))
            qold = None
        act, _ = ag.draw_action(ns)
        ctx.eq(act, ctx.arr([na]), 'plays the evaluated action')
        s, a = ns, na


@scenario('P02', 'linear values of 2 features x 2 actions, arbitrary weights and features, two transitions',
          quick=[dict(boundary=False), dict(boundary=True)])
def sarsa_lambda_continuous(ctx, boundary):
    lin(ctx, SARSALambdaContinuous, 2, boundary, False)


@scenario('P02', 'linear values of 2 features x 2 actions, arbitrary weights and features, two transitions',
          quick=[dict(boundary=False), dict(boundary=True)])
def true_online_sarsa_lambda(ctx, boundary):
    lin(ctx, TrueOnlineSARSALambda, 2, boundary, True)
