"""Gradient optimizers for numpy parameter vectors."""
from props.common import *
from mushroom_rl.rl_utils.parameters import Parameter, DecayParameter
from mushroom_rl.rl_utils.optimizers import SGDOptimizer, AdamOptimizer, AdaptiveOptimizer

OB = 'vectors of %s parameters, %s consecutive steps; arbitrary parameters, gradients and step size; maximize on and off'


def vec(ctx, name, n, lo=-2, hi=2):
    a = ctx.array(name, (n,), lo, hi)
    return a, [a[i] for i in range(n)]


def intact(ctx, arr, vals, what):
    for i, v in enumerate(vals):
        ctx.eq(arr[i], v, what + ' array of the caller is not modified')


@scenario('P21', OB % ('2', '1-3'), quick=[dict(n=2, steps=3, mx=m, decay=d) for m in (True, False) for d in (True, False)])
def sgd(ctx, n, steps, mx, decay):
    lr = ctx.real('lr', 0, 1)
    opt = SGDOptimizer(lr=DecayParameter(lr, exp=1) if decay else Parameter(lr), maximize=mx)
    p, pv = vec(ctx, 'p', n)
    for k in range(steps):
        g, gv = vec(ctx, 'g%d' % k, n)
        new = opt(p, g)
        intact(ctx, g, gv, 'gradient')
        intact(ctx, p, pv, 'parameter')
        rate = lr / (k + 1) if decay else lr
        pv = [pv[i] + (rate if mx else -rate) * gv[i] for i in range(n)]
        for i in range(n):
            ctx.eq(new[i], pv[i], 'one step along the gradient (against it when minimizing)')
        p = new


@scenario('P21', OB % ('1-2', '1-3') + '; fixed decay rates', tol=1e-6, quick=[dict(n=2, steps=1, mx=True), dict(n=1, steps=2, mx=False), dict(n=2, steps=2, mx=True)],
          thorough=[dict(n=1, steps=3, mx=True), dict(n=1, steps=3, mx=False)])
def adam(ctx, n, steps, mx):
    lr = ctx.real('lr', 0, 1)
    b1, b2, eps = .75, .875, .25
    opt = AdamOptimizer(lr=Parameter(lr), beta1=b1, beta2=b2, eps=eps, maximize=mx)
    p, pv = vec(ctx, 'p', n)
    m, v = [0.] * n, [0.] * n
    for k in range(steps):
        g, gv = vec(ctx, 'g%d' % k, n)
        new = opt(p, g)
        intact(ctx, g, gv, 'gradient')
        intact(ctx, p, pv, 'parameter')
        d = gv if mx else [-x for x in gv]
        m = [b1 * m[i] + (1 - b1) * d[i] for i in range(n)]
        v = [b2 * v[i] + (1 - b2) * d[i] * d[i] for i in range(n)]
        for i in range(n):
            mh, vh = m[i] / (1 - b1 ** (k + 1)), v[i] / (1 - b2 ** (k + 1))
            pv[i] = pv[i] + lr * mh / (np.sqrt(vh) + eps)
            ctx.eq(new[i], pv[i], 'Adam step with bias-corrected moments')
        p = new


@scenario('P21', OB % ('2', '1') + '; gradient products bounded away from the smallest multiplier', tol=1e-6,
          quick=[dict(n=2, mx=m, nat=t) for m in (True, False) for t in (True, False)])
def adaptive(ctx, n, mx, nat):
    eps = ctx.real('eps', 0.01, 1)
    opt = AdaptiveOptimizer(eps=eps, maximize=mx)
    p, pv = vec(ctx, 'p', n)
    g, gv = vec(ctx, 'g', n)
    if nat:
        d, dv = vec(ctx, 'd', n)
        args = (g, d)
    else:
        d, dv = g, gv
        args = (g,)
    prod = asum([gv[i] * dv[i] for i in range(n)])
    ctx.assume(prod >= 0.01)
    step = 1 / (2 * np.sqrt(prod / (4 * eps)))
    ctx.eq(opt.get_value(*args), step, 'step length of the trust region')
    # the trust region: the squared length of the step in the metric is eps
    new = opt(p, *args)
    intact(ctx, g, gv, 'gradient')
    intact(ctx, d, dv, 'natural gradient')
    intact(ctx, p, pv, 'parameter')
    for i in range(n):
        ctx.eq(new[i], pv[i] + (step if mx else -step) * dv[i], 'step along the (natural) gradient with the adaptive length')
