"""Parameters and schedules, variance-dependent parameters."""
from props.common import *
from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter, DecayParameter, to_parameter
from mushroom_rl.rl_utils.variance_parameters import (VarianceIncreasingParameter, VarianceDecreasingParameter,
                                                      WindowedVarianceIncreasingParameter)

SHAPE = (2, 2)


def calls(ctx, k):
    """k arbitrary table entries (as ints or as the 1-element arrays the agents use)"""
    out = []
    for t in range(k):
        i, j = ctx.int('i%d' % t, 0, 1), ctx.int('j%d' % t, 0, 1)
        out.append((int(i), int(j)))
    return out


def index(ctx, ij, arrays):
    return tuple(np.array([x]) for x in ij) if arrays else ij


def clip(v, lo, hi):
    v = v if lo is None else smax(v, lo)
    return v if hi is None else smin(v, hi)


BND = '%d-%d calls on arbitrary entries of a 2x2 table of parameters, or of a scalar one; arbitrary real values and limits'


@scenario('P20', BND % (2, 3), quick=[dict(k=2, lims=l, arrays=a) for l in ('none', 'lo', 'hi', 'both') for a in (False, True)],
          thorough=[dict(k=4, lims='both', arrays=True)])
def constant(ctx, k, lims, arrays):
    v = ctx.real('v', -4, 4)
    lo = ctx.real('lo', -4, 0) if lims in ('lo', 'both') else None
    hi = ctx.real('hi', 0, 4) if lims in ('hi', 'both') else None
    p = Parameter(v, min_value=lo, max_value=hi, size=SHAPE)
    ctx.eq(p.initial_value, v, 'initial value kept')
    ctx.check(tuple(p.shape) == SHAPE, 'shape of the table')
    for ij in calls(ctx, k):
        ctx.eq(p(*index(ctx, ij, arrays)), clip(v, lo, hi), 'a constant parameter is its value within its limits')
    q = to_parameter(v)
    ctx.eq(q(), v, 'to_parameter of a number is a constant parameter')
    ctx.eq(q.get_value(), v, 'to_parameter of a number is a constant parameter')
    ctx.check(to_parameter(p) is p, 'to_parameter keeps a parameter')


def counts(ctx, p, value, k, size, arrays):
    """value(n) after n calls on an entry, independently per entry; get_value does not count"""
    n = {}
    for ij in calls(ctx, k):
        key = ij if size != (1,) else ()
        n[key] = n.get(key, 0) + 1
        ctx.eq(p(*index(ctx, ij, arrays)), value(n[key]), 'value after the calls made on this entry')
        ctx.eq(p.get_value(*index(ctx, ij, arrays)), value(n[key]), 'get_value returns the current value without advancing')
    for i in range(2):
        for j in range(2):
            key = (i, j) if size != (1,) else ()
            ctx.eq(p.get_value(*index(ctx, (i, j), arrays)), value(n.get(key, 0)), 'other entries are not advanced')
    # update advances exactly like a call
    i, j = calls(ctx, 1)[0] if k == 0 else (0, 0)
    key = (i, j) if size != (1,) else ()
    p.update(*index(ctx, (i, j), arrays))
    ctx.eq(p.get_value(*index(ctx, (i, j), arrays)), value(n.get(key, 0) + 1), 'update advances the entry once')


@scenario('P20', BND % (2, 5), quick=[dict(k=2, size=SHAPE, arrays=True), dict(k=2, size=(1,), arrays=False)],
          thorough=[dict(k=3, size=SHAPE, arrays=False), dict(k=8, size=(1,), arrays=False)])
def linear(ctx, k, size, arrays):
    v, th = ctx.real('v', -4, 4), ctx.real('th', -4, 4)
    N = ctx.int('N', 1, 6)
    p = LinearParameter(v, threshold_value=th, n=N, size=size)

    def value(n):
        x = v + (th - v) * n / N
        return ite(th >= v, smin(x, th), smax(x, th))
    counts(ctx, p, value, k, size, arrays)


@scenario('P20', 'scalar schedule, 1-6 steps, up to N+2 calls', quick=[dict(N=n) for n in (1, 2, 4)], thorough=[dict(N=8)])
def linear_reaches(ctx, N):
    v, th = ctx.real('v', -4, 4), ctx.real('th', -4, 4)
    p = LinearParameter(v, threshold_value=th, n=N)
    last = v
    for k in range(N + 2):
        x = p()
        ctx.check(LOR(LAND(th >= v, x >= last - 1e-9, x <= th + 1e-9), LAND(th < v, x <= last + 1e-9, x >= th - 1e-9)), 'monotone, never past the threshold')
        last = x
        if k + 1 >= N:
            ctx.eq(x, th, 'threshold reached after n calls and kept')


@scenario('P20', BND % (2, 5), quick=[dict(k=2, size=SHAPE, exp=e, lims=l) for e in (1, .5) for l in (False, True)] + [dict(k=4, size=(1,), exp=2, lims=True)],
          thorough=[dict(k=3, size=SHAPE, exp=1, lims=True), dict(k=8, size=(1,), exp=.5, lims=False)])
def decay(ctx, k, size, exp, lims):
    v = ctx.real('v', -4, 4)
    lo, hi = (ctx.real('lo', -4, 0.5), ctx.real('hi', 0.5, 4)) if lims else (None, None)
    p = DecayParameter(v, exp=exp, min_value=lo, max_value=hi, size=size)
    counts(ctx, p, lambda n: clip(v / max(n, 1) ** exp, lo, hi), k, size, True)


def formula(kind, exponential, tol, sigma):
    if kind == 'inc':
        return 1 - np.exp(sigma * np.log(.5) / tol) if exponential else sigma / (sigma + tol)
    return np.exp(sigma * np.log(.5) / tol) if exponential else 1 / (sigma + 1)


class VarRef:
    """variance of the targets seen so far on an entry, times the variance weight of the estimate"""

    def __init__(self, v, kind, exponential, tol, window=None):
        self.v, self.f, self.window = v, lambda s: formula(kind, exponential, tol, s), window
        self.xs, self.w = [], 0.0

    def __call__(self, x, factor):
        n = len(self.xs)
        if n < 2:
            p = self.v
        else:
            xs = self.xs if self.window is None else self.xs[-self.window:]
            m = asum(xs) / len(xs)
            var = asum([(y - m) * (y - m) for y in xs]) / (n - 1 if self.window is None else len(xs))
            p = self.f(var * self.w)
        self.xs.append(x)
        self.w = (1 - factor * p) * (1 - factor * p) * self.w + factor * factor * p * p
        return p


def variance(ctx, cls, kind, k, exponential, tol, size, lo, factor, window=None):
    v = ctx.real('v', 0, 1)
    lo = ctx.real('lo', 0, 1) if lo else None
    kw = {} if window is None else dict(window=window)
    p = cls(v, exponential=exponential, min_value=lo, tol=tol, size=size, **kw)
    ref = {}
    cs = calls(ctx, k) if size != (1,) else [(0, 0)] * k
    fl = [ctx.real('f%d' % t, 0, 1) if factor else 1.0 for t in range(k)]
    for t, ij in enumerate(cs):
        x = ctx.real('x%d' % t, -2, 2)
        key = ij if size != (1,) else ()
        r = ref.setdefault(key, VarRef(v, kind, exponential, tol, window))
        kw = dict(factor=fl[t]) if factor else {}
        e = clip(r(x, fl[t]), lo, None)
        ctx.eq(p(*index(ctx, ij, True), target=x, **kw), e, 'the parameter follows the variance of the targets of its own entry')
        ctx.eq(p.get_value(*index(ctx, ij, True)), e, 'reading it does not change it')


VB = '%s calls with arbitrary targets and factors; entries of a 2x2 table or a scalar parameter'


@scenario('P20', VB % '3', tol=1e-6,
          quick=[dict(k=3, exponential=e, tol=t, size=(1,), lo=l, factor=f) for e, t, l, f in
                 ((False, 1., False, True), (False, .5, True, False), (True, .5, False, False), (True, 1., True, True))]
          + [dict(k=3, exponential=False, tol=2., size=SHAPE, lo=False, factor=False)],
          thorough=[dict(k=4, exponential=False, tol=.5, size=(1,), lo=False, factor=False)])
def variance_increasing(ctx, **kw):
    variance(ctx, VarianceIncreasingParameter, 'inc', **kw)


@scenario('P20', VB % '3', tol=1e-6,
          quick=[dict(k=3, exponential=e, size=(1,), lo=l, factor=f, tol=1.) for e, l, f in ((False, False, True), (False, True, False), (True, True, False))]
          + [dict(k=3, exponential=True, tol=2., size=SHAPE, lo=False, factor=False)])
def variance_decreasing(ctx, **kw):
    variance(ctx, VarianceDecreasingParameter, 'dec', **kw)


@scenario('P20', VB % '3-4' + '; windows of 2 and 3 samples', tol=1e-6,
          quick=[dict(k=4, exponential=False, tol=.5, size=(1,), lo=False, factor=False, window=2),
                 dict(k=3, exponential=False, tol=.5, size=(1,), lo=True, factor=True, window=2),
                 dict(k=4, exponential=True, tol=1., size=(1,), lo=False, factor=False, window=3),
                 dict(k=3, exponential=False, tol=1., size=SHAPE, lo=False, factor=False, window=2)],
          thorough=[dict(k=5, exponential=False, tol=1., size=(1,), lo=False, factor=False, window=3)])
def variance_windowed(ctx, **kw):
    variance(ctx, WindowedVarianceIncreasingParameter, 'inc', **kw)


@scenario('P20', 'third call with arbitrary targets; tol = 2')
def variance_decreasing_tol(ctx):
    """documented: the parameter is 0.5 when the variance equals tol"""
    p = VarianceDecreasingParameter(1.0, tol=2.0)
    p(target=ctx.real('x0', -2, 2))
    p(target=ctx.real('x1', -2, 2))
    x0, x1 = 1.0, -1.0
    q = VarianceDecreasingParameter(1.0, tol=2.0)
    q(target=x0)
    q(target=x1)
    ctx.eq(q(target=ctx.real('x2', -2, 2)), 0.5, 'the parameter is one half when the variance of the target is tol')
