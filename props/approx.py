"""Function approximators: tables, linear models, CMAC, regressors over actions, ensembles."""
from props.common import *
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.table import Table
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.ensemble import Ensemble
from mushroom_rl.approximators.parametric import LinearApproximator, CMAC
from mushroom_rl.features import Features
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.rl_utils.eligibility_trace import EligibilityTrace, ReplacingTrace, AccumulatingTrace


def idx(ctx, name, n):
    return int(ctx.int(name, 0, n - 1))


@scenario('P29', '3 states, 2 actions; arbitrary values, two arbitrary writes', quick=[{}])
def table(ctx):
    v0 = ctx.real('v0', -2, 2)
    t = Table((3, 2), initial_value=v0)
    ctx.check(t.n_actions == 2 and tuple(t.shape) == (3, 2), 'shape of the table')
    ref = {(s, a): v0 for s in range(3) for a in range(2)}
    for k in range(2):
        s, a, v = idx(ctx, 's%d' % k, 3), idx(ctx, 'a%d' % k, 2), ctx.real('v1%d' % k, -2, 2)
        if k:
            t[s, a] = v
        else:
            t.fit((np.array([s]), np.array([a])), v)
        ref[(s, a)] = v
    for s in range(3):
        row = t.predict(np.array([s]))
        ctx.check(tuple(row.shape) == (2,), 'a state predicts the values of its actions')
        for a in range(2):
            ctx.eq(t[np.array([s]), np.array([a])], ref[(s, a)], 'an entry holds the last value written to it')
            ctx.eq(t.predict(np.array([s]), np.array([a])), ref[(s, a)], 'prediction of a state and action')
            ctx.eq(row[a], ref[(s, a)], 'prediction of a state')
    q = t.predict(np.array([[0], [2]]))
    qa = t.predict(np.array([[0], [2]]), np.array([[1], [0]]))
    for a in range(2):
        ctx.eq(q[0, a], ref[(0, a)], 'batch prediction')
        ctx.eq(q[1, a], ref[(2, a)], 'batch prediction')
    ctx.eq(qa[0], ref[(0, 1)], 'batch prediction')
    ctx.eq(qa[1], ref[(2, 0)], 'batch prediction')


PRED = [('mean', lambda v: asum(v) / len(v)), ('sum', asum), ('min', amin), ('max', amax)]


@scenario('P29', '2-3 tables of 2 states and 2 actions with arbitrary values', quick=[dict(n=2), dict(n=3)])
def ensemble_table(ctx, n):
    default = ctx.pick('default', [None] + [p for p, _ in PRED])
    t = EnsembleTable(n, (2, 2), **({} if default is None else dict(prediction=default)))
    vals = [[[ctx.real('v%d%d%d' % (m, s, a), -2, 2) for a in range(2)] for s in range(2)] for m in range(n)]
    for m in range(n):
        for s in range(2):
            for a in range(2):
                t[m][np.array([s]), np.array([a])] = vals[m][s][a]
    ctx.check(len(t) == n and t.n_actions == 2, 'number of tables and actions')
    s = idx(ctx, 's', 2)
    st = np.array([s])
    for name, f in PRED + [(None, dict(PRED)[default or 'mean'])]:
        q = t.predict(st, **({} if name is None else dict(prediction=name)))
        for a in range(2):
            ctx.eq(q[a], f([vals[m][s][a] for m in range(n)]), 'prediction of the ensemble')
            ctx.eq(t.predict(st, np.array([a]), **({} if name is None else dict(prediction=name))), f([vals[m][s][a] for m in range(n)]), 'prediction of the ensemble')
    for m in range(n):
        for a in range(2):
            ctx.eq(t.predict(st, idx=m)[a], vals[m][s][a], 'prediction of one table')
    sub = t.predict(st, idx=[0, n - 1], prediction='sum')
    both, var = t.predict(st, prediction='mean', compute_variance=True)
    for a in range(2):
        ctx.eq(sub[a], vals[0][s][a] + vals[n - 1][s][a], 'prediction of some of the tables')
        mean = asum([vals[m][s][a] for m in range(n)]) / n
        ctx.eq(both[a], mean, 'prediction with its variance')
        ctx.eq(var[a], asum([(vals[m][s][a] - mean) * (vals[m][s][a] - mean) for m in range(n)]) / n, 'variance across the tables')


@scenario('P29', 'traces over 2 states and 2 actions; arbitrary contents, visited pair and decay', quick=[dict(kind='replacing'), dict(kind='accumulating')])
def trace(ctx, kind):
    t = EligibilityTrace((2, 2), kind)
    ctx.check(isinstance(t, ReplacingTrace if kind == 'replacing' else AccumulatingTrace), 'kind of trace')
    vals = {}
    for s in range(2):
        for a in range(2):
            vals[(s, a)] = ctx.real('e%d%d' % (s, a), 0, 2)
            t[np.array([s]), np.array([a])] = vals[(s, a)]
    s, a = idx(ctx, 's', 2), idx(ctx, 'a', 2)
    t.update(np.array([s]), np.array([a]))
    for k in vals:
        ctx.eq(t[np.array([k[0]]), np.array([k[1]])], (1. if kind == 'replacing' else vals[k] + 1.) if k == (s, a) else vals[k], 'visit')
    t.reset()
    for k in vals:
        ctx.eq(t[np.array([k[0]]), np.array([k[1]])], 0., 'reset clears the trace')


FEATS = {None: (2, lambda x: [x[0], x[1]]), 'phi': (3, lambda x: [1., x[0], x[0] * x[1]])}


def phi_of(ctx, f):
    """feature function handed to the approximators"""
    def one(x):
        v = FEATS[f][1](x)
        return ctx.pack(v, (len(v),), 'f')

    def phi(x):
        if len(x.shape) == 1:
            return one(x)
        rows = [one(x[i]) for i in range(x.shape[0])]
        return rows[0] if len(rows) == 1 else np.array(rows)
    return None if f is None else phi


def weights(ctx, m, n, lo=-2, hi=2):
    """arbitrary weights given to the approximator; returns them as rows (one per output, the inputs contiguous)"""
    w = ctx.array('w', (n,), lo, hi)
    keep = [w[i] for i in range(n)]
    m.set_weights(w)
    got = m.get_weights()
    ctx.check(tuple(got.shape) == (n,) and m.weights_size == n, 'number of weights')
    for i in range(n):
        ctx.eq(got[i], keep[i], 'get_weights returns the weights set')
    return keep


@scenario('P29', '2 inputs, 1-3 outputs, raw or feature inputs; arbitrary weights and states', quick=[dict(o=o, f=f) for o in (1, 2) for f in (None, 'phi')] + [dict(o=3, f=None)])
def linear(ctx, o, f):
    k = FEATS[f][0]
    m = Regressor(LinearApproximator, input_shape=(k,), output_shape=(o,), **({} if f is None else dict(phi=phi_of(ctx, f))))
    w = weights(ctx, m, k * o)
    x = ctx.array('x', (2, 2), -2, 2)
    y = m.predict(x)
    ctx.check(tuple(y.shape) == (2, o), 'a row per input')
    for i in range(2):
        fx = FEATS[f][1]([x[i, 0], x[i, 1]])
        one = m.predict(x[i])
        call = m(x[i])
        ctx.check(tuple(one.shape) == (o,), 'one input predicts one output')
        for j in range(o):
            want = asum([w[j * k + c] * fx[c] for c in range(k)])
            ctx.eq(y[i, j], want, 'linear in the features')
            ctx.eq(one[j], want, 'same prediction for a single input')
            ctx.eq(call[j], want, 'same prediction for a single input')
    d = m.diff(x[0])
    d = d.reshape((k * o, o))
    fx = FEATS[f][1]([x[0, 0], x[0, 1]])
    for c in range(k * o):
        for j in range(o):
            ctx.eq(d[c, j], fx[c % k] if c // k == j else 0., 'derivative of each output with respect to the weights')
    ctx.check(tuple(m.input_shape) == (k,) and tuple(m.output_shape) == (o,) and len(m) == 1, 'declared shapes')


@scenario('P29', '2-3 samples, 1-2 features, 1-2 outputs; arbitrary inputs (or from a list) and targets', tol=1e-5,
          quick=[dict(n=2, k=1, o=1), dict(n=3, k=1, o=2), dict(n=3, k=2, o=1), dict(n=2, k=2, o=2)])
def linear_fit(ctx, n, k, o):
    m = Regressor(LinearApproximator, input_shape=(k,), output_shape=(o,))
    if k == 1:
        x = ctx.array('x', (n, k), -2, 2)
        ctx.assume(asum([x[i, 0] * x[i, 0] for i in range(n)]) >= .25)
    else:
        x = np.array(ctx.pick('x', [[[1., 0.], [1., 1.], [1., 2.]], [[2., 1.], [-1., 1.], [0., .5]]]))[:n]
    y = ctx.array('y', (n, o), -2, 2)
    m.fit(x, y)
    w = m.get_weights()
    for j in range(o):
        res = [y[i, j] - asum([w[j * k + c] * x[i, c] for c in range(k)]) for i in range(n)]
        for c in range(k):
            ctx.eq(asum([res[i] * x[i, c] for i in range(n)]), 0., 'least squares: the residuals are orthogonal to the inputs')


@scenario('P29', '2-3 actions with a linear model each, 1-2 inputs; arbitrary weights, states and actions', quick=[dict(n=2, k=1), dict(n=3, k=2)])
def action_regressor(ctx, n, k):
    m = Regressor(LinearApproximator, input_shape=(k,), n_actions=n)
    w = weights(ctx, m, n * k)
    x = ctx.array('x', (2, k), -2, 2)
    a = [idx(ctx, 'a%d' % i, n) for i in range(2)]
    val = lambda i, b: asum([w[b * k + c] * x[i, c] for c in range(k)])
    q = m.predict(x)
    qa = m.predict(x, np.array([[a[0]], [a[1]]]))
    ctx.check(tuple(q.shape) == (2, n) and tuple(qa.shape) == (2,), 'a row of action values per state')
    for i in range(2):
        one = m.predict(x[i])
        for b in range(n):
            ctx.eq(q[i, b], val(i, b), 'value of each action from its own model')
            ctx.eq(one[b], val(i, b), 'same values for a single state')
            ctx.eq(m.predict(x[i], np.array([b])), val(i, b), 'same values for a single state')
        ctx.eq(qa[i], val(i, a[i]), 'value of the given action')
    d = m.diff(x[0], np.array([a[0]]))
    for b in range(n):
        for c in range(k):
            ctx.eq(d[b * k + c], x[0, c] if b == a[0] else 0., 'derivative of the value of the action with respect to all weights')
    ctx.check(m.n_actions == n, 'number of actions')


@scenario('P29', '3 samples, 2 actions; arbitrary actions and targets', quick=[{}], tol=1e-5)
def action_fit(ctx):
    m = Regressor(LinearApproximator, input_shape=(1,), n_actions=2)
    w0 = weights(ctx, m, 2)
    x = np.array([[1.], [2.], [-1.]])
    a = [idx(ctx, 'a%d' % i, 2) for i in range(3)]
    y = ctx.array('y', (3,), -2, 2)
    m.fit(x, np.array([[v] for v in a]), y)
    w = m.get_weights()
    for b in range(2):
        mine = [i for i in range(3) if a[i] == b]
        if not mine:
            ctx.eq(w[b], w0[b], 'the model of an action without samples is not touched')
        else:
            ctx.eq(asum([(y[i] - w[b] * float(x[i, 0])) * float(x[i, 0]) for i in mine]), 0., 'the model of an action is fitted on the samples of this action')


@scenario('P29', '2-3 actions as outputs of one linear model; arbitrary weights, states and actions', quick=[dict(n=2, k=2), dict(n=3, k=1)])
def q_regressor(ctx, n, k):
    m = Regressor(LinearApproximator, input_shape=(k,), output_shape=(n,), n_actions=n)
    w = weights(ctx, m, n * k)
    x = ctx.array('x', (2, k), -2, 2)
    a = [idx(ctx, 'a%d' % i, n) for i in range(2)]
    val = lambda i, b: asum([w[b * k + c] * x[i, c] for c in range(k)])
    q = m.predict(x)
    qa = m.predict(x, np.array([[a[0]], [a[1]]]))
    ctx.check(tuple(q.shape) == (2, n) and tuple(qa.shape) == (2,), 'a row of action values per state')
    for i in range(2):
        one = m.predict(x[i])
        for b in range(n):
            ctx.eq(q[i, b], val(i, b), 'value of each action')
            ctx.eq(one[b], val(i, b), 'same values for a single state')
            ctx.eq(m.predict(x[i], np.array([b])), val(i, b), 'same values for a single state')
        ctx.eq(qa[i], val(i, a[i]), 'value of the given action')
    d = m.diff(x[0], np.array([a[0]]))
    for b in range(n):
        for c in range(k):
            ctx.eq(d[b * k + c], x[0, c] if b == a[0] else 0., 'derivative of the value of the action with respect to all weights')


class Rec(object):
    """model that records what it is fitted on and predicts input * gain"""
    made = []

    def __init__(self, gain=None, input_shape=None, output_shape=None):
        self.gain, self.fits = gain, []
        Rec.made.append(self)

    def fit(self, *a, **k):
        self.fits.append((a, k))

    def predict(self, x, **k):
        return x * self.scale


@scenario('P29', '2-3 models, arbitrary predictions', quick=[dict(n=2), dict(n=3)])
def ensemble(ctx, n):
    Rec.made = []
    e = Regressor(Rec, input_shape=(1,), output_shape=(1,), n_models=n, gain=7.)
    models = list(Rec.made)
    ctx.check(len(models) == n and len(e) == n and all(e[i] is models[i] for i in range(n)) and all(m.gain == 7. for m in models), 'independent models with the given parameters')
    g = [ctx.real('g%d' % i, -2, 2) for i in range(n)]
    for i in range(n):
        models[i].scale = g[i]
    x = ctx.array('x', (2, 1), -2, 2)
    for name, f in PRED:
        y = e.predict(x, prediction=name)
        for k in range(2):
            ctx.eq(y[k, 0], f([x[k, 0] * g[i] for i in range(n)]), 'prediction of the ensemble')
    i = idx(ctx, 'i', n)
    y = e.predict(x, idx=i)
    ctx.eq(y[1, 0], x[1, 0] * g[i], 'prediction of one model')
    t = ctx.array('t', (2, 1), -2, 2)
    e.fit(x, t, idx=i, extra=3)
    e.fit(x, t)
    for j in range(n):
        ctx.check(len(models[j].fits) == (2 if j == i else 1), 'fit reaches one model or all of them')
        for a, k in models[j].fits:
            for r in range(2):
                ctx.eq(a[0][r, 0], x[r, 0], 'inputs passed on')
                ctx.eq(a[1][r, 0], t[r, 0], 'targets passed on')
    ctx.check(models[i].fits[0][1] == dict(extra=3), 'fit parameters passed on')


@scenario('P29', 'fit on one sample given without a batch dimension, 1-2 inputs and outputs, with and without an action; arbitrary sample', tol=1e-5,
          quick=[dict(k=1, o=1), dict(k=2, o=2)])
def fit_single(ctx, k, o):
    """a single sample is a batch of one"""
    x, y = ctx.array('x', (k,), -2, 2), ctx.array('y', (o,), -2, 2)
    Rec.made = []
    Regressor(Rec, input_shape=(k,), output_shape=(o,)).fit(x, y)
    (a, _), = Rec.made[0].fits
    ctx.check(tuple(a[0].shape) == (1, k) and tuple(a[1].shape) == (1, o), 'a single sample is a batch of one')
    ctx.eq(a[0][0], x, 'inputs passed on')
    ctx.eq(a[1][0], y, 'targets passed on')
    Rec.made = []
    b = idx(ctx, 'b', 2)
    Regressor(Rec, input_shape=(k,), n_actions=2).fit(x, np.array([b]), y[0:1])
    for j, m in enumerate(Rec.made):
        ctx.check(len(m.fits) == (1 if j == b else 0), 'only the model of the action is fitted')
        for a, _ in m.fits:
            ctx.eq(a[0].reshape((k,)), x, 'inputs passed on')
            ctx.eq(a[1].reshape((1,))[0], y[0], 'targets passed on')


def cmac(ctx, o):
    ts = [Tiles([[0., 2.]], [2]), Tiles([[-1., 3.]], [2])]
    phi = Features(tilings=ts)
    m = Regressor(CMAC, tilings=ts, input_shape=(1,), output_shape=(o,))
    return phi, m


def active(x):
    """active tiles of a state"""
    out = []
    if bool(LAND(x >= 0, x < 2)):
        out.append(0 if bool(x < 1) else 1)
    if bool(LAND(x >= -1, x < 3)):
        out.append(2 if bool(x < 1) else 3)
    return out


@scenario('P29', 'two tilings of two tiles, 1-2 outputs; arbitrary weights; two arbitrary states, also outside of the tilings', quick=[dict(o=1), dict(o=2)], max_paths=4000)
def cmac_predict(ctx, o):
    phi, m = cmac(ctx, o)
    w = weights(ctx, m, 4 * o)
    x = ctx.array('x', (2, 1), -2, 4)
    y = m.predict(x)
    for i in range(2):
        on = active(x[i, 0])
        one = m.predict(x[i])
        for j in range(o):
            want = asum([w[j * 4 + t] for t in on]) if on else 0.
            ctx.eq(y.reshape((2, o))[i, j], want, 'sum of the weights of the active tiles')
            ctx.eq(one.reshape((o,))[j], want, 'same prediction for a single state')
    on = active(x[0, 0])
    d = m.diff(x[0]).reshape((4 * o, o))
    for c in range(4 * o):
        for j in range(o):
            ctx.eq(d[c, j], 1. if c // 4 == j and c % 4 in on else 0., 'derivative of each output with respect to the weights')


@scenario('P29', 'two tilings of two tiles, 1-2 outputs; arbitrary weights and targets, learning rate; 1-2 arbitrary states, also outside of the tilings',
          quick=[dict(n=1, o=1), dict(n=2, o=1), dict(n=1, o=2), dict(n=2, o=2)], max_paths=4000)
def cmac_fit(ctx, n, o):
    phi, m = cmac(ctx, o)
    w = weights(ctx, m, 4 * o)
    al = ctx.real('alpha', 0, 1)
    x = ctx.array('x', (n, 1), -2, 4)
    y = ctx.array('y', (n, o), -2, 2)
    on = [active(x[i, 0]) for i in range(n)]
    flat = ctx.pick('flat', [False, True]) if o == 1 else False
    m.fit(x, y[:, 0] if flat else y, alpha=al)
    got = m.get_weights()
    for j in range(o):
        for t in range(4):
            hits = [i for i in range(n) if t in on[i]]
            d = 0.
            for i in hits:
                d = d + (y[i, j] - asum([w[j * 4 + q] for q in on[i]])) / len(on[i])
            ctx.eq(got[j * 4 + t], w[j * 4 + t] + (al * d / len(hits) if hits else 0.), 'each tile moves by the mean share of the errors of its states')
