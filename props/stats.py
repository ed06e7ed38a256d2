"""Running statistics and the observation preprocessors built on them."""
from props.common import *
from mushroom_rl.rl_utils.running_stats import RunningStandardization, RunningExpWeightedAverage, RunningAveragedWindow
from mushroom_rl.rl_utils.preprocessors import StandardizationPreprocessor, MinMaxPreprocessor

BK = ('numpy', 'torch')
T32 = 2e-3


def mk(ctx, name, shape, backend, lo=-4, hi=4):
    if backend == 'torch64':
        return ctx.to_tensor(ctx.array(name, shape, lo, hi), torch.float64)
    return ctx.array(name, shape, lo, hi) if backend == 'numpy' else ctx.tensor(name, shape, lo, hi)


def get(a, *i):
    v = a[i] if i else a
    return v.item() if hasattr(v, 'item') else v


def feed(ctx, target, sizes, d, backend, tag=''):
    """update with batches of the given sizes (0: one observation without batch axis); all the values, in order"""
    xs = []
    for k, b in enumerate(sizes):
        v = mk(ctx, 'x%s%d' % (tag, k), (d,) if b == 0 else (b, d), backend)
        rows = [[get(v, j) for j in range(d)]] if b == 0 else [[get(v, i, j) for j in range(d)] for i in range(b)]
        target(v)
        for i, r in enumerate(rows):
            for j in range(d):
                ctx.eq(get(v, j) if b == 0 else get(v, i, j), r[j], 'the data given to the statistics is not modified')
        xs.append(rows)
    return xs


def moments(batches, d):
    """one prior sample with mean 0 and variance 1, then the data"""
    rows = [r for b in batches for r in b]
    n = len(rows) + 1
    m = [asum([r[j] for r in rows]) / n for j in range(d)]
    var = [(1 + m[j] * m[j] + asum([(r[j] - m[j]) * (r[j] - m[j]) for r in rows])) / n for j in range(d)]
    return m, var


SB = '%s observations of 2 dimensions in batches of %s; arbitrary values'


@scenario('P22', SB % ('1-4', '1-3'), tol=T32, quick=[dict(sizes=s, backend=b) for b in BK for s in ((0, 0, 0), (3,), (2, 0, 1), (1, 2))],
          thorough=[dict(sizes=(2, 3, 2), backend=b) for b in BK])
def standardization(ctx, sizes, backend):
    d = 2
    st = RunningStandardization(shape=(d,), backend=backend)
    for again in range(2):
        done = []
        for k in range(len(sizes)):
            done += feed(ctx, st.update_stats, [sizes[k]], d, backend, '%d_%d_' % (again, k))
            m, var = moments(done, d)
            for j in range(d):
                ctx.eq(get(st.mean, j), m[j], 'mean of the data (and of the prior sample), however it is split in batches')
                s = get(st.std, j)
                ctx.eq(s * s, var[j], 'standard deviation of the data (and of the prior sample), however it is split in batches')
                ctx.le(0, s, 'a standard deviation is not negative')
        st.reset()


@scenario('P22', SB % ('2', '1-2') + '; catch-up rate in (0, 1)', tol=T32, quick=[dict(sizes=s, backend=b) for b in BK for s in ((0, 0), (2, 1))])
def catchup(ctx, sizes, backend):
    """the mean moves by at least the catch-up rate"""
    d, n = 2, 1
    al = ctx.real('al', 0.01, 0.99)
    st = RunningStandardization(shape=(d,), backend=backend, alpha=al)
    m = [0.0] * d
    for k, b in enumerate(sizes):
        rows = feed(ctx, st.update_stats, [b], d, backend, '%d_' % k)[0]
        n += len(rows)
        a = smax(len(rows) / n, al)
        for j in range(d):
            mean = asum([r[j] for r in rows]) / len(rows)
            m[j] = (1 - a) * m[j] + a * mean
            ctx.eq(get(st.mean, j), m[j], 'running mean with at least the catch-up rate')


@scenario('P22', SB % ('1-4', '1-2') + '; arbitrary rate and initial value', tol=T32,
          quick=[dict(sizes=s, backend=b, init=i) for b in BK for s in ((0, 0), (2, 1)) for i in (True, False)])
def exponential(ctx, sizes, backend, init):
    d = 2
    al = ctx.real('al', 0, 1)
    v0 = mk(ctx, 'v0', (d,), backend) if init else None
    first = [get(v0, j) for j in range(d)] if init else [0.0] * d
    av = RunningExpWeightedAverage((d,), al, backend, init_value=v0)
    for again in range(2):
        m = list(first)
        for j in range(d):
            ctx.eq(get(av.mean.reshape(-1), j), m[j], 'the average starts from the initial value')
        for rows in feed(ctx, av.update_stats, sizes, d, backend, '%d_' % again):
            for r in rows:
                m = [(1 - al) * m[j] + al * r[j] for j in range(d)]
        for j in range(d):
            ctx.eq(get(av.mean.reshape(-1), j), m[j], 'exponentially weighted average, one observation at a time')
        av.reset(v0)


@scenario('P22', SB % ('1-5', '1-2') + '; windows of 2 and 3', tol=T32,
          quick=[dict(sizes=s, backend=b, init=i, w=w) for b in BK for s, w in (((0,), 3), ((0, 0, 0), 2), ((2, 1, 2), 3)) for i in (True, False)])
def window(ctx, sizes, backend, init, w):
    d = 2
    v0 = mk(ctx, 'v0', (d,), backend) if init else None
    first = [get(v0, j) for j in range(d)] if init else [0.0] * d
    av = RunningAveragedWindow((d,), w, backend, init_value=v0)
    for again in range(2):
        seen = [list(first)]
        for k, b in enumerate(sizes):
            seen += feed(ctx, av.update_stats, [b], d, backend, '%d_%d_' % (again, k))[0]
            last = seen[-w:]
            for j in range(d):
                ctx.eq(get(av.mean.reshape(-1), j), asum([r[j] for r in last]) / len(last), 'average of the most recent observations in the window')
        av.reset(v0)


def info(lo, hi, backend):
    dt = np.float32 if backend == 'torch' else np.float64
    return MDPInfo(Box(np.array(lo, dtype=dt), np.array(hi, dtype=dt)), Box(np.array([-1.]), np.array([1.])), .9, 10)


INF = np.inf
PB = '1-3 observation dimensions, bounded and unbounded; single observations and batches of 2; statistics of 0-2 arbitrary ' \
     'observations; arbitrary observation and clipping'


def close(ctx, got, batch, d, want, label):
    for i in range(max(batch, 1)):
        for j in range(d):
            ctx.eq(get(got, i, j) if batch else get(got, j), want[i][j], label)


def observe(ctx, pre, d, batch, backend):
    v = mk(ctx, 'obs', (batch, d) if batch else (d,), backend, -20, 20)
    rows = [[get(v, i, j) for j in range(d)] for i in range(batch)] if batch else [[get(v, j) for j in range(d)]]
    out = pre(v)
    for i in range(max(batch, 1)):
        for j in range(d):
            ctx.eq(get(v, i, j) if batch else get(v, j), rows[i][j], 'the observation given to the preprocessor is not modified')
    return rows, out


def clipped(x, c):
    return smax(smin(x, c), -c)


def standardized(x, m, var, c):
    return clipped((x - m) / np.sqrt(var), c)


@scenario('P22', PB, tol=T32, quick=[dict(seen=s, batch=b, backend=k) for s, b in (((), 0), ((0,), 2), ((0, 0), 0), ((2,), 0)) for k in BK])
def standardize(ctx, seen, batch, backend):
    d = 2
    c = ctx.real('clip', 0.5, 10)
    pre = StandardizationPreprocessor(info([-INF, -1.], [INF, 1.], backend), backend[:5], clip_obs=c)
    ref = RunningStandardization(shape=(d,), backend=backend)      # decided by the scenarios above

    def update(v):
        pre.update(v)
        ref.update_stats(v)
    feed(ctx, update, seen, d, backend)
    m, std = ([get(x, j) for j in range(d)] for x in (ref.mean, ref.std))
    rows, out = observe(ctx, pre, d, batch, backend)
    close(ctx, out, batch, d, [[clipped((r[j] - m[j]) / std[j], c) for j in range(d)] for r in rows],
          'observation standardized with the statistics and clipped')


CASES = {'bounded': ([-2., 0.], [2., 5.]), 'first': ([-2., -INF], [4., INF]), 'second': ([-INF, -2.], [INF, 4.]),
         'one': ([-2.], [4.]), 'mixed': ([-1., -INF, 0.], [1., INF, 3.]), 'half': ([-1., -3.], [INF, 1.])}


@scenario('P22', PB, tol=T32, quick=[dict(case=x, batch=b, backend=k) for x in CASES for b in (0, 2) for k in BK + ('torch64',)])
def minmax(ctx, case, batch, backend):
    lo, hi = CASES[case]
    d = len(lo)
    c = ctx.real('clip', 0.5, 10)
    pre = MinMaxPreprocessor(info(lo, hi, backend), backend[:5], clip_obs=c)
    seen = (0,) if d < 3 else ()
    m, var = moments(feed(ctx, pre.update, seen, d, backend), d)
    rows, out = observe(ctx, pre, d, batch, backend)
    want = [[(r[j] - (lo[j] + hi[j]) / 2) / ((hi[j] - lo[j]) / 2) if np.isfinite(lo[j]) and np.isfinite(hi[j])
             else standardized(r[j], m[j], var[j], c) for j in range(d)] for r in rows]
    close(ctx, out, batch, d, want, 'bounded components scaled to [-1, 1] by the limits, the others standardized')


@scenario('P22', 'an observation space without any bounded component', quick=[dict(backend='numpy')])
def minmax_unbounded(ctx, backend):
    x = ctx.real('x', 1, 100)
    ok = False
    try:
        MinMaxPreprocessor(info([-INF, -x * 1e20], [INF, 3.], backend), backend)
    except AssertionError:
        ok = True
    ctx.check(ok, 'observations without limits are rejected')
