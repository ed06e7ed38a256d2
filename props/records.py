"""Array back ends mean the same (P35); callbacks, loggers and numerical gradients record what happened (P36)."""
import copy
import cv2
import os
import pickle
import shutil
import tempfile
from collections import deque
from contextlib import contextmanager
from props.common import *
from props.dataset import make, fill, agrees, cpy
from props.serial import plain_array, pickled
from mushroom_rl.core import Logger
from mushroom_rl.utils.record import VideoRecorder
from mushroom_rl.core.array_backend import ArrayBackend
from mushroom_rl.core.dataset import VectorizedDataset, DatasetInfo
from mushroom_rl.approximators.table import Table
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.rl_utils.parameters import LinearParameter, DecayParameter
from mushroom_rl.utils.callbacks import CollectDataset, CollectMaxQ, CollectParameters, CollectQ
from mushroom_rl.utils.numerical_gradient import numerical_diff_policy, numerical_diff_dist, numerical_diff_function

BACK = ('numpy', 'torch')


def backend(name):
    return ArrayBackend.get_array_backend(name)


def native(ctx, name, a):
    return ctx.to_tensor(a, torch.float32) if name == 'torch' else a


def kind(name):
    return torch.Tensor if name == 'torch' else np.ndarray


def flat(x):
    return list(x.reshape(-1))


def dims(x):
    return tuple(int(i) for i in x.shape)


@scenario('P35', 'arrays of 2x3 arbitrary reals; every operation on both back ends', tol=1e-5, quick=[dict(b=b) for b in BACK])
def elementwise(ctx, b):
    B = backend(b)
    a = ctx.array('a', (2, 3), -4, 4)
    x = native(ctx, b, a)
    v = flat(a)
    lo, hi = ctx.real('lo', -2, 0), ctx.real('hi', 0, 2)
    ctx.eqs(zip(flat(B.abs(x)), [ite(binop('lt', e, 0), -e, e) for e in v]), 'absolute value')
    ctx.eqs(zip(flat(B.clip(x, lo, hi)), [smin(smax(e, lo), hi) for e in v]), 'values are clipped to the interval')
    ctx.eqs(zip(flat(B.sqrt(x * x + 1.) ** 2), [e * e + 1. for e in v]), 'square root')
    c = B.copy(x)
    ctx.eqs(zip(flat(c), v), 'copy')
    c[0, 0] = 9.
    ctx.eq(x[0, 0], v[0], 'a copy is independent')
    z, o = B.zeros_like(x), B.ones_like(x)
    ctx.check(dims(z) == (2, 3) and dims(o) == (2, 3), 'shape of zeros and ones')
    ctx.eqs([(e, 0.) for e in flat(z)] + [(e, 1.) for e in flat(o)], 'zeros and ones')
    z, o, f = B.zeros(2, 3), B.ones(3, 2), B.full((2, 2), 3.)
    ctx.check(dims(z) == (2, 3) and dims(o) == (3, 2) and dims(f) == (2, 2), 'shape of zeros, ones and constants')
    ctx.eqs([(e, 0.) for e in flat(z)] + [(e, 1.) for e in flat(o)] + [(e, 3.) for e in flat(f)], 'zeros, ones and constants')
    ctx.check(all(isinstance(i, kind(b)) for i in (z, o, f, c)), 'the back end returns its own arrays')
    for n, s in (('zeros', (2,)), ('ones', (1, 2)), ('zeros', (4, 1, 2))):
        ctx.check(dims(getattr(B, n)(*s)) == s, 'any number of dimensions')
    ctx.eq(x.reshape(-1)[5], v[5], 'inputs are not modified')


@scenario('P35', 'arrays of 2x1x3 arbitrary reals, arbitrary selection; every operation on both back ends', tol=1e-5, quick=[dict(b=b) for b in BACK])
def shapes(ctx, b):
    B = backend(b)
    a = ctx.array('a', (2, 1, 3))
    x = native(ctx, b, a)
    v = flat(a)
    for dim, want in ((None, (2, 3)), (1, (2, 3))):
        y = B.squeeze(x) if dim is None else B.squeeze(x, dim)
        ctx.check(dims(y) == want, 'squeeze removes dimensions of size one')
        ctx.eqs(zip(flat(y), v), 'squeeze keeps the values')
    for dim, want in ((0, (1, 2, 1, 3)), (1, (2, 1, 1, 3)), (-1, (2, 1, 3, 1))):
        y = B.expand_dims(x, dim)
        ctx.check(dims(y) == want, 'a dimension of size one is added where asked')
        ctx.eqs(zip(flat(y), v), 'expand_dims keeps the values')
    ctx.check(int(B.size(x)) == 6 and tuple(B.shape(x)) == (2, 1, 3), 'number of elements and shape')
    y = B.atleast_2d(x[0, 0])
    ctx.check(dims(y) == (1, 3), 'a vector becomes one row')
    ctx.eqs(zip(flat(y), v[:3]), 'atleast_2d keeps the values')
    ctx.check(dims(B.atleast_2d(x[:, 0])) == (2, 3), 'a matrix stays as it is')
    k = native(ctx, b, ctx.array('k', (2, 2, 3)))
    y = B.concatenate([x, k], dim=1)
    ctx.check(dims(y) == (2, 3, 3), 'concatenation along the dimension asked')
    ctx.eqs([(y[:, 0], x[:, 0]), (y[:, 1:], k)], 'concatenation keeps the order')
    y = B.concatenate([x[:, 0], k[:, 1]])
    ctx.eqs([(y[:2], x[:, 0]), (y[2:], k[:, 1])], 'concatenation along the first dimension')
    rows = [x[1, 0], x[0, 0]]
    y = B.from_list(rows)
    ctx.check(isinstance(y, kind(b)) and dims(y) == (2, 3), 'a list of arrays becomes an array of rows')
    ctx.eqs(zip(flat(y), v[3:] + v[:3]), 'from_list keeps the order')
    ctx.eqs(zip([float(i) for i in B.arange(1, 6, 2)], [1., 3., 5.]), 'arange')
    ctx.eqs(zip([float(i) for i in B.arange(0, 3)], [0., 1., 2.]), 'arange')
    p = ctx.barray('p', (2, 3))
    q = ctx.to_tensor(p, torch.bool) if b == 'torch' else p
    y = B.where(q, x[:, 0], k[:, 0])
    for i in range(2):
        for j in range(3):
            ctx.eq(y[i, j], ite(p[i, j], x[i, 0, j], k[i, 0, j]), 'selection by condition')


@scenario('P35', '3 x 2 arbitrary conditions', quick=[dict(b=b) for b in BACK])
def where_index(ctx, b):
    B = backend(b)
    p = ctx.barray('p', (3, 2))
    q = ctx.to_tensor(p, torch.bool) if b == 'torch' else p
    r, c = B.where(q)
    want = [(i, j) for i in range(3) for j in range(2) if bool(p[i, j])]
    ctx.check([(int(i), int(j)) for i, j in zip(r, c)] == want, 'positions that satisfy the condition, row by row')


@scenario('P35', '1-4 arbitrary reals', quick=[dict(b=b, n=n) for b in BACK + ('list',) for n in (1, 2, 3, 4)], tol=1e-5,
          thorough=[dict(b=b, n=5) for b in BACK])
def median(ctx, b, n):
    a = ctx.array('a', (n,), -8, 8)
    x = list(a) if b == 'list' else native(ctx, b, a)
    m = backend(b).median(x)
    v = list(a)
    if n < 3:
        ctx.eq(m, asum_(v) / n, 'median')
        return
    for i in range(n):
        for j in range(i):
            if bool(binop('lt', v[i], v[j])):
                v[i], v[j] = v[j], v[i]
    ctx.eq(m, v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2, 'median')


def asum_(v):
    s = 0.
    for e in v:
        s = s + e
    return s


@scenario('P35', '3 steps of 2 environments, with and without further dimensions, arbitrary content and mask', tol=1e-5,
          quick=[dict(b=b, tail=t) for b in BACK for t in ((), (2,))] + [dict(b='list', tail=())])
def packing(ctx, b, tail):
    B = backend(b)
    a = ctx.array('a', (3, 2) + tail)
    x = native(ctx, b, a)
    y = B.flatten(x)
    ctx.check(dims(y) == (6,) + tail, 'environments one after the other')
    for e in range(2):
        for t in range(3):
            ctx.eq(y[3 * e + t], a[t, e], 'all steps of an environment before those of the next one')
    p = ctx.barray('p', (3, 2))
    q = ctx.to_tensor(p, torch.bool) if b == 'torch' else p
    y = B.pack_padded_sequence(x, q)
    want = [a[t, e] for e in range(2) for t in range(3) if bool(p[t, e])]
    ctx.check(len(y) == len(want), 'only valid steps are kept')
    for u, w in zip(y, want):
        ctx.eq(u, w, 'valid steps, environment by environment')


@scenario('P35', '2 arrays of 3 arbitrary reals; all pairs of back ends', tol=1e-5,
          quick=[dict(src=s, to=t) for s in BACK + ('list', 'deque') for t in BACK])
def conversion(ctx, src, to):
    a, c = ctx.array('a', (3,)), ctx.array('c', (3,))
    mk = {'numpy': lambda v: v, 'torch': lambda v: ctx.to_tensor(v, torch.float32), 'list': list, 'deque': lambda v: deque(list(v))}[src]
    x, y = mk(a), mk(c)
    ctx.check(ArrayBackend.get_array_backend_from(x) is backend('list' if src == 'deque' else src), 'the back end of an array')
    one = ArrayBackend.convert(x, to=to)
    ctx.check(isinstance(one, kind(to)) and dims(one) == (3,), 'one array becomes one array of the target back end')
    ctx.eqs(zip(one, a), 'conversion keeps the values')
    two = ArrayBackend.convert(x, y, to=to)
    ctx.check(len(two) == 2, 'several arrays become as many')
    ctx.eqs(list(zip(two[0], a)) + list(zip(two[1], c)), 'conversion keeps values and order')
    three = backend(to).convert(x, y)
    ctx.eqs(list(zip(three[0], a)) + list(zip(three[1], c)), 'a back end converts to itself')
    ctx.eqs(zip(backend(to).convert(x, backend=ArrayBackend.get_array_backend_from(y)), a), 'conversion with the source given')


@scenario('P35', 'unknown names and types', quick=[{}])
def unknown(ctx):
    a = ctx.array('a', (2,))
    d, _ = fill(ctx, 't', 1, 'numpy')
    for f, what in ((lambda: ArrayBackend.convert(a, to='jax'), 'conversion to an unknown back end'),
                    (lambda: ArrayBackend.get_array_backend('jax'), 'an unknown back end'),
                    (lambda: ArrayBackend.get_array_backend_from('text'), 'something that is no array'),
                    (lambda: backend('numpy').zeros(2, device='cpu'), 'a device for a back end without devices'),
                    (lambda: d.parse(to='jax'), 'parsing a dataset to an unknown back end')):
        try:
            f()
            ok = False
        except (NotImplementedError, ValueError, KeyError, AssertionError, TypeError):
            ok = True
        ctx.check(ok, what + ' is refused')


# ---------------------------------------------------------------- callbacks

@scenario('P36', '3 batches of 2, 1 and 2 arbitrary transitions', tol=1e-5, quick=[dict(b=b) for b in BACK])
def collect_dataset(ctx, b):
    cb = CollectDataset()
    cb.clean()
    ctx.check(cb.get() is None or len(cb.get()) == 0, 'nothing is collected before the first call')
    ts, edge = [], []
    for i, n in enumerate((2, 1, 2)):
        d, t = fill(ctx, 'b%d' % i, n, b)
        cb(d)
        ts += t
        edge += [False] * n
        agrees(ctx, d, t, 'the batch handed in is unchanged')
        d.clear()
        got = cb.get()
        # a batch that is followed by another one may be marked as ended there
        agrees(ctx, got, [r[:5] + (got.last[k] if edge[k] else r[5],) + r[6:]
                          for k, r in enumerate(ts)], 'all batches so far, in order, independent of what happens to them')
        edge[-1] = True
    cb.clean()
    ctx.check(cb.get() is None or len(cb.get()) == 0, 'clean deletes what was collected')
    d, t = fill(ctx, 'e', 2, b)
    cb(d)
    agrees(ctx, cb.get(), t, 'collection starts again after clean')


@scenario('P36', '2 environments, 2 parallel steps, arbitrary content and mask', tol=1e-5, quick=[{}])
def collect_vectorized(ctx):
    di = DatasetInfo('numpy', None, 10, .9, (1,), float, (1,), float, None, 2)
    d = VectorizedDataset(di, n_steps=4)
    rows = []
    for t in range(2):
        m = ctx.barray('m%d' % t, (2,)) if t else ctx.pack([True, True], (2,), 'b')
        tr = (ctx.array('s%d' % t, (2, 1)), ctx.array('a%d' % t, (2, 1)), ctx.array('r%d' % t, (2,)), ctx.array('n%d' % t, (2, 1)),
              ctx.barray('ab%d' % t, (2,)), ctx.barray('l%d' % t, (2,)))
        d.append_vectorized(tr, {}, m)
        rows.append((tr, m))
    cb = CollectDataset()
    cb(d)
    got = cb.get()
    want = [(tr, e) for e in range(2) for tr, m in rows if bool(m[e])]
    ctx.check(len(got) == len(want), 'every valid transition once')
    for i, (tr, e) in enumerate(want):
        for k, f in enumerate(('state', 'action', 'reward', 'next_state', 'absorbing')):
            ctx.eq(getattr(got, f)[i], tr[k][e], 'transitions of an environment stay together, in order')


@scenario('P36', 'tables of 2 states and 2 actions with arbitrary values, changed between the calls; ensembles of 2', tol=1e-6, quick=[dict(ens=e) for e in (False, True)])
def collect_q(ctx, ens):
    def put(nm):
        vs = []
        for i, t in enumerate(tabs):
            v = ctx.array('%s%d' % (nm, i), (2, 2), -2, 2)
            t.table[...] = v
            vs.append(v.copy())
        return vs
    if ens:
        q = EnsembleTable(2, (2, 2))
        tabs = [q.model[i] for i in range(2)]
    else:
        q = Table((2, 2))
        tabs = [q]
    cb, st = CollectQ(q), np.array([1])
    mx = CollectMaxQ(q, st) if not ens else None
    want = []
    for k in range(2):
        vs = put('q%d' % k)
        want.append([asum_([v[i, j] for v in vs]) / len(vs) for i in range(2) for j in range(2)])
        cb(None)
        if mx:
            mx(None)
    put('z')
    ctx.check(len(cb.get()) == 2, 'one entry per call')
    for g, w in zip(cb.get(), want):
        ctx.check(dims(g) == (2, 2), 'a table per call')
        ctx.eqs(zip(flat(g), w), 'the table as it was at the call')
    if mx:
        ctx.check(len(mx.get()) == 2, 'one entry per call')
        ctx.eqs([(g, smax(w[2], w[3])) for g, w in zip(mx.get(), want)], 'the largest value of the state at the call')
    cb.clean()
    ctx.check(len(cb.get()) == 0, 'clean deletes what was collected')
    cb(None)
    ctx.check(len(cb.get()) == 1, 'collection starts again after clean')


@scenario('P36', '3 calls, a schedule updated at arbitrary entries in between', tol=1e-5, quick=[dict(table=t) for t in (False, True)])
def collect_parameters(ctx, table):
    p = DecayParameter(1., size=(2,)) if table else LinearParameter(1., 0., 4)
    cb = CollectParameters(p, *([np.array([1])] if table else []))
    n, want = 0, []
    for k in range(3):
        cb(None)
        want.append(1. / max(1, n) if table else 1. - n / 4)
        i = ctx.pick('i%d' % k, [0, 1])
        if table:
            p.update(np.array([i]))
            n += i
        elif i:
            p.update()
            n += 1
    ctx.check(len(cb.get()) == 3, 'one entry per call')
    for g, w in zip(cb.get(), want):
        ctx.eq(g, w, 'the value as it was at the call')


class Held:
    """a parameter whose value is an array that is later overwritten"""

    def __init__(self, a):
        self.a = a

    def get_value(self, *idx):
        return self.a


@scenario('P36', '2 calls, arbitrary array values', tol=1e-6, quick=[{}])
def collect_array_parameter(ctx):
    a = ctx.array('a', (2,))
    keep = a.copy()
    p = Held(a)
    cb = CollectParameters(p)
    cb(None)
    p.a[...] = 7.
    cb(None)
    ctx.eqs(zip(cb.get()[0], keep), 'the value as it was at the call')
    ctx.eqs([(x, 7.) for x in cb.get()[1]], 'the value as it was at the call')


# ---------------------------------------------------------------- loggers

@contextmanager
def disk(ctx):
    """a scratch directory; symbolic content is kept beside the (empty) files"""
    d = tempfile.mkdtemp(prefix='verif_log_')
    held, files = [], {}

    def swap(mod, name, new):
        held.append((mod, name, getattr(mod, name)))
        setattr(mod, name, new)

    def where(f):
        return str(getattr(f, 'name', f)) if not isinstance(f, (str, os.PathLike)) else os.fspath(f)

    def put(f, o):
        if isinstance(f, (str, os.PathLike)):
            open(f, 'wb').close()
        files[where(f)] = o

    def load(f, *a, **k):
        return copy.deepcopy(files[where(f)])
    try:
        if ctx.symbolic:
            swap(np, 'save', lambda f, o, *a, **k: put(f, plain_array(o)))
            swap(np, 'load', load)
            swap(pickle, 'dump', lambda o, f, *a, **k: put(f, pickled(o)))
            swap(pickle, 'load', load)
        yield d
    finally:
        for mod, name, old in reversed(held):
            setattr(mod, name, old)
        shutil.rmtree(d)


def series(lg, name):
    return np.load(str(lg.path / (name + '.npy')))


@scenario('P36', '3 epochs of two series and arrays; with and without a seed', tol=1e-6, quick=[dict(seed=s) for s in (None, 0, 7)])
def log_series(ctx, seed):
    sfx = '' if seed is None else '-%d' % seed
    with disk(ctx) as d:
        lg = Logger('run', results_dir=d, seed=seed)
        other = Logger('run', results_dir=d, seed=3)
        Js, Es = ctx.reals('J', 3), ctx.reals('E', 3)
        for i in range(3):
            lg.log_numpy(J=Js[i], E=Es[i]) if i else lg.log_numpy(J=Js[i])
            other.log_numpy(J=-5.)
            got = series(lg, 'J' + sfx)
            ctx.check(dims(got) == (i + 1,), 'a series has one entry per epoch')
            ctx.eqs(zip(got, Js[:i + 1]), 'the series in the order logged')
        ctx.eqs(zip(series(lg, 'E' + sfx), Es[1:]), 'series are kept apart')
        ctx.eqs([(x, -5.) for x in series(other, 'J-3')], 'runs with different seeds are kept apart')
        a = ctx.array('a', (2, 2))
        lg.log_numpy_array(X=a)
        ctx.eqs(zip(flat(series(lg, 'X' + sfx)), flat(a)), 'an array is stored as it is')
        v = ctx.array('v', (2, 3))
        lg.log_numpy(V=v[0])
        lg.log_numpy(V=v[1])
        got = series(lg, 'V' + sfx)
        ctx.check(dims(got) == (2, 3), 'a series of vectors')
        ctx.eqs(zip(flat(got), flat(v)), 'a series of vectors')


@scenario('P36', '2 runs of a seeded and unseeded experiment in one directory, each continued', tol=1e-6, quick=[dict(seed=s) for s in (None, 1, 11)])
def log_append(ctx, seed):
    sfx = '' if seed is None else '-%d' % seed
    with disk(ctx) as d:
        Js = ctx.reals('J', 4)
        Logger('run', results_dir=d, seed=None).log_numpy(J=-1.) if seed is not None else None
        for s in (1, 2, 11):
            if s != seed:
                Logger('run', results_dir=d, seed=s).log_numpy(J=-2.)
        lg = Logger('run', results_dir=d, seed=seed)
        lg.log_numpy(J=Js[0])
        lg.log_numpy(J=Js[1], loss_2=.5)
        lg = Logger('run', results_dir=d, seed=seed, append=True)
        lg.log_numpy(J=Js[2])
        ctx.eqs(zip(series(lg, 'J' + sfx), Js[:3]), 'a continued run goes on with its own series')
        lg = Logger('run', results_dir=d, seed=seed, append=True)
        lg.log_numpy(J=Js[3], loss_2=.25)
        got = series(lg, 'J' + sfx)
        ctx.check(dims(got) == (4,), 'a continued run goes on with its own series')
        ctx.eqs(zip(got, Js), 'a continued run goes on with its own series')
        ctx.eqs(zip(series(lg, 'loss_2' + sfx), [.5, .25]), 'a continued run goes on with its own series')
        if seed is not None:
            ctx.eq(series(lg, 'J')[0], -1., 'other runs are left alone')
        lg = Logger('run', results_dir=d, seed=seed)
        lg.log_numpy(J=Js[0])
        ctx.check(dims(series(lg, 'J' + sfx)) == (1,), 'without append a run starts anew')


class Saved:
    def __init__(self, ctx):
        self.w, self.log = None, []

    def save(self, path, full_save=False):
        self.log.append((os.fspath(path), self.w, full_save))


@scenario('P36', '4 evaluations with arbitrary scores', tol=1e-6, quick=[dict(seed=s) for s in (None, 2)])
def log_best(ctx, seed):
    sfx = '' if seed is None else '-%d' % seed
    with disk(ctx) as d:
        lg = Logger('run', results_dir=d, seed=seed)
        ag = Saved(ctx)
        J = ctx.reals('J', 4, -3, 3)
        best = None
        for i in range(4):
            ag.w = i
            lg.log_best_agent(ag, J[i])
            if best is None or bool(binop('le', J[best], J[i])):
                best = i
            ctx.check(os.path.basename(ag.log[-1][0]) == 'agent%s-best.msh' % sfx and os.path.dirname(ag.log[-1][0]) == os.fspath(lg.path),
                      'the best agent is stored under its own name')
            ctx.eq(J[ag.log[-1][1]], J[best], 'the agent stored is the best so far')
        n = len(ag.log)
        lg.log_agent(ag)
        lg.log_agent(ag, epoch=3, full_save=True)
        ctx.check([os.path.basename(p) for p, _, _ in ag.log[n:]] == ['agent%s.msh' % sfx, 'agent%s-3.msh' % sfx], 'agents of epochs have names of their own')
        ctx.check([bool(f) for _, _, f in ag.log[n:]] == [False, True], 'full save on request')


@scenario('P36', 'a dataset of 2 arbitrary transitions', tol=1e-5, quick=[dict(b=b) for b in BACK])
def log_dataset(ctx, b):
    with disk(ctx) as d:
        lg = Logger('run', results_dir=d, seed=4)
        data, ts = fill(ctx, 't', 2, b)
        lg.log_dataset(data)
        data.clear()
        with (lg.path / 'dataset-4.pkl').open('rb') as f:
            agrees(ctx, pickle.load(f), ts, 'the dataset as it was when it was logged')


# ---------------------------------------------------------------- numerical gradients

class Quad:
    """quadratic in its weights, scaled by state and action"""

    def __init__(self, ctx, n):
        self.c = ctx.array('c', (n,), -2, 2)
        self.d = ctx.array('d', (n,), -2, 2)
        self.w = ctx.array('w', (n,), -2, 2)
        self.weights_size = self.parameters_size = n

    def get_weights(self):
        return self.w.copy()

    def set_weights(self, w):
        self.w = w.copy()

    get_parameters, set_parameters = get_weights, set_weights

    def f(self, w):
        return asum_([self.c[i] * w[i] * w[i] + self.d[i] * w[i] * w[(i + 1) % len(w)] for i in range(len(w))])

    def grad(self, w):
        n = len(w)
        return [2. * self.c[i] * w[i] + self.d[i] * w[(i + 1) % n] + self.d[i - 1] * w[i - 1] for i in range(n)]

    def __call__(self, x, a=1.):
        return self.f(self.w) * (x + a)


@scenario('P36', 'quadratic functions of 3 parameters with arbitrary coefficients, at an arbitrary point', tol=1e-3, quick=[dict(what=w) for w in ('policy', 'dist', 'function')])
def numerical_gradient(ctx, what):
    q = Quad(ctx, 3)
    w = q.w.copy()
    x, a = ctx.real('x', -1, 1), ctx.real('a', -1, 1)
    eps = .25
    if what == 'policy':
        g, k = numerical_diff_policy(q, x, a, eps), x + a
    elif what == 'dist':
        g, k = numerical_diff_dist(q, x, eps), x + 1.
    else:
        g, k = numerical_diff_function(q.f, w, eps), 1.
    ctx.check(len(g) == 3, 'one partial derivative per parameter')
    ctx.eqs([(g[i], e * k) for i, e in enumerate(q.grad(w))], 'central differences are exact on a quadratic')
    ctx.eqs(zip(q.w, w), 'the parameters are as before')


@scenario('P36', 'two recordings of 2 frames and 1 frame of 2x3 arbitrary pixels, named or not; then a recording that got no frame', quick=[dict(name=None), dict(name='clip')])
def video(ctx, name):
    """every frame of a recording is written once, in order, with its colours; recordings do not overwrite each other"""
    d = tempfile.mkdtemp(prefix='verif_vid_')
    made = []

    class Writer:
        def __init__(self, path, code, fps, size, *a):
            self.path, self.fps, self.size, self.log = str(path), fps, tuple(size), []
            made.append(self)

        def write(self, img):
            self.log.append(img)

        def release(self):
            self.log.append(None)

        def isOpened(self):
            return True
    real = (cv2.VideoWriter, cv2.cvtColor, cv2.destroyAllWindows)
    cv2.VideoWriter = Writer
    cv2.cvtColor = lambda f, code: f[..., ::-1] if code in (cv2.COLOR_RGB2BGR, cv2.COLOR_BGR2RGB) else f
    cv2.destroyAllWindows = lambda: None
    try:
        rec = VideoRecorder(path=d, tag='t', video_name=name, fps=12)
        fs = [ctx.iarray('f%d' % i, (2, 3, 3), 0, 255) for i in range(3)]
        rec(fs[0])
        rec(fs[1])
        rec.stop()
        rec(fs[2])
        rec.stop()
        ctx.check(len(made) == 2, 'one file per recording')
        ctx.check(all(w.fps == 12 and w.size == (3, 2) for w in made), 'frame rate and size of the video')
        ctx.check(all(os.path.dirname(w.path) == os.path.join(d, 't') and os.path.isdir(os.path.dirname(w.path)) for w in made),
                  'videos lie in the tagged directory')
        ctx.check(all(os.path.basename(w.path).startswith(name or 'recording') for w in made), 'name of the video')
        ctx.check(made[0].path != made[1].path, 'a recording does not overwrite an earlier one')
        for w, part in zip(made, (fs[:2], fs[2:])):
            ctx.check(len(w.log) == len(part) + 1 and w.log[-1] is None, 'every frame is written once and the file is closed')
            for g, f in zip(w.log, part):
                ctx.eq(g, f[:, :, ::-1], 'colours of the written frame')
        try:
            VideoRecorder(path=d, tag='t', fps=12).stop()
            ok = True
        except AttributeError:
            ok = False
        ctx.check(ok, 'a recording without frames can be stopped')
    finally:
        cv2.VideoWriter, cv2.cvtColor, cv2.destroyAllWindows = real
        shutil.rmtree(d, ignore_errors=True)
