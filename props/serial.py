"""Saving and loading: what is loaded behaves as what was saved."""
import collections
import copy
import os
import pickle
import shutil
import tempfile
import zipfile
import json
import sys
from contextlib import contextmanager
os.environ['TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD'] = '1'      # as the project's own tests: torch >= 2.6 refuses whole objects by default
from props.common import *
from mushroom_rl.core import Serializable


class Cell(object):
    """an open member of the stand-in archive"""

    def __init__(self, files, name, mode):
        self.files, self.name, self.mode = files, name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def put(self, kind, v):
        assert self.mode == 'w'
        self.files[self.name] = (kind, v)

    def get(self, kind):
        k, v = self.files[self.name]
        if k != kind:
            raise ValueError('member written as %s, read as %s' % (k, kind))
        return copy.deepcopy(v)

    def write(self, data):
        self.put('bytes', data)

    def read(self, *a):
        return self.get('bytes')


ARCHIVES = {}


class Archive(object):
    """stand-in for ZipFile that keeps the members in memory, so that they can hold symbolic values"""

    def __init__(self, path, mode='r', *a, **k):
        self.path, self.mode = str(path), mode[:1]
        if self.mode == 'w':
            ARCHIVES[self.path] = {}
            open(self.path, 'w').close()
        self.files = ARCHIVES[self.path]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def open(self, name, mode='r', *a, **k):
        if mode == 'r' and name not in self.files:
            raise KeyError('There is no item named %r in the archive' % name)
        return Cell(self.files, name, mode)

    def writestr(self, name, data, *a, **k):
        self.files[name] = ('bytes', data)

    def read(self, name, *a):
        return self.files[name][1]

    def namelist(self):
        return list(self.files)


def plain_array(v):
    """what np.save writes"""
    if isinstance(v, torch.Tensor) or type(v).__name__ == 'SymTensor':
        v = v.numpy()
    v = np.asarray(v) if not hasattr(v, 'shape') or not hasattr(v, 'dtype') else v
    if isinstance(v, np.ndarray) and v.dtype == object:
        raise ValueError('Object arrays cannot be loaded when allow_pickle=False')
    return copy.deepcopy(v)


class Rejected(Exception):
    pass


def pickled(v):
    """what pickle keeps: a deep copy; functions without a name of their own cannot be pickled"""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, type(lambda: 0)) and '<' in x.__qualname__:
            raise pickle.PicklingError("Can't pickle %r" % x)
        if isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple)):
            todo += list(x)
    return copy.deepcopy(v)


@contextmanager
def storage(ctx):
    d = tempfile.mkdtemp(prefix='verif_serial_')
    saved = []

    def swap(mod, name, new):
        saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, new)
    try:
        if ctx.symbolic:
            real = zipfile.ZipFile
            for m in list(sys.modules.values()):
                if m is not None and getattr(m, '__name__', '').startswith('mushroom_rl'):
                    for k, v in list(m.__dict__.items()):
                        if v is real:
                            swap(m, k, Archive)
            swap(zipfile, 'ZipFile', Archive)
            swap(pickle, 'dump', lambda o, f, *a, **k: f.put('pickle', pickled(o)))
            swap(pickle, 'load', lambda f, *a, **k: f.get('pickle'))
            swap(np, 'save', lambda f, o, *a, **k: f.put('numpy', plain_array(o)))
            swap(np, 'load', lambda f, *a, **k: f.get('numpy'))
            swap(torch, 'save', lambda o, f, *a, **k: f.put('torch', copy.deepcopy(o)))
            swap(torch, 'load', lambda f, *a, **k: f.get('torch'))
        yield os.path.join(d, 'object.msh')
    finally:
        for mod, name, old in reversed(saved):
            setattr(mod, name, old)
        ARCHIVES.clear()
        shutil.rmtree(d)


def roundtrip(ctx, obj, full=False, cls=Serializable):
    with storage(ctx) as path:
        obj.save(path, full_save=full)
        return cls.load(path)


class Inner(Serializable):
    def __init__(self, v, extra):
        self.v, self.extra = v, extra
        self._add_save_attr(v='numpy', extra='pickle!')


class Outer(Serializable):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        self._add_save_attr(arr='numpy', ten='torch', num='primitive', obj='pickle', js='json', one='mushroom', many='mushroom', not_saved='none',
                            nothing='numpy', big='numpy!', bigobj='mushroom!', never='torch')

    def _post_load(self):
        self.post = (self.num, self.one.v, len(self.many))


def make_outer(ctx):
    kw = dict(arr=ctx.array('arr', (2, 2)), ten=ctx.tensor('ten', (2,)), num=ctx.real('num'), obj={'a': [ctx.real('oa'), 'x'], 'b': (1, 2)}, js={'k': [1, 2]},
              one=Inner(ctx.array('i0', (1,)), 5), many=[Inner(ctx.array('i1', (1,)), 6), Inner(ctx.array('i2', (1,)), 7)], not_saved=3, nothing=None,
              big=ctx.array('big', (1,)), bigobj=Inner(ctx.array('i3', (1,)), 8))
    return Outer(**kw), kw


def same_outer(ctx, o, kw, full, label):
    for i in range(2):
        for j in range(2):
            ctx.eq(o.arr[i, j], kw['arr'][i, j], label)
        ctx.eq(o.ten[i], kw['ten'][i], label)
        ctx.eq(o.many[i].v[0], kw['many'][i].v[0], label)
    ctx.eq(o.num, kw['num'], label)
    ctx.eq(o.obj['a'][0], kw['obj']['a'][0], label)
    ctx.check(o.obj['a'][1] == 'x' and o.obj['b'] == (1, 2) and o.js == {'k': [1, 2]}, label)
    ctx.eq(o.one.v[0], kw['one'].v[0], label)
    ctx.check(type(o) is Outer and type(o.one) is Inner and len(o.many) == 2 and isinstance(o.arr, np.ndarray) or ctx.symbolic, 'types are restored')
    ctx.check(o.nothing is None and o.not_saved is None, 'attributes that are not saved are None')


@scenario('P31', 'an object with an attribute of every kind, nested objects and a list of objects; arbitrary values; full and partial save', quick=[dict(full=False), dict(full=True)])
def attributes(ctx, full):
    o, kw = make_outer(ctx)
    arr0 = [[o.arr[i, j] for j in range(2)] for i in range(2)]
    with storage(ctx) as path:
        o.save(path, full_save=full)
        a, b = Serializable.load(path), Outer.load(path)
    for l in (a, b):
        same_outer(ctx, l, kw, full, 'attributes are restored')
        if full:
            ctx.eq(l.big[0], kw['big'][0], 'a full save keeps everything')
            ctx.eq(l.bigobj.v[0], kw['bigobj'].v[0], 'a full save keeps everything')
            ctx.check(l.one.extra == 5 and [x.extra for x in l.many] == [6, 7] and l.bigobj.extra == 8, 'a full save keeps everything')
        else:
            ctx.check(l.big is None and l.bigobj is None and l.one.extra is None and l.many[0].extra is None, 'a partial save leaves the rest out')
        ctx.eq(l.post[0], kw['num'], 'the hook after loading sees the restored attributes')
        ctx.eq(l.post[1][0], kw['one'].v[0], 'the hook after loading sees the restored attributes')
    a.arr[0, 0] = 77.
    a.many[0].v[0] = 78.
    ctx.eq(b.arr[0, 0], arr0[0][0], 'two loads are independent')
    ctx.eq(o.arr[0, 0], arr0[0][0], 'the saved object is independent of the loaded one')
    ctx.eq(o.many[0].v[0], b.many[0].v[0], 'the saved object is independent of the loaded one')
    # a loaded object can be saved again
    c = roundtrip(ctx, b, full)
    same_outer(ctx, c, kw, full, 'a loaded object can be saved and loaded again')


@scenario('P31', 'a missing file', quick=[{}])
def missing(ctx):
    with storage(ctx) as path:
        try:
            Serializable.load(path + '.none')
            ok = False
        except ValueError:
            ok = True
    ctx.check(ok, 'loading a missing file is an error')
    o, kw = make_outer(ctx)
    c = o.copy()
    c.arr[0, 0] = 5.
    ctx.eq(o.arr[0, 1], kw['arr'][0, 1], 'a copy is independent')


# ---- what is loaded behaves as what was saved -----------------------------------------------------------------------------------------

def compare(ctx, a, b, label):
    """two observations (numbers, arrays, tensors, nested lists) are equal"""
    if isinstance(a, (list, tuple)):
        ctx.check(isinstance(b, (list, tuple)) and len(a) == len(b), label)
        for x, y in zip(a, b):
            compare(ctx, x, y, label)
    elif isinstance(a, dict):
        ctx.check(isinstance(b, dict) and sorted(a) == sorted(b), label)
        for k in a:
            compare(ctx, a[k], b[k], label)
    elif a is None or isinstance(a, str):
        ctx.check(a is None and b is None or a is not None and b is not None and a == b, label)
    else:
        if hasattr(a, 'shape'):
            ctx.check(tuple(a.shape) == tuple(b.shape), label)
            ctx.check(isinstance(a, torch.Tensor) == isinstance(b, torch.Tensor), label)
        ctx.eq(b, a, label)


def same_law(ctx, f, g, label):
    """two random computations have the same outcomes with the same probabilities"""
    a, b = ctx.distribution(f), ctx.distribution(g)
    ctx.check(len(a) == len(b), label)
    for (p, x), (q, y) in zip(a, b):
        ctx.eq(p, q, label)
        compare(ctx, x, y, label)


from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter, DecayParameter
from mushroom_rl.rl_utils.variance_parameters import VarianceIncreasingParameter, VarianceDecreasingParameter, WindowedVarianceIncreasingParameter
from mushroom_rl.rl_utils.running_stats import RunningStandardization, RunningExpWeightedAverage, RunningAveragedWindow
from mushroom_rl.rl_utils.preprocessors import StandardizationPreprocessor, MinMaxPreprocessor
from mushroom_rl.rl_utils.optimizers import SGDOptimizer, AdamOptimizer, AdaptiveOptimizer


@scenario('P31', 'tables of 2 parameters used once or twice before being saved and twice after; arbitrary values', tol=1e-6,
          quick=[dict(kind=k) for k in ('const', 'linear', 'decay', 'varinc', 'vardec', 'window')])
def parameters(ctx, kind):
    v = ctx.real('v', .25, 2)
    size = (2,)
    p = {'const': lambda: Parameter(v, min_value=.5, max_value=1., size=size), 'linear': lambda: LinearParameter(v, .125, 3, size=size),
         'decay': lambda: DecayParameter(v, exp=1, min_value=.25, size=size), 'varinc': lambda: VarianceIncreasingParameter(v, size=size, tol=1.),
         'vardec': lambda: VarianceDecreasingParameter(v, size=size, tol=1.), 'window': lambda: WindowedVarianceIncreasingParameter(v, size=size, tol=1., window=2)}[kind]()
    var = kind in ('varinc', 'vardec', 'window')
    ts = [ctx.real('t%d' % i, -2, 2) for i in range(3)]

    def use(q, i, t):
        return q(np.array([i]), target=t) if var else q(np.array([i]))
    use(p, 0, ts[0])
    use(p, 1, ts[1])
    l = roundtrip(ctx, p)
    for q in (p, l):
        use(q, 0, ts[2])
    for i in range(2):
        compare(ctx, p.get_value(np.array([i])), l.get_value(np.array([i])), 'the loaded parameter continues the schedule of the saved one')
    compare(ctx, p.initial_value, l.initial_value, 'the loaded parameter continues the schedule of the saved one')
    ctx.check(tuple(p.shape) == tuple(l.shape), 'the loaded parameter continues the schedule of the saved one')


@scenario('P31', 'statistics of 2 dimensions; one update before and one after; arbitrary values', tol=1e-4,
          quick=[dict(kind=k, be=b) for k in ('standard', 'ewma', 'window') for b in ('numpy', 'torch')] + [dict(kind=k, be=b) for k in ('prep', 'minmax') for b in ('numpy', 'torch')])
def statistics(ctx, kind, be):
    mk = lambda n, sh: ctx.array(n, sh, -2, 2) if be == 'numpy' else ctx.tensor(n, sh, -2, 2)
    x = [mk('x%d' % i, (2,)) for i in range(3)]
    if kind == 'minmax' and be == 'torch':
        x = [v.double() for v in x]
    lbl = 'the loaded statistics continue those of the saved object'
    if kind in ('prep', 'minmax'):
        mi = MDPInfo(Box(np.array([-2., -np.inf]), np.array([2., np.inf])), Discrete(2), .9, 10)
        o = StandardizationPreprocessor(mi, backend=be) if kind == 'prep' else MinMaxPreprocessor(mi, be)
        o.update(x[0])
        o.update(x[1])
        l = roundtrip(ctx, o)
        compare(ctx, o(x[2]), l(x[2]), lbl)
        for q in (o, l):
            q.update(x[2])
        compare(ctx, o(x[0]), l(x[0]), lbl)
        return
    o = {'standard': lambda: RunningStandardization(shape=(2,), backend=be), 'ewma': lambda: RunningExpWeightedAverage((2,), .25, be),
         'window': lambda: RunningAveragedWindow((2,), 2, be)}[kind]()
    up = (lambda q, v: q.update_stats(v))
    up(o, x[0])
    up(o, x[1])
    l = roundtrip(ctx, o)
    for q in (o, l):
        up(q, x[2])
    compare(ctx, o.mean, l.mean, lbl)
    if kind == 'standard':
        compare(ctx, o.std, l.std, lbl)


@scenario('P31', '2 parameters, one step before and one after; arbitrary gradients and rate', tol=1e-4, quick=[dict(kind=k) for k in ('sgd', 'adam', 'adaptive')])
def optimizers(ctx, kind):
    lr = ctx.real('lr', .125, 1)
    o = {'sgd': lambda: SGDOptimizer(lr=DecayParameter(lr, exp=1), maximize=False), 'adam': lambda: AdamOptimizer(lr=Parameter(lr), beta1=.75, beta2=.875, eps=.25),
         'adaptive': lambda: AdaptiveOptimizer(eps=lr, maximize=False)}[kind]()
    p = ctx.array('p', (2,), -2, 2)
    g = [ctx.array('g%d' % i, (2,), .5, 2) for i in range(2)]
    p = o(p, g[0])
    l = roundtrip(ctx, o)
    compare(ctx, o(p, g[1]), l(p, g[1]), 'the loaded optimizer continues as the saved one')


from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.table import Table
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.parametric import LinearApproximator, CMAC, TorchApproximator, NumpyTorchApproximator
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.rl_utils.eligibility_trace import EligibilityTrace
from props.deepac import Par
from props.blackbox import make
from props import dataset as dsets, replay as mems, td as tds


class LinNet(object):
    """network with one weight per input and output; its initial weights are handed over by the harness"""
    init = []

    def __init__(self, input_shape, output_shape, **kw):
        self.shape = (output_shape[0], kw.get('n_in', input_shape[0]))
        self.p = Par(LinNet.init.pop(0))

    def to(self, d):
        return self

    def parameters(self):
        return [self.p]

    def train(self):
        pass

    def eval(self):
        pass

    def __call__(self, *x, **kw):
        x = [v.float() if v.ndim > 1 else v.float().reshape(1, -1) for v in x]
        x = torch.cat(x, dim=1) if len(x) > 1 else x[0]
        w = self.p.data.reshape(self.shape)
        out = torch.stack([(x * w[k]).sum(dim=1) for k in range(self.shape[0])], dim=1)
        return out


class QNet(LinNet):
    """action values linear in the state: of all actions, or of the given ones"""

    def __call__(self, state, action=None, **kw):
        q = LinNet.__call__(self, state)
        return q if action is None else q.gather(1, action.long())


class Halve(object):
    """optimizer whose steps are recognisable: w -> w / 2 + number of steps made by it"""

    def __init__(self, params, **kw):
        self.param_groups = [dict(params=list(params), **kw)]
        self.state = collections.defaultdict(dict)

    def zero_grad(self, *a, **k):
        pass

    def step(self, *a, **k):
        for p in self.param_groups[0]['params']:
            self.state[p] = (self.state.get(p) or 0) + 1
            p.data = p.data / 2 + float(self.state[p])

    def state_dict(self):
        return {}


class HalveSome(Halve):
    """its first step leaves the first parameter alone (a parameter that has received no gradient yet)"""
    n = 0

    def step(self, *a, **k):
        self.n += 1
        for p in self.param_groups[0]['params'][0 if self.n > 1 else 1:]:
            self.state[p] = (self.state.get(p) or 0) + 1
            p.data = p.data / 2 + float(self.state[p])


class TwoNet(LinNet):
    """one parameter per input"""

    def __init__(self, input_shape, output_shape, **kw):
        self.p, self.q = Par(LinNet.init.pop(0)), Par(LinNet.init.pop(0))

    def parameters(self):
        return [self.p, self.q]

    def __call__(self, x, **kw):
        x = x.float()
        return (x[:, :1] * self.p.data + x[:, 1:] * self.q.data)


def sq_loss(y_hat, y, reduction='mean'):
    e = (y_hat - y) ** 2
    return e if reduction == 'none' else e.mean()


def net_weights(ctx, *sizes, fixed=False):
    LinNet.init = [torch.arange(1., k + 1.) / (4 + i) if fixed else ctx.tensor('n%d' % i, (k,), -2, 2) for i, k in enumerate(sizes)]


OPT = {'class': Halve, 'params': {}}


@scenario('P31', 'tables of 2x2, models of 2 inputs; arbitrary contents; one fit before and one after', tol=1e-4,
          quick=[dict(kind=k) for k in ('table', 'etable', 'trace', 'linear', 'cmac', 'q', 'action', 'ensemble', 'torch', 'nptorch', 'torchens')])
def approximators(ctx, kind):
    lbl = 'the loaded approximator predicts and learns as the saved one'
    if kind in ('table', 'etable', 'trace'):
        T = ctx.array('t', (2, 2), -2, 2)
        o = {'table': lambda: Table((2, 2)), 'etable': lambda: EnsembleTable(2, (2, 2)), 'trace': lambda: EligibilityTrace((2, 2), 'accumulating')}[kind]()
        for i in range(2):
            for j in range(2):
                (o[1] if kind == 'etable' else o)[np.array([i]), np.array([j])] = T[i, j]
        l = roundtrip(ctx, o)
        v = ctx.real('v', -2, 2)
        for q in (o, l):
            if kind == 'trace':
                q.update(np.array([0]), np.array([1]))
            else:
                (q[0] if kind == 'etable' else q)[np.array([0]), np.array([1])] = v
        for i in range(2):
            compare(ctx, o.predict(np.array([i])), l.predict(np.array([i])), lbl)
        ctx.check(o.n_actions == l.n_actions, lbl)
        return
    x = ctx.array('x', (1, 2), -2, 2)
    if kind == 'cmac':
        x = ctx.arr([[.25, .75]])
        o = Regressor(CMAC, input_shape=(2,), output_shape=(1,), tilings=Tiles.generate(1, [2, 2], [0., 0.], [1., 1.]), learning_rate=.5)
        o.set_weights(ctx.array('w', (o.weights_size,), -2, 2))
    elif kind in ('linear', 'q', 'action', 'ensemble'):
        kw = dict(q=dict(n_actions=2), action=dict(n_actions=2), ensemble=dict(n_models=2)).get(kind, {})
        o = Regressor(LinearApproximator, input_shape=(2,), output_shape=(2,) if kind == 'q' else (1,), **kw)
        if kind == 'ensemble':
            for i in range(2):
                o[i].set_weights(ctx.array('w%d' % i, (2,), -2, 2))
        else:
            o.set_weights(ctx.array('w', (o.weights_size,), -2, 2))
    else:
        net_weights(ctx, 2, 2)
        cls = NumpyTorchApproximator if kind == 'nptorch' else TorchApproximator
        o = Regressor(cls, input_shape=(2,), output_shape=(1,), network=LinNet, optimizer=OPT, loss=sq_loss, quiet=True, **(dict(n_models=2) if kind == 'torchens' else {}))
        x = x if kind == 'nptorch' else ctx.to_tensor(x)
        y = ctx.array('y', (1, 1), -2, 2) if kind == 'nptorch' else ctx.tensor('y', (1, 1), -2, 2)
        o.fit(x, y)
    l = roundtrip(ctx, o)
    compare(ctx, o.predict(x), l.predict(x), lbl)
    ctx.check(tuple(o.input_shape) == tuple(l.input_shape) and tuple(o.output_shape) == tuple(l.output_shape) and len(o) == len(l), lbl)
    if kind not in ('ensemble', 'torchens'):
        compare(ctx, o.get_weights(), l.get_weights(), lbl)
    if kind in ('torch', 'nptorch', 'torchens'):
        for q in (o, l):
            q.fit(x, y)
        compare(ctx, o.predict(x), l.predict(x), lbl)
    if kind == 'cmac':
        for q in (o, l):
            q.fit(x, ctx.arr([[1.]]))
        compare(ctx, o.predict(x), l.predict(x), lbl)


@scenario('P31', 'network of 2 parameters, one of them without optimizer state when it is saved; arbitrary weights', tol=1e-4, quick=[dict(k=0), dict(k=1), dict(k=2)])
def optimizer_state(ctx, k):
    lbl = 'the loaded network is trained as the saved one'
    net_weights(ctx, 1, 1)
    o = Regressor(TorchApproximator, input_shape=(2,), output_shape=(1,), network=TwoNet, optimizer={'class': HalveSome, 'params': {}}, loss=sq_loss, quiet=True)
    x, y = ctx.tensor('x', (1, 2), -2, 2), ctx.tensor('y', (1, 1), -2, 2)
    for _ in range(k):
        o.fit(x, y)
    l = roundtrip(ctx, o)
    for _ in range(2):
        for q in (o, l):
            q.fit(x, y)
        compare(ctx, o.get_weights(), l.get_weights(), lbl)


from mushroom_rl.policy import (ProMP, DMP, RecurrentGaussianTorchPolicy, EpsGreedy, Boltzmann, Mellowmax, GaussianPolicy, DiagonalGaussianPolicy, StateStdGaussianPolicy, StateLogStdGaussianPolicy,
                                DeterministicPolicy, OrnsteinUhlenbeckPolicy, ClippedGaussianPolicy, GaussianTorchPolicy, BoltzmannTorchPolicy, VectorPolicy)


@scenario('P31', '2 states, 2 actions; arbitrary action values; policies saved with and without their approximator', tol=1e-4,
          quick=[dict(kind=k, full=f) for k in ('eps', 'boltz', 'mellow') for f in (False, True)])
def td_policies(ctx, kind, full):
    lbl = 'the loaded policy acts as the saved one'
    v = ctx.array('q', (2, 2), -2, 2)
    t = Table((2, 2))
    t.table[:] = v
    if kind == 'eps':
        o = EpsGreedy(LinearParameter(ctx.real('e', .25, 1), .125, 3))
    elif kind == 'boltz':
        o = Boltzmann(LinearParameter(ctx.pick('b', [.5, 2.]), .125, 3))
    else:
        o = Mellowmax(Parameter(ctx.pick('b', [.5, 2.])))
        v[0, 0], v[0, 1] = ctx.pick('q0', [0., .5]), 1.
        t.table[:] = v
    o.set_q(t)
    st = np.array([0])
    if kind != 'mellow':
        o.update(st)
    l = roundtrip(ctx, o, full)
    if not full:
        u = Table((2, 2))
        u.table[:] = v
        l.set_q(u)
    p, r = o(st), l(st)
    compare(ctx, p, r, lbl)
    if kind == 'mellow':
        # the loaded policy follows the table it is given, not a copy of the old one
        w = Table((2, 2))
        w.table[0, 0], w.table[0, 1] = 1., .25
        for q in (o, l):
            q.set_q(w)
        compare(ctx, o(st), l(st), 'the loaded policy follows the action values it is given')
    else:
        for q in (o, l):
            q.update(st)
        compare(ctx, o(st), l(st), lbl)


def phase(z):
    z = np.asarray(z)
    return np.concatenate((z, z * z + 1.))


def lin_reg(ctx, name, dim):
    m = Regressor(LinearApproximator, input_shape=(2,), output_shape=(dim,))
    m.set_weights(ctx.array(name, (dim * 2,), -2, 2))
    return m


@scenario('P31', '2 states, 1 action dimension; arbitrary weights, standard deviations, states and actions', tol=1e-3,
          quick=[dict(kind=k) for k in ('gauss', 'diag', 'std', 'logstd', 'det', 'torchgauss', 'torchboltz', 'promp', 'dmp', 'recurrent')])
def policies(ctx, kind):
    lbl = 'the loaded policy acts as the saved one'
    if kind in ('promp', 'dmp'):
        m = lin_reg(ctx, 'w', 1)
        o = ProMP(m, phase, 3) if kind == 'promp' else DMP(m, phase, ctx.array('g', (1,), 1, 2), .25, 2., np.ones(1), np.ones(1) / 4, np.ones(1), np.ones(1) / 2)
        h = o.reset()
        a, h = o.draw_action(np.zeros(1), h)
        l = roundtrip(ctx, o)
        k = h
        for _ in range(3):
            a, h = o.draw_action(np.zeros(1), h)
            b, k = l.draw_action(np.zeros(1), k)
            compare(ctx, a, b, lbl)
        o.set_weights(o.get_weights() * 2.)
        compare(ctx, o.get_weights(), l.get_weights() * 2., 'the loaded policy has weights of its own')
        return
    if kind == 'recurrent':
        net_weights(ctx, 2)
        o = RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=SeqNet, input_shape=(2,), output_shape=(1,), std_0=1.5)
        l = roundtrip(ctx, o)
        S, A, H, n = ctx.tensor('S', (2, 2, 2), -2, 2), ctx.tensor('A', (2, 1), -2, 2), ctx.tensor('H', (2, 1), -2, 2), torch.tensor([1, 2])
        compare(ctx, o.get_weights(), l.get_weights(), lbl)
        compare(ctx, o.log_prob_t(S, A, H, n), l.log_prob_t(S, A, H, n), lbl)
        compare(ctx, o.draw_action(S[0, 0], H[0])[1], l.draw_action(S[0, 0], H[0])[1], lbl)
        ctx.check(tuple(l.reset().shape) == tuple(o.reset().shape), lbl)
        return
    s, a = ctx.array('s', (2,), -2, 2), ctx.array('a', (1,), -2, 2)
    sd = ctx.real('sd', .5, 2)
    one = ctx.pack([sd], (1,), 'f')
    if kind in ('torchgauss', 'torchboltz'):
        net_weights(ctx, 2 if kind == 'torchgauss' else 4)
        o = GaussianTorchPolicy(LinNet, (2,), (1,), std_0=1.5) if kind == 'torchgauss' else BoltzmannTorchPolicy(LinNet, (2,), (2,), beta=.5)
        o.set_weights(ctx.tensor('w', (3 if kind == 'torchgauss' else 4,), -1, 1))
        l = roundtrip(ctx, o)
        S = ctx.to_tensor(s).reshape(1, 2)
        A = ctx.to_tensor(a).reshape(1, 1) if kind == 'torchgauss' else torch.tensor([[1]])
        compare(ctx, o.get_weights(), l.get_weights(), lbl)
        compare(ctx, o.log_prob_t(S, A), l.log_prob_t(S, A), lbl)
        compare(ctx, o.entropy_t(S), l.entropy_t(S), lbl)
        w = o.get_weights() * 2.
        l.set_weights(w)
        o.set_weights(w)
        compare(ctx, o.log_prob_t(S, A), l.log_prob_t(S, A), lbl)
        return
    m = lin_reg(ctx, 'w', 1)
    o = {'gauss': lambda: GaussianPolicy(m, sd * one.reshape(1, 1)), 'diag': lambda: DiagonalGaussianPolicy(m, one), 'det': lambda: DeterministicPolicy(m),
         'std': lambda: StateStdGaussianPolicy(m, lin_reg(ctx, 'v', 1), eps=.5), 'logstd': lambda: StateLogStdGaussianPolicy(m, lin_reg(ctx, 'v', 1))}[kind]()
    l = roundtrip(ctx, o)
    for k in range(2):
        compare(ctx, o.get_weights(), l.get_weights(), lbl)
        if kind == 'det':
            compare(ctx, o.draw_action(s), l.draw_action(s), lbl)
        else:
            i = len(ctx.normals)
            x = o.draw_action(s)[0]
            j = len(ctx.normals)
            y = l.draw_action(s)[0]
            z0, z1 = ctx.normals[i:j], ctx.normals[j:]
            ctx.check(len(z0) == len(z1) == 1, lbl)
            if kind == 'gauss' or kind == 'diag' and k == 0:
                ctx.eq(x[0] - y[0], sd * (z0[0] - z1[0]), lbl)
            compare(ctx, o(s, a), l(s, a), lbl)
            compare(ctx, o.diff_log(s, a), l.diff_log(s, a), lbl)
        w = o.get_weights() * 2.
        for q in (o, l):
            q.set_weights(w)


@scenario('P31', '2 dimensions; arbitrary mean and standard deviations', tol=1e-3, quick=[dict(kind=k) for k in ('diag', 'chol', 'full')])
def distributions(ctx, kind):
    lbl = 'the loaded distribution is the saved one'
    o, m, L = make(ctx, kind, 2 if kind == 'diag' else 1)
    l = roundtrip(ctx, o)
    th = ctx.array('th', (len(m),), -2, 2)
    for k in range(2):
        compare(ctx, o.get_parameters(), l.get_parameters(), lbl)
        compare(ctx, o.log_pdf(th), l.log_pdf(th), lbl)
        compare(ctx, o.diff_log(th), l.diff_log(th), lbl)
        p = o.get_parameters() * 2.
        for q in (o, l):
            q.set_parameters(p)
    ctx.check(o.parameters_size == l.parameters_size and o.is_contextual == l.is_contextual, lbl)


# ---- datasets and replay memories ------------------------------------------------------------------------------------------------------

@scenario('P31', '2 stored steps and one appended after loading; arbitrary transitions, step information, policy states', tol=1e-4,
          quick=[dict(be='numpy', st=False), dict(be='numpy', st=True), dict(be='torch', st=False), dict(be='torch', st=True), dict(be='list', st=False), dict(be='list', st=True)])
def datasets(ctx, be, st):
    o, ts = dsets.fill(ctx, 't', 2, be, st, cap=4)
    o.append_theta(ctx.array('theta', (2,), -2, 2))
    l = roundtrip(ctx, o)
    dsets.agrees(ctx, l, ts, 'the loaded dataset holds the saved steps', st, info=be != 'list')
    x = ctx.real('newinfo')
    t = dsets.transition(ctx, 'new', be, st)
    for q in (o, l):
        q.append(t, dict(x=x))
    dsets.agrees(ctx, l, ts + [t + (x,)], 'steps can be appended to the loaded dataset', st, info=be != 'list')
    for f in (lambda q: q.parse(to='numpy'), lambda q: q.parse(to='torch'), lambda q: q.theta_list, lambda q: q.horizon if hasattr(q, 'horizon') else 0):
        compare(ctx, [v for v in f(o)] if isinstance(f(o), (list, tuple)) else f(o), [v for v in f(l)] if isinstance(f(l), (list, tuple)) else f(l), 'the loaded dataset is used as the saved one')
    a, b = o + o, l + l
    for f in dsets.F:
        compare(ctx, [v for v in getattr(a, f)], [v for v in getattr(b, f)], 'loaded datasets can be concatenated')
    l.clear()
    ctx.check(len(l) == 0 and len(o) == 3, 'the loaded dataset is independent of the saved one')


@scenario('P31', '2-3 stored steps in a memory of 2-4, one added after loading; arbitrary transitions', tol=1e-4,
          quick=[dict(be=b, full=f, n=n) for b in ('numpy', 'torch') for f in (True, False) for n in (2, 3)])
def memory(ctx, be, full, n):
    mi, ma, ai = mems.infos(be, be, True)
    o = mems.ReplayMemory(ma, ai, 0, 4 if n == 2 else 2)
    d, ts = mems.data(ctx, 't', n, mi, ai)
    o.add(d)
    l = roundtrip(ctx, o, full)
    have = ts[-2:] if full else []
    ctx.check(l.size == len(have), 'a full save keeps the contents of the memory, a partial one starts empty')
    d2, t2 = mems.data(ctx, 'u', 1, mi, ai)
    l.add(d2)
    have = (have + t2)[-(4 if n == 2 else 2):]
    mems.memory_is(ctx, l, have, 'the loaded memory continues as the saved one')
    ctx.check(l.initialized, 'the loaded memory continues as the saved one')
    o.add(d2)
    ctx.check(o.size == min(n + 1, 4 if n == 2 else 2), 'the saved memory is not affected')


@scenario('P31', '2 stored steps in a prioritized memory of 2, one added after loading; arbitrary transitions and priorities', tol=1e-4,
          quick=[dict(be=b, full=f) for b in ('numpy', 'torch') for f in (True, False)])
def prioritized(ctx, be, full):
    mi, ma, ai = mems.infos(be, be)
    o = mems.PrioritizedReplayMemory(ma, ai, 1, 2, 1., .5, epsilon=.125)
    d, ts = mems.data(ctx, 't', 2, mi, ai, last=[False] * 2, absorbing=[False] * 2)
    p = [ctx.real('p%d' % i, .5, 2) for i in range(3)]
    ctx.assume(p[1] < p[0])
    ctx.assume(p[2] < p[1])
    o.add(d, [p[0], p[1]])
    l = roundtrip(ctx, o, full)
    lbl = 'the loaded memory continues as the saved one'
    ctx.check(bool(l.initialized) == full, 'a full save keeps the contents of the memory, a partial one starts empty')
    d2, t2 = mems.data(ctx, 'u', 1, mi, ai, last=[False], absorbing=[False])
    l.add(d2, [p[2]])
    if full:
        ctx.eq(l.max_priority, p[1], lbl)
        have = [t2[0], ts[1]]
    else:
        ctx.eq(l.max_priority, 1., lbl)
        have = t2
    ctx.check(bool(l.initialized) == full, lbl)
    out = l.get(1)
    ctx.check(LOR(*[mems.is_row(ctx, out, 0, t) for t in have]), lbl)
    if not full:
        o.add(d2, [p[2]])
        ctx.eq(o.max_priority, p[1], 'the saved memory is not affected')


# ---- agents ----------------------------------------------------------------------------------------------------------------------------

from mushroom_rl.algorithms.value import (QLearning, SARSA, ExpectedSARSA, DoubleQLearning, SpeedyQLearning, RLearning, RQLearning, MaxminQLearning, WeightedQLearning,
                                          QLambda, SARSALambda, SARSALambdaContinuous, TrueOnlineSARSALambda)

TD = dict(q=(QLearning, {}), sarsa=(SARSA, {}), expected=(ExpectedSARSA, {}), double=(DoubleQLearning, {}), speedy=(SpeedyQLearning, {}), r=(RLearning, dict(beta=Parameter(.25))),
          rq=(RQLearning, dict(beta=Parameter(.25), off_policy=True)), maxmin=(MaxminQLearning, dict(n_tables=2)), weighted=(WeightedQLearning, dict(precision=1)),
          qlambda=(QLambda, dict(lambda_coeff=.5, trace='accumulating')), slambda=(SARSALambda, dict(lambda_coeff=.5)))


def tables_of(Q):
    return [Q[i].table for i in range(len(Q))] if isinstance(Q, EnsembleTable) else [Q.table]


@scenario('P31', '2 states x 2 actions, arbitrary table; one transition before and one after, learning rate 1/n; arbitrary transitions', tol=1e-5,
          quick=[dict(alg=k) for k in TD], max_paths=800)
def td_agents(ctx, alg):
    cls, kw = TD[alg]
    info = tabular_info(2, 2, ctx.real('gamma', .25, 1))
    pol = ScriptPolicy(actions=[ctx.arr([1]) for _ in range(8)], probs=ctx.arr([.25, .75]))
    o = cls(info, pol, DecayParameter(1., exp=1., size=info.size), **kw)
    for k, t in enumerate(tables_of(o.Q)):
        t[:] = ctx.array('Q%d' % k, (2, 2), -4, 4)
    o.episode_start(ctx.arr([0]), {})
    s = [ctx.pick('s%d' % i, [0, 1]) for i in range(2)]
    r = [ctx.real('r%d' % i, -2, 2) for i in range(2)]
    tr = lambda i: (ctx.arr([s[i]]), ctx.arr([1]), r[i], ctx.arr([1]), False, False)
    if alg not in ('double', 'maxmin', 'weighted'):
        o.fit(one_step_dataset(o, *tr(0)))
    l = roundtrip(ctx, o)
    lbl = 'the loaded agent learns as the saved one'

    def more(q):
        q = q.copy()
        q.fit(one_step_dataset(q, *tr(1)))
        return tables_of(q.Q)
    compare(ctx, tables_of(o.Q), tables_of(l.Q), lbl)
    ctx.check(l.policy.q is l.Q, 'the loaded policy follows the action values of the loaded agent')
    if alg == 'weighted':
        i = len(ctx.normals)
        x, y = more(o), more(l)
        return
    same_law(ctx, lambda: more(o), lambda: more(l), lbl)
    compare(ctx, l.draw_action(ctx.arr([1])), o.draw_action(ctx.arr([1])), lbl)


@scenario('P31', 'linear action values of 2 features x 2 actions; one transition before and one after', tol=1e-4, quick=[dict(online=False), dict(online=True)])
def td_linear(ctx, online):
    info = MDPInfo(Box(-1e3, 1e3, (2,)), Discrete(2), ctx.real('gamma', .25, 1), 100)
    params = dict(input_shape=(2,), output_shape=(2,), n_actions=2)
    pol = ScriptPolicy(actions=[ctx.arr([1]) for _ in range(8)])
    al = Parameter(ctx.real('al', .125, 1))
    o = TrueOnlineSARSALambda(info, pol, al, lambda_coeff=.5, approximator_params=params) if online else SARSALambdaContinuous(info, pol, LinearApproximator, al, lambda_coeff=.5, approximator_params=params)
    o.Q.set_weights(ctx.array('w', (4,), -2, 2))
    x = [ctx.array('x%d' % i, (2,), -2, 2) for i in range(3)]
    r = [ctx.real('r%d' % i, -2, 2) for i in range(2)]
    o.episode_start(x[0], {})
    o.fit(one_step_dataset(o, x[0], ctx.arr([0]), r[0], x[1], False, False))
    l = roundtrip(ctx, o)
    for q in (o, l):
        q.fit(one_step_dataset(q, x[1], ctx.arr([1]), r[1], x[2], False, False))
    compare(ctx, o.Q.get_weights(), l.Q.get_weights(), 'the loaded agent learns as the saved one')


from mushroom_rl.algorithms.value import DQN, DoubleDQN, AveragedDQN, MaxminDQN
from mushroom_rl.algorithms.actor_critic import DDPG, TD3, SAC, A2C, PPO, PPO_BPTT, TRPO, COPDAC_Q, StochasticAC, StochasticAC_AVG
from mushroom_rl.algorithms.policy_search import REINFORCE, GPOMDP, RWR, PGPE, MORE, ePPO
from props.blackbox import Search, minimizer
from mushroom_rl.distributions import GaussianDiagonalDistribution, GaussianCholeskyDistribution
from mushroom_rl.distributions import Distribution


def steps(ctx, agent, n, tag, dim=2, action=None, last=False, fixed=None, reward=None):
    d = Dataset.generate(agent.mdp_info, agent.info, n_steps=n)
    for i in range(n):
        q = '%s%d' % (tag, i)
        a = ctx.array(q + 'a', (1,), -2, 2) if action is None else ctx.arr([action])
        S, N = (ctx.array(q + 's', (dim,), -2, 2), ctx.array(q + 'n', (dim,), -2, 2)) if fixed is None else (ctx.arr([fixed] * dim), ctx.arr([fixed + .5] * dim))
        d.append((S, a, ctx.real(q + 'r', -2, 2) if reward is None else reward + i, N, False, last and i == n - 1), {})
    return d


ALBL = 'the loaded agent acts and learns as the saved one'


@scenario('P31', 'networks of 2 inputs and 2 actions with arbitrary weights, memory of 2; one fit before and two after; arbitrary transitions', tol=1e-3,
          quick=[dict(alg=a, full=f, per=False) for a in ('dqn', 'double', 'averaged', 'maxmin') for f in (True, False)] + [dict(alg='dqn', full=f, per=True) for f in (True, False)], max_paths=400)
def dqn_agents(ctx, alg, full, per):
    cls, kw = {'dqn': (DQN, {}), 'double': (DoubleDQN, {}), 'averaged': (AveragedDQN, dict(n_approximators=2)), 'maxmin': (MaxminDQN, dict(n_approximators=2))}[alg]
    net_weights(ctx, 4, 4, 4, 4)
    info = MDPInfo(Box(-10, 10, (2,)), Discrete(2), .5, 10)
    par = dict(input_shape=(2,), output_shape=(2,), n_actions=2, network=QNet, optimizer=OPT, loss=sq_loss, quiet=True)
    mem = dict(**{'class': mems.PrioritizedReplayMemory, 'params': dict(alpha=1., beta=.5, epsilon=.125)}) if per else None
    o = cls(info, EpsGreedy(0.), NumpyTorchApproximator, approximator_params=par, batch_size=1, target_update_frequency=2, initial_replay_size=0, max_replay_size=2 if per else 1, replay_memory=mem, **kw)
    o.fit(steps(ctx, o, 1, 'b', action=1))
    l = roundtrip(ctx, o, full)
    x = ctx.array('x', (1, 2), -2, 2)
    look = lambda q: [q.approximator.predict(x), q.target_approximator.predict(x)]
    compare(ctx, look(o), look(l), ALBL)
    d = steps(ctx, o, 1, 'c', action=0)
    for q in (o, l):
        q.fit(d)
    if alg not in ('maxmin',):
        compare(ctx, look(o), look(l), ALBL)
    pol = l.policy(x[0])
    val = l.approximator.predict(x[0])
    for a in range(2):
        ctx.implies(binop('gt', val[a], val[1 - a]), binop('eq', pol[a], 1.), 'the loaded policy follows the action values of the loaded agent')


class NetPolicy(Policy):
    def __init__(self, approximator):
        super().__init__()
        self._approximator = approximator
        self._add_save_attr(_approximator='mushroom')

    def draw_action(self, state, policy_state=None):
        return self._approximator(state), None

    def reset(self):
        return None


@scenario('P31', 'networks of 2 inputs with arbitrary weights, memory of 1; one fit before and two after; arbitrary transitions', tol=1e-3,
          quick=[dict(alg=a, full=f) for a in ('ddpg', 'td3', 'sac') for f in (True, False)], max_paths=300)
def off_policy_agents(ctx, alg, full):
    net_weights(ctx, *([2, 2] + [3, 3, 3, 3] if alg == 'sac' else [3, 3, 3, 3, 2, 2] if alg == 'td3' else [3, 3, 2, 2]), fixed=alg == 'sac')
    mi = MDPInfo(Box(-10, 10, (2,)), Box(-2, 2, (1,)), .5, 10)
    actor = dict(network=LinNet, input_shape=(2,), output_shape=(1,))
    critic = dict(network=LinNet, optimizer=OPT, loss=sq_loss, input_shape=(3,), output_shape=(1,), quiet=True)
    sizes = {2: [], 3: []}
    for w in LinNet.init:
        sizes[w.shape[0]].append(w)
    if alg == 'sac':
        o = make_agent(lambda: SAC(mi, actor, dict(actor), OPT, critic, 1, 0, 1, 0, .25, 1e-3, target_entropy=-1.), sizes)
    elif alg == 'td3':
        o = make_agent(lambda: TD3(mi, NetPolicy, {}, actor, OPT, critic, 1, 0, 1, .25, policy_delay=1, noise_std=0.), sizes)
    else:
        o = make_agent(lambda: DDPG(mi, NetPolicy, {}, actor, OPT, critic, 1, 0, 1, .25, policy_delay=1), sizes)
    kw = dict(fixed=.5, action=.25) if alg == 'sac' else {}
    o.fit(steps(ctx, o, 1, 'b', **kw))
    l = roundtrip(ctx, o, full)
    x = ctx.tensor('x', (1, 2), -2, 2)

    def look(q):
        if alg == 'sac':
            return [q.policy.get_weights()]
        return [q.policy.draw_action(x)[0]]
    compare(ctx, look(o), look(l), ALBL)
    for k in range(2):
        d = steps(ctx, o, 1, 'c%d' % k, **kw)
        for q in (o, l):
            q.fit(d)
        compare(ctx, look(o), look(l), ALBL)


@scenario('P31', 'SAC with fixed networks, one fit before and two after; arbitrary but equal noise', tol=1e-3, quick=[dict(full=f) for f in (True, False)])
def sac_temperature_saved(ctx, full):
    """the loaded agent goes on adapting its own temperature"""
    net_weights(ctx, 2, 2, 3, 3, 3, 3, fixed=True)
    mi = MDPInfo(Box(-10, 10, (2,)), Box(-2, 2, (1,)), .5, 10)
    actor = dict(network=LinNet, input_shape=(2,), output_shape=(1,))
    critic = dict(network=LinNet, optimizer=OPT, loss=sq_loss, input_shape=(3,), output_shape=(1,), quiet=True)
    sizes = {2: [], 3: []}
    for w in LinNet.init:
        sizes[w.shape[0]].append(w)
    real = torch.optim.Adam
    torch.optim.Adam = Halve
    try:
        o = make_agent(lambda: SAC(mi, actor, dict(actor), OPT, critic, 1, 0, 1, 0, .25, 1e-3, target_entropy=-1., log_std_min=-1., log_std_max=-.5), sizes)
    finally:
        torch.optim.Adam = real
    kw = dict(fixed=.5, action=.25, reward=1.)
    o.fit(steps(ctx, o, 1, 'b', **kw))
    l = roundtrip(ctx, o, full)
    for k in range(2):
        seen = []
        d = steps(ctx, o, 1, 'c%d' % k, **kw)
        for q in (o, l):
            del ctx.losses[:], ctx.normals[:]
            q.fit(d)
            for z in ctx.normals:
                ctx.assume(ctx.same(z, .5))
            seen.append(list(ctx.losses))
        ctx.check(len(seen[0]) == len(seen[1]) > 0, 'the loaded agent learns as often as the saved one')
        for x, y in zip(*seen):
            ctx.eq(x.reshape(-1)[0], y.reshape(-1)[0], 'the loaded agent minimises the losses of the saved one')


def make_agent(f, sizes):
    """build an agent whose networks take the arbitrary weights that fit their inputs"""
    keep = LinNet.__init__

    def init(self, input_shape, output_shape, **kw):
        self.shape = (output_shape[0], input_shape[0])
        self.p = Par(sizes[input_shape[0] * output_shape[0]].pop(0))
    LinNet.__init__ = init
    try:
        return f()
    finally:
        LinNet.__init__ = keep


class SeqValue(LinNet):
    """network over sequences: the last state of every sequence, and the policy state at its start"""

    def __call__(self, seq, h, lengths, **kw):
        x = torch.stack([seq[i, int(n) - 1] for i, n in enumerate(lengths)])
        return LinNet.__call__(self, x) + h.reshape(-1, 1) / 4


class SeqNet(SeqValue):
    def __call__(self, seq, h, lengths, **kw):
        return SeqValue.__call__(self, seq, h, lengths), h / 2 + 1.


def seq_steps(ctx, ag, n, x, r):
    d = Dataset.generate(ag.mdp_info, ag.info, n_steps=n)
    for i in range(n):
        d.append((ctx.arr([x + i, x]), ctx.arr([.25 * r + i]), r + i * i, ctx.arr([x + i + 1, x]), False, i == n - 1, ctx.arr([.5 * i]), ctx.arr([.5 * i + .5])), {})
    return d


@scenario('P31', 'networks of 2 inputs with arbitrary weights, one fit of 2 steps before and one after; arbitrary transitions', tol=1e-3,
          quick=[dict(alg=a) for a in ('a2c', 'ppo', 'bptt')], max_paths=300)
def on_policy_agents(ctx, alg):
    net_weights(ctx, 2, 2, fixed=alg != 'a2c')
    mi = MDPInfo(Box(-10, 10, (2,)), Box(-2, 2, (1,)), .5, 10)
    sizes = {2: list(LinNet.init)}
    critic = dict(network=LinNet, optimizer=OPT, loss=sq_loss, input_shape=(2,), output_shape=(1,), quiet=True)

    def build():
        pol = GaussianTorchPolicy(LinNet, (2,), (1,), std_0=1.5)
        if alg == 'a2c':
            return A2C(mi, pol, OPT, critic, ent_coeff=.125)
        return PPO(mi, pol, OPT, critic, 2, 2, .25, .5)
    if alg == 'bptt':
        critic = dict(network=SeqValue, optimizer=OPT, loss=sq_loss, input_shape=(2,), output_shape=(1,), quiet=True)
        build = lambda: PPO_BPTT(mi, RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=SeqNet, input_shape=(2,), output_shape=(1,), std_0=1.5), OPT, critic, 1, 2, .25, .5, 2,
                                 truncation_length=2)
        steps_ = lambda ag, x, r: seq_steps(ctx, ag, 2, x, r)
    else:
        steps_ = lambda ag, x, r: steps(ctx, ag, 2, 'b%d' % r, last=True, fixed=x, action=.25 * r, reward=r)
    o = make_agent(build, sizes)
    o.fit(steps_(o, .5, 1.))
    l = roundtrip(ctx, o)
    look = lambda q: q.policy.get_weights()
    compare(ctx, look(o), look(l), ALBL)
    d = steps_(o, -.5, 2.)
    for q in (o, l):
        q.fit(d)
    compare(ctx, look(o), look(l), ALBL)


class Sq(object):
    """features of the value function"""
    size = 2

    def __call__(self, x):
        return np.concatenate((x, x * x))


@scenario('P31', '1 state and 1 action dimension; one step before and two after; arbitrary weights and transitions', tol=1e-4,
          quick=[dict(alg=a) for a in ('copdac', 'sac', 'avg', 'reinforce', 'gpomdp')], max_paths=300)
def classic_agents(ctx, alg):
    mi = MDPInfo(Box(-10, 10, (1,)), Box(-10, 10, (1,)), .5, 10)
    m = Regressor(LinearApproximator, input_shape=(1,), output_shape=(1,))
    m.set_weights(ctx.array('w', (1,), -2, 2) if alg in ('copdac', 'sac', 'avg') else ctx.arr([.5]))
    at, av = .25, .5
    if alg == 'copdac':
        pol = GaussianPolicy(m, np.eye(1))
        o = COPDAC_Q(mi, pol, m, at, av, av, value_function_features=Sq())
    else:
        pol = GaussianPolicy(m, np.eye(1))
        o = {'sac': lambda: StochasticAC(mi, pol, at, av, .5, value_function_features=Sq()), 'avg': lambda: StochasticAC_AVG(mi, pol, at, av, av, .5),
             'reinforce': lambda: REINFORCE(mi, pol, SGDOptimizer(Parameter(at))), 'gpomdp': lambda: GPOMDP(mi, pol, SGDOptimizer(Parameter(at)))}[alg]()
    pg = alg in ('reinforce', 'gpomdp')
    one = lambda t, x: steps(ctx, o, 1, t, dim=1, last=pg, fixed=x, action=x / 2 + .25, reward=ctx.pick('r' + t, [1., -.5]) if pg else None)
    ds = [one('b', .5), one('c', -.25), one('e', 1.5)]
    two = lambda a, b: a + b
    o.episode_start(ctx.arr([0.]), {})
    if pg:
        ds = [two(ds[0], ds[1]), two(ds[1], ds[2])]
    o.fit(ds[0])
    l = roundtrip(ctx, o)
    s, a = ctx.arr([1.]), ctx.arr([.5])
    look = lambda q: [q.policy.get_weights(), q.policy(s, a)]
    compare(ctx, look(o), look(l), ALBL)
    for d in ds[1:]:
        for q in (o, l):
            q.fit(d)
        compare(ctx, look(o), look(l), ALBL)


class SerialPolicy(Policy):
    """parametric policy that stores its weights"""

    def __init__(self, w):
        super().__init__()
        self.w = w
        self._add_save_attr(w='pickle')

    def draw_action(self, state, policy_state=None):
        return self.w * 1., None

    def set_weights(self, w):
        self.w = w

    def get_weights(self):
        return self.w

    @property
    def weights_size(self):
        return len(self.w)

    def reset(self):
        return None


class ParDist(Distribution):
    """torch search distribution with parameters: log-density linear in the parameters"""

    def __init__(self, p):
        super().__init__(None)
        self.p = p
        self._add_save_attr(p='pickle')

    def sample(self, context=None):
        return torch.zeros(1)

    def log_pdf(self, theta, context=None):
        return theta[:, 0] * self.p.data[0]

    def entropy(self, context=None):
        return self.p.data[0] * 0.

    def parameters(self):
        return [self.p]


@scenario('P31', '2 episodes before and 2 after; arbitrary returns of PGPE, two values of the others', tol=1e-3, quick=[dict(alg=a) for a in ('rwr', 'pgpe', 'eppo')], max_paths=300)
def search_agents(ctx, alg):
    mi = MDPInfo(Box(-10, 10, (1,)), Box(-10, 10, (1,)), .5, 10)
    if alg == 'eppo':
        dist = ParDist(Par(ctx.tensor('mu', (1,), -1, 1)))
        o = ePPO(mi, dist, SerialPolicy(torch.zeros(1)), OPT, 1, 2, .25)
    else:
        dist = GaussianDiagonalDistribution(ctx.arr([.25]), ctx.arr([.5]))
        o = RWR(mi, dist, SerialPolicy(np.zeros(1)), .5) if alg == 'rwr' else PGPE(mi, dist, SerialPolicy(np.zeros(1)), SGDOptimizer(Parameter(ctx.real('lr', .125, 1))))
    th = [[ctx.arr([.5 * i - k]) for i in range(2)] for k in range(2)]

    def batch(k):
        d = Dataset.generate(o.mdp_info, o.info, n_episodes=2)
        for i in range(2):
            t = th[k][i]
            d.append((ctx.arr([0.]), ctx.arr([0.]), ctx.real('r%d%d' % (k, i), -1, 1) if alg == 'pgpe' else ctx.pick('r%d%d' % (k, i), [0., 1.]), ctx.arr([0.]), True, True), {})
            d.append_theta(ctx.to_tensor(t) if alg == 'eppo' else t)
        return d
    o.fit(batch(0))
    l = roundtrip(ctx, o)
    look = lambda q: [x.data for x in q.distribution.parameters()] if alg == 'eppo' else q.distribution.get_parameters()
    compare(ctx, look(o), look(l), ALBL)
    d = batch(1)
    for q in (o, l):
        q.fit(d)
    compare(ctx, look(o), look(l), ALBL)
    ctx.check(o.info.is_episodic == l.info.is_episodic, ALBL)


@scenario('P31', '1 parameter, 4 episodes before and 4 after with fixed returns; arbitrary multipliers and bounds', tol=1e-4, quick=[{}])
def more_agent(ctx):
    mi = MDPInfo(Box(-10, 10, (1,)), Box(-10, 10, (1,)), .5, 10)
    o = MORE(mi, GaussianCholeskyDistribution(np.array([.25]), np.array([[.5]])), SerialPolicy(np.zeros(1)), ctx.real('eps', .25, 1), ctx.real('h0', -8, -4), .5)

    def batch(ag, k):
        d = Dataset.generate(ag.mdp_info, ag.info, n_episodes=4)
        for t in (-1., 0., 1., .5):
            d.append((ctx.arr([0.]), ctx.arr([0.]), -(t - k) ** 2, ctx.arr([0.]), True, True), {})
            d.append_theta(ctx.arr([t]))
        return d
    with minimizer(Search(ctx, 2, 2.)) as s:
        s.x[0] = 1.
        o.fit(batch(o, .5))
        l = roundtrip(ctx, o)
        compare(ctx, o.distribution.get_parameters(), l.distribution.get_parameters(), ALBL)
        for q in (o, l):
            q.fit(batch(q, -.5))
        compare(ctx, o.distribution.get_parameters(), l.distribution.get_parameters(), ALBL)
        ctx.check(len(s.calls) == 3, ALBL)
        ctx.eq(s.calls[1][0], s.calls[2][0], ALBL)
