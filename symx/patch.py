"""
Binding of the symbolic interpreter to the code under test.

Symbolic mode: every `mushroom_rl` module global that names numpy, a numpy function, numpy.random or one of the scipy
helpers below is bound to the symbolic counterpart for the duration of one path.  Concrete mode (replay of a model): the
real numpy/torch/scipy, only the random generators are fed with the values of the model, in the order they were drawn.
"""
import math
import pickle
import sys
import types
from fractions import Fraction
import numpy as np
import torch
from . import core, symnp, symtorch
from .core import Sym, Unsupported, binop, coerce, kind_of, slog, sexp, mkbool, as_bool, ite
from .symnp import SymArray, base, is_scalar, has_sym

PKGS = ('mushroom_rl', 'props')


# ---- randomness ------------------------------------------------------------------------------------------------------------

class Dist(object):
    """one outcome of a random computation with its exact probability (see ctx.distribution)"""

    def __init__(self, prefix):
        self.prefix, self.taken, self.weight, self.alternatives = prefix, [], 1.0, []

    def decide(self, weights):
        i = len(self.taken)
        live = [k for k, w in enumerate(weights) if isinstance(w, Sym) or w > 0]
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = live[0]
            for o in live[1:]:
                self.alternatives.append(self.taken + [o])
        self.taken.append(k)
        self.weight = binop('mul', self.weight, weights[k])
        return k


class RandU(object):
    """a + b u for a uniform u on [0, 1); comparisons are decided with their exact probability"""

    def __init__(self, dist, cell=None, a=0.0, b=1.0):
        self.dist, self.a, self.b = dist, a, b
        self.cell = cell if cell is not None else [0.0, 1.0]

    def __add__(self, o):
        return RandU(self.dist, self.cell, self.a + o, self.b)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (self * -1.0) + o

    def __mul__(self, o):
        return RandU(self.dist, self.cell, self.a * o, self.b * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / o)

    def __neg__(self):
        return self * -1.0

    def _below(self, t):
        """is a + b u < t"""
        if isinstance(t, np.ndarray) and t.size == 1:
            t = t.reshape(-1)[0]
        if isinstance(t, RandU):
            raise Unsupported('comparison of two uniform variables')
        if bool(binop('eq', self.b, 0.0)):
            return bool(binop('lt', self.a, t))
        up = bool(binop('gt', self.b, 0.0))
        c = binop('div', binop('sub', t, self.a), self.b)
        lo, hi = self.cell
        m = symnp.smin(symnp.smax(c, lo), hi)
        if bool(binop('ge', lo, hi)):
            return up           # within an event of probability zero
        w = binop('div', binop('sub', m, lo), binop('sub', hi, lo))
        k = self.dist.decide([w, binop('sub', 1.0, w)])
        if k == 0:
            self.cell[1] = m
        else:
            self.cell[0] = m
        return (k == 0) == up

    def __lt__(self, o):
        return self._below(o)

    def __le__(self, o):
        return self._below(o)

    def __gt__(self, o):
        return not self._below(o)

    def __ge__(self, o):
        return not self._below(o)

    __array_ufunc__ = None


class Rng(object):
    """np.random stand-in: every draw is an arbitrary value of the documented range (both modes)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.log = []
        self.dist = None

    def _name(self, k):
        self.n += 1
        return 'rnd%d_%s' % (self.n, k)

    def _shape(self, size):
        if size is None:
            return None
        if isinstance(size, (tuple, list, torch.Size)):
            return tuple(int(s) for s in size)
        return (int(size),)

    def _fill(self, size, one):
        sh = self._shape(size)
        if sh is None:
            return one(())
        vals = [one(p) for p in np.ndindex(*sh)]
        return self.ctx.pack(vals, sh)

    def _b(self, x, pos):
        """element of a broadcast parameter"""
        if is_scalar(x):
            return x
        a = symnp.SymArray.make(x) if self.ctx.symbolic else np.asarray(x)
        if a.ndim == 0:
            return a[()]
        b = base(a) if isinstance(a, SymArray) else a
        return b[tuple(p if n > 1 else 0 for p, n in zip(pos[len(pos) - b.ndim:], b.shape))]

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and not (is_scalar(low) and is_scalar(high)):
            size = np.broadcast_shapes(np.shape(low), np.shape(high))

        if self.dist is not None:
            if self._shape(size) not in (None, ()):
                raise Unsupported('array of uniform variables')
            return RandU(self.dist) * binop('sub', high, low) + low

        def one(pos):
            lo, hi = self._b(low, pos), self._b(high, pos)
            if not self.ctx.symbolic:
                v = self.ctx.real(self._name('u'), lo, hi)
                t = 1e-6 * (1 + abs(lo) + abs(hi))
                return v if lo - t <= v <= hi + t else self.ctx.invalid()
            v = self.ctx.real(self._name('u'))
            self.ctx.assume_(binop('ge', v, lo))
            if not isinstance(lo, Sym) and not isinstance(hi, Sym) and lo == hi:
                self.ctx.assume_(binop('le', v, hi))
            elif isinstance(lo, Sym) or isinstance(hi, Sym):
                self.ctx.assume_(binop('le', v, hi))
            else:
                self.ctx.assume_(binop('lt', v, hi))
            return v
        return self._fill(size, one)

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape if shape else None)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    random_sample = sample = ranf = random

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and not (is_scalar(loc) and is_scalar(scale)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))

        if self.dist is not None:
            raise Unsupported('normal variable')

        def one(pos):
            z = self.ctx.real(self._name('n'))
            self.ctx.normals.append(z)
            return binop('add', self._b(loc, pos), binop('mul', self._b(scale, pos), z))
        return self._fill(size, one)

    def randn(self, *shape):
        return self.normal(0.0, 1.0, shape if shape else None)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def _int(self, lo, hi):
        """arbitrary integer in [lo, hi)"""
        if not isinstance(lo, Sym) and not isinstance(hi, Sym):
            if lo >= hi:
                raise ValueError('low >= high')
        else:
            if bool(binop('ge', lo, hi)):
                raise ValueError('low >= high')
        if self.dist is not None:
            if isinstance(lo, Sym) or isinstance(hi, Sym):
                raise Unsupported('random integer with symbolic bounds')
            return np.int64(lo + self.dist.decide([Fraction(1, int(hi - lo)) * 1.0] * int(hi - lo)))
        if not self.ctx.symbolic:
            return self._one_of('i', range(int(lo), int(hi)))
        v = self.ctx.int(self._name('i'))
        self.ctx.assume_(binop('ge', v, lo))
        self.ctx.assume_(binop('lt', v, hi))
        return v

    def _one_of(self, kind, options):
        """concrete mode: one of the integers; a recorded draw that is none of them belongs to another history"""
        options = list(options)
        if not options:
            self.ctx.invalid()
        v = self.ctx.option(self._name(kind), options)
        return v if int(v) in options else self.ctx.invalid()

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._fill(size, lambda p: self._int(self._b(low, p), self._b(high, p)))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + 1 if endpoint else high, size)

    def integers01(self, shape):
        return self.randint(0, 2, shape)

    def index(self, n, allowed, weights=None, used=()):
        """arbitrary index; allowed[i] is None (possible) or a condition"""
        if self.dist is not None:
            weights = [1.0] * n if weights is None else list(weights)
            s = 0.0
            for x in weights:
                s = binop('add', s, x)
            return np.int64(self.dist.decide([binop('div', x, s) for x in weights]))
        if not self.ctx.symbolic:
            return self._one_of('c', [i for i in range(n) if i not in used and (allowed[i] is None or bool(allowed[i]))])
        v = self.ctx.int(self._name('c'))
        self.ctx.assume_(binop('ge', v, 0))
        self.ctx.assume_(binop('lt', v, n))
        for i, c in enumerate(allowed):
            if c is None:
                continue
            self.ctx.assume_(symnp.LOR(binop('ne', v, i), c))
        return v

    def choice(self, a, size=None, replace=True, p=None):
        if is_scalar(a):
            n = int(a)
            if n <= 0:
                raise ValueError('a must be greater than 0 unless no samples are taken')
            pop = None
        else:
            pop = a
            if self.ctx.symbolic:
                pop = symnp.SymArray.make(a) if not isinstance(a, SymArray) else a
            else:
                pop = np.asarray(a)
            if pop.ndim != 1:
                raise ValueError('a must be 1-dimensional')
            n = len(pop)
            if n == 0:
                raise ValueError("'a' cannot be empty unless no samples are taken")
        allowed = [None] * n
        if p is not None:
            if self.ctx.symbolic:
                pp = list(base(symnp.SymArray.make(p)))
            else:
                pp = list(np.asarray(p))
            if len(pp) != n:
                raise ValueError("'a' and 'p' must have same size")
            s = 0.0
            for x in pp:
                if bool(binop('lt', x, 0)):
                    raise ValueError('probabilities are not non-negative')
                s = binop('add', s, x)
            if isinstance(s, Sym):
                s1 = binop('le', symnp.sabs(binop('sub', s, 1.0)), 1e-6)
                if not bool(s1):
                    raise ValueError('probabilities do not sum to 1')
            elif not abs(s - 1) <= 1e-6:
                raise ValueError('probabilities do not sum to 1')
            allowed = [binop('gt', x, 0) for x in pp]
        self.ctx.event('choice', n=n, p=None if p is None else pp)
        used = []

        def one(pos):
            if self.dist is not None:
                ww = [1.0] * n if p is None else pp
                k = [j for j in range(n) if replace or j not in used]
                v = np.int64(k[int(self.index(len(k), None, [ww[j] for j in k]))])
                used.append(int(v))
                return v if pop is None else pop[int(v)]
            v = self.index(n, allowed, used=() if replace or self.ctx.symbolic else [int(u) for u in used])
            if not replace:
                for u in used:
                    self.ctx.assume_(binop('ne', v, u))
                used.append(v)
            if pop is None:
                return v
            return pop[int(v)]
        return self._fill(size, one)

    def permutation(self, x):
        n = int(x) if is_scalar(x) else len(x)
        idx = []
        if self.dist is not None:
            raise Unsupported('permutation')
        for i in range(n):
            if not self.ctx.symbolic:
                idx.append(self._one_of('p', [j for j in range(n) if j not in [int(u) for u in idx]]))
                continue
            v = self.ctx.int(self._name('p'))
            self.ctx.assume_(binop('ge', v, 0))
            self.ctx.assume_(binop('lt', v, n))
            for u in idx:
                self.ctx.assume_(binop('ne', v, u))
            idx.append(v)
        ii = [int(v) for v in idx]
        if is_scalar(x):
            return self.ctx.pack(ii, (n,), 'i')
        if isinstance(x, np.ndarray):
            return x[np.array(ii, dtype=int)]
        return self.ctx.pack([x[i] for i in ii], (n,))

    def shuffle(self, x):
        n = len(x)
        p = self.permutation(n)
        ii = [int(v) for v in p]
        if isinstance(x, np.ndarray):
            x[...] = x[np.array(ii, dtype=int)].copy()
        else:
            x[:] = [x[i] for i in ii]

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        if len(getattr(mean, 'shape', (0,))) != 1:
            raise ValueError('mean must be 1 dimensional')
        m = len(mean)
        if tuple(getattr(cov, 'shape', (m, m))) != (m, m):
            raise ValueError('mean and cov must have same length')
        sh = self._shape(size) or ()
        self.ctx.event('mvn', mean=mean, cov=cov)
        la = symnp.la_cholesky if self.ctx.symbolic else np.linalg.cholesky
        try:
            L = la(cov)
        except (Unsupported, np.linalg.LinAlgError):
            L = None
        vals = []
        for _ in range(int(np.prod(sh)) if sh else 1):
            z = [self.ctx.real(self._name('m')) for _ in range(m)]
            self.ctx.normals += z
            if L is None:
                vals += z
                continue
            for i in range(m):
                v = self._b(mean, (i,)) if not is_scalar(mean[i]) else mean[i]
                for j in range(i + 1):
                    v = binop('add', v, binop('mul', L[i, j], z[j]))
                vals.append(v)
        return self.ctx.pack(vals, sh + (m,), 'f')

    def seed(self, *a, **k):
        return None

    def get_state(self, *a, **k):
        return None

    def set_state(self, *a, **k):
        return None

    def default_rng(self, *a, **k):
        return self

    def RandomState(self, *a, **k):
        return self

    def __getattr__(self, n):
        raise Unsupported('np.random.' + n)


# ---- numpy proxy --------------------------------------------------------------------------------------------------------------

def _p_array(obj, dtype=None, *, copy=True, order=None, subok=False, ndmin=0, **kw):
    try:
        a = SymArray.make(obj, dtype)
    except Unsupported:
        if has_sym(obj):
            raise
        a = np.array(obj, dtype=dtype)
    if ndmin > a.ndim:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a


def _p_asarray(obj, dtype=None, order=None, **kw):
    if isinstance(obj, SymArray) and (dtype is None or np.dtype(dtype) == obj._d):
        return obj
    return _p_array(obj, dtype)


def _p_const(v):
    def f(shape, dtype=float, order='C', **kw):
        if dtype is None:
            dtype = float
        try:
            return symnp.full_sym(shape, v, dtype)
        except Unsupported:
            return np.full(shape, v, dtype=dtype)
    return f


POISON = {'f': 1357.0, 'i': 77, 'b': True}


def _p_empty(shape, dtype=float, order='C', **kw):
    """uninitialised memory: a recognisable arbitrary value"""
    k = core.kind_of_dtype(float if dtype is None else dtype)
    if k == 'O':
        return np.empty(shape, dtype=dtype)
    return symnp.full_sym(shape, POISON[k], float if dtype is None else dtype)


def _p_empty_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    a = symnp._arr(a)
    d = a._d if dtype is None else np.dtype(dtype)
    return symnp.full_sym(a.shape if shape is None else shape, POISON[core.kind_of_dtype(d)], d)


def _c_empty(shape, dtype=float, order='C', **kw):
    r = np.empty(shape, dtype=dtype)
    if r.dtype.kind in 'fiub':
        r[...] = POISON[core.kind_of_dtype(r.dtype)]
    return r


def _c_empty_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    r = np.empty_like(a, dtype=dtype, shape=shape)
    if r.dtype.kind in 'fiub':
        r[...] = POISON[core.kind_of_dtype(r.dtype)]
    return r


def _p_full(shape, fill_value, dtype=None, order='C', **kw):
    if dtype is None:
        if is_scalar(fill_value):
            dtype = symnp._DT[kind_of(fill_value)]
        else:
            dtype = SymArray.make(fill_value)._d
    return symnp.full_sym(shape, fill_value, dtype)


def _p_eye(*a, **k):
    return symnp.rewrap(np.eye(*a, **k))


def _p_arange(*a, **k):
    if not (has_sym(a) or has_sym(k)):
        return symnp.rewrap(np.arange(*symnp.concrete(tuple(a)), **k))
    dtype = k.pop('dtype', None)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    elif len(a) >= 3:
        start, stop, step = a[:3]
    start = k.get('start', start)
    stop = k.get('stop', stop)
    step = k.get('step', step)
    if isinstance(step, Sym) and step.k == 'f':
        raise Unsupported('arange with a symbolic step')
    out = []
    x = start
    for _ in range(64):
        if not bool(binop('lt' if step > 0 else 'gt', x, stop)):
            break
        out.append(x)
        x = binop('add', x, step)
    else:
        raise Unsupported('arange too long')
    return SymArray.make(out, dtype) if out else symnp.full_sym((0,), 0, dtype or symnp._DT[kind_of(start)])


def _p_linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
    if not has_sym((start, stop, num)):
        return symnp.rewrap(np.linspace(symnp.concrete(start), symnp.concrete(stop), int(num), endpoint, dtype=dtype))
    num = int(num)
    div = num - 1 if endpoint else num
    return SymArray.make([start + (stop - start) * Fraction(i, div) if False else
                          binop('add', start, binop('mul', binop('sub', stop, start), i / div)) for i in range(num)])


def _p_save(file, arr, **k):
    if hasattr(file, 'write'):
        pickle.dump(arr, file)
    else:
        with open(file, 'wb') as f:
            pickle.dump(arr, f)


def _p_load(file, *a, **k):
    if hasattr(file, 'read'):
        return pickle.load(file)
    with open(file, 'rb') as f:
        return pickle.load(f)


def _p_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def _p_ascont(a, dtype=None):
    return _p_asarray(a, dtype)


def _p_meshgrid(*xs, **k):
    r = np.meshgrid(*[base(SymArray.make(x)) for x in xs], **k)
    return [SymArray.wrap(a, SymArray.make(x)._d) for a, x in zip(r, xs)]


def _p_ndindex(*a):
    return np.ndindex(*a)


class UfuncWrap(object):
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kw):
        if any(isinstance(x, (list, tuple)) for x in args):
            args = tuple(SymArray.make(x) if isinstance(x, (list, tuple)) else x for x in args)
        if any(isinstance(x, (Sym, SymArray)) or type(x) is symtorch.SymTensor for x in args):
            return symnp.do_ufunc(self.u, '__call__', args, kw)
        if any(isinstance(x, torch.Tensor) for x in args):
            return self.u(*args, **kw)
        return symnp.rewrap(self.u(*args, **kw))

    def __getattr__(self, n):
        m = getattr(self.u, n)
        if n in ('reduce', 'accumulate', 'outer', 'at'):
            def f(*args, **kw):
                args = tuple(SymArray.make(x) if isinstance(x, (list, tuple)) and n != 'at' else x for x in args)
                if has_sym(args) or any(isinstance(x, SymArray) for x in args):
                    return symnp.do_ufunc(self.u, n, args, kw)
                return symnp.rewrap(m(*args, **kw))
            return f
        return m


class FuncWrap(object):
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', 'f')

    def __call__(self, *args, **kw):
        if _deep_sym(args) or _deep_sym(kw.values()):
            if args and isinstance(args[0], symtorch.SymTensor) and self.f.__name__ in ('reshape', 'ravel', 'squeeze'):
                return getattr(args[0], self.f.__name__)(*args[1:], **kw)      # numpy delegates to the method
            args = tuple(x.a if type(x) is symtorch.SymTensor else x for x in args)
            return symnp.do_array_function(self.f, (), args, kw)
        return symnp.rewrap(self.f(*args, **kw))


def _deep_sym(xs):
    for x in xs:
        if isinstance(x, (Sym, SymArray, symtorch.SymTensor)):
            return True
        if isinstance(x, (list, tuple)) and _deep_sym(x):
            return True
    return False


_OVER = {
    'array': _p_array, 'asarray': _p_asarray, 'asanyarray': _p_asarray, 'ascontiguousarray': _p_ascont,
    'zeros': _p_const(0), 'ones': _p_const(1), 'empty': _p_empty, 'empty_like': _p_empty_like, 'full': _p_full, 'eye': _p_eye,
    'identity': _p_eye, 'arange': _p_arange, 'linspace': _p_linspace, 'save': _p_save, 'load': _p_load,
    'isscalar': _p_isscalar, 'meshgrid': _p_meshgrid,
}


class _LinalgProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def __getattr__(self, n):
        v = getattr(np.linalg, n)
        if n in symnp.LINALG:
            f = symnp.LINALG[n]
            return f
        if callable(v) and not isinstance(v, type):
            return FuncWrap(v)
        return v


class NumpyProxy(types.ModuleType):
    """numpy as seen by the code under test in symbolic mode"""

    def __init__(self, rng):
        super().__init__('numpy')
        self.__dict__['random'] = rng
        self.__dict__['linalg'] = _LinalgProxy()

    def __getattr__(self, n):
        if n in _OVER:
            return _OVER[n]
        v = getattr(np, n)
        w = wrap_numpy(v)
        self.__dict__[n] = w
        return w


def wrap_numpy(v):
    if isinstance(v, np.ufunc):
        return UfuncWrap(v)
    if isinstance(v, type) or isinstance(v, types.ModuleType):
        return v
    if callable(v):
        return FuncWrap(v)
    return v


class ConcreteProxy(types.ModuleType):
    """numpy as seen by the code under test when a model is replayed: only the generator differs"""

    def __init__(self, rng):
        super().__init__('numpy')
        self.__dict__['random'] = rng
        self.__dict__['empty'] = _c_empty
        self.__dict__['empty_like'] = _c_empty_like

    def __getattr__(self, n):
        return getattr(np, n)


# ---- scipy stand-ins (symbolic mode only) --------------------------------------------------------------------------------------

class MvnStub(object):
    @staticmethod
    def logpdf(x, mean=None, cov=1, allow_singular=False):
        x, mean = SymArray.make(x), SymArray.make(mean)
        cov = SymArray.make(cov)
        if cov.ndim == 1:
            cov = np.diag(cov)
        d = x - mean
        n = mean.shape[0]
        q = symnp.np_dot(symnp.np_dot(d, symnp.la_inv(cov)), d.T if d.ndim > 1 else d)
        if d.ndim > 1:
            q = np.diag(q)
        return -0.5 * (n * math.log(2 * math.pi) + symnp.la_slogdet(cov)[1] + q)

    @staticmethod
    def pdf(x, mean=None, cov=1, allow_singular=False):
        return symnp._apply('exp', (MvnStub.logpdf(x, mean, cov),))


class NormStub(object):
    @staticmethod
    def logpdf(x, loc=0.0, scale=1.0):
        z = (x - loc) / scale
        return -0.5 * z * z - 0.5 * math.log(2 * math.pi) - symnp._apply('log', (scale,))

    @staticmethod
    def pdf(x, loc=0.0, scale=1.0):
        z = (x - loc) / scale
        return symnp._apply('exp', (-0.5 * z * z,)) / (scale * math.sqrt(2 * math.pi))


def logsumexp_stub(a, axis=None, b=None, keepdims=False, return_sign=False):
    e = symnp._apply('exp', (a,))
    if b is not None:
        e = e * b
    return symnp._apply('log', (symnp.np_sum(e, axis=axis, keepdims=keepdims),))


def brentq_stub(f, a, b, args=(), **kw):
    """an arbitrary root in the bracket"""
    fa, fb = f(a, *args), f(b, *args)
    if bool(binop('gt', binop('mul', fa, fb), 0.0)):
        raise ValueError('f(a) and f(b) must have different signs')
    eng = core.engine()
    x = Sym(eng.fresh('root'), 'f')
    eng.assume(binop('ge', x, a))
    eng.assume(binop('le', x, b))
    eng.assume(binop('eq', f(x, *args), 0.0))
    return x


class _MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        v = getattr(math, n)
        if not callable(v):
            return v

        def f(*a):
            if any(isinstance(x, (Sym, SymArray)) for x in a):
                nm = {'pow': 'power', 'fabs': 'absolute', 'atan': 'arctan', 'atan2': 'arctan2', 'acos': 'arccos',
                      'asin': 'arcsin'}.get(n, n)
                r = symnp._apply(nm, [x.item() if isinstance(x, SymArray) else x for x in a])
                if n in ('floor', 'ceil', 'trunc'):
                    r = coerce(r, 'i')
                return r
            return v(*a)
        return f


_MATH = _MathProxy()


def _scipy_map(extra):
    import scipy.stats
    import scipy.special
    import scipy.optimize
    m = {id(scipy.optimize.brentq): brentq_stub, id(scipy.stats.norm): NormStub, id(scipy.stats.multivariate_normal): MvnStub, id(scipy.special.logsumexp): logsumexp_stub}
    for k, v in (extra or {}).items():
        m[k] = v
    return m


_NP_IDS = None


def _np_functions():
    global _NP_IDS
    if _NP_IDS is None:
        _NP_IDS = {}
        for n in dir(np):
            v = getattr(np, n, None)
            if isinstance(v, np.ufunc) or (callable(v) and not isinstance(v, type)):
                _NP_IDS[id(v)] = (n, v)
    return _NP_IDS


class Binding(object):
    """context manager: bind the package's globals for one run"""

    def __init__(self, ctx, extra=None):
        self.ctx = ctx
        self.extra = extra or {}
        self.saved = []

    def __enter__(self):
        ctx = self.ctx
        rng = ctx.rng
        sym = ctx.symbolic
        proxy = NumpyProxy(rng) if sym else ConcreteProxy(rng)
        sc = _scipy_map(self.extra) if sym else {}
        npf = _np_functions()
        for name, mod in list(sys.modules.items()):
            if mod is None or name.split('.')[0] not in PKGS:
                continue
            d = mod.__dict__
            for k, v in list(d.items()):
                nv = None
                if v is np:
                    nv = proxy
                elif v is np.random:
                    nv = rng
                elif v is np.linalg and sym:
                    nv = proxy.linalg
                elif v is math and sym:
                    nv = _MATH
                elif sym and id(v) in sc and not isinstance(v, (int, str)):
                    nv = sc[id(v)]
                elif sym and callable(v) and getattr(v, '__module__', None) == 'math':
                    nv = getattr(_MATH, v.__name__)
                elif id(v) in npf and v is npf[id(v)][1] and sym:
                    n = npf[id(v)][0]
                    nv = _OVER.get(n) or wrap_numpy(v)
                elif getattr(v, '__self__', None) is np.random.mtrand._rand and callable(v):
                    nv = getattr(rng, v.__name__)
                if nv is not None:
                    self.saved.append((d, k, v))
                    d[k] = nv
        self._tsave = {}
        if sym:
            self.mode = symtorch.Mode()
            self.mode.__enter__()
            self._fn = fn = torch.from_numpy
            torch.from_numpy = lambda a: symtorch.f_from_numpy(a) if isinstance(a, SymArray) else fn(a)
            for n, f in scalar_functions().items():
                self._tsave[n] = f
                setattr(torch, n, accept_scalars(f))
        else:
            self.mode = ConcreteTorchMode(rng)
            self.mode.__enter__()
            bw = torch.Tensor.backward
            self._bw = bw

            busy = []

            def backward(t, *a, **k):
                if not busy:
                    ctx.backward(t.clone())
                if t.requires_grad:
                    busy.append(1)
                    try:
                        return bw(t, *a, **k)
                    finally:
                        busy.pop()
            torch.Tensor.backward = backward
        return self

    def __exit__(self, *exc):
        self.mode.__exit__(None, None, None)
        if not self.ctx.symbolic:
            torch.Tensor.backward = self._bw
        else:
            torch.from_numpy = self._fn
            for n, f in self._tsave.items():
                setattr(torch, n, f)
        for d, k, v in self.saved:
            d[k] = v
        self.saved = []
        return False


_SF = {}


def scalar_functions():
    """the built-in functions of torch that the engine models: their C argument parser rejects symbolic scalars"""
    if not _SF:
        for n, f in symtorch.F.items():
            g = getattr(torch, n, None)
            if f is not None and not n.startswith('_') and type(g).__name__ == 'builtin_function_or_method':
                _SF[n] = g
    return _SF


def accept_scalars(f):
    def g(*args, **kwargs):
        for x in args:
            if isinstance(x, Sym):
                return symtorch.dispatch(f, args, kwargs)
        for x in kwargs.values():
            if isinstance(x, Sym):
                return symtorch.dispatch(f, args, kwargs)
        return f(*args, **kwargs)
    g.__name__ = getattr(f, '__name__', 'f')
    return g


class ConcreteTorchMode(torch.overrides.TorchFunctionMode):
    """replay: torch's random functions are fed from the model"""
    NAMES = ('rand', 'randn', 'randint', 'randperm', 'normal', 'multinomial', 'bernoulli', 'rand_like', 'randn_like', 'empty', 'empty_like',
             'normal_', 'uniform_')

    def __init__(self, rng):
        super().__init__()
        self.rng = rng

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, '__name__', '')
        if name not in self.NAMES:
            return func(*args, **kwargs)
        if name in ('empty', 'empty_like'):
            t = func(*args, **kwargs)
            with torch.no_grad():
                t.fill_(POISON[core.kind_of_dtype(t.dtype)])
            return t
        dt = kwargs.get('dtype') or torch.get_default_dtype()
        r = self.rng
        if name in ('normal_', 'uniform_'):
            t = args[0]
            if isinstance(t, torch.nn.Parameter):
                return func(*args, **kwargs)
            lo = args[1] if len(args) > 1 else kwargs.get('mean', kwargs.get('from', 0.0))
            hi = args[2] if len(args) > 2 else kwargs.get('std', kwargs.get('to', 1.0))
            v = (r.normal if name == 'normal_' else r.uniform)(lo, hi, tuple(t.shape))
            with torch.no_grad():
                t.copy_(torch.as_tensor(np.array(v, dtype=float)))
            return t

        def T(x, d=dt):
            return torch.as_tensor(np.array(x, dtype=float)).to(d)
        if name in ('rand', 'randn'):
            sh = symtorch._rs(args, kwargs)
            return T(r.uniform(0.0, 1.0, sh) if name == 'rand' else r.normal(0.0, 1.0, sh))
        if name == 'randint':
            a = list(args)
            size = kwargs.get('size')
            if size is None and a and isinstance(a[-1], (tuple, list, torch.Size)):
                size = a.pop()
            low, high = (a[0], a[1]) if len(a) == 2 else (kwargs.get('low', 0), a[0] if a else kwargs['high'])
            return T(r.randint(low, high, tuple(size)), torch.int64)
        if name == 'randperm':
            return T(r.permutation(int(args[0])), torch.int64)
        if name in ('rand_like', 'randn_like'):
            sh = tuple(args[0].shape)
            return T(r.uniform(0.0, 1.0, sh) if name == 'rand_like' else r.normal(0.0, 1.0, sh), args[0].dtype)
        if name == 'normal':
            mean = args[0] if args else kwargs.get('mean', 0.0)
            std = args[1] if len(args) > 1 else kwargs.get('std', 1.0)
            if isinstance(mean, torch.Tensor) or isinstance(std, torch.Tensor):
                shp = np.broadcast_shapes(tuple(mean.shape) if isinstance(mean, torch.Tensor) else (),
                                          tuple(std.shape) if isinstance(std, torch.Tensor) else ())
                return mean + std * T(r.normal(0.0, 1.0, shp))
            size = args[2] if len(args) > 2 else kwargs['size']
            return T(r.normal(mean, std, symtorch._shape_args((size,))))
        if name == 'multinomial':
            p = args[0].detach().numpy()
            n = args[1] if len(args) > 1 else kwargs['num_samples']
            rows = p if p.ndim == 2 else p[None]
            out = [[int(r.index(len(q), [None if x > 0 else False for x in q], q)) for _ in range(n)] for q in rows]
            t = torch.tensor(out, dtype=torch.int64)
            return t if p.ndim == 2 else t[0]
        if name == 'bernoulli':
            return T(r.integers01(tuple(args[0].shape)), args[0].dtype)
        return func(*args, **kwargs)
