"""
numpy arrays of symbolic scalars.

`SymArray` is an ndarray subclass (object storage) whose elements are numpy scalars or `Sym`; it answers the numpy
protocols, so the code under test keeps calling numpy and gets terms back.  Structural operations (reshape, concatenate,
indexing, ...) are delegated to numpy itself; arithmetic, comparisons and reductions build terms.
"""
import builtins
import itertools
import math
import collections
import numpy as np
import z3
from .core import (Sym, Unsupported, binop, coerce, kind_of, kind_of_dtype, engine, smax, smin, sabs, ssign, sfloor,
                   sceil, ssqrt, sexp, slog, sfun, spow, ite, truth, mkbool, as_bool, as_real, is_special, _NUM)
from . import core

_DT = {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool), 'O': np.dtype(object)}
_RANK = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


def _is_torch(x):
    return type(x).__module__.startswith('torch') or type(x).__name__ == 'SymTensor'


def is_scalar(x):
    return isinstance(x, Sym) or isinstance(x, _NUM)


class SymArray(np.ndarray):
    __array_priority__ = 1e5

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._d = getattr(obj, '_d', _DT['f'])

    # ---- construction ---------------------------------------------------------------------------------------
    @staticmethod
    def wrap(base, d):
        """object ndarray -> SymArray"""
        r = np.ndarray.view(base, SymArray)
        r._d = _DT[d] if isinstance(d, str) and d in _DT else d
        return r

    @staticmethod
    def make(x, dtype=None):
        d = None
        if dtype is not None:
            k = kind_of_dtype(dtype)
            if k == 'O':
                raise Unsupported('object array')
            d = _np_dtype(dtype)
        if isinstance(x, SymArray):
            r = SymArray.wrap(base(x).copy(), x._d)
            return r if d is None or d == x._d else r.astype(d)
        leaves, shape, kd = _flatten(x)
        if d is None:
            d = kd
        k = kind_of_dtype(d)
        out = np.empty(len(leaves), dtype=object)
        for i, v in enumerate(leaves):
            out[i] = coerce(v, k)
        return SymArray.wrap(out.reshape(shape), d)

    @property
    def dtype(self):
        return self._d

    @property
    def _k(self):
        return kind_of_dtype(self._d)

    @property
    def itemsize(self):
        return self._d.itemsize

    @property
    def nbytes(self):
        return self._d.itemsize * self.size

    # ---- protocol -------------------------------------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return do_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return do_array_function(func, types, args, kwargs)

    def __reduce__(self):
        return _unpickle, ([v for v in base(self).flat], self.shape, self._d.str)

    def __reduce_ex__(self, p):
        return self.__reduce__()

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order='C'):
        return SymArray.wrap(base(self).copy(), self._d)

    def astype(self, dtype, *a, **kw):
        d = _np_dtype(dtype)
        k = kind_of_dtype(d)
        if k == 'O':
            raise Unsupported('astype object')
        out = np.empty(self.shape, dtype=object)
        o = out.ravel() if out.ndim else out.reshape(1)
        for i, v in enumerate(base(self).flat):
            o[i] = coerce(v, k)
        return SymArray.wrap(o.reshape(self.shape), d)

    def view(self, *a, **k):
        if not a and not k:
            return SymArray.wrap(base(self), self._d)
        if a and a[0] in (np.ndarray, SymArray):
            return SymArray.wrap(base(self), self._d)
        raise Unsupported('view')

    # ---- conversions -------------------------------------------------------------------------------------------------
    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(self.item())

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(self.item())

    def __index__(self):
        if self.ndim != 0 or self._k == 'f':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return self.item().__index__()

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return 'SymArray(%s,%s)' % (self.shape, self._d)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def item(self, *a):
        v = np.ndarray.item(base(self), *a)
        return _py(v)

    def tolist(self):
        def rec(b):
            if b.ndim == 0:
                return _py(b[()])
            return [rec(_sub(b, i)) for i in range(b.shape[0])]
        return rec(base(self))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool(np.any(self == v))

    # ---- indexing ----------------------------------------------------------------------------------------------------
    def __getitem__(self, idx):
        idx = _norm_index(self, idx)
        r = np.ndarray.__getitem__(base(self), idx)
        if isinstance(r, np.ndarray):
            return SymArray.wrap(r, self._d)
        return r

    def __setitem__(self, idx, value):
        b = base(self)
        k = self._k
        m = _symbolic_mask(idx)
        if m is not None:
            _masked_set(self, idx, m, value)
            return
        idx = _norm_index(self, idx)
        if is_scalar(value):
            v = coerce(value, k)
        elif value is None:
            v = coerce(value, k)
        else:
            if isinstance(value, np.ndarray) and value.ndim == 0:
                v = coerce(value[()], k)
            else:
                a = SymArray.make(value)
                if a.ndim == 0:
                    v = coerce(base(a)[()], k)
                else:
                    v = base(a.astype(self._d))
        if not isinstance(v, np.ndarray):
            w = np.empty((), dtype=object)
            w[()] = v
            v = w
            if not isinstance(b[idx], np.ndarray):
                b[idx] = v[()]
                return
        elif not isinstance(b[idx], np.ndarray):
            if v.size == 1 and v.ndim == 0:
                b[idx] = v.ravel()[0]
                return
            if v.size == 1:
                b[idx] = v.ravel()[0]      # deprecated in numpy but accepted (1.25: warning)
                return
            raise ValueError('setting an array element with a sequence.')
        b[idx] = v

    # ---- methods ------------------------------------------------------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return np_std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return np_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return np_max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return np_min(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np_all(self, axis=axis, keepdims=keepdims)

    def argmax(self, axis=None, out=None, **kw):
        return np_argmax(self, axis=axis)

    def argmin(self, axis=None, out=None, **kw):
        return np_argmin(self, axis=axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np_cumsum(self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return np_cumsum(self, axis, op='mul')

    def dot(self, o, out=None):
        return np_dot(self, o)

    def clip(self, min=None, max=None, out=None, **kw):
        return np_clip(self, min, max, out=out)

    def nonzero(self):
        return np_nonzero(self)

    def round(self, decimals=0, out=None):
        return _maybe_concrete(np.round, (self, decimals), {})

    def sort(self, axis=-1, **kw):
        self[...] = np_sort(self, axis)

    def argsort(self, axis=-1, **kw):
        return np_argsort(self, axis)

    def fill(self, v):
        self[...] = v

    def take(self, idx, axis=None, **kw):
        return np_take(self, idx, axis)

    def trace(self, *a, **k):
        return np_trace(self)

    def repeat(self, n, axis=None):
        return _structural(np.repeat, (self, n), {'axis': axis})

    def searchsorted(self, v, side='left', sorter=None):
        return np_searchsorted(self, v, side)

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    def __pow__(self, o):
        return array_binop('pow', self, o)

    def __rpow__(self, o):
        return array_binop('pow', o, self)

    # torch-ish conveniences never used on numpy arrays are deliberately absent


def _py(v):
    """numpy scalar -> python scalar, as ndarray.item does"""
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


def _sub(b, i):
    r = b[i]
    if isinstance(r, np.ndarray):
        return r
    w = np.empty((), dtype=object)
    w[()] = r
    return w


def _unpickle(vals, shape, d):
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        out[i] = v
    return SymArray.wrap(out.reshape(shape), np.dtype(d))


def base(a):
    """the plain object ndarray behind a SymArray (shares memory)"""
    return np.ndarray.view(a, np.ndarray)


def _np_dtype(dt):
    try:
        import torch
        if isinstance(dt, torch.dtype):
            return _DT[kind_of_dtype(dt)]
    except ImportError:
        pass
    if isinstance(dt, str) and dt in ('f', 'i', 'b'):
        return _DT[dt]
    return np.dtype(dt)


def _flatten(x):
    """leaves, shape, dtype of an array-like"""
    if is_scalar(x):
        if isinstance(x, (np.generic,)):
            return [x], (), x.dtype
        return [x], (), _DT[kind_of(x)]
    if isinstance(x, SymArray):
        return list(base(x).flat), x.shape, x._d
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            lv = list(x.flat)
            k = 'b'
            if not lv:
                k = 'f'
            for v in lv:
                if not is_scalar(v):
                    raise Unsupported('object array of %s' % type(v).__name__)
                if _RANK[kind_of(v)] > _RANK[k]:
                    k = kind_of(v)
            return lv, x.shape, _DT[k]
        return [v for v in x.flat], x.shape, x.dtype
    if _is_torch(x) and hasattr(x, 'shape'):
        from .symtorch import SymTensor, to_symarray
        return _flatten(to_symarray(x))
    if isinstance(x, (range, collections.deque)):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return [], (0,), _DT['f']
        leaves = []
        shape = None
        d = None
        for e in x:
            lv, s, kd = _flatten(e)
            if shape is None:
                shape = s
                d = kd
            else:
                if s != shape:
                    raise ValueError('setting an array element with a sequence. The requested array has an '
                                     'inhomogeneous shape after 1 dimensions.')
                if kd != d:
                    d = _result_dtype([d, kd])
            leaves += lv
        return leaves, (len(x),) + shape, d
    if x is None:
        raise Unsupported('object array (None)')
    if hasattr(x, '__array__'):
        return _flatten(np.asarray(x))
    raise Unsupported('array of %s' % type(x).__name__)


def _result_dtype(ds):
    return np.result_type(*ds)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return any(isinstance(v, Sym) for v in base(x).flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    if type(x).__name__ == 'SymTensor':
        return has_sym(x.a)
    return False


def concrete(x):
    """plain ndarray of an all-concrete SymArray (recursively through containers)"""
    if isinstance(x, SymArray):
        if has_sym(x):
            raise Unsupported('symbolic value reaches a concrete-only operation')
        return np.array([v for v in base(x).flat], dtype=x._d).reshape(x.shape)
    if isinstance(x, Sym):
        raise Unsupported('symbolic value reaches a concrete-only operation')
    if type(x).__name__ == 'SymTensor':
        from .symtorch import concrete_tensor
        return concrete_tensor(x)
    if isinstance(x, list):
        return [concrete(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(concrete(v) for v in x)
    if isinstance(x, dict):
        return {k: concrete(v) for k, v in x.items()}
    return x


def rewrap(r):
    """result of a concrete call -> SymArray world"""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fiub':
            return SymArray.make(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(rewrap(v) for v in r)
    if isinstance(r, list):
        return [rewrap(v) for v in r]
    return r


def _maybe_concrete(func, args, kwargs):
    if not (has_sym(args) or has_sym(kwargs)):
        return rewrap(func(*concrete(tuple(args)), **concrete(dict(kwargs))))
    raise Unsupported('numpy function %s on symbolic values' % getattr(func, '__name__', func))


def _norm_index(a, idx):
    """make every index component concrete (forking on symbolic integers/masks)"""
    def one(i):
        if isinstance(i, Sym):
            if i.k == 'b':
                return bool(i)
            return i.__index__()
        if isinstance(i, np.ndarray) and not isinstance(i, SymArray) and i.dtype == object:
            i = SymArray.make(i)
        if isinstance(i, SymArray):
            if i._k == 'b':
                r = np.array([bool(v) for v in base(i).flat], dtype=bool).reshape(i.shape)
                return r if r.ndim else r[()]
            if i._k == 'i':
                r = np.array([v.__index__() for v in base(i).flat], dtype=int).reshape(i.shape)
                return r if r.ndim else int(r)
            if i.size == 0:
                return np.zeros(i.shape, dtype=int) if False else _bad_index()
            _bad_index()
        if isinstance(i, list):
            return one(SymArray.make(i)) if len(i) else np.zeros(0, dtype=int)
        if isinstance(i, slice):
            def s(v):
                return v.__index__() if isinstance(v, (Sym, SymArray)) else v
            return slice(s(i.start), s(i.stop), s(i.step))
        if _is_torch(i) and hasattr(i, 'shape'):
            from .symtorch import to_symarray
            return one(to_symarray(i))
        if isinstance(i, (float, np.floating)):
            _bad_index()
        return i
    if isinstance(idx, tuple):
        return tuple(one(i) for i in idx)
    return one(idx)


def _bad_index():
    raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean '
                     'arrays are valid indices')


def _symbolic_mask(idx):
    i = idx
    if isinstance(i, SymArray) and i._k == 'b' and has_sym(i):
        return i
    return None


def _masked_set(a, idx, m, value):
    b = base(a)
    k = a._k
    if m.shape != a.shape[:m.ndim]:
        raise IndexError('boolean index did not match indexed array')
    if is_scalar(value) or (isinstance(value, np.ndarray) and value.size == 1):
        v = value if is_scalar(value) else np.ndarray.item(base(value) if isinstance(value, SymArray) else value)
        v = coerce(v, k)
        for pos in np.ndindex(*m.shape):
            c = base(m)[pos]
            if m.ndim == a.ndim:
                b[pos] = ite(c, v, b[pos])
            else:
                sub = b[pos]
                for p2 in np.ndindex(*sub.shape):
                    sub[p2] = ite(c, v, sub[p2])
        return
    # general case: decide the mask by forking
    mm = np.array([bool(v) for v in base(m).flat], dtype=bool).reshape(m.shape)
    v = SymArray.make(value).astype(a._d)
    b[mm] = base(v)


# ---- elementwise ---------------------------------------------------------------------------------------------------

def _wrap0(x):
    w = np.empty((), dtype=object)
    w[()] = x
    return w


def _asobj(x):
    """(object ndarray, dtype, is_array)"""
    if is_scalar(x):
        if isinstance(x, np.generic):
            return _wrap0(x), x.dtype, False
        return _wrap0(x), kind_of(x), False
    a = x if isinstance(x, SymArray) else SymArray.make(x)
    return base(a), a._d, True


def _promote_d(parts):
    """result dtype of an arithmetic op; parts: list of (dtype or kind char, is_array)"""
    arr = [d if not isinstance(d, str) else _DT[d] for d, isa in parts if isa]
    sc = [d for d, isa in parts if not isa]
    if not arr:
        return np.result_type(*[d if not isinstance(d, str) else _DT[d] for d in sc])
    r = np.result_type(*arr)
    for d in sc:
        k = d if isinstance(d, str) else kind_of_dtype(d)
        if _RANK[k] > _RANK[kind_of_dtype(r)]:
            r = _DT[k]
    return r


def elementwise(f, *xs, d=None, dfun=None):
    parts = [_asobj(x) for x in xs]
    bs = np.broadcast_arrays(*[p[0] for p in parts]) if len(parts) > 1 else [parts[0][0]]
    shape = bs[0].shape
    if d is None:
        d = dfun([(p[1], p[2]) for p in parts])
    k = kind_of_dtype(d)
    out = np.empty(shape, dtype=object)
    if shape == ():
        r = coerce(f(*[q[()] for q in bs]), k)
        if any(p[2] for p in parts):
            return r            # numpy ufuncs return scalars for 0-d inputs
        return r
    flat = [list(q.flat) for q in bs]
    o = out.reshape(-1)
    for i, vs in enumerate(zip(*flat)):
        o[i] = coerce(f(*vs), k)
    return SymArray.wrap(o.reshape(shape), d)


_BIN = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'true_divide': 'div',
        'floor_divide': 'floordiv', 'remainder': 'mod', 'mod': 'mod', 'power': 'pow', 'float_power': 'pow',
        'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq', 'not_equal': 'ne'}
_CMPN = ('lt', 'le', 'gt', 'ge', 'eq', 'ne')


def array_binop(op, a, b):
    if op in _CMPN:
        if op in ('eq', 'ne'):
            try:
                return elementwise(lambda x, y: binop(op, x, y), a, b, d=np.dtype(bool))
            except ValueError:
                raise
        return elementwise(lambda x, y: binop(op, x, y), a, b, d=np.dtype(bool))
    if op in ('and', 'or', 'xor'):
        return elementwise(lambda x, y: binop(op, x, y), a, b, dfun=_promote_d)

    def df(parts):
        d = _promote_d(parts)
        k = kind_of_dtype(d)
        if op == 'div' and k != 'f':
            return _DT['f']
        if op == 'sub' and k == 'b':
            raise TypeError('numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, the `^` '
                            'operator, or the logical_xor function instead.')
        if op in ('floordiv', 'mod', 'pow') and k == 'b':
            return np.dtype(np.int8)
        return d
    return elementwise(lambda x, y: binop(op, x, y), a, b, dfun=df)


def _float_d(parts):
    d = _promote_d(parts)
    return d if kind_of_dtype(d) == 'f' else _DT['f']


def _logical(fn):
    return lambda *xs: fn(*[as_bool(x) for x in xs])


def _lb(fn):
    def f(*xs):
        if not any(isinstance(x, Sym) for x in xs):
            return np.bool_(fn(*[bool(x) for x in xs]))
        z = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'not': z3.Not}[fn.__name__]
        return mkbool(z3.simplify(z(*[as_bool(x) for x in xs])))
    return f


def _and(a, b): return a and b
def _or(a, b): return a or b
def _xor(a, b): return a != b
def _not(a): return not a


for _f, _n in ((_and, 'and'), (_or, 'or'), (_xor, 'xor'), (_not, 'not')):
    _f.__name__ = _n
LAND, LOR, LXOR, LNOT = _lb(_and), _lb(_or), _lb(_xor), _lb(_not)


def _isfinite(x):
    return np.True_ if isinstance(x, Sym) else np.bool_(np.isfinite(x))


def _sq(x):
    return binop('mul', x, x)


def _neg(x):
    return binop('sub', 0 if kind_of(x) != 'f' else 0.0, x) if isinstance(x, Sym) else -x


def _copysign(a, b):
    m = sabs(a)
    return ite(binop('ge', b, 0), m, _neg(m)) if isinstance(b, Sym) else (m if np.copysign(1., b) > 0 else _neg(m))


def _log1p(x):
    return slog(binop('add', 1.0, x))


def _log2(x):
    return binop('div', slog(x), np.log(2.0)) if isinstance(x, Sym) else np.log2(x)


def _log10(x):
    return binop('div', slog(x), np.log(10.0)) if isinstance(x, Sym) else np.log10(x)


def _pw(x, y):
    return binop('pow', x, y)


def _arctan2(y, x):
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return np.arctan2(y, x)
    return engine().uf2('arctan2', as_real(y), as_real(x))


def _fmod(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.fmod(a, b)
    # sign follows the dividend
    m = binop('mod', sabs(a), sabs(b) if isinstance(b, Sym) else abs(b))
    return ite(binop('ge', a, 0), m, _neg(m))


def _invert(x):
    if kind_of(x) == 'b':
        return LNOT(x)
    return ~x


_UN = {
    'negative': (_neg, None), 'positive': (lambda x: x, None), 'absolute': (sabs, None), 'fabs': (sabs, 'f'),
    'square': (_sq, None), 'sign': (ssign, None), 'invert': (_invert, None),
    'exp': (sexp, 'f'), 'log': (slog, 'f'), 'sqrt': (ssqrt, 'f'), 'log1p': (_log1p, 'f'), 'log2': (_log2, 'f'),
    'log10': (_log10, 'f'), 'expm1': (lambda x: binop('sub', sexp(x), 1.0), 'f'),
    'floor': (sfloor, 'f'), 'ceil': (sceil, 'f'),
    'trunc': (lambda x: ite(binop('ge', x, 0), sfloor(x), sceil(x)), 'f'),
    'sin': (lambda x: sfun('sin', x), 'f'), 'cos': (lambda x: sfun('cos', x), 'f'),
    'tan': (lambda x: sfun('tan', x), 'f'), 'tanh': (lambda x: sfun('tanh', x), 'f'),
    'arctan': (lambda x: sfun('arctan', x), 'f'), 'arccos': (lambda x: sfun('arccos', x), 'f'),
    'arcsin': (lambda x: sfun('arcsin', x), 'f'), 'arctanh': (lambda x: sfun('arctanh', x), 'f'),
    'sinh': (lambda x: sfun('sinh', x), 'f'), 'cosh': (lambda x: sfun('cosh', x), 'f'),
    'reciprocal': (lambda x: binop('div', 1.0, x), 'f'),
    'deg2rad': (lambda x: binop('mul', x, np.pi / 180), 'f'), 'radians': (lambda x: binop('mul', x, np.pi / 180), 'f'),
    'rad2deg': (lambda x: binop('mul', x, 180 / np.pi), 'f'), 'degrees': (lambda x: binop('mul', x, 180 / np.pi), 'f'),
    'conjugate': (lambda x: x, None), 'rint': (None, 'f'),
    'isfinite': (_isfinite, 'b'), 'isnan': (lambda x: np.False_ if isinstance(x, Sym) else np.isnan(x), 'b'),
    'isinf': (lambda x: np.False_ if isinstance(x, Sym) else np.isinf(x), 'b'),
    'logical_not': (LNOT, 'b'),
}
_BIN2 = {'maximum': (smax, None), 'minimum': (smin, None), 'fmax': (smax, None), 'fmin': (smin, None),
         'logical_and': (LAND, 'b'), 'logical_or': (LOR, 'b'), 'logical_xor': (LXOR, 'b'),
         'copysign': (_copysign, 'f'), 'arctan2': (_arctan2, 'f'), 'fmod': (_fmod, None),
         'hypot': (lambda a, b: ssqrt(binop('add', _sq(a), _sq(b))), 'f'),
         'logaddexp': (lambda a, b: slog(binop('add', sexp(a), sexp(b))), 'f'),
         'heaviside': (lambda a, b: ite(binop('lt', a, 0), 0.0, ite(binop('gt', a, 0), 1.0, b)), 'f')}


def _apply(name, inputs):
    if name in _BIN:
        op = _BIN[name]
        return array_binop(op, inputs[0], inputs[1])
    if name in ('bitwise_and', 'bitwise_or', 'bitwise_xor'):
        return array_binop(name[8:], inputs[0], inputs[1])
    if name in _UN:
        f, k = _UN[name]
        if f is None:
            raise Unsupported(name)
        df = {'f': _float_d, 'b': lambda p: np.dtype(bool)}.get(k, _promote_d)
        if name == 'negative':
            def df(p):
                d = _promote_d(p)
                if kind_of_dtype(d) == 'b':
                    raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
                return d
        return elementwise(f, inputs[0], dfun=df)
    if name in _BIN2:
        f, k = _BIN2[name]
        df = {'f': _float_d, 'b': lambda p: np.dtype(bool)}.get(k, _promote_d)
        return elementwise(f, inputs[0], inputs[1], dfun=df)
    if name == 'matmul':
        return np_matmul(inputs[0], inputs[1])
    if name == 'divmod':
        return array_binop('floordiv', *inputs), array_binop('mod', *inputs)
    raise Unsupported('ufunc ' + name)


def do_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    if any(_is_torch(i) for i in inputs):
        from .symtorch import mixed_ufunc
        return mixed_ufunc(name, inputs, kwargs)
    if method == '__call__':
        out = kwargs.pop('out', None)
        where = kwargs.pop('where', True)
        kwargs.pop('casting', None)
        dt = kwargs.pop('dtype', None)
        if kwargs:
            raise Unsupported('ufunc kwargs %s' % list(kwargs))
        try:
            r = _apply(name, inputs)
        except Unsupported:
            if has_sym(inputs):
                raise
            r = rewrap(ufunc(*concrete(tuple(inputs))))
        if dt is not None:
            r = r.astype(dt) if hasattr(r, 'astype') else coerce(r, kind_of_dtype(dt))
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            return _store(o, r, where)
        if where is not True:
            raise Unsupported('ufunc where without out')
        return r
    if method == 'reduce':
        axis = kwargs.get('axis', 0)
        keep = kwargs.get('keepdims', False)
        a = inputs[0]
        tab = {'add': np_sum, 'multiply': np_prod, 'maximum': np_max, 'minimum': np_min, 'logical_and': np_all,
               'logical_or': np_any}
        if name in tab:
            return tab[name](a, axis=axis, keepdims=keep)
        raise Unsupported('reduce ' + name)
    if method == 'accumulate':
        if name in ('add', 'multiply'):
            return np_cumsum(inputs[0], kwargs.get('axis', 0), op='add' if name == 'add' else 'mul')
        raise Unsupported('accumulate ' + name)
    if method == 'outer':
        a, b = SymArray.make(inputs[0]), SymArray.make(inputs[1])
        return _apply(name, (a.reshape(a.shape + (1,) * b.ndim), b))
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        idx = _norm_index(a, idx)
        tmp = np.arange(a.size).reshape(a.shape)[idx]
        vals = SymArray.make(inputs[2]) if len(inputs) > 2 else None
        fl = base(a).reshape(-1)
        if not np.shares_memory(fl, base(a)):
            raise Unsupported('ufunc.at on a non-contiguous array')
        vv = np.broadcast_to(base(vals), np.shape(tmp)) if vals is not None else None
        for j, p in enumerate(np.ravel(tmp)):
            if vv is not None:
                fl[p] = coerce(_apply(name, (fl[p], vv.reshape(-1)[j] if np.ndim(vv) else vv[()])), a._k)
            else:
                fl[p] = coerce(_apply(name, (fl[p],)), a._k)
        return None
    raise Unsupported('ufunc method ' + method)


def _store(o, r, where=True):
    """write a ufunc result into out with numpy's same_kind casting rule"""
    if isinstance(o, np.ndarray) and not isinstance(o, SymArray):
        if has_sym(r):
            raise Unsupported('symbolic result stored into a concrete array')
        np.copyto(o, concrete(r) if not is_scalar(r) else r, casting='same_kind')
        return o
    rk = kind_of(r) if is_scalar(r) else r._k
    if _RANK[rk] > _RANK[o._k]:
        raise TypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s') with casting rule 'same_kind'"
                        % (_DT[rk], o._d))
    rs = () if is_scalar(r) else r.shape
    if np.broadcast_shapes(rs, o.shape) != o.shape:
        raise ValueError('non-broadcastable output operand with shape %s doesn\'t match the broadcast shape %s'
                         % (o.shape, np.broadcast_shapes(rs, o.shape)))
    if where is True:
        if o.ndim == 0:
            base(o)[()] = coerce(r if is_scalar(r) else base(r)[()], o._k)
        else:
            o[...] = r
        return o
    m = np.broadcast_to(base(SymArray.make(where, bool)), o.shape)
    rr = np.broadcast_to(base(SymArray.make(r)), o.shape)
    for pos in np.ndindex(*o.shape):
        base(o)[pos] = coerce(ite(m[pos], rr[pos], base(o)[pos]), o._k)
    return o


# ---- reductions --------------------------------------------------------------------------------------------------------

def _arr(a, dtype=None):
    return a if isinstance(a, SymArray) and dtype is None else SymArray.make(a, dtype)


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        ax = tuple(int(x) for x in axis)
    else:
        ax = (int(axis),)
    for x in ax:
        if not -ndim <= x < ndim and not (ndim == 0 and x in (0, -1)):
            raise np.AxisError('axis %d is out of bounds for array of dimension %d' % (x, ndim))
    return tuple(x % ndim for x in ax) if ndim else ()


def _reduce(a, axis, keepdims, f, d):
    a = _arr(a)
    b = base(a)
    ax = _axes(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in ax]
    k = kind_of_dtype(d)
    t = b.transpose(keep + list(ax))
    oshape = tuple(b.shape[i] for i in keep)
    n = int(np.prod([b.shape[i] for i in ax])) if ax else 1
    t = t.reshape(oshape + (n,))
    if not keep:
        r = coerce(f(list(t.flat)), k)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return SymArray.wrap(o, d)
        return r
    out = np.empty(oshape, dtype=object)
    for pos in np.ndindex(*oshape):
        out[pos] = coerce(f(list(t[pos].flat)), k)
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else b.shape[i] for i in range(a.ndim)))
    return SymArray.wrap(out, d)


def _fsum(v):
    r = None
    for x in v:
        r = x if r is None else binop('add', r, x)
    return 0 if r is None else r


def _fprod(v):
    r = 1
    for x in v:
        r = binop('mul', r, x)
    return r


def _nz(v, what):
    if not v:
        raise ValueError('zero-size array to reduction operation %s which has no identity' % what)


def _fmax(v):
    _nz(v, 'maximum')
    r = v[0]
    for x in v[1:]:
        r = smax(r, x)
    return r


def _fmin(v):
    _nz(v, 'minimum')
    r = v[0]
    for x in v[1:]:
        r = smin(r, x)
    return r


def _bint(v):
    return [coerce(x, 'i') if kind_of(x) == 'b' else x for x in v]


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **kw):
    a = _arr(a)
    d = a._d if a._k != 'b' else _DT['i']
    r = _reduce(a, axis, keepdims, lambda v: _fsum(_bint(v)), d)
    if initial is not None:
        r = r + initial
    return _out(r, out)


def _out(r, out):
    if out is None:
        return r
    return _store(out[0] if isinstance(out, tuple) else out, r)


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = _arr(a)
    d = a._d if a._k != 'b' else _DT['i']
    return _reduce(a, axis, keepdims, lambda v: _fprod(_bint(v)), d)


def _fmean(v):
    if not v:
        return np.float64('nan')
    return binop('div', _fsum(_bint(v)), len(v))


def _fdt(a):
    return a._d if a._k == 'f' else _DT['f']


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = _arr(a)
    return _reduce(a, axis, keepdims, _fmean, _fdt(a))


def np_average(a, axis=None, weights=None, returned=False, keepdims=False, **kw):
    if weights is None:
        return np_mean(a, axis)
    a, w = _arr(a), _arr(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise Unsupported('average weights')
        sh = [1] * a.ndim
        sh[axis] = -1
        w = SymArray.wrap(np.broadcast_to(base(w).reshape(sh), a.shape), w._d)
    return np_sum(a * w, axis) / np_sum(w, axis)


def _fvar(ddof):
    def f(v):
        m = _fmean(v)
        if len(v) - ddof <= 0:
            return np.float64('nan')
        return binop('div', _fsum([_sq(binop('sub', x, m)) for x in v]), len(v) - ddof)
    return f


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = _arr(a)
    return _reduce(a, axis, keepdims, _fvar(ddof), _fdt(a))


def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = _arr(a)
    return _reduce(a, axis, keepdims, lambda v: ssqrt(_fvar(ddof)(v)), _fdt(a))


def np_max(a, axis=None, out=None, keepdims=False, **kw):
    a = _arr(a)
    return _reduce(a, axis, keepdims, _fmax, a._d)


def np_min(a, axis=None, out=None, keepdims=False, **kw):
    a = _arr(a)
    return _reduce(a, axis, keepdims, _fmin, a._d)


def np_ptp(a, axis=None, **kw):
    return np_max(a, axis) - np_min(a, axis)


def _fany(v):
    r = np.False_
    for x in v:
        r = LOR(r, x)
    return r


def _fall(v):
    r = np.True_
    for x in v:
        r = LAND(r, x)
    return r


def np_any(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(a, axis, keepdims, _fany, _DT['b'])


def np_all(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(a, axis, keepdims, _fall, _DT['b'])


def _farg(cmp):
    def f(v):
        if not v:
            raise ValueError('attempt to get argmax of an empty sequence')
        best, bi = v[0], 0
        for i, x in enumerate(v[1:], 1):
            c = binop(cmp, x, best)
            bi = ite(c, i, bi)
            best = (smax if cmp == 'gt' else smin)(best, x)
        return bi
    return f


def np_argmax(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(a, axis, keepdims, _farg('gt'), _DT['i'])


def np_argmin(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(a, axis, keepdims, _farg('lt'), _DT['i'])


def np_count_nonzero(a, axis=None, keepdims=False, **kw):
    return np_sum(_arr(a).astype(bool), axis)


def np_cumsum(a, axis=None, dtype=None, out=None, op='add'):
    a = _arr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    d = a._d if a._k != 'b' else _DT['i']
    o = np.moveaxis(base(a.astype(d)).copy(), axis, 0)
    for i in range(1, o.shape[0]):
        for pos in np.ndindex(*o.shape[1:]):
            o[(i,) + pos] = binop(op, o[(i - 1,) + pos], o[(i,) + pos])
    return SymArray.wrap(np.moveaxis(o, 0, axis), d)


def np_cumprod(a, axis=None, **kw):
    return np_cumsum(a, axis, op='mul')


def np_diff(a, n=1, axis=-1, **kw):
    a = _arr(a)
    b = np.moveaxis(base(a), axis, 0)
    x, y = SymArray.wrap(b[1:], a._d), SymArray.wrap(b[:-1], a._d)
    return np.moveaxis(x - y, 0, axis)


def np_median(a, axis=None, keepdims=False, **kw):
    def f(v):
        s = _sorted(v)
        n = len(s)
        return s[n // 2] if n % 2 else binop('div', binop('add', s[n // 2 - 1], s[n // 2]), 2)
    return _reduce(a, axis, keepdims, f, _DT['f'])


def np_quantile(a, q, axis=None, *args, keepdims=False, method='linear', **kw):
    q = q.item() if isinstance(q, np.ndarray) and q.shape == () else q
    if not isinstance(q, (int, float)) or method != 'linear' or args:
        raise Unsupported('quantile')

    def f(v):
        s = _sorted(v)
        p = q * (len(s) - 1)
        i = min(int(p), len(s) - 1)
        w = p - i
        return s[i] if w == 0 else binop('add', binop('mul', s[i], 1 - w), binop('mul', s[i + 1], w))
    return _reduce(a, axis, keepdims, f, _DT['f'])


def _sorted(v):
    """insertion sort by solver-decided comparisons (forks)"""
    out = []
    for x in v:
        i = len(out)
        while i > 0 and bool(binop('lt', x, out[i - 1])):
            i -= 1
        out.insert(i, x)
    return out


def _argsorted(v):
    out = []
    for j, x in enumerate(v):
        i = len(out)
        while i > 0 and bool(binop('lt', x, v[out[i - 1]])):
            i -= 1
        out.insert(i, j)
    return out


def np_sort(a, axis=-1, **kw):
    a = _arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    o = np.moveaxis(base(a).copy(), axis, -1)
    for pos in np.ndindex(*o.shape[:-1]):
        s = _sorted(list(o[pos]))
        for i, x in enumerate(s):
            o[pos + (i,)] = x
    return SymArray.wrap(np.moveaxis(o, -1, axis), a._d)


def np_argsort(a, axis=-1, **kw):
    a = _arr(a)
    o = np.moveaxis(base(a).copy(), axis, -1)
    for pos in np.ndindex(*o.shape[:-1]):
        s = _argsorted(list(o[pos]))
        for i, x in enumerate(s):
            o[pos + (i,)] = np.int64(x)
    return SymArray.wrap(np.moveaxis(o, -1, axis), _DT['i'])


def np_searchsorted(a, v, side='left', sorter=None):
    a = _arr(a)

    def one(x):
        for i, e in enumerate(base(a)):
            c = binop('le' if side == 'left' else 'lt', x, e)
            if bool(c):
                return i
        return len(a)
    if is_scalar(v):
        return np.int64(one(v))
    v = _arr(v)
    return SymArray.make([one(x) for x in base(v).flat], int).reshape(v.shape)


def np_digitize(x, bins, right=False):
    b = _arr(bins)
    return np_searchsorted(b, x, side='left' if right else 'right')


def np_nonzero(a):
    a = _arr(a)
    m = np.array([bool(truth(v)) for v in base(a).flat], dtype=bool).reshape(a.shape)
    return tuple(SymArray.make(x) for x in np.nonzero(m))


def np_argwhere(a):
    a = _arr(a)
    m = np.array([bool(truth(v)) for v in base(a).flat], dtype=bool).reshape(a.shape)
    return SymArray.make(np.argwhere(m), int).reshape(np.argwhere(m).shape)


def np_flatnonzero(a):
    return np_nonzero(_arr(a).reshape(-1))[0]


def np_where(c, x=None, y=None):
    if x is None:
        return np_nonzero(c)
    return elementwise(lambda a, b, e: ite(truth(a), b, e), c, x, y, dfun=lambda p: _promote_d(p[1:]))


def np_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    r = a
    if a_min is not None:
        r = _apply('maximum', (r, a_min))
    if a_max is not None:
        r = _apply('minimum', (r, a_max))
    return _out(r, out)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = _apply('absolute', (_apply('subtract', (a, b)),))
    return _apply('less_equal', (d, _apply('add', (atol, _apply('multiply', (rtol, _apply('absolute', (b,))))))))


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol)
    return r if is_scalar(r) else np_all(r)


def np_array_equal(a, b, equal_nan=False):
    try:
        a, b = _arr(a), _arr(b)
    except Unsupported:
        return False
    if a.shape != b.shape:
        return False
    return np_all(array_binop('eq', a, b)) if a.ndim else binop('eq', a[()], b[()])


def np_dot(a, b, out=None):
    if is_scalar(a) or is_scalar(b):
        return _apply('multiply', (a, b))
    a, b = _arr(a), _arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return _apply('multiply', (a, b))
    return _out(_contract(a, b), out)


def _contract(a, b):
    """sum over last axis of a and second-to-last (or only) axis of b"""
    ax = b.ndim - 2 if b.ndim > 1 else 0
    if a.shape[-1] != b.shape[ax]:
        raise ValueError('shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)' % (
            a.shape, b.shape, a.shape[-1], a.ndim - 1, b.shape[ax], ax))
    d = np.result_type(a._d, b._d)
    A = base(a).reshape(-1, a.shape[-1])
    B = np.moveaxis(base(b), ax, 0).reshape(a.shape[-1], -1)
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    k = kind_of_dtype(d)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = coerce(_fsum([binop('mul', A[i, l], B[l, j]) for l in range(A.shape[1])]), k)
    shape = a.shape[:-1] + tuple(s for i, s in enumerate(b.shape) if i != ax)
    if shape == ():
        return out[0, 0]
    return SymArray.wrap(out.reshape(shape), d)


def np_matmul(a, b, **kw):
    a, b = _arr(a), _arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim <= 2 and b.ndim <= 2:
        return _contract(a, b)
    a2 = a if a.ndim > 1 else a.reshape((1,) + a.shape)
    b2 = b if b.ndim > 1 else b.reshape(b.shape + (1,))
    bs = np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
    A = np.broadcast_to(base(a2), bs + a2.shape[-2:])
    B = np.broadcast_to(base(b2), bs + b2.shape[-2:])
    d = np.result_type(a._d, b._d)
    out = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
    for pos in np.ndindex(*bs):
        out[pos] = base(_contract(SymArray.wrap(A[pos], a._d), SymArray.wrap(B[pos], b._d)))
    if a.ndim == 1:
        out = out[..., 0, :]
    if b.ndim == 1:
        out = out[..., 0]
    return SymArray.wrap(out, d)


def np_outer(a, b, out=None):
    a, b = _arr(a).reshape(-1), _arr(b).reshape(-1)
    return _apply('multiply', (a.reshape(-1, 1), b.reshape(1, -1)))


def np_inner(a, b):
    a, b = _arr(a), _arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return _contract(a, b)
    return _contract(a, SymArray.wrap(np.swapaxes(base(b), -1, -2), b._d))


def np_kron(a, b):
    a, b = _arr(a), _arr(b)
    n = max(a.ndim, b.ndim)
    A, B = base(a), base(b)
    A = A.reshape((1,) * (n - A.ndim) + A.shape)
    B = B.reshape((1,) * (n - B.ndim) + B.shape)
    out = np.empty(tuple(x * y for x, y in zip(A.shape, B.shape)), dtype=object)
    d = np.result_type(a._d, b._d)
    for p in np.ndindex(*A.shape):
        for q in np.ndindex(*B.shape):
            out[tuple(pi * s + qi for pi, s, qi in zip(p, B.shape, q))] = binop('mul', A[p], B[q])
    return SymArray.wrap(out, d)


def np_trace(a, *x, **k):
    a = _arr(a)
    return _fsum([base(a)[i, i] for i in range(min(a.shape))])


def np_einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum form')
    spec = spec.replace(' ', '')
    ops = [_arr(o) for o in ops]
    if '...' in spec:
        ins, out = spec.split('->') if '->' in spec else (spec, None)
        ins = ins.split(',')
        n = [o.ndim - len(i.replace('...', '')) if '...' in i else 0 for i, o in zip(ins, ops)]
        free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec][:max(n)]
        ins = [i.replace('...', ''.join(free[max(n) - k:])) for i, k in zip(ins, n)]
        if out is None:
            raise Unsupported('einsum ellipsis without output')
        spec = ','.join(ins) + '->' + out.replace('...', ''.join(free))
    if '->' in spec:
        ins, outl = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins.replace(',', '')))
        outl = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match the operand')
        for c, n in zip(s, o.shape):
            if dim.setdefault(c, n) != n:
                raise ValueError('operands could not be broadcast together')
    rest = [c for c in dim if c not in outl]
    d = np.result_type(*[o._d for o in ops])
    out = np.empty(tuple(dim[c] for c in outl), dtype=object)
    for pos in np.ndindex(*out.shape):
        env = dict(zip(outl, pos))
        terms = []
        for q in np.ndindex(*[dim[c] for c in rest]):
            env.update(zip(rest, q))
            t = 1
            for s, o in zip(ins, ops):
                t = binop('mul', t, base(o)[tuple(env[c] for c in s)])
            terms.append(t)
        out[pos] = coerce(_fsum(terms), kind_of_dtype(d))
    if out.ndim == 0:
        return out[()]
    return SymArray.wrap(out, d)


def np_tensordot(a, b, axes=2):
    a, b = _arr(a), _arr(b)
    if isinstance(axes, int):
        axa = list(range(a.ndim - axes, a.ndim))
        axb = list(range(axes))
    else:
        axa, axb = [list(x) if isinstance(x, (list, tuple)) else [x] for x in axes]
    L = 'abcdefghijklmnopqrstuvwxyz'
    sa = list(L[:a.ndim])
    sb = list(L[a.ndim:a.ndim + b.ndim])
    for i, j in zip(axa, axb):
        sb[j] = sa[i]
    out = [c for i, c in enumerate(sa) if i not in [x % a.ndim for x in axa]] + \
          [c for j, c in enumerate(sb) if j not in [x % b.ndim for x in axb]]
    return np_einsum(''.join(sa) + ',' + ''.join(sb) + '->' + ''.join(out), a, b)


def np_take(a, idx, axis=None, **kw):
    a = _arr(a)
    if axis is None:
        return a.reshape(-1)[idx]
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]


def np_take_along_axis(a, idx, axis):
    a, idx = _arr(a), _arr(idx)
    ii = _norm_index(a, idx)
    return SymArray.wrap(np.take_along_axis(base(a), ii, axis), a._d)


def np_put_along_axis(a, idx, values, axis):
    ii = _norm_index(a, _arr(idx))
    v = base(_arr(values).astype(a._d))
    np.put_along_axis(base(a), ii, v, axis)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if not has_sym(a):
        return rewrap(np.unique(concrete(a), return_index, return_inverse, return_counts, axis))
    if axis is not None:
        raise Unsupported('unique with axis')
    if return_index or return_inverse or return_counts:
        vals = list(base(_arr(a)).flat)
        groups = []         # [value, [positions]] in increasing order
        for i, x in enumerate(vals):
            for p, gr in enumerate(groups):
                if bool(binop('eq', x, gr[0])):
                    gr[1].append(i)
                    break
                if bool(binop('lt', x, gr[0])):
                    groups.insert(p, [x, [i]])
                    break
            else:
                groups.append([x, [i]])
        out = [SymArray.make([gr[0] for gr in groups])]
        if return_index:
            out.append(rewrap(np.array([gr[1][0] for gr in groups])))
        if return_inverse:
            inv = np.zeros(len(vals), dtype=int)
            for p, gr in enumerate(groups):
                inv[gr[1]] = p
            out.append(rewrap(inv))
        if return_counts:
            out.append(rewrap(np.array([len(gr[1]) for gr in groups])))
        return tuple(out)
    s = _sorted(list(base(_arr(a)).flat))
    out = []
    for x in s:
        if not out or bool(binop('ne', x, out[-1])):
            out.append(x)
    return SymArray.make(out)


def np_isin(a, test, **kw):
    t = list(base(_arr(test)).flat)
    return elementwise(lambda x: _fany([binop('eq', x, y) for y in t]), a, d=np.dtype(bool))


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, aweights=None, fweights=None, **kw):
    if y is not None or fweights is not None:
        raise Unsupported('cov options')
    X = _arr(m)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    if aweights is None:
        mu = np_mean(X, axis=1, keepdims=True)
        Y = X - mu
        r = np_dot(Y, Y.T) / (n - ddof)
    else:
        w = _arr(aweights)
        sw = np_sum(w)
        mu = np_sum(X * w, axis=1, keepdims=True) / sw
        Y = X - mu
        f = sw if ddof == 0 else sw - ddof * np_sum(w * w) / sw
        r = np_dot(Y * w, Y.T) / f
    return r[0, 0] if r.shape == (1, 1) else r


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if isinstance(v, Sym):
            return v
        return np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    return elementwise(f, x, dfun=_promote_d)


def np_apply_along_axis(f, axis, a, *args, **kw):
    a = _arr(a)
    m = np.moveaxis(base(a), axis, -1)
    res = []
    for pos in np.ndindex(*m.shape[:-1]):
        res.append(f(SymArray.wrap(m[pos], a._d), *args, **kw))
    r = SymArray.make(res)
    return r.reshape(m.shape[:-1] + r.shape[1:])


def np_interp(x, xp, fp, **kw):
    raise Unsupported('interp')


def np_cross(a, b, **kw):
    a, b = _arr(a), _arr(b)
    if a.shape != (3,) or b.shape != (3,):
        raise Unsupported('cross')
    return SymArray.make([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


# ---- linear algebra on small matrices ---------------------------------------------------------------------------------

def _det_rows(M):
    n = len(M)
    if n == 0:
        return 1.0
    if n == 1:
        return M[0][0]
    r = 0.0
    for j in range(n):
        if not isinstance(M[0][j], Sym) and M[0][j] == 0:
            continue
        minor = [row[:j] + row[j + 1:] for row in M[1:]]
        t = binop('mul', M[0][j], _det_rows(minor))
        r = binop('add', r, t) if j % 2 == 0 else binop('sub', r, t)
    return r


def la_det(a):
    a = _arr(a)
    if not has_sym(a):
        return rewrap(np.linalg.det(concrete(a)))
    if a.ndim > 2:
        return SymArray.make([la_det(x) for x in a])
    return _det_rows([list(r) for r in base(a)])


def la_inv(a):
    a = _arr(a)
    if not has_sym(a):
        return rewrap(np.linalg.inv(concrete(a)))
    if a.ndim > 2:
        return SymArray.make([la_inv(x) for x in a])
    M = [list(r) for r in base(a)]
    n = len(M)
    if n != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if n > 4:
        raise Unsupported('inverse of a large symbolic matrix')
    det = _det_rows(M)
    if bool(binop('eq', det, 0)):
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    if all(not isinstance(M[i][j], Sym) and M[i][j] == 0 for i in range(n) for j in range(n) if i != j):
        for i in range(n):
            for j in range(n):
                out[i, j] = coerce(binop('div', 1.0, M[i][i]), 'f') if i == j else coerce(0.0, 'f')
        return SymArray.wrap(out, _DT['f'])
    for i in range(n):
        for j in range(n):
            minor = [row[:i] + row[i + 1:] for q, row in enumerate(M) if q != j]
            c = _det_rows(minor)
            if (i + j) % 2:
                c = binop('sub', 0.0, c)
            out[i, j] = coerce(binop('div', c, det), 'f')
    return SymArray.wrap(out, _DT['f'])


def la_solve(a, b):
    if not has_sym(a) and not has_sym(b):
        return rewrap(np.linalg.solve(concrete(a), concrete(b)))
    return np_dot(la_inv(a), b)


def la_pinv(a, *x, **k):
    a = _arr(a)
    if not has_sym(a):
        return rewrap(np.linalg.pinv(concrete(a)))
    if a.shape[0] == a.shape[1] and not bool(binop('eq', la_det(a), 0)):
        return la_inv(a)
    if a.ndim == 2 and min(a.shape) == 1:
        v = a.reshape(-1)
        s = np_sum(v * v)
        if bool(binop('eq', s, 0)):
            return a.T * 0.0
        return a.T / s
    raise Unsupported('pseudo-inverse of a singular symbolic matrix')


def la_matrix_rank(a, *x, **k):
    a = _arr(a)
    if not has_sym(a):
        return np.linalg.matrix_rank(concrete(a))
    if a.ndim < 2:
        return int(not bool(np_all(a == 0)))
    n, m = a.shape
    M = [list(r) for r in base(a)]
    for r in range(min(n, m), 0, -1):
        for rows in itertools.combinations(range(n), r):
            for cols in itertools.combinations(range(m), r):
                d = _det_rows([[M[i][j] for j in cols] for i in rows])
                if bool(binop('ne', d, 0)):
                    return r
    return 0


def la_slogdet(a):
    a = _arr(a)
    if not has_sym(a):
        return rewrap(tuple(np.linalg.slogdet(concrete(a))))
    d = la_det(a)
    return ssign(d), slog(sabs(d))


def la_norm(x, ord=None, axis=None, keepdims=False):
    x = _arr(x)
    if not has_sym(x):
        return rewrap(np.linalg.norm(concrete(x), ord, axis, keepdims))
    if ord in (None, 2, 'fro') and (axis is not None or x.ndim <= 2):
        if ord == 2 and x.ndim == 2 and axis is None:
            raise Unsupported('spectral norm')
        return _apply('sqrt', (np_sum(x * x, axis=axis, keepdims=keepdims),))
    if ord == 1 and (axis is not None or x.ndim == 1):
        return np_sum(_apply('absolute', (x,)), axis=axis, keepdims=keepdims)
    if ord == np.inf and (axis is not None or x.ndim == 1):
        return np_max(_apply('absolute', (x,)), axis=axis, keepdims=keepdims)
    raise Unsupported('norm')


def la_cholesky(a):
    a = _arr(a)
    if not has_sym(a):
        return rewrap(np.linalg.cholesky(concrete(a)))
    if a.ndim > 2:
        return SymArray.make([la_cholesky(x) for x in a])
    n = a.shape[0]
    A = base(a)
    L = [[np.float64(0.0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = A[i, j]
            for q in range(j):
                s = binop('sub', s, binop('mul', L[i][q], L[j][q]))
            if i == j:
                if bool(binop('le', s, 0)):
                    raise np.linalg.LinAlgError('Matrix is not positive definite')
                L[i][j] = ssqrt(s)
            else:
                L[i][j] = binop('div', s, L[j][j])
    return SymArray.make(L, float)


LINALG = {'det': la_det, 'inv': la_inv, 'solve': la_solve, 'pinv': la_pinv, 'matrix_rank': la_matrix_rank,
          'slogdet': la_slogdet, 'norm': la_norm, 'cholesky': la_cholesky}


# ---- numpy function dispatch ----------------------------------------------------------------------------------------------

def np_append(arr, values, axis=None):
    a, v = _arr(arr), _arr(values)
    if axis is None:
        return np_concatenate([a.reshape(-1), v.reshape(-1)])
    return np_concatenate([a, v], axis=axis)


def np_concatenate(arrs, axis=0, out=None, **kw):
    arrs = [_arr(x) for x in arrs]
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    # float64 empties do not change the kind of e.g. boolean data any differently than in numpy
    d = np.result_type(*[a._d for a in arrs])
    r = np.concatenate([base(a.astype(d)) for a in arrs], axis=axis)
    return _out(SymArray.wrap(r, d), out)


def _stackish(fn):
    def f(arrs, *a, **k):
        k.pop('out', None)
        arrs = [_arr(x) for x in arrs]
        d = np.result_type(*[x._d for x in arrs])
        return SymArray.wrap(fn([base(x.astype(d)) for x in arrs], *a, **k), d)
    return f


def np_block(arrs):
    def leaves(x):
        if isinstance(x, list):
            for e in x:
                yield from leaves(e)
        else:
            yield _arr(x)
    d = np.result_type(*[l._d for l in leaves(arrs)])

    def conv(x):
        return [conv(e) for e in x] if isinstance(x, list) else base(_arr(x).astype(d))
    return SymArray.wrap(np.block(conv(arrs)), d)


_STRUCT1 = {np.reshape, np.ravel, np.transpose, np.expand_dims, np.squeeze, np.moveaxis, np.swapaxes, np.rollaxis,
            np.repeat, np.tile, np.flip, np.flipud, np.fliplr, np.roll, np.delete, np.diag, np.diagonal, np.diagflat,
            np.tril, np.triu, np.broadcast_to, np.rot90, np.resize, np.copy, np.split, np.array_split, np.hsplit,
            np.vsplit, np.trim_zeros, np.atleast_1d, np.atleast_2d, np.atleast_3d, np.insert, np.pad}


def _structural(func, args, kwargs):
    """functions that only move elements around; extra concrete args are passed through"""
    d = None

    def conv(x, first):
        nonlocal d
        if isinstance(x, SymArray):
            if first:
                d = x._d
                return base(x)
            if x._k in 'ib':
                r = _norm_index(x, x)
                return r
        if isinstance(x, Sym):
            if first:
                d = _DT[x.k]
                return _wrap0(x)
            return x.__index__()
        return x
    if func is np.insert:
        a = _arr(args[0])
        v = _arr(args[2]).astype(a._d)
        r = np.insert(base(a), _norm_index(a, args[1]), base(v), **kwargs)
        return SymArray.wrap(r, a._d)
    if func is np.copy:
        return _arr(args[0]).copy()
    if func is np.pad:
        raise Unsupported('pad')
    args = list(args)
    if args and not isinstance(args[0], (SymArray, Sym)):
        args[0] = _arr(args[0])
    if func in (np.atleast_1d, np.atleast_2d, np.atleast_3d) and len(args) > 1:
        return [_structural(func, (x,), kwargs) for x in args]
    nargs = [conv(x, i == 0) for i, x in enumerate(args)]
    nkw = {k: conv(v, not args and k in ('a', 'arr', 'm', 'v', 'ary')) for k, v in kwargs.items()}
    r = func(*nargs, **nkw)
    if d is None:
        d = _DT['f']
    k = kind_of_dtype(d)

    def w(r):
        if isinstance(r, np.ndarray):
            if func in (np.diag, np.diagflat, np.tril, np.triu):
                r = r.copy()
                fl = r.reshape(-1)
                for i, v in enumerate(fl):
                    if type(v) is int:
                        fl[i] = coerce(v, k)
                r = fl.reshape(r.shape)
            return SymArray.wrap(r, d)
        if isinstance(r, (list, tuple)):
            return [w(x) for x in r]
        return r
    return w(r)


def _like(fill):
    def f(a, dtype=None, order='K', subok=True, shape=None, fill_value=None):
        if isinstance(a, Sym):
            sh, d = (), _DT[a.k]
        else:
            a = _arr(a)
            sh, d = a.shape, a._d
        if shape is not None:
            sh = shape
        if dtype is not None:
            d = _np_dtype(dtype)
        return full_sym(sh, fill if fill_value is None else fill_value, d)
    return f


def full_sym(shape, value, d):
    d = _np_dtype(d)
    k = kind_of_dtype(d)
    if not isinstance(shape, (tuple, list)):
        if isinstance(shape, SymArray):
            shape = tuple(shape.tolist())
        else:
            shape = (shape,)
    shape = tuple(s.__index__() if not isinstance(s, int) else s for s in shape)
    if not is_scalar(value):
        a = SymArray.make(value).astype(d)
        return SymArray.wrap(np.broadcast_to(base(a), shape).copy(), d)
    out = np.empty(shape, dtype=object)
    out.fill(coerce(value, k))
    if shape == ():
        out[()] = coerce(value, k)
    return SymArray.wrap(out, d)


def _np_full_like(a, fill_value, dtype=None, **kw):
    return _like(0)(a, dtype=dtype, fill_value=fill_value)


def _copyto(dst, src, casting='same_kind', where=True):
    _store(dst, src if is_scalar(src) else _arr(src), where)


def _fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


def _tup(x):
    return x if isinstance(x, tuple) else (x,)


_FUNCS = {
    np.sum: np_sum, np.prod: np_prod, np.mean: np_mean, np.average: np_average, np.var: np_var, np.std: np_std,
    np.max: np_max, np.amax: np_max, np.min: np_min, np.amin: np_min, np.any: np_any, np.all: np_all,
    np.argmax: np_argmax, np.argmin: np_argmin, np.cumsum: np_cumsum, np.cumprod: np_cumprod, np.diff: np_diff,
    np.median: np_median, np.quantile: np_quantile,
    np.percentile: lambda a, q, *x, **k: np_quantile(a, q / 100, *x, **k), np.sort: np_sort, np.argsort: np_argsort, np.searchsorted: np_searchsorted,
    np.digitize: np_digitize, np.nonzero: np_nonzero, np.argwhere: np_argwhere, np.flatnonzero: np_flatnonzero,
    np.where: np_where, np.clip: np_clip, np.isclose: np_isclose, np.allclose: np_allclose,
    np.array_equal: np_array_equal, np.dot: np_dot, np.vdot: lambda a, b: np_dot(_arr(a).reshape(-1), _arr(b).reshape(-1)),
    np.outer: np_outer, np.inner: np_inner,
    np.kron: np_kron, np.trace: np_trace, np.einsum: np_einsum, np.tensordot: np_tensordot, np.take: np_take,
    np.take_along_axis: np_take_along_axis, np.put_along_axis: np_put_along_axis, np.unique: np_unique,
    np.isin: np_isin, np.cov: np_cov, np.nan_to_num: np_nan_to_num, np.apply_along_axis: np_apply_along_axis,
    np.concatenate: np_concatenate, np.stack: _stackish(np.stack), np.vstack: _stackish(np.vstack),
    np.hstack: _stackish(np.hstack), np.dstack: _stackish(np.dstack), np.column_stack: _stackish(np.column_stack),
    np.append: np_append, np.block: np_block, np.zeros_like: _like(0), np.ones_like: _like(1),
    np.empty_like: _like(0), np.full_like: _np_full_like, np.copyto: _copyto, np.cross: np_cross,
    np.fill_diagonal: _fill_diagonal, np.shape: lambda a: _arr(a).shape, np.ndim: lambda a: _arr(a).ndim,
    np.size: lambda a, axis=None: _arr(a).size if axis is None else _arr(a).shape[axis],
    np.count_nonzero: np_count_nonzero, np.ptp: np_ptp, np.real: lambda a: a,
    np.linalg.det: la_det, np.linalg.inv: la_inv, np.linalg.solve: la_solve, np.linalg.pinv: la_pinv,
    np.linalg.matrix_rank: la_matrix_rank, np.linalg.slogdet: la_slogdet, np.linalg.norm: la_norm,
    np.linalg.cholesky: la_cholesky, np.interp: np_interp,
    np.may_share_memory: lambda a, b, *x: np.may_share_memory(base(a), base(b)) if isinstance(a, SymArray) and isinstance(b, SymArray) else False,
    np.shares_memory: lambda a, b, *x: np.shares_memory(base(a), base(b)) if isinstance(a, SymArray) and isinstance(b, SymArray) else False,
    np.array_repr: lambda *a, **k: 'array', np.array_str: lambda *a, **k: 'array', np.array2string: lambda *a, **k: 'array',
    np.logspace: None, np.round: None, np.ix_: None,
}


def do_array_function(func, types, args, kwargs):
    if func is np.broadcast_arrays:
        arrs = [_arr(a) for a in args]
        return [SymArray.wrap(b, a._d) for b, a in zip(np.broadcast_arrays(*[base(a) for a in arrs]), arrs)]
    if func in _STRUCT1:
        return _structural(func, args, kwargs)
    f = _FUNCS.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if func is np.round or func is np.around:
        return _maybe_concrete(func, args, kwargs)
    return _maybe_concrete(func, args, kwargs)
