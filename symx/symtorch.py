"""
torch tensors of symbolic scalars: a torch.Tensor subclass whose values live in a `SymArray` (`.a`).

Aliasing follows torch: views, detach(), numpy(), from_numpy() and as_tensor() share storage; clone() copies.
Gradients are not modelled: backward() is a recorded no-op.
"""
import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from .core import Sym, Unsupported, binop, coerce, kind_of, kind_of_dtype, ite, truth, engine, smax
from . import core, symnp
from .symnp import SymArray, base, is_scalar, _apply, has_sym

_KD = {'f': torch.float32, 'i': torch.int64, 'b': torch.bool}


def tdtype_of_np(d):
    d = np.dtype(d)
    return {'float64': torch.float64, 'float32': torch.float32, 'int64': torch.int64, 'int32': torch.int32,
            'uint8': torch.uint8, 'int8': torch.int8, 'int16': torch.int16, 'bool': torch.bool,
            'float16': torch.float16}.get(d.name) or _KD[kind_of_dtype(d)]


_PYD = {int: torch.int64, float: torch.float64, bool: torch.bool}


def tnorm(dt):
    """python types are accepted as dtypes"""
    return _PYD.get(dt, dt) if isinstance(dt, type) else dt


def npd(td):
    td = tnorm(td)
    return {torch.float64: np.dtype('float64'), torch.float32: np.dtype('float32'), torch.int64: np.dtype('int64'),
            torch.int32: np.dtype('int32'), torch.uint8: np.dtype('uint8'), torch.int8: np.dtype('int8'),
            torch.int16: np.dtype('int16'), torch.bool: np.dtype(bool), torch.float16: np.dtype('float16'),
            torch.bfloat16: np.dtype('float32')}[td]


class SymTensor(torch.Tensor):
    @staticmethod
    def mk(a, dtype=None, copy=False):
        if not isinstance(a, SymArray):
            a = SymArray.make(a) if not is_scalar(a) else SymArray.wrap(symnp._wrap0(a), symnp._DT[kind_of(a)])
        dtype = tdtype_of_np(a._d) if dtype is None else tnorm(dtype)
        if kind_of_dtype(dtype) != a._k:
            a = a.astype(npd(dtype))
        elif a._d != npd(dtype):
            a = SymArray.wrap(base(a), npd(dtype))      # same storage, other width
        with torch._C.DisableTorchFunctionSubclass():
            with torch._C.DisableTorchFunction():
                t = torch.Tensor._make_subclass(SymTensor, torch.empty(a.shape, dtype=dtype))
        t.__dict__['a'] = a
        return t

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __reduce_ex__(self, proto):
        return _rebuild, (self.a, str(self.dtype))

    def __deepcopy__(self, memo):
        return SymTensor.mk(self.a.copy(), self.dtype)

    def __repr__(self):
        return 'SymTensor(%s)' % (tuple(self.a.shape),)

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return id(self)

    def __array__(self, dtype=None):
        raise Unsupported('implicit conversion of a symbolic tensor to an array')

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return mixed_ufunc(ufunc.__name__, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        args = [x.a if isinstance(x, SymTensor) else x for x in args]
        return symnp.do_array_function(func, types, args, kwargs)


def _rebuild(a, dt):
    return SymTensor.mk(a, getattr(torch, dt.split('.')[-1]))


def to_symarray(x):
    if isinstance(x, SymTensor):
        return x.a
    if isinstance(x, torch.Tensor):
        with torch._C.DisableTorchFunction():
            return SymArray.make(x.detach().cpu().numpy())
    return x if isinstance(x, SymArray) else SymArray.make(x)


def concrete_tensor(x):
    with torch._C.DisableTorchFunction():
        return torch.as_tensor(symnp.concrete(x.a)).to(x.dtype)


def lift(x):
    """any tensor -> SymTensor"""
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, torch.Tensor):
        with torch._C.DisableTorchFunction():
            return SymTensor.mk(SymArray.make(x.detach().cpu().numpy()), x.dtype)
    return x


def mixed_ufunc(name, inputs, kwargs):
    """numpy ufunc applied to tensors: numpy converts tensors to arrays"""
    if kwargs:
        raise Unsupported('ufunc on tensors with options')
    arrs = [to_symarray(i) if isinstance(i, torch.Tensor) else i for i in inputs]
    r = _apply(name, arrs)
    # Tensor.__array_wrap__ turns results back into tensors when the tensor has priority
    if isinstance(inputs[0], torch.Tensor) or not any(isinstance(i, np.ndarray) for i in inputs):
        return SymTensor.mk(r)
    return r


_RK = {'b': 0, 'i': 1, 'f': 2}


def _result_type(*xs):
    """torch promotion: dimensioned tensors > 0-d tensors > python scalars, within/over categories"""
    dim, zero, num = [], [], []
    for x in xs:
        if isinstance(x, torch.Tensor):
            (dim if x.a.ndim else zero).append(x.dtype)
        else:
            k = kind_of(x)
            num.append({'f': torch.get_default_dtype(), 'i': torch.int64, 'b': torch.bool}[k])

    def prom(l):
        r = l[0]
        for d in l[1:]:
            r = torch.promote_types(r, d)
        return r
    r = None
    for grp in (dim, zero, num):
        if not grp:
            continue
        g = prom(grp)
        if r is None:
            r = g
        elif _RK[kind_of_dtype(g)] > _RK[kind_of_dtype(r)]:
            r = g
    return r


def _val(x):
    if isinstance(x, SymTensor):
        return x.a
    return x


def _args(*xs):
    out = []
    for x in xs:
        if isinstance(x, torch.Tensor):
            out.append(lift(x))
        elif isinstance(x, np.ndarray):
            if isinstance(x, np.ndarray) and x.ndim == 0:
                out.append(SymArray.make(x).item())
            else:
                raise TypeError('unsupported operand type(s): Tensor and ndarray')
        else:
            out.append(x)
    return out


def binary(op):
    def f(a, b, *, out=None, alpha=None, rounding_mode=None):
        a, b = _args(a, b)
        for x in (a, b):
            if not isinstance(x, torch.Tensor) and not is_scalar(x):
                if op in ('eq', 'ne'):
                    return NotImplemented
                raise TypeError('unsupported operand type(s) for %s: Tensor and %s' % (op, type(x).__name__))
        if alpha is not None:
            b = binary('mul')(b, alpha)
        if rounding_mode is not None:
            raise Unsupported('rounding_mode')
        if op == 'sub':
            ka = [kind_of_dtype(x.dtype) if isinstance(x, torch.Tensor) else kind_of(x) for x in (a, b)]
            if isinstance(b, torch.Tensor) and ka[1] == 'b' or isinstance(a, torch.Tensor) and ka[0] == 'b' and \
                    isinstance(b, torch.Tensor):
                raise RuntimeError('Subtraction, the `-` operator, with a bool tensor is not supported. If you are '
                                   'trying to invert a mask, use the `~` or `logical_not()` operator instead.')
        va, vb = _val(a), _val(b)
        if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            return SymTensor.mk(_nd(symnp.array_binop(op, va, vb)), torch.bool)
        d = _result_type(a, b)
        if op == 'div' and not d.is_floating_point:
            d = torch.get_default_dtype()
        if op in ('and', 'or', 'xor'):
            return SymTensor.mk(_nd(symnp.array_binop(op, va, vb)), d)
        k = kind_of_dtype(d)
        if k == 'b' and op == 'add':
            return SymTensor.mk(_nd(symnp._apply('logical_or', (va, vb))), d)
        r = symnp.elementwise(lambda x, y: binop(op, coerce(x, k), coerce(y, k)), va, vb, d=npd(d)) \
            if k != 'b' else symnp.array_binop(op, va, vb)
        return SymTensor.mk(_nd(r), d)
    return f


def _nd(r):
    if isinstance(r, SymArray):
        return r
    return SymArray.wrap(symnp._wrap0(r), symnp._DT[kind_of(r)])


def tensor_binop(op, a, b):
    """Sym (python scalar) op tensor"""
    a = lift(a) if isinstance(a, torch.Tensor) else a
    b = lift(b) if isinstance(b, torch.Tensor) else b
    return binary(op)(a, b)


def rbinary(op):
    return lambda a, b: binary(op)(b, a)


def inplace(f):
    def g(self, *args, **kw):
        r = f(self, *args, **kw)
        return write(self, r)
    return g


def write(t, r):
    if not isinstance(t, SymTensor):
        raise Unsupported('in-place update of a concrete tensor with symbolic data')
    k = kind_of_dtype(t.dtype)
    rk = kind_of_dtype(r.dtype) if isinstance(r, torch.Tensor) else kind_of(r)
    if _RK[rk] > _RK[k]:
        raise RuntimeError("result type %s can't be cast to the desired output type %s" % (rk, t.dtype))
    v = _val(lift(r)) if isinstance(r, torch.Tensor) else r
    if t.a.ndim == 0:
        base(t.a)[()] = coerce(v if is_scalar(v) else base(v).reshape(-1)[0], k)
    else:
        sh = () if is_scalar(v) else v.shape
        if np.broadcast_shapes(sh, t.a.shape) != t.a.shape:
            raise RuntimeError('output with shape %s doesn\'t match the broadcast shape' % (t.a.shape,))
        t.a[...] = v
    return t


def unary(name, flt=False):
    def f(a, *, out=None):
        a = lift(a)
        d = a.dtype
        if flt and not d.is_floating_point:
            d = torch.get_default_dtype()
        if name in ('isnan', 'isinf', 'isfinite', 'logical_not'):
            d = torch.bool
        if name == 'negative' and d == torch.bool:
            raise RuntimeError('Negation, the `-` operator, on a bool tensor is not supported.')
        return SymTensor.mk(_nd(_apply(name, (a.a,))), d)
    return f


def _dimkw(args, kw, names=('dim', 'axis')):
    dim = None
    for n in names:
        if n in kw:
            dim = kw[n]
    if args:
        dim = args[0]
    keep = kw.get('keepdim', kw.get('keepdims', args[1] if len(args) > 1 and isinstance(args[1], bool) else False))
    return dim, keep


def reduction(npf, dt=None):
    def f(a, *args, **kw):
        a = lift(a)
        dim, keep = _dimkw(args, kw)
        if isinstance(dim, (list, tuple)) and len(dim) == 0:
            dim = None
        r = npf(a.a, axis=dim, keepdims=keep)
        d = dt(a) if dt else a.dtype
        if kw.get('dtype') is not None:
            d = kw['dtype']
        return SymTensor.mk(_nd(r), d)
    return f


class _VI(tuple):
    """values/indices named tuple"""
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def maxmin(npf, nparg, elem):
    def f(a, *args, **kw):
        a = lift(a)
        if args and isinstance(args[0], torch.Tensor):
            return elem(a, args[0])
        if 'other' in kw:
            return elem(a, kw['other'])
        dim, keep = _dimkw(args, kw)
        if dim is None:
            return SymTensor.mk(_nd(npf(a.a)), a.dtype)
        v = SymTensor.mk(_nd(npf(a.a, axis=dim, keepdims=keep)), a.dtype)
        i = SymTensor.mk(_nd(nparg(a.a, axis=dim, keepdims=keep)), torch.int64)
        return _VI((v, i))
    return f


def elem2(name):
    def f(a, b, *, out=None):
        a, b = _args(a, b)
        return SymTensor.mk(_nd(_apply(name, (_val(a), _val(b)))), _result_type(a, b))
    return f


def _std(a, *args, **kw):
    a = lift(a)
    unb = kw.get('unbiased', kw.get('correction', 1))
    dim, keep = None, kw.get('keepdim', False)
    if 'dim' in kw:
        dim = kw['dim']
    if args:
        if isinstance(args[0], bool):
            unb = args[0]
        else:
            dim = args[0]
            if len(args) > 1:
                unb = args[1]
    return a, dim, keep, int(unb)


def t_std(a, *args, **kw):
    a, dim, keep, c = _std(a, *args, **kw)
    return SymTensor.mk(_nd(symnp.np_std(a.a, axis=dim, ddof=c, keepdims=keep)), a.dtype)


def t_var(a, *args, **kw):
    a, dim, keep, c = _std(a, *args, **kw)
    return SymTensor.mk(_nd(symnp.np_var(a.a, axis=dim, ddof=c, keepdims=keep)), a.dtype)


def _shape_args(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list, torch.Size)):
        args = args[0]
    return tuple(int(x) for x in args)


def t_reshape(a, *shape, **kw):
    a = lift(a)
    if 'shape' in kw:
        shape = (kw['shape'],)
    if shape and isinstance(shape[0], torch.dtype):
        raise Unsupported('view dtype')
    return SymTensor.mk(a.a.reshape(_shape_args(shape)), a.dtype)


def t_squeeze(a, *dim, **kw):
    a = lift(a)
    d = kw.get('dim', dim[0] if dim else None)
    if d is None:
        return SymTensor.mk(SymArray.wrap(np.squeeze(base(a.a)), a.a._d), a.dtype)
    ds = d if isinstance(d, (tuple, list)) else (d,)
    ax = tuple(x % max(a.a.ndim, 1) for x in ds if a.a.ndim and a.a.shape[x] == 1)
    return SymTensor.mk(SymArray.wrap(np.squeeze(base(a.a), axis=ax), a.a._d), a.dtype) if ax else \
        SymTensor.mk(a.a, a.dtype)


def t_unsqueeze(a, dim):
    a = lift(a)
    return SymTensor.mk(SymArray.wrap(np.expand_dims(base(a.a), dim), a.a._d), a.dtype)


def t_transpose(a, d0, d1):
    a = lift(a)
    return SymTensor.mk(SymArray.wrap(np.swapaxes(base(a.a), d0, d1), a.a._d), a.dtype)


def t_permute(a, *dims):
    a = lift(a)
    return SymTensor.mk(SymArray.wrap(np.transpose(base(a.a), _shape_args(dims)), a.a._d), a.dtype)


def t_expand(a, *sizes):
    a = lift(a)
    sizes = _shape_args(sizes)
    off = len(sizes) - a.a.ndim
    sh = tuple(a.a.shape[i - off] if s == -1 else s for i, s in enumerate(sizes))
    b = np.broadcast_to(base(a.a), sh)
    b = np.lib.stride_tricks.as_strided(b, writeable=True)
    return SymTensor.mk(SymArray.wrap(b, a.a._d), a.dtype)


def t_repeat(a, *sizes):
    a = lift(a)
    return SymTensor.mk(SymArray.wrap(np.tile(base(a.a), _shape_args(sizes)), a.a._d), a.dtype)


def t_repeat_interleave(a, n, dim=None):
    a = lift(a)
    return SymTensor.mk(SymArray.wrap(np.repeat(base(a.a), int(n), axis=dim), a.a._d), a.dtype)


def t_flatten(a, start_dim=0, end_dim=-1):
    a = lift(a)
    sh = a.a.shape
    if not sh:
        return t_reshape(a, 1)
    e = end_dim % len(sh)
    return t_reshape(a, sh[:start_dim] + (int(np.prod(sh[start_dim:e + 1])),) + sh[e + 1:])


def t_cat(ts, dim=0, axis=None, out=None):
    ts = [lift(t) for t in ts]
    dim = axis if axis is not None else dim
    d = ts[0].dtype
    for t in ts[1:]:
        d = torch.promote_types(d, t.dtype)
    # torch ignores legacy empty 1-d tensors
    ks = [t for t in ts if not (t.a.ndim == 1 and t.a.shape[0] == 0 and any(u.a.ndim > 1 for u in ts))]
    return SymTensor.mk(symnp.np_concatenate([t.a for t in ks], axis=dim), d)


def t_stack(ts, dim=0, out=None):
    return t_cat([t_unsqueeze(t, dim) for t in ts], dim)


def _idx(t, idx):
    def one(i):
        if isinstance(i, torch.Tensor):
            i = lift(i).a
            if i.ndim == 0 and i._k == 'i':
                return i.item() if not isinstance(i.item(), Sym) else i.item().__index__()
            return i
        if isinstance(i, slice):
            def s(v):
                if isinstance(v, torch.Tensor):
                    v = lift(v).a.item()
                return v
            return slice(s(i.start), s(i.stop), s(i.step))
        return i
    if isinstance(idx, tuple):
        return tuple(one(i) for i in idx)
    return one(idx)


def t_getitem(t, idx):
    t = lift(t)
    r = t.a[_idx(t, idx)]
    return SymTensor.mk(_nd(r), t.dtype)


def t_setitem(t, idx, v):
    if not isinstance(t, SymTensor):
        raise Unsupported('in-place update of a concrete tensor with symbolic data')
    if isinstance(v, torch.Tensor):
        v = lift(v).a
        if v.ndim == 0:
            v = base(v)[()]
    ii = _idx(t, idx)
    if t.a.ndim == 0:
        base(t.a)[()] = coerce(v, t.a._k)
        return
    t.a[ii] = v


def t_gather(a, dim, index, **kw):
    a, index = lift(a), lift(index)
    if kind_of_dtype(index.dtype) != 'i' or index.dtype not in (torch.int64, torch.int32):
        raise RuntimeError('gather(): Expected dtype int32/int64 for index')
    ii = symnp._norm_index(index.a, index.a)
    ii = np.asarray(ii).reshape(index.a.shape)
    if any(x < 0 or x >= a.a.shape[dim] for x in ii.flat):
        raise RuntimeError('index out of bounds')
    sl = tuple(slice(0, n) if q != dim % a.a.ndim else slice(None) for q, n in enumerate(ii.shape))
    return SymTensor.mk(SymArray.wrap(np.take_along_axis(base(a.a)[sl], ii, dim), a.a._d), a.dtype)


def t_index_select(a, dim, index):
    a = lift(a)
    return SymTensor.mk(symnp.np_take(a.a, lift(index).a, dim), a.dtype)


def t_where(c, x=None, y=None):
    c = lift(c)
    if x is None:
        return tuple(SymTensor.mk(i, torch.int64) for i in symnp.np_nonzero(c.a))
    x, y = _args(x, y)
    return SymTensor.mk(_nd(symnp.np_where(c.a, _val(x), _val(y))), _result_type(x, y))


def t_clamp(a, min=None, max=None, out=None):
    a = lift(a)
    d = a.dtype
    # limits at the range of the floating-point type (torch.finfo): no restriction on reals
    if isinstance(min, float) and min < -1e30:
        min = None
    if isinstance(max, float) and max > 1e30:
        max = None
    for b in (min, max):
        if b is not None:
            d = _result_type(SymTensor.mk(a.a, d), lift(b) if isinstance(b, torch.Tensor) else b)
    r = symnp.np_clip(a.a, None if min is None else _val(lift(min)), None if max is None else _val(lift(max)))
    return SymTensor.mk(_nd(r), d)


_PYT = {int: torch.int64, float: torch.float64, bool: torch.bool}


def t_to(a, *args, **kw):
    a = lift(a)
    d = kw.get('dtype')
    for x in args:
        if isinstance(x, torch.dtype):
            d = x
        elif isinstance(x, torch.Tensor):
            d = x.dtype
        elif isinstance(x, type) and x in _PYT:
            d = _PYT[x]
    d = _PYT.get(d, d)
    cp = kw.get('copy', False)
    if d is None or d == a.dtype:
        return SymTensor.mk(a.a.copy(), a.dtype) if cp else a
    return SymTensor.mk(a.a.astype(npd(d)), d)


def t_type(d):
    return lambda a, *x, **k: t_to(a, d)


def t_matmul(a, b, out=None):
    a, b = lift(a), lift(b)
    if a.dtype != b.dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype, but got: %s != %s' % (a.dtype, b.dtype))
    try:
        return SymTensor.mk(_nd(symnp.np_matmul(a.a, b.a)), a.dtype)
    except ValueError as e:
        raise RuntimeError(str(e))


def t_numpy(a, *x, **k):
    return lift(a).a


def t_clone(a, **k):
    a = lift(a)
    return SymTensor.mk(a.a.copy(), a.dtype)


def t_item(a):
    a = lift(a)
    if a.a.size != 1:
        raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % a.a.size)
    return a.a.item()


def t_iter(a):
    a = lift(a)
    return iter([SymTensor.mk(_nd(x), a.dtype) for x in a.a])


def t_unbind(a, dim=0):
    a = lift(a)
    b = np.moveaxis(base(a.a), dim, 0)
    return tuple(SymTensor.mk(SymArray.wrap(b[i], a.a._d) if isinstance(b[i], np.ndarray) else _nd(b[i]), a.dtype)
                 for i in range(b.shape[0]))


def t_diag(a, diagonal=0, **kw):
    a = lift(a)
    return SymTensor.mk(symnp._structural(np.diag, (a.a,), {}), a.dtype)


def t_diag_embed(a, *x, **k):
    a = lift(a)
    n = a.a.shape[-1]
    out = symnp.full_sym(a.a.shape + (n,), 0, a.a._d)
    for i in range(n):
        base(out)[..., i, i] = base(a.a)[..., i]
    return SymTensor.mk(out, a.dtype)


def t_diagonal(a, offset=0, dim1=0, dim2=1):
    a = lift(a)
    b = np.diagonal(base(a.a), offset, dim1, dim2)
    b = np.lib.stride_tricks.as_strided(b, writeable=True)
    return SymTensor.mk(SymArray.wrap(b, a.a._d), a.dtype)


def t_tri(fn):
    def f(a, diagonal=0, **kw):
        a = lift(a)
        return SymTensor.mk(symnp._structural(fn, (a.a, diagonal), {}), a.dtype)
    return f


def t_cholesky(a, **kw):
    a = lift(a)
    return SymTensor.mk(symnp.la_cholesky(a.a), a.dtype)


def t_solve_triangular(A, B, *, upper, left=True, unitriangular=False, **kw):
    A, B = lift(A), lift(B)
    if not left:
        raise Unsupported('solve_triangular right')
    bs = np.broadcast_shapes(A.a.shape[:-2], B.a.shape[:-2])
    AA = np.broadcast_to(base(A.a), bs + A.a.shape[-2:])
    BB = np.broadcast_to(base(B.a), bs + B.a.shape[-2:])
    out = np.empty(BB.shape, dtype=object)
    n = AA.shape[-1]
    for pos in np.ndindex(*bs):
        L, R = AA[pos], BB[pos]
        rng = range(n - 1, -1, -1) if upper else range(n)
        for c in range(R.shape[-1]):
            x = {}
            for i in rng:
                s = R[i, c]
                for j in x:
                    s = binop('sub', s, binop('mul', L[i, j], x[j]))
                x[i] = s if unitriangular else binop('div', s, L[i, i])
            for i in x:
                out[pos + (i, c)] = coerce(x[i], 'f')
    return SymTensor.mk(SymArray.wrap(out, A.a._d), A.dtype)


def t_softmax(a, dim=None, *x, **k):
    a = lift(a)
    e = _apply('exp', (a.a,))
    return SymTensor.mk(e / symnp.np_sum(e, axis=dim, keepdims=True), a.dtype)


def t_log_softmax(a, dim=None, *x, **k):
    return unary('log')(t_softmax(a, dim))


def t_logsumexp(a, dim, keepdim=False, **k):
    a = lift(a)
    return SymTensor.mk(_nd(_apply('log', (symnp.np_sum(_apply('exp', (a.a,)), axis=dim, keepdims=keepdim),))), a.dtype)


def t_relu(a, inplace=False):
    a = lift(a)
    return SymTensor.mk(_nd(_apply('maximum', (a.a, 0))), a.dtype)


def t_softplus(a, *x, **k):
    a = lift(a)
    return SymTensor.mk(_nd(_apply('log', (_apply('add', (1.0, _apply('exp', (a.a,)))),))), a.dtype)


def t_sigmoid(a):
    a = lift(a)
    e = _apply('exp', (_apply('negative', (a.a,)),))
    return SymTensor.mk(_nd(_apply('divide', (1.0, _apply('add', (1.0, e))))), a.dtype)


def t_mse_loss(x, y, size_average=None, reduce=None, reduction='mean', **kw):
    d = binary('sub')(x, y)
    s = binary('mul')(d, d)
    return {'mean': reductions['mean'], 'sum': reductions['sum'], 'none': lambda v: v}[reduction](s)


def t_smooth_l1(x, y, size_average=None, reduce=None, reduction='mean', beta=1.0, **kw):
    x, y = lift(x), lift(y)
    d = _apply('absolute', (x.a - y.a,))
    r = symnp.np_where(d < beta, 0.5 * d * d / beta, d - 0.5 * beta)
    s = SymTensor.mk(_nd(r), x.dtype)
    return {'mean': reductions['mean'], 'sum': reductions['sum'], 'none': lambda v: v}[reduction](s)


def t_linear(x, w, b=None):
    r = t_matmul(x, t_transpose(w, 0, 1))
    return r if b is None else binary('add')(r, b)


def t_all_true(a):
    a = lift(a)
    return SymTensor.mk(_nd(symnp.np_all(a.a)), torch.bool)


def t_index_put(a, idx, v, accumulate=False):
    if accumulate:
        raise Unsupported('index_put accumulate')
    t_setitem(a, tuple(idx), v)
    return a


def t_scatter_(a, dim, index, src, reduce=None):
    index = lift(index)
    ii = np.asarray(symnp._norm_index(index.a, index.a)).reshape(index.a.shape)
    for pos in np.ndindex(*ii.shape):
        p = list(pos)
        p[dim] = int(ii[pos])
        v = src if is_scalar(src) else base(lift(src).a)[pos]
        base(a.a)[tuple(p)] = coerce(v, a.a._k)
    return a


def t_index_add_(a, dim, index, src, alpha=1):
    index = lift(index)
    ii = np.asarray(symnp._norm_index(index.a, index.a)).reshape(-1)
    b = np.moveaxis(base(a.a), dim, 0)
    s = np.moveaxis(base(lift(src).a), dim, 0)
    for n, i in enumerate(ii):
        if b.ndim == 1:
            b[i] = binop('add', b[i], binop('mul', alpha, s[n]))
        else:
            for p in np.ndindex(*b.shape[1:]):
                b[(i,) + p] = binop('add', b[(i,) + p], binop('mul', alpha, s[(n,) + p]))
    return a


def t_scatter_add_(a, dim, index, src):
    index = lift(index)
    ii = np.asarray(symnp._norm_index(index.a, index.a)).reshape(index.a.shape)
    for pos in np.ndindex(*ii.shape):
        p = list(pos)
        p[dim] = int(ii[pos])
        base(a.a)[tuple(p)] = binop('add', base(a.a)[tuple(p)], base(lift(src).a)[pos])
    return a


def t_copy_(a, src, *x, **k):
    v = lift(src).a if isinstance(src, torch.Tensor) else src
    return write(a, SymTensor.mk(SymArray.make(v).astype(a.a._d), a.dtype))


def t_fill_(a, v):
    return write(a, SymTensor.mk(symnp.full_sym(a.a.shape, v if is_scalar(v) else t_item(v), a.a._d), a.dtype))


def t_zero_(a):
    return t_fill_(a, 0)


def t_normal_(a, mean=0.0, std=1.0, **k):
    st = engine().rng
    return write(a, SymTensor.mk(_nd(st.normal(mean, std, a.a.shape)), a.dtype))


def t_uniform_(a, low=0.0, high=1.0, **k):
    st = engine().rng
    low, high = k.get('from', low), k.get('to', high)
    return write(a, SymTensor.mk(_nd(st.uniform(low, high, a.a.shape)), a.dtype))


def t_random_unsupported(*a, **k):
    raise Unsupported('random in-place method')


def t_sort(a, dim=-1, descending=False, **k):
    a = lift(a)
    i = symnp.np_argsort(a.a, dim)
    v = symnp.np_take_along_axis(a.a, i, dim)
    if descending:
        i, v = np.flip(i, dim), np.flip(v, dim)
    return _VI((SymTensor.mk(v, a.dtype), SymTensor.mk(i, torch.int64)))


def t_median(a, *args, **kw):
    a = lift(a)
    if args or kw:
        raise Unsupported('median dim')
    s = symnp._sorted(list(base(a.a).flat))
    return SymTensor.mk(_nd(s[(len(s) - 1) // 2]), a.dtype)


def t_quantile(a, q, dim=None, keepdim=False, interpolation='linear', **kw):
    a = lift(a)
    q = t_item(q) if not is_scalar(q) else q
    if interpolation != 'linear':
        raise Unsupported('quantile interpolation')
    return SymTensor.mk(_nd(symnp.np_quantile(a.a, q, dim, keepdims=keepdim)), a.dtype)


def t_nan_to_num(a, nan=0.0, posinf=None, neginf=None):
    a = lift(a)
    return SymTensor.mk(_nd(symnp.np_nan_to_num(a.a, nan=nan or 0.0)), a.dtype)


def t_einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    ops = [lift(o) for o in ops]
    return SymTensor.mk(_nd(symnp.np_einsum(eq, *[o.a for o in ops])), ops[0].dtype)


def t_equal(a, b):
    return bool(symnp.np_array_equal(lift(a).a, lift(b).a))


def t_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(symnp.np_allclose(lift(a).a, lift(b).a, rtol, atol))


def t_backward(a, *x, **k):
    hook = getattr(engine(), 'on_backward', None)
    if hook:
        hook(a.clone())         # as it is now: the loss may be modified in place afterwards
    return None


def t_norm(a, p='fro', dim=None, keepdim=False, **kw):
    a = lift(a)
    return SymTensor.mk(_nd(symnp.la_norm(a.a if dim is not None else a.a.reshape(-1), None if p in ('fro', 2) else p,
                                         dim, keepdim)), a.dtype)


def t_atleast(n):
    f = {1: np.atleast_1d, 2: np.atleast_2d, 3: np.atleast_3d}[n]

    def g(*ts):
        if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
            ts = ts[0]
        r = [SymTensor.mk(SymArray.wrap(f(base(lift(t).a)), lift(t).a._d), t.dtype) for t in ts]
        return r[0] if len(r) == 1 else tuple(r)
    return g


def t_kl(*a, **k):
    raise Unsupported('kl')


def t_addcmul(a, x, y, value=1):
    return binary('add')(a, binary('mul')(binary('mul')(x, y), value))


def t_lerp(a, b, w):
    return binary('add')(a, binary('mul')(w, binary('sub')(b, a)))


def t_cumsum(a, dim, **kw):
    a = lift(a)
    return SymTensor.mk(symnp.np_cumsum(a.a, dim), a.dtype)


def t_cumprod(a, dim, **kw):
    a = lift(a)
    return SymTensor.mk(symnp.np_cumprod(a.a, dim), a.dtype)


def t_flip(a, *dims, **kw):
    a = lift(a)
    return SymTensor.mk(SymArray.wrap(np.flip(base(a.a), _shape_args(dims)).copy(), a.a._d), a.dtype)


def t_split(a, n, dim=0):
    a = lift(a)
    sizes = n if isinstance(n, (list, tuple)) else None
    L = a.a.shape[dim]
    if sizes is None:
        sizes = [n] * (L // n) + ([L % n] if L % n else [])
    out, p = [], 0
    for s in sizes:
        sl = (slice(None),) * (dim % a.a.ndim) + (slice(p, p + s),)
        out.append(SymTensor.mk(a.a[sl], a.dtype))
        p += s
    return tuple(out)


def _fl(a):
    return a.dtype if a.dtype.is_floating_point else torch.get_default_dtype()


def _sm(a):
    return torch.int64 if not a.dtype.is_floating_point else a.dtype


reductions = {
    'sum': reduction(symnp.np_sum, _sm), 'mean': reduction(symnp.np_mean, _fl), 'prod': reduction(symnp.np_prod, _sm),
    'any': reduction(symnp.np_any, lambda a: torch.bool), 'all': reduction(symnp.np_all, lambda a: torch.bool),
    'amax': reduction(symnp.np_max), 'amin': reduction(symnp.np_min),
    'argmax': reduction(symnp.np_argmax, lambda a: torch.int64),
    'argmin': reduction(symnp.np_argmin, lambda a: torch.int64),
}

F = {}
for n, op in (('add', 'add'), ('sub', 'sub'), ('subtract', 'sub'), ('mul', 'mul'), ('multiply', 'mul'), ('div', 'div'),
              ('divide', 'div'), ('true_divide', 'div'), ('floor_divide', 'floordiv'), ('remainder', 'mod'),
              ('pow', 'pow'), ('lt', 'lt'), ('le', 'le'), ('gt', 'gt'), ('ge', 'ge'), ('eq', 'eq'), ('ne', 'ne'),
              ('less', 'lt'), ('less_equal', 'le'), ('greater', 'gt'), ('greater_equal', 'ge'), ('not_equal', 'ne'),
              ('bitwise_and', 'and'), ('bitwise_or', 'or'), ('bitwise_xor', 'xor')):
    F[n] = binary(op)
    F[n + '_'] = inplace(F[n])
for n, op in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('div', 'div'),
              ('floordiv', 'floordiv'), ('mod', 'mod'), ('pow', 'pow'), ('and', 'and'), ('or', 'or'), ('xor', 'xor')):
    F['__%s__' % n] = binary(op)
    F['__r%s__' % n] = rbinary(op)
    F['__i%s__' % n] = inplace(binary(op))
F['rsub'] = rbinary('sub')
for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    F['__%s__' % n] = binary(n)
for n, u, fl in (('neg', 'negative', 0), ('negative', 'negative', 0), ('__neg__', 'negative', 0), ('abs', 'absolute', 0),
                 ('absolute', 'absolute', 0), ('__abs__', 'absolute', 0), ('exp', 'exp', 1), ('log', 'log', 1),
                 ('sqrt', 'sqrt', 1), ('square', 'square', 0), ('sign', 'sign', 0), ('sin', 'sin', 1), ('cos', 'cos', 1),
                 ('tan', 'tan', 1), ('tanh', 'tanh', 1), ('arctan', 'arctan', 1), ('atan', 'arctan', 1),
                 ('floor', 'floor', 0), ('ceil', 'ceil', 0), ('isnan', 'isnan', 0), ('isinf', 'isinf', 0),
                 ('isfinite', 'isfinite', 0), ('logical_not', 'logical_not', 0), ('__invert__', 'invert', 0),
                 ('bitwise_not', 'invert', 0), ('log1p', 'log1p', 1), ('atanh', 'arctanh', 1), ('arctanh', 'arctanh', 1),
                 ('reciprocal', 'reciprocal', 1), ('expm1', 'expm1', 1), ('log2', 'log2', 1)):
    F[n] = unary(u, bool(fl))
    F[n + '_'] = inplace(F[n])
for n in ('logical_and', 'logical_or', 'logical_xor'):
    F[n] = (lambda nm: lambda a, b, out=None: SymTensor.mk(_nd(_apply(nm, (_val(lift(a)), _val(lift(b))))), torch.bool))(n)
F.update(reductions)
F.update({
    'max': maxmin(symnp.np_max, symnp.np_argmax, elem2('maximum')),
    'min': maxmin(symnp.np_min, symnp.np_argmin, elem2('minimum')),
    'maximum': elem2('maximum'), 'minimum': elem2('minimum'), 'fmax': elem2('maximum'), 'fmin': elem2('minimum'),
    'std': t_std, 'var': t_var, 'reshape': t_reshape, 'view': t_reshape, 'squeeze': t_squeeze,
    'unsqueeze': t_unsqueeze, 'transpose': t_transpose, 'swapaxes': t_transpose, 'permute': t_permute,
    'expand': t_expand, 'repeat': t_repeat, 'tile': t_repeat, 'repeat_interleave': t_repeat_interleave,
    'flatten': t_flatten, 'ravel': t_flatten, 'cat': t_cat, 'concat': t_cat, 'concatenate': t_cat, 'stack': t_stack,
    '__getitem__': t_getitem, '__setitem__': t_setitem, 'gather': t_gather, 'index_select': t_index_select,
    'where': t_where, 'clamp': t_clamp, 'clip': t_clamp, 'clamp_': inplace(t_clamp), 'clip_': inplace(t_clamp),
    'clamp_min': lambda a, m: t_clamp(a, min=m), 'clamp_max': lambda a, m: t_clamp(a, max=m),
    'to': t_to, 'type': t_to, 'float': t_type(torch.float32), 'double': t_type(torch.float64),
    'int': t_type(torch.int32), 'long': t_type(torch.int64), 'bool': t_type(torch.bool),
    'type_as': lambda a, b: t_to(a, b.dtype),
    'cpu': lambda a, *x, **k: lift(a), 'cuda': lambda a, *x, **k: lift(a), 'contiguous': lambda a, **k: lift(a),
    'detach': lambda a: SymTensor.mk(lift(a).a, a.dtype), 'detach_': lambda a: a,
    'requires_grad_': lambda a, *x: a, 'data': lambda a: a, 'retain_grad': lambda a: None,
    'matmul': t_matmul, '__matmul__': t_matmul, '__rmatmul__': lambda a, b: t_matmul(b, a), 'mm': t_matmul,
    'mv': t_matmul, 'bmm': t_matmul, 'dot': t_matmul, 'inner': t_matmul,
    'outer': lambda a, b: t_matmul(t_unsqueeze(a, 1), t_unsqueeze(b, 0)),
    't': lambda a: t_transpose(a, 0, 1) if lift(a).a.ndim == 2 else lift(a),
    'numpy': t_numpy, 'clone': t_clone, 'item': t_item, 'tolist': lambda a: lift(a).a.tolist(), '__iter__': t_iter,
    'unbind': t_unbind, '__len__': lambda a: len(lift(a).a), 'numel': lambda a: lift(a).a.size,
    'nelement': lambda a: lift(a).a.size,
    'diag': t_diag, 'diag_embed': t_diag_embed, 'diagonal': t_diagonal, 'tril': t_tri(np.tril), 'triu': t_tri(np.triu),
    'linalg_cholesky': t_cholesky, 'cholesky': t_cholesky, 'linalg_solve_triangular': t_solve_triangular,
    'linalg_inv': lambda a: SymTensor.mk(symnp.la_inv(lift(a).a), a.dtype),
    'inverse': lambda a: SymTensor.mk(symnp.la_inv(lift(a).a), a.dtype),
    'softmax': t_softmax, 'log_softmax': t_log_softmax, 'logsumexp': t_logsumexp, 'relu': t_relu,
    'softplus': t_softplus, 'sigmoid': t_sigmoid, 'mse_loss': t_mse_loss, 'smooth_l1_loss': t_smooth_l1,
    'linear': t_linear, '_is_all_true': t_all_true, 'index_put_': t_index_put, 'scatter_': t_scatter_,
    'index_add_': t_index_add_, 'scatter_add_': t_scatter_add_, 'copy_': t_copy_, 'fill_': t_fill_, 'zero_': t_zero_,
    'normal_': t_normal_, 'uniform_': t_uniform_, 'exponential_': t_random_unsupported, 'random_': t_random_unsupported,
    'bernoulli_': t_random_unsupported, 'cauchy_': t_random_unsupported, 'log_normal_': t_random_unsupported,
    'sort': t_sort, 'argsort': lambda a, *x, **k: t_sort(a, *x, **k)[1], 'median': t_median, 'quantile': t_quantile,
    'nan_to_num': t_nan_to_num, 'einsum': t_einsum, 'equal': t_equal, 'allclose': t_allclose, 'backward': t_backward,
    'norm': t_norm, 'linalg_norm': lambda a, *x, **k: t_norm(a, dim=k.get('dim'), keepdim=k.get('keepdim', False)),
    'linalg_vector_norm': lambda a, *x, **k: t_norm(a, dim=k.get('dim'), keepdim=k.get('keepdim', False)),
    'atleast_1d': t_atleast(1), 'atleast_2d': t_atleast(2), 'atleast_3d': t_atleast(3), 'addcmul': t_addcmul,
    'lerp': t_lerp, 'cumsum': t_cumsum, 'cumprod': t_cumprod, 'flip': t_flip, 'split': t_split,
    'dim': lambda a: lift(a).a.ndim, 'ndimension': lambda a: lift(a).a.ndim,
    'size': lambda a, d=None, dim=None: torch.Size(lift(a).a.shape) if d is None and dim is None
    else lift(a).a.shape[d if d is not None else dim],
    '__bool__': lambda a: bool(lift(a).a), '__nonzero__': lambda a: bool(lift(a).a),
    '__int__': lambda a: int(lift(a).a), '__index__': lambda a: lift(a).a.item().__index__(),
    '__float__': lambda a: float(lift(a).a),
    '__contains__': lambda a, v: bool(symnp.np_any(symnp.array_binop('eq', lift(a).a, _val(lift(v))))),
    'argwhere': lambda a: SymTensor.mk(symnp.np_argwhere(lift(a).a), torch.int64),
    'nonzero': lambda a, as_tuple=False: t_where(a) if as_tuple else
    SymTensor.mk(symnp.np_argwhere(lift(a).a), torch.int64),
    'is_floating_point': lambda a: a.dtype.is_floating_point, 'is_complex': lambda a: False,
    'is_tensor': lambda a: True, 'element_size': lambda a: 4, 'is_contiguous': lambda a, **k: True,
    '__deepcopy__': lambda a, memo: SymTensor.mk(a.a.copy(), a.dtype), 'is_nonzero': lambda a: bool(lift(a).a),
    '__hash__': lambda a: id(a), '__repr__': lambda a, **k: 'SymTensor', '__format__': lambda a, s: 'SymTensor',
    'register_hook': lambda a, *x: None, 'is_same_size': lambda a, b: a.a.shape == b.a.shape,
    'masked_fill': lambda a, m, v: t_where(m, v, a), 'masked_fill_': lambda a, m, v: write(a, t_where(m, v, a)),
    'new_zeros': lambda a, *s, **k: SymTensor.mk(symnp.full_sym(_shape_args(s), 0, a.a._d), k.get('dtype', a.dtype)),
    'new_ones': lambda a, *s, **k: SymTensor.mk(symnp.full_sym(_shape_args(s), 1, a.a._d), k.get('dtype', a.dtype)),
    'index_copy_': None, 'count_nonzero': lambda a, *x: SymTensor.mk(_nd(symnp.np_count_nonzero(lift(a).a))),
})

def _b(a, fn):
    """shape-only operation on the underlying array"""
    a = lift(a)
    return SymTensor.mk(SymArray.wrap(fn(base(a.a)), a.a._d), a.dtype)


def t_broadcast_tensors(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    sh = np.broadcast_shapes(*[tuple(t.shape) for t in ts])
    return tuple(t_expand(t, *sh) for t in ts)


def t_select(a, dim, index):
    a = lift(a)
    return t_getitem(a, (slice(None),) * (dim % a.a.ndim) + (index,))


def t_narrow(a, dim, start, length):
    a = lift(a)
    return t_getitem(a, (slice(None),) * (dim % a.a.ndim) + (slice(int(start), int(start) + int(length)),))


def t_chunk(a, chunks, dim=0):
    n = lift(a).a.shape[dim]
    return t_split(a, -(-n // chunks), dim)


def t_roll(a, shifts, dims=None):
    return _b(a, lambda b: np.roll(b, shifts, dims))


def t_stackers(dim1, at):
    def f(ts, **k):
        ts = [t_atleast(at)(t) for t in ts]
        return t_cat(ts, dim=0 if at == 1 and ts[0].dim() == 1 else dim1)
    return f


def t_masked_select(a, m):
    return t_getitem(a, m)


def t_take_along_dim(a, i, dim=None):
    return t_gather(a, dim, i) if dim is not None else t_gather(t_reshape(a, -1), 0, t_reshape(i, -1))


def t_one_hot(a, num_classes=-1):
    a = lift(a)
    if num_classes < 0:
        raise Unsupported('one_hot without num_classes')
    return t_to(F['eq'](t_unsqueeze(a, -1), FACT['arange'](num_classes)), torch.int64)


def t_huber_loss(a, b, reduction='mean', delta=1.0, **k):
    d = F['sub'](a, b)
    d = F['abs'](d)
    v = t_where(F['lt'](d, delta), F['mul'](F['mul'](d, d), 0.5), F['mul'](F['sub'](d, 0.5 * delta), delta))
    return F['mean'](v) if reduction == 'mean' else F['sum'](v) if reduction == 'sum' else v


def t_l1_loss(a, b, reduction='mean', **k):
    v = F['abs'](F['sub'](a, b))
    return F['mean'](v) if reduction == 'mean' else F['sum'](v) if reduction == 'sum' else v


def t_topk(a, k, dim=-1, largest=True, sorted=True):
    v, i = t_sort(a, dim, descending=largest)
    return _VI((t_narrow(v, dim, 0, k), t_narrow(i, dim, 0, k)))


def t_diff(a, n=1, dim=-1, **k):
    for _ in range(n):
        m = lift(a).a.shape[dim]
        a = F['sub'](t_narrow(a, dim, 1, m - 1), t_narrow(a, dim, 0, m - 1))
    return a


F.update({
    'broadcast_tensors': t_broadcast_tensors, 'broadcast_to': lambda a, sh: t_expand(a, *sh),
    'expand_as': lambda a, b: t_expand(a, *b.shape), 'view_as': lambda a, b: t_reshape(a, *b.shape),
    'reshape_as': lambda a, b: t_reshape(a, *b.shape), 'chunk': t_chunk, 'select': t_select, 'narrow': t_narrow,
    'movedim': lambda a, x, y: _b(a, lambda b: np.moveaxis(b, x, y)), 'roll': t_roll,
    'swapdims': t_transpose, 'rsqrt': lambda a: F['div'](1.0, F['sqrt'](a)),
    'addmm': lambda c, a, b, beta=1, alpha=1: F['add'](F['mul'](c, beta), F['mul'](t_matmul(a, b), alpha)),
    'addmv': lambda c, a, b, beta=1, alpha=1: F['add'](F['mul'](c, beta), F['mul'](t_matmul(a, b), alpha)),
    'baddbmm': lambda c, a, b, beta=1, alpha=1: F['add'](F['mul'](c, beta), F['mul'](t_matmul(a, b), alpha)),
    'addcdiv': lambda c, a, b, value=1: F['add'](c, F['mul'](F['div'](a, b), value)),
    'vdot': t_matmul, 'ger': lambda a, b: t_matmul(t_unsqueeze(a, 1), t_unsqueeze(b, 0)),
    'trace': lambda a: F['sum'](t_diagonal(a)), 'hstack': t_stackers(1, 1), 'vstack': t_stackers(0, 2),
    'row_stack': t_stackers(0, 2), 'masked_select': t_masked_select, 'take_along_dim': t_take_along_dim,
    'fliplr': lambda a: t_flip(a, 1), 'flipud': lambda a: t_flip(a, 0), 'one_hot': t_one_hot,
    'huber_loss': t_huber_loss, 'l1_loss': t_l1_loss, 'topk': t_topk, 'diff': t_diff,
    'std_mean': lambda a, *x, **k: (t_std(a, *x, **k), F['mean'](a, *x[:1], **{q: v for q, v in k.items() if q in ('dim', 'keepdim')})),
    'aminmax': lambda a, dim=None, keepdim=False: (F['amin'](a, dim, keepdim), F['amax'](a, dim, keepdim)) if dim is not None
    else (F['min'](a), F['max'](a)),
    'new_tensor': lambda a, d, **k: f_as_tensor(d, dtype=k.get('dtype', a.dtype)),
    'new_full': lambda a, s, v, **k: f_full(s, v, dtype=k.get('dtype', a.dtype)),
    'new_empty': lambda a, *s, **k: F['new_zeros'](a, *s, **k),
    'hardtanh': lambda a, min_val=-1.0, max_val=1.0, **k: t_clamp(a, min_val, max_val),
    'leaky_relu': lambda a, negative_slope=0.01, **k: t_where(F['gt'](a, 0), a, F['mul'](a, negative_slope)),
})

# ---- factories ----------------------------------------------------------------------------------------------------------


def _fdt(dtype):
    return torch.get_default_dtype() if dtype is None else dtype


def _poison(dt):
    from .patch import POISON
    return POISON[kind_of_dtype(dt)]


def _fact(value):
    def f(*size, dtype=None, device=None, out=None, requires_grad=False, **kw):
        if 'size' in kw:
            size = (kw['size'],)
        dt = _fdt(dtype)
        v = _poison(dt) if value is None else value
        return SymTensor.mk(symnp.full_sym(_shape_args(size) if size else (), v, npd(dt)), dt)
    return f


def _flike(value):
    def f(a, dtype=None, device=None, **kw):
        a = lift(a)
        dt = dtype or a.dtype
        v = _poison(dt) if value is None else value
        return SymTensor.mk(symnp.full_sym(a.a.shape, v, npd(dt)), dt)
    return f


def f_tensor(data, dtype=None, device=None, requires_grad=False, **kw):
    share = kw.get('_share', False)
    if isinstance(data, torch.Tensor):
        d = lift(data)
        if dtype is not None and dtype != d.dtype:
            return SymTensor.mk(d.a.astype(npd(dtype)), dtype)
        return d if share else SymTensor.mk(d.a.copy(), d.dtype)
    if isinstance(data, np.ndarray):
        if not isinstance(data, SymArray):
            if data.dtype.kind not in 'fiub':
                raise TypeError("can't convert np.ndarray of type %s" % data.dtype)
            a = SymArray.make(data)
        else:
            a = data if share else data.copy()
        return SymTensor.mk(a, dtype)
    if is_scalar(data):
        k = kind_of(data)
        dt = dtype or (torch.get_default_dtype() if k == 'f' else _KD[k])
        if isinstance(data, np.floating) and dtype is None:
            dt = torch.float64 if data.dtype == np.float64 else torch.float32
        return SymTensor.mk(SymArray.make(data, npd(dt)), dt)
    # sequences: python floats -> default dtype; numpy scalars/arrays inside keep float64 (as torch infers)
    a = SymArray.make(data)
    if dtype is None:
        first = data
        while isinstance(first, (list, tuple)) and len(first):
            first = first[0]
        if a._k == 'f' and not isinstance(first, (np.generic, np.ndarray)):
            dtype = torch.get_default_dtype()
            if isinstance(first, torch.Tensor):
                dtype = first.dtype if first.dtype.is_floating_point else dtype
    return SymTensor.mk(a, dtype)


def f_as_tensor(data, dtype=None, device=None):
    return f_tensor(data, dtype, _share=True)


def f_from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError('expected np.ndarray (got %s)' % type(a).__name__)
    return f_tensor(a, _share=True)


def f_full(size, fill_value, dtype=None, device=None, **kw):
    k = kind_of(fill_value)
    dt = dtype or (torch.get_default_dtype() if k == 'f' else _KD[k])
    return SymTensor.mk(symnp.full_sym(_shape_args((size,)), fill_value, npd(dt)), dt)


def f_arange(*a, dtype=None, device=None, **kw):
    if has_sym(a):
        raise Unsupported('arange with symbolic bounds')
    with torch._C.DisableTorchFunction():
        t = torch.arange(*[symnp.concrete(x) if not isinstance(x, np.generic) else x.item() for x in a], dtype=dtype, **kw)
    return lift(t)


def f_conc(func):
    def f(*a, **k):
        k.pop('device', None)
        with torch._C.DisableTorchFunction():
            t = func(*a, **k)
        return lift(t)
    return f


def _rs(args, kw):
    size = kw.get('size', args)
    return _shape_args(size) if size != () else ()


def f_rand(*size, dtype=None, device=None, generator=None, **kw):
    st = engine().rng
    return SymTensor.mk(_nd(st.uniform(0.0, 1.0, _rs(size, kw))), _fdt(dtype))


def f_randn(*size, dtype=None, device=None, generator=None, **kw):
    st = engine().rng
    return SymTensor.mk(_nd(st.normal(0.0, 1.0, _rs(size, kw))), _fdt(dtype))


def f_randint(*a, dtype=None, device=None, generator=None, **kw):
    low = 0
    if 'low' in kw:
        low = kw['low']
    size = kw.get('size')
    high = kw.get('high')
    a = list(a)
    if size is None and a and isinstance(a[-1], (tuple, list, torch.Size)):
        size = a.pop()
    if len(a) == 2:
        low, high = a
    elif len(a) == 1:
        high = a[0]
    st = engine().rng
    return SymTensor.mk(_nd(st.randint(low, high, tuple(size))), dtype or torch.int64)


def f_randperm(n, dtype=None, device=None, **kw):
    st = engine().rng
    return SymTensor.mk(_nd(st.permutation(int(n))), dtype or torch.int64)


def f_normal(mean=0.0, std=1.0, size=None, generator=None, out=None, **kw):
    st = engine().rng
    if isinstance(mean, torch.Tensor) or isinstance(std, torch.Tensor):
        shp = np.broadcast_shapes(tuple(mean.shape) if isinstance(mean, torch.Tensor) else (),
                                  tuple(std.shape) if isinstance(std, torch.Tensor) else ())
        z = SymTensor.mk(_nd(st.normal(0.0, 1.0, shp)), torch.get_default_dtype())
        return binary('add')(mean, binary('mul')(std, z))
    return SymTensor.mk(_nd(st.normal(mean, std, _shape_args((size,)))), torch.get_default_dtype())


def f_multinomial(p, n, replacement=False, **kw):
    p = lift(p)
    st = engine().rng
    if n > 1 and not replacement:
        raise Unsupported('multinomial without replacement')
    rows = p.a if p.a.ndim == 2 else p.a.reshape(1, -1)
    out = []
    for r in rows:
        prev = []
        row = []
        for _ in range(n):
            i = st.index(len(r), [None if (not isinstance(x, Sym)) and x > 0 else binop('gt', x, 0) for x in r], r)
            row.append(i)
        out.append(row)
    o = SymArray.make(out, int)
    return SymTensor.mk(o if p.a.ndim == 2 else o[0], torch.int64)


def f_bernoulli(p, *a, **k):
    p = lift(p)
    st = engine().rng
    return SymTensor.mk(_nd(st.integers01(p.a.shape)), p.dtype)


FACT = {
    'zeros': _fact(0), 'ones': _fact(1), 'empty': _fact(None), 'zeros_like': _flike(0), 'ones_like': _flike(1),
    'empty_like': _flike(None), 'full': f_full, 'tensor': f_tensor, 'as_tensor': f_as_tensor, 'asarray': f_as_tensor,
    'from_numpy': f_from_numpy, 'arange': f_arange, 'linspace': f_conc(torch.linspace), 'eye': f_conc(torch.eye),
    'tril_indices': f_conc(torch.tril_indices), 'triu_indices': f_conc(torch.triu_indices),
    'rand': f_rand, 'randn': f_randn, 'randint': f_randint, 'randperm': f_randperm, 'normal': f_normal,
    'full_like': lambda a, v, **k: _flike(v)(a, **k),
    'rand_like': lambda a, **k: f_rand(*lift(a).a.shape), 'randn_like': lambda a, **k: f_randn(*lift(a).a.shape),
    'multinomial': f_multinomial, 'bernoulli': f_bernoulli,
}

_PASS_GET = {'dtype', 'device', 'layout', 'is_cuda', 'requires_grad', 'is_sparse', 'is_leaf', 'grad_fn', 'is_mps',
             'is_quantized', 'is_meta', 'names', '_version', 'output_nr', 'is_nested', 'is_mkldnn', '_backward_hooks'}


def dispatch(func, args, kwargs):
    name = getattr(func, '__name__', str(func))
    if name == '__get__':
        owner = getattr(func.__self__, '__name__', '')
        t = args[0]
        if owner in ('shape',):
            return torch.Size(lift(t).a.shape)
        if owner == 'T' or owner == 'mT':
            b = base(lift(t).a)
            b = b.T if owner == 'T' else np.swapaxes(b, -1, -2)
            return SymTensor.mk(SymArray.wrap(b, lift(t).a._d), t.dtype)
        if owner == 'ndim':
            return lift(t).a.ndim
        if owner in ('data', 'real'):
            return SymTensor.mk(lift(t).a, t.dtype)
        if owner == 'grad':
            return getattr(t, '_grad_sym', None)
        with torch._C.DisableTorchFunction():
            return func(*args, **kwargs)
    if name == '__set__':
        owner = getattr(func.__self__, '__name__', '')
        if owner == 'data':
            t, v = args
            v = lift(v)
            if isinstance(t, SymTensor):
                t.__dict__['a'] = v.a
                return
            raise Unsupported('data of a concrete tensor set to symbolic')
        if owner == 'grad':
            args[0].__dict__['_grad_sym'] = args[1]
            return
        with torch._C.DisableTorchFunction():
            return func(*args, **kwargs)
    f = F.get(name)
    if f is None:
        f = FACT.get(name)
    if f is not None:
        if 'axis' in kwargs and 'dim' not in kwargs:
            kwargs = dict(kwargs)
            kwargs['dim'] = kwargs.pop('axis')
        if 'keepdims' in kwargs:
            kwargs = dict(kwargs)
            kwargs['keepdim'] = kwargs.pop('keepdims')
        return f(*args, **kwargs)
    if not has_sym(args) and not has_sym(kwargs):
        a = symnp.concrete(tuple(args))
        k = symnp.concrete(dict(kwargs))
        with torch._C.DisableTorchFunction():
            r = func(*a, **k)
        if isinstance(r, torch.Tensor):
            return lift(r)
        if isinstance(r, tuple) and type(r) is tuple:
            return tuple(lift(x) if isinstance(x, torch.Tensor) else x for x in r)
        return r
    raise Unsupported('torch function %s on symbolic values' % name)


def _methods():
    """methods as python functions: the C argument parser of torch would reject symbolic scalars"""
    def make(f):
        def m(self, *args, **kwargs):
            return dispatch(f, (self,) + args, kwargs)
        m.__name__ = f.__name__
        return m
    for n in list(F):
        f = getattr(torch.Tensor, n, None)
        if F[n] is not None and not n.startswith('__') and callable(f) and getattr(f, '__name__', None) == n:
            setattr(SymTensor, n, make(f))


_methods()


class Mode(TorchFunctionMode):
    """active during symbolic runs: factories and anything touching a SymTensor"""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, '__name__', '')
        if name in FACT and getattr(torch, name, None) is func or name in ('randn_like', 'rand_like'):
            return FACT[name](*args, **kwargs)
        if _any_sym(args) or _any_sym(kwargs.values()):
            return dispatch(func, args, kwargs)
        return func(*args, **kwargs)


def _any_sym(xs):
    for x in xs:
        if isinstance(x, (SymTensor, Sym, SymArray)):
            return True
        if isinstance(x, (list, tuple)) and _any_sym(x):
            return True
    return False
