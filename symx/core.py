"""
Path exploration and symbolic scalars.

The code under test runs unmodified in CPython.  Inputs are `Sym` objects that wrap z3 terms; arithmetic builds terms,
and `bool(sym)` asks the solver which outcomes are feasible under the current path condition and explores both by
re-execution (depth-first).  Floating point numbers are modelled as mathematical reals (stated in the evidence).
"""
import time
from fractions import Fraction
import math
import random
import numpy as np
import numbers
import z3


class Unsupported(Exception):
    """The symbolic interpreter cannot encode an operation on this path."""


class PathAbort(BaseException):
    """The current path ends here (infeasible or cut)."""


class BudgetExceeded(BaseException):
    pass


_ENGINE = None


def engine():
    return _ENGINE


def sym_active():
    return _ENGINE is not None and _ENGINE.symbolic


_pow2 = {}


def to_frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    return Fraction(float(v))


def real_val(v):
    f = to_frac(v)
    return z3.RealVal(f) if f.denominator != 1 else z3.RealVal(f.numerator)


def is_special(v):
    """concrete +-inf / nan"""
    if isinstance(v, (float, np.floating)):
        return not math.isfinite(v)
    return False


_NUM = (int, float, bool, np.integer, np.floating, np.bool_, Fraction)


class Sym(object):
    """A symbolic scalar.  kind: 'f' (real), 'i' (integer), 'b' (boolean)."""
    __slots__ = ('t', 'k')
    __array_priority__ = 1e6
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t, k):
        self.t = t
        self.k = k

    # ---- structural API mimicking numpy scalars -------------------------------------------------
    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool)}[self.k]

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self, *a):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return _from_token, (token_of(self),)

    def __hash__(self):
        return hash(self.t)

    def astype(self, dt, **kw):
        return coerce(self, kind_of_dtype(dt))

    def tolist(self):
        return self

    def _arr(self):
        from .symnp import SymArray
        return SymArray.make(self)

    def squeeze(self, *a, **k):
        return self

    def reshape(self, *shape, **kw):
        return self._arr().reshape(*shape, **kw)

    def ravel(self, *a):
        return self._arr().ravel()

    flatten = ravel

    def sum(self, *a, **k):
        return coerce(self, 'i') if self.k == 'b' else self

    def mean(self, *a, **k):
        return coerce(self, 'f')

    def max(self, *a, **k):
        return self
    min = max

    def any(self, *a, **k):
        return truth(self)
    all = any

    def dot(self, o):
        return self * o

    def clip(self, lo=None, hi=None, **kw):
        r = self
        if hi is not None:
            r = smin(r, hi)
        if lo is not None:
            r = smax(r, lo)
        return r

    def is_integer(self):
        return SymBool(z3.IsInt(as_real(self)))

    def __getitem__(self, k):
        if k is Ellipsis or k == ():
            return self
        if k is None or (isinstance(k, tuple) and all(x is None or x is Ellipsis for x in k)):
            return self._arr()[k]
        raise IndexError('invalid index to scalar variable.')

    # ---- numpy protocol ----------------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from .symnp import do_ufunc
        return do_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from .symnp import do_array_function
        return do_array_function(func, types, args, kwargs)

    # ---- conversion to concrete --------------------------------------------------------------------
    def __bool__(self):
        return engine().branch(truth(self))

    def __index__(self):
        if self.k == 'b':
            return int(bool(self))
        if self.k == 'i':
            return engine().concretize_int(self.t)
        raise TypeError("only integer scalars can be converted to an index")

    def __int__(self):
        return engine().concretize_int(trunc_term(self))

    def __float__(self):
        # would lose the symbolic value
        raise Unsupported('float() of a symbolic value')

    def __round__(self, n=None):
        raise Unsupported('round')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<sym %s>' % self.k

    __str__ = __repr__

    # ---- arithmetic ----------------------------------------------------------------------------------
    def __add__(self, o): return binop('add', self, o)
    def __radd__(self, o): return binop('add', o, self)
    def __sub__(self, o): return binop('sub', self, o)
    def __rsub__(self, o): return binop('sub', o, self)
    def __mul__(self, o): return binop('mul', self, o)
    def __rmul__(self, o): return binop('mul', o, self)
    def __truediv__(self, o): return binop('div', self, o)
    def __rtruediv__(self, o): return binop('div', o, self)
    def __floordiv__(self, o): return binop('floordiv', self, o)
    def __rfloordiv__(self, o): return binop('floordiv', o, self)
    def __mod__(self, o): return binop('mod', self, o)
    def __rmod__(self, o): return binop('mod', o, self)
    def __pow__(self, o): return binop('pow', self, o)
    def __rpow__(self, o): return binop('pow', o, self)
    def __matmul__(self, o): return binop('mul', self, o)
    def __and__(self, o): return binop('and', self, o)
    def __rand__(self, o): return binop('and', o, self)
    def __or__(self, o): return binop('or', self, o)
    def __ror__(self, o): return binop('or', o, self)
    def __xor__(self, o): return binop('xor', self, o)
    def __rxor__(self, o): return binop('xor', o, self)

    def __neg__(self):
        return binop('sub', 0, self) if self.k != 'b' else binop('sub', 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __invert__(self):
        if self.k == 'b':
            return mkbool(z3.Not(self.t))
        return Sym(-self.t - 1, 'i')

    def __lt__(self, o): return binop('lt', self, o)
    def __le__(self, o): return binop('le', self, o)
    def __gt__(self, o): return binop('gt', self, o)
    def __ge__(self, o): return binop('ge', self, o)
    def __eq__(self, o): return binop('eq', self, o)
    def __ne__(self, o): return binop('ne', self, o)

    # torch-scalar like helpers
    def to(self, *a, **k):
        if a and isinstance(a[0], type):
            return coerce(self, kind_of_dtype(a[0]))
        return self

    def cpu(self): return self
    def detach(self): return self
    def numpy(self): return self
    def int(self): return coerce(self, 'i')
    def float(self): return coerce(self, 'f')
    def exp(self): return sexp(self)
    def log(self): return slog(self)
    def sqrt(self): return ssqrt(self)


numbers.Number.register(Sym)


def SymBool(t):
    return mkbool(t)


def mkbool(t):
    """Boolean Sym, folded to np.bool_ when the term is constant."""
    if z3.is_true(t):
        return np.True_
    if z3.is_false(t):
        return np.False_
    return Sym(t, 'b')


# ---- pickling tokens -------------------------------------------------------------------------------------
_tokens = {}
_token_ids = {}


def token_of(s):
    i = len(_tokens)
    _tokens[i] = s
    return i


def _from_token(i):
    return _tokens[i]


# ---- coercions ---------------------------------------------------------------------------------------------

def kind_of(v):
    if isinstance(v, Sym):
        return v.k
    if isinstance(v, (bool, np.bool_)):
        return 'b'
    if isinstance(v, (int, np.integer)):
        return 'i'
    return 'f'


def kind_of_dtype(dt):
    if dt is None:
        return 'f'
    if isinstance(dt, str) and dt in ('f', 'i', 'b'):
        return dt
    try:
        import torch
        if isinstance(dt, torch.dtype):
            if dt == torch.bool:
                return 'b'
            return 'f' if dt.is_floating_point else 'i'
    except ImportError:
        pass
    d = np.dtype(dt)
    if d.kind == 'b':
        return 'b'
    if d.kind in 'iu':
        return 'i'
    if d.kind == 'f':
        return 'f'
    if d.kind == 'O':
        return 'O'
    raise Unsupported('dtype %s' % d)


def as_real(v):
    """z3 Real term of a finite scalar"""
    if isinstance(v, Sym):
        if v.k == 'f':
            return v.t
        if v.k == 'i':
            return z3.ToReal(v.t)
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    return real_val(v)


def as_int(v):
    if isinstance(v, Sym):
        if v.k == 'i':
            return v.t
        if v.k == 'b':
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('real used as int')
    return z3.IntVal(int(v))


def as_bool(v):
    if isinstance(v, Sym):
        if v.k == 'b':
            return v.t
        return v.t != 0
    if isinstance(v, (float, np.floating)) and math.isnan(v):
        return z3.BoolVal(True)
    return z3.BoolVal(bool(v))


def truth(v):
    if isinstance(v, Sym):
        return v if v.k == 'b' else mkbool(v.t != 0)
    return np.bool_(bool(v))


def trunc_term(v):
    if not isinstance(v, Sym):
        return z3.IntVal(int(v))
    if v.k != 'f':
        return as_int(v)
    return z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))


def coerce(v, kind):
    """value stored into an array of the given kind"""
    if kind == 'O':
        return v
    if isinstance(v, Sym):
        if v.k == kind:
            return v
        if kind == 'f':
            return Sym(as_real(v), 'f')
        if kind == 'b':
            return mkbool(as_bool(v))
        return Sym(trunc_term(v), 'i')
    if v is None:
        if kind == 'f':
            return np.float64('nan')
        raise TypeError('None is not a number')
    if kind == 'f':
        return np.float64(v)
    if kind == 'b':
        return np.bool_(v)
    return np.int64(int(v))


# ---- scalar operations ---------------------------------------------------------------------------------------

def _promote(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'f' or kb == 'f':
        return 'f'
    if ka == 'i' or kb == 'i':
        return 'i'
    return 'b'


_NPF = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.true_divide, 'floordiv': np.floor_divide,
        'mod': np.remainder, 'pow': np.power, 'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor,
        'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal, 'eq': np.equal,
        'ne': np.not_equal}
_CMP = ('lt', 'le', 'gt', 'ge', 'eq', 'ne')


def _lift_scalar(x):
    """returns (is_scalar, value)"""
    if isinstance(x, Sym) or isinstance(x, _NUM):
        return True, x
    return False, x


def binop(op, a, b):
    sa, a = _lift_scalar(a)
    sb, b = _lift_scalar(b)
    if not (sa and sb):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            raise TypeError('unsupported operand type(s) for %s' % op)
        from .symnp import SymArray, array_binop
        import torch
        if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
            from .symtorch import tensor_binop
            return tensor_binop(op, a, b)
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            if (isinstance(a, (list, tuple)) or isinstance(b, (list, tuple))) and op in ('eq', 'ne'):
                pass
            return array_binop(op, a, b)
        return NotImplemented
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            a, b = float(a), float(b)
        with np.errstate(all='ignore'):
            return _NPF[op](a, b)
    # specials
    if is_special(a) or is_special(b):
        return _special(op, a, b)
    if op in _CMP:
        ka, kb = kind_of(a), kind_of(b)
        if ka == 'b' and kb == 'b' and op in ('eq', 'ne'):
            x, y = as_bool(a), as_bool(b)
        elif ka != 'f' and kb != 'f':
            x, y = as_int(a), as_int(b)
        else:
            x, y = as_real(a), as_real(b)
            x, y = _unroot(x, y)
        t = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
             'eq': lambda: x == y, 'ne': lambda: x != y}[op]()
        return mkbool(z3.simplify(t))
    if op in ('and', 'or', 'xor'):
        if kind_of(a) == 'b' and kind_of(b) == 'b':
            x, y = as_bool(a), as_bool(b)
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
            return mkbool(z3.simplify(f(x, y)))
        raise Unsupported('bitwise op on symbolic ints')
    k = _promote(a, b)
    if k == 'b':
        if op == 'mul':
            return mkbool(z3.simplify(z3.And(as_bool(a), as_bool(b))))
        if op == 'add' and not (isinstance(a, (bool, int)) or isinstance(b, (bool, int))):
            return mkbool(z3.simplify(z3.Or(as_bool(a), as_bool(b))))
        k = 'i'
    if op == 'div':
        return sdiv(a, b)
    if op == 'pow':
        return spow(a, b)
    if op in ('floordiv', 'mod'):
        return sfloordiv(a, b, op, k)
    # identities keep terms small
    if op == 'add':
        if not isinstance(a, Sym) and a == 0:
            return coerce(b, k)
        if not isinstance(b, Sym) and b == 0:
            return coerce(a, k)
    elif op == 'sub':
        if not isinstance(b, Sym) and b == 0:
            return coerce(a, k)
    elif op == 'mul':
        for u, v in ((a, b), (b, a)):
            if not isinstance(u, Sym):
                if u == 0:
                    return coerce(0, k)
                if u == 1:
                    return coerce(v, k)
            elif u.k == 'b':
                return Sym(z3.If(u.t, as_real(v) if k == 'f' else as_int(v),
                                 z3.RealVal(0) if k == 'f' else z3.IntVal(0)), k)
    x, y = (as_real(a), as_real(b)) if k == 'f' else (as_int(a), as_int(b))
    if op == 'add':
        return Sym(x + y, k)
    if op == 'sub':
        return Sym(x - y, k)
    return Sym(x * y, k)


def _special(op, a, b):
    """one operand is a concrete inf/nan, the other symbolic (finite) or concrete"""
    av, bv = a, b
    if isinstance(a, Sym) and isinstance(b, Sym):
        raise AssertionError
    if op in _CMP:
        # the sign of the finite operand is irrelevant against inf
        fin = 0.0
        r = _NPF[op](fin if isinstance(a, Sym) else a, fin if isinstance(b, Sym) else b)
        return np.bool_(r)
    if op in ('add', 'sub'):
        return np.float64(_NPF[op](0.0 if isinstance(a, Sym) else a, 0.0 if isinstance(b, Sym) else b))
    # mul/div/pow: depends on the sign
    if (isinstance(a, float) and math.isnan(a)) or (isinstance(b, float) and math.isnan(b)):
        return np.float64('nan')
    if op == 'pow':
        raise Unsupported('pow with inf')

    def rep(x):
        if not isinstance(x, Sym):
            return x
        if bool(mkbool(z3.simplify(as_real(x) > 0))):
            return 1.0
        if bool(mkbool(z3.simplify(as_real(x) < 0))):
            return -1.0
        return 0.0
    with np.errstate(all='ignore'):
        return np.float64(_NPF[op](rep(av), rep(bv)))


def sdiv(a, b):
    if not isinstance(b, Sym):
        if b == 0:
            if isinstance(a, Sym):
                if bool(mkbool(z3.simplify(as_real(a) > 0))):
                    return np.float64('inf')
                if bool(mkbool(z3.simplify(as_real(a) < 0))):
                    return np.float64('-inf')
                return np.float64('nan')
        if b == 1:
            return coerce(a, 'f')
        return Sym(as_real(a) * z3.RealVal(1 / to_frac(b)), 'f')
    y = as_real(b)
    if bool(mkbool(z3.simplify(y == 0))):
        if isinstance(a, Sym) or True:
            if bool(truthy(binop('gt', a, 0))):
                return np.float64('inf')
            if bool(truthy(binop('lt', a, 0))):
                return np.float64('-inf')
            return np.float64('nan')
    if not isinstance(a, Sym) and a == 0:
        return np.float64(0.0)
    # polynomial encoding of the quotient: fresh q with q*y == x   (y != 0 on this path)
    return engine().quotient(as_real(a), y)


def truthy(v):
    return v


def sfloordiv(a, b, op, k):
    if isinstance(b, Sym):
        if k == 'i':
            b = engine().concretize_int(as_int(b))
        else:
            raise Unsupported('floor division by a symbolic real')
    if b == 0:
        raise Unsupported('floor division by zero')
    if k == 'i':
        x = as_int(a)
        # z3 div/mod are Euclidean; for positive divisors they agree with Python
        if b < 0:
            raise Unsupported('negative divisor')
        return Sym(x / z3.IntVal(int(b)), 'i') if op == 'floordiv' else Sym(x % z3.IntVal(int(b)), 'i')
    x = as_real(a)
    f = to_frac(b)
    q = z3.ToReal(z3.ToInt(x * z3.RealVal(1 / f)))
    if op == 'floordiv':
        return Sym(q, 'f')
    return Sym(x - q * z3.RealVal(f), 'f')


def spow(a, b):
    if isinstance(b, Sym):
        if b.k == 'b':
            b = 1 if bool(b) else 0
        elif b.k == 'i':
            b = engine().concretize_int(b.t)
        else:
            return engine().uf2('pow', as_real(a), as_real(b))
    fb = to_frac(b)
    if not isinstance(a, Sym):
        return np.power(a, b)
    if fb.denominator == 1:
        n = int(fb)
        if n == 0:
            return coerce(1, 'f' if kind_of(a) == 'f' or kind_of(b) == 'f' else 'i')
        k = 'f' if (kind_of(a) == 'f' or kind_of(b) == 'f' or n < 0) else 'i'
        x = as_real(a) if k == 'f' else as_int(a)
        r = x
        for _ in range(abs(n) - 1):
            r = r * x
        r = Sym(r, k)
        return r if n > 0 else sdiv(1.0, r)
    if fb == Fraction(1, 2):
        return ssqrt(a)
    if fb == Fraction(-1, 2):
        return sdiv(1.0, ssqrt(a))
    if fb.denominator == 2:
        s = ssqrt(a)
        return spow(s, int(fb.numerator))
    return engine().uf2('pow', as_real(a), as_real(b))


def sabs(a):
    if not isinstance(a, Sym):
        return np.abs(a)
    if a.k == 'b':
        return a
    return Sym(z3.If(a.t >= 0, a.t, -a.t), a.k)


def ite(c, a, b):
    """merge two scalars under a (possibly symbolic) condition"""
    if not isinstance(c, Sym):
        return a if c else b
    c = truth(c)
    if not isinstance(c, Sym):
        return a if c else b
    if is_special(a) or is_special(b) or not isinstance(a, (Sym,) + _NUM) or not isinstance(b, (Sym,) + _NUM):
        return a if bool(c) else b
    k = _promote(a, b)
    f = {'f': as_real, 'i': as_int, 'b': as_bool}[k]
    x, y = f(a), f(b)
    if z3.eq(x, y):
        return coerce(a, k)
    t = z3.If(c.t, x, y)
    return Sym(t, k) if k != 'b' else mkbool(z3.simplify(t))


def smax(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.maximum(a, b)
    if is_special(a) or is_special(b):
        s, o = (a, b) if is_special(a) else (b, a)
        if math.isnan(s):
            return s
        return s if s > 0 else coerce(o, 'f')
    k = _promote(a, b)
    return coerce(ite(binop('ge', a, b), a, b), k)


def smin(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.minimum(a, b)
    if is_special(a) or is_special(b):
        s, o = (a, b) if is_special(a) else (b, a)
        if math.isnan(s):
            return s
        return s if s < 0 else coerce(o, 'f')
    k = _promote(a, b)
    return coerce(ite(binop('le', a, b), a, b), k)


def ssign(a):
    if not isinstance(a, Sym):
        return np.sign(a)
    t = a.t if a.k != 'b' else as_int(a)
    one, zero, m = (z3.RealVal(1), z3.RealVal(0), z3.RealVal(-1)) if a.k == 'f' else (
        z3.IntVal(1), z3.IntVal(0), z3.IntVal(-1))
    return Sym(z3.If(t > 0, one, z3.If(t < 0, m, zero)), 'f' if a.k == 'f' else 'i')


def sfloor(a):
    if not isinstance(a, Sym):
        return np.floor(a)
    return Sym(z3.ToReal(z3.ToInt(as_real(a))), 'f')


def sceil(a):
    if not isinstance(a, Sym):
        return np.ceil(a)
    return Sym(-z3.ToReal(z3.ToInt(-as_real(a))), 'f')


def _unroot(x, y):
    """sqrt(a) compared with a constant c >= 0: compare a with c^2"""
    roots = engine()._roots
    for u, v in ((x, y), (y, x)):
        if z3.is_rational_value(v) and v.as_fraction() >= 0 and u.get_id() in roots:
            f = v.as_fraction()
            w = (roots[u.get_id()][1], z3.RealVal(f * f))
            return w if u is x else (w[1], w[0])
    return x, y


def ssqrt(a):
    if not isinstance(a, Sym):
        with np.errstate(all='ignore'):
            return np.sqrt(a)
    x = as_real(a)
    if bool(mkbool(z3.simplify(x < 0))):
        return np.float64('nan')
    return engine().sqrt(x)


def sexp(a):
    if not isinstance(a, Sym):
        with np.errstate(all='ignore'):
            return np.exp(a)
    return engine().exp(as_real(a))


def slog(a):
    if not isinstance(a, Sym):
        with np.errstate(all='ignore'):
            return np.log(a)
    x = as_real(a)
    if bool(mkbool(z3.simplify(x <= 0))):
        return np.float64('-inf') if bool(mkbool(z3.simplify(x == 0))) else np.float64('nan')
    return engine().log(x)


def sfun(name, a):
    """other transcendental functions: uninterpreted with range axioms"""
    if not isinstance(a, Sym):
        return getattr(np, name)(a)
    return engine().uf1(name, as_real(a))


# ---- the engine ---------------------------------------------------------------------------------------------------

class Stats(object):
    FIELDS = ('paths', 'queries', 'branch_queries', 'solver_s', 'unsat', 'sat', 'unknown', 'unsupported', 'realised',
              'replays', 'infeasible', 'truncated', 'raised')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.notes = []

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        return d


def canon(t):
    """canonical sum of monomials"""
    return z3.simplify(t, som=True, sort_sums=True, arith_lhs=True)


class Engine(object):
    """One symbolic run along a decision prefix."""

    def __init__(self, prefix, stats, branch_timeout=3000, check_timeout=20000, max_decisions=4000, deadline=None):
        self.symbolic = True
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []       # alternative prefixes discovered in this run
        self.stats = stats
        self.branch_timeout = branch_timeout
        self.check_timeout = check_timeout
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.solver = z3.Solver()
        self.path = []
        self.inputs = {}        # name -> (z3 var, kind)
        self.order = []
        self.bounds = {}        # name -> (low, high) given for a real input
        self._apps = {}         # transcendental applications
        self._quot = {}
        self._fresh = 0
        self._memo = {}
        self._roots = {}
        self._varmemo = {}
        self._logs = {}
        self._hard = False      # the solver gave up on this path condition once

    # -- solver ----------------------------------------------------------------------------------------------
    def _check(self, extra, timeout, kind='branch'):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        t0 = time.time()
        self.solver.set('timeout', int(timeout))
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        dt = time.time() - t0
        self.stats.solver_s += dt
        self.stats.queries += 1
        if kind == 'branch':
            self.stats.branch_queries += 1
        return r, model

    def _vars(self, t):
        """names of the variables of a term"""
        ent = self._varmemo.get(t.get_id())
        if ent is not None:
            return ent[1]
        out, seen, todo = set(), set(), [t]
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
            else:
                todo.extend(e.children())
        self._varmemo[t.get_id()] = (t, out)
        return out

    def _slice(self, terms):
        """the path constraints that share variables (transitively) with the given terms"""
        vs = set()
        for t in terms:
            vs |= self._vars(t)
        rest = [(c, self._vars(c)) for c in self.path]
        out = []
        while True:
            hit = [cv for cv in rest if cv[1] & vs]
            if not hit:
                return out
            rest = [cv for cv in rest if not (cv[1] & vs)]
            for c, v in hit:
                out.append(c)
                vs |= v

    def _local(self, t):
        """the value of t if it follows from the path constraints over its own variables, else None (non-linear paths only)"""
        if not self._hard:
            return None
        vs = self._vars(t)
        part = [c for c in self.path if self._vars(c) <= vs]
        for value, q in ((False, t), (True, z3.Not(t))):
            t0 = time.time()
            s = z3.Solver()
            s.set('timeout', 300)
            s.add(*part)
            s.add(q)
            r = s.check()
            self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            self.stats.branch_queries += 1
            if r == z3.unsat:
                return value
        return None

    def _quick_check(self, extra, about):
        """feasibility of a branch: the whole path condition first; where the solver gives up, the part of it that
        concerns the branch.  A path kept although it is infeasible costs time, it never hides or invents a violation"""
        r, m = self._check(extra, min(self.branch_timeout, 600))
        if r != z3.unknown:
            return r, m
        self._hard = True
        part = self._slice([about])
        if len(part) == len(self.path):
            if self.branch_timeout <= 600:
                return r, m
            return self._check(extra, self.branch_timeout)
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(self.branch_timeout))
        s.add(*part)
        s.add(*extra)
        r = s.check()
        m = s.model() if r == z3.sat else None
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        self.stats.branch_queries += 1
        return r, m

    def add(self, t):
        if z3.is_true(t):
            return
        self.path.append(t)
        self.solver.add(t)

    def assume(self, cond):
        """restrict inputs; the path is dropped if the assumption is unsatisfiable"""
        if not isinstance(cond, Sym):
            if not bool(cond):
                raise PathAbort('assumption false')
            return
        self.add(as_bool(cond))

    def feasible_now(self):
        r, _ = self._check([], self.branch_timeout)
        return r

    def branch(self, cond):
        if not isinstance(cond, Sym):
            return bool(cond)
        t = z3.simplify(cond.t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if isinstance(d, tuple):
                raise Unsupported('nondeterministic replay')
            self.decisions.append(d)
            self.add(t if d else z3.Not(t))
            return d
        if i >= self.max_decisions:
            raise BudgetExceeded()
        known = self._local(t)
        if known is not None:
            # one side contradicts the constraints on its own variables: no fork
            self.decisions.append(known)
            self.add(t if known else z3.Not(t))
            return known
        rt, _ = self._quick_check([t], t)
        rf, _ = self._quick_check([z3.Not(t)], t)
        if rt == z3.unsat and rf == z3.unsat:
            raise PathAbort('infeasible')
        if rt == z3.unsat:
            # implied: no fork, but keep the decision list aligned
            self.decisions.append(False)
            self.add(z3.Not(t))
            return False
        if rf == z3.unsat:
            self.decisions.append(True)
            self.add(t)
            return True
        self.pending.append(self.decisions + [False])
        self.decisions.append(True)
        self.add(t)
        return True

    def concretize_int(self, t, limit=64):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if not isinstance(d, tuple):
                raise Unsupported('nondeterministic replay')
            self.decisions.append(d)
            for v in d[2]:
                self.add(t != v)
            if d[0] == 'val':
                self.add(t == d[1])
                return d[1]
            # ('next', None, excluded): pick a further value
            r, m = self._quick_check([], t)
            if r == z3.unsat:
                raise PathAbort('exhausted')
            if m is None:
                raise Unsupported('cannot enumerate integer')
            v = m.eval(t, model_completion=True).as_long()
            excl = d[2] + (v,)
            if len(excl) > limit:
                raise Unsupported('too many integer values')
            r2, _ = self._quick_check([t != v], t)
            if r2 != z3.unsat:
                self.pending.append(self.decisions[:-1] + [('next', None, excl)])
            self.decisions[-1] = ('val', v, ())
            self.add(t == v)
            return v
        r, m = self._quick_check([], t)
        if r == z3.unsat:
            raise PathAbort('infeasible')
        if m is None:
            raise Unsupported('cannot enumerate integer')
        v = m.eval(t, model_completion=True).as_long()
        r2, _ = self._quick_check([t != v], t)
        if r2 != z3.unsat:
            self.pending.append(self.decisions + [('next', None, (v,))])
        self.decisions.append(('val', v, ()))
        self.add(t == v)
        return v

    # -- inputs ------------------------------------------------------------------------------------------------
    def var(self, name, kind):
        if name in self.inputs:
            raise ValueError('duplicate input ' + name)
        v = {'f': z3.Real, 'i': z3.Int, 'b': z3.Bool}[kind](name)
        self.inputs[name] = (v, kind)
        self.order.append(name)
        return Sym(v, kind)

    def fresh(self, stem):
        self._fresh += 1
        return z3.Real('%s!%d' % (stem, self._fresh))

    # -- function applications -----------------------------------------------------------------------------------
    def quotient(self, x, y):
        y = canon(y)
        x = canon(x)
        if z3.is_rational_value(y):
            return Sym(x * z3.RealVal(1 / y.as_fraction()), 'f')
        parts = [_monomial(e) for e in y.children()] if z3.is_app_of(y, z3.Z3_OP_ADD) else [_monomial(y)]
        c, common, rest = Fraction(1), [], y
        if all(p is not None for p in parts):
            # y = c * common factors * rest
            common = [[v, min(dict((w.get_id(), k) for w, k in p[1]).get(v.get_id(), 0) for p in parts)] for v, _ in parts[0][1]]
            common = [(v, k) for v, k in common if k]
            if len(parts) == 1:
                c, rest = parts[0][0], None
            elif common:
                cut = {v.get_id(): k for v, k in common}
                rest = canon(z3.Sum([_product(p[0], [(v, k - cut.get(v.get_id(), 0)) for v, k in p[1]]) for p in parts]))
        den = {v.get_id(): [v, k] for v, k in common}
        xs = _monomial(x)
        if xs is not None:
            num = []
            for v, k in xs[1]:
                d = den.get(v.get_id())
                cut = min(k, d[1]) if d else 0
                if cut:
                    d[1] -= cut
                num.append((v, k - cut))
            r = _product(xs[0] / c, num)
        else:
            r = x * z3.RealVal(1 / c)
        fs = [self._inverse(v) for v, k in den.values() for _ in range(k)]
        if rest is not None:
            fs.append(self._inverse(rest))
        # a factor and its own inverse cancel
        out = []
        for f in fs:
            e = self._quot.get(f.get_id())
            m = next((o for o in out if e is not None and o.get_id() == e[1].get_id()), None)
            if m is not None:
                out = [o for o in out if o is not m]
            else:
                out.append(f)
        for f in out:
            r = r * f
        return Sym(r, 'f')

    def _inverse(self, y):
        key = y.get_id()
        ent = self._quot.get(key)
        if ent is None:
            inv = self.fresh('inv')
            self.add(inv * y == 1)
            self._quot[key] = (y, inv)
            self._quot[inv.get_id()] = (inv, y)
            return inv
        return ent[1]

    def sqrt(self, x):
        x = canon(x)
        if z3.is_rational_value(x):
            f = x.as_fraction()
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return np.float64(n / d)
        key = ('sqrt', x.get_id())
        if key not in self._memo:
            s = self.fresh('sqrt')
            self.add(s >= 0)
            self.add(s * s == x)
            self._memo[key] = (x, s)
            self._roots[s.get_id()] = (s, x)
        return Sym(self._memo[key][1], 'f')

    def _pair(self, name, x, y, monotone=False):
        lst = self._apps.setdefault(name, [])
        for (x2, y2) in lst:
            d = canon(x - x2)
            if z3.is_rational_value(d):
                c = d.as_fraction()
                if c == 0:
                    self.add(y == y2)
                elif monotone:
                    self.add(y > y2 if c > 0 else y < y2)
                continue
            if monotone:
                self.add(z3.And((x < x2) == (y < y2), (x == x2) == (y == y2)))
            else:
                self.add(z3.Implies(x == x2, y == y2))
        lst.append((x, y))

    def exp(self, x):
        x = canon(x)
        if z3.is_rational_value(x):
            f = x.as_fraction()
            return np.float64(1.0) if f == 0 else Sym(real_val(math.exp(float(f))), 'f')
        key = ('exp', x.get_id())
        if key in self._memo:
            return Sym(self._memo[key][1], 'f')
        if self._logs:
            # exp(r + log a) = a exp(r)
            up, down, rest = [], [], []
            for e in (x.children() if z3.is_app_of(x, z3.Z3_OP_ADD) else [x]):
                c, v = Fraction(1), e
                if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2 and z3.is_rational_value(e.arg(0)):
                    c, v = e.arg(0).as_fraction(), e.arg(1)
                if z3.is_const(v) and v.get_id() in self._logs and c.denominator == 1 and abs(c) <= 4:
                    (up if c > 0 else down).extend([self._logs[v.get_id()][1]] * abs(int(c)))
                else:
                    rest.append(e)
            if up or down:
                r = self.exp(z3.Sum(rest)) if rest else np.float64(1.0)
                for a in up:
                    r = binop('mul', r, Sym(a, 'f'))
                for a in down:
                    r = self.quotient(as_real(r), a)
                return r
        for (x2, y2) in self._apps.get('exp', []):
            if z3.is_rational_value(d := canon(x - x2)) and d.as_fraction() == 0:
                return Sym(y2, 'f')
        y = self.fresh('exp')
        self.add(y > 0)
        self.add(y >= 1 + x)
        self.add((x < 0) == (y < 1))
        self.add((x == 0) == (y == 1))
        self._pair('exp', x, y, monotone=True)
        self._memo[key] = (x, y)
        return Sym(y, 'f')

    def log(self, x):
        x = canon(x)
        if z3.is_rational_value(x):
            return np.float64(math.log(float(x.as_fraction())))
        for (x2, y2) in self._apps.get('exp', []):
            if z3.eq(x, y2):
                return Sym(x2, 'f')
            d = canon(x - y2)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                return Sym(x2, 'f')
        l = self.fresh('log')
        self._logs[l.get_id()] = (l, x)
        self.add(x >= 1 + l)
        self.add((l < 0) == (x < 1))
        self.add((l == 0) == (x == 1))
        self._pair('exp', l, x, monotone=True)
        return Sym(l, 'f')

    def uf1(self, name, x):
        x = canon(x)
        if z3.is_rational_value(x):
            return np.float64(getattr(np, name)(float(x.as_fraction())))
        for (x2, y2) in self._apps.get(name, []):
            d = canon(x - x2)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                return Sym(y2, 'f')
        y = self.fresh(name)
        if name in ('sin', 'cos', 'tanh'):
            self.add(z3.And(y >= -1, y <= 1))
        if name == 'tanh':
            self.add((x < 0) == (y < 0))
            self.add((x == 0) == (y == 0))
        if name == 'arctan':
            self.add(z3.And(y > -2, y < 2, (x < 0) == (y < 0), (x == 0) == (y == 0)))
        self._pair(name, x, y, monotone=name in ('tanh', 'arctan'))
        other = {'sin': 'cos', 'cos': 'sin'}.get(name)
        if other:
            for (x2, y2) in self._apps.get(other, []):
                self.add(z3.Implies(x == x2, y * y + y2 * y2 == 1))
        return Sym(y, 'f')

    def uf2(self, name, x, z):
        x, z = canon(x), canon(z)        # kept alive by the memo: ids of dead terms are reused
        key = (name, x.get_id(), z.get_id())
        if key in self._memo:
            return Sym(self._memo[key][2], 'f')
        y = self.fresh(name)
        if name == 'pow':
            self.add(z3.Implies(x > 0, y > 0))
            self.add(z3.Implies(x == 1, y == 1))
            self.add(z3.Implies(z == 0, y == 1))
            self.add(z3.Implies(z == 1, y == x))
        lst = self._apps.setdefault(name, [])
        for (x2, z2, y2) in lst:
            self.add(z3.Implies(z3.And(x == x2, z == z2), y == y2))
            if name == 'pow':
                # monotone in the base for a common positive exponent
                self.add(z3.Implies(z3.And(z == z2, z > 0, x > 0, x2 > 0), (x < x2) == (y < y2)))
                self.add(z3.Implies(z3.And(z == z2, z < 0, x > 0, x2 > 0), (x < x2) == (y > y2)))
        lst.append((x, z, y))
        self._memo[key] = (x, z, y)
        return Sym(y, 'f')

    # -- models ----------------------------------------------------------------------------------------------------
    def model_values(self, model):
        out = {}
        for n in self.order:
            v, k = self.inputs[n]
            e = model.eval(v, model_completion=True)
            if k == 'b':
                out[n] = bool(z3.is_true(e))
            elif k == 'i':
                out[n] = e.as_long()
            else:
                out[n] = _real_of(e)
        return out

    def nice_model(self, extra, timeout=2500, rng=None):
        """a model whose real inputs are small dyadic rationals, if one is found quickly"""
        if rng is None and self._apps:
            # abstracted functions make the search for values hard: guess the real inputs first
            guess = random.Random(len(self.order))
            for _ in range(4):
                cons = []
                for n in self.order:
                    v, k = self.inputs[n]
                    if k == 'f':
                        lo, hi = self.bounds.get(n, (None, None))
                        lo = -1 if lo is None or lo < -8 else lo
                        hi = lo + 2 if hi is None or hi > 8 else hi
                        if n.startswith('rnd') and n.endswith('_u'):
                            lo, hi = 0, 1
                        q = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(guess.randrange(1, 16), 16)
                        cons.append(v == z3.RealVal(q))
                r, m = self._check(list(extra) + cons, min(timeout, 1000), 'model')
                if r == z3.sat:
                    return m
        for den, bound in ((4, 8), (8, 64)):
            cons = []
            for n in self.order:
                v, k = self.inputs[n]
                if k == 'f':
                    q = z3.Int('q!' + n)
                    cons.append(v == z3.ToReal(q) / den)
                    cons.append(z3.And(q >= -bound * den, q <= bound * den))
            if rng is not None:
                pref = []
                for n in self.order:
                    v, k = self.inputs[n]
                    if k == 'f':
                        pref.append(v == z3.RealVal(Fraction(rng.randint(-4 * den, 4 * den), den)))
                    elif k == 'b':
                        pref.append(v == rng.choice([True, False]))
                # keep a maximal random subset of the preferences
                r = self._greedy(list(extra) + cons, pref, rng)
                if r is not None:
                    return r
            r, m = self._check(list(extra) + cons, timeout, 'model')
            if r == z3.sat:
                return m
        return None

    def _greedy(self, base, pref, rng):
        keep = []
        model = None
        rng.shuffle(pref)
        step = max(1, len(pref) // 2)
        i = 0
        while i < len(pref):
            chunk = pref[i:i + step]
            r, m = self._check(base + keep + chunk, 800, 'model')
            if r == z3.sat:
                keep += chunk
                model = m
                i += step
            elif step > 1 and len(chunk) > 1:
                step = max(1, step // 2)
            else:
                i += step
        return model


def _product(c, factors):
    r = z3.RealVal(c)
    for v, k in factors:
        for _ in range(k):
            r = r * v
    return r


def _monomial(y):
    """(coefficient, [(factor, power)]) of a product of powers, else None"""
    c, fs = Fraction(1), {}
    todo = [y]
    while todo:
        e = todo.pop()
        if z3.is_rational_value(e):
            c *= e.as_fraction()
        elif z3.is_app_of(e, z3.Z3_OP_MUL):
            todo.extend(e.children())
        elif z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction().denominator == 1 \
                and 0 < e.arg(1).as_fraction() < 8:
            k = int(e.arg(1).as_fraction())
            fs.setdefault(e.arg(0).get_id(), [e.arg(0), 0])[1] += k
        elif z3.is_const(e):
            fs.setdefault(e.get_id(), [e, 0])[1] += 1
        else:
            return None
    return (c, list(fs.values())) if c != 0 else None


def _real_of(e):
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_algebraic_value(e):
        return e.approx(20).as_fraction()
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    raise Unsupported('model value')


def set_engine(e):
    global _ENGINE
    _ENGINE = e
