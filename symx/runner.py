"""Exploration, solver queries, replay on the real code, evidence."""
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction
import numpy as np
import torch
import z3
from . import core, symnp, symtorch, patch
from .core import (Sym, Unsupported, PathAbort, BudgetExceeded, Engine, Stats, binop, as_bool, as_real, mkbool, truth,
                   is_special, kind_of, coerce)
from .symnp import SymArray, base, is_scalar

patch_pkgs = ('mushroom_rl', 'props')


class ConcreteViolation(Exception):
    def __init__(self, label, detail=''):
        super().__init__(label + (': ' + detail if detail else ''))
        self.label = label
        self.detail = detail


class ReplayInvalid(BaseException):
    pass


class Found(BaseException):
    """a check failed on this path (symbolic mode): stop the path"""


class Scenario(object):
    def __init__(self, prop, name, fn, params, bounds, max_paths, budget, extra=None, tol=1e-6, replay_paths=40,
                 goals=()):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.bounds, self.max_paths, self.budget = bounds, max_paths, budget
        self.extra = extra
        self.tol = tol
        self.replay_paths = replay_paths
        self.goals = goals


_REG = {}


def scenario(prop, bounds='', quick=None, thorough=None, max_paths=3000, budget=60, extra=None, tol=1e-6,
             replay_paths=40, goals=()):
    """register a harness; quick/thorough are lists of parameter dicts; goals are outcomes that must be reachable"""
    def deco(fn):
        _REG.setdefault(prop, []).append((fn, bounds, quick or [{}], thorough, max_paths, budget, extra, tol,
                                          replay_paths, goals))
        return fn
    return deco


def instances(prop, tier):
    out = []
    for fn, bounds, q, t, mpth, budget, extra, tol, rp, goals in _REG.get(prop, []):
        ps = list(q)
        if tier == 'thorough' and t:
            ps += [p for p in t if p not in ps]
        for p in ps:
            nm = fn.__name__ + ('[' + ','.join('%s=%s' % kv for kv in p.items()) + ']' if p else '')
            out.append(Scenario(prop, nm, fn, p, bounds, mpth if tier == 'quick' else mpth * 10,
                                budget if tier == 'quick' else max(budget * 10, 600), extra, tol, rp,
                                goals(**p) if callable(goals) else goals))
    return out


# ---- contexts ------------------------------------------------------------------------------------------------------------------

_autograd_grad = torch.autograd.grad


class BaseCtx(object):
    tol = 1e-6

    def backward(self, t):
        """called for every backward pass"""
        self.n_backward += 1
        if self.on_backward:
            self.on_backward(t)

    def __init__(self):
        self.events = []
        self.losses = []
        self.normals = []        # standard normal draws, in order
        self.obs = []
        self.labels = set()
        self.covered = set()
        self.on_backward = self.losses.append
        self.n_backward = 0

    def distribution(self, f, limit=200):
        """the exact distribution of f(): list of (probability, outcome); f is run once per outcome of its random draws"""
        out, todo = [], [[]]
        while todo:
            if len(out) >= limit:
                raise Unsupported('too many random outcomes')
            d = self.rng.dist = patch.Dist(todo.pop())
            try:
                v = f()
            finally:
                self.rng.dist = None
            out.append((d.weight, v))
            todo += d.alternatives
        return out

    def event(self, name, **kw):
        self.events.append((name, kw))

    # -- inputs
    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def ints(self, name, n, lo=None, hi=None):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def bools(self, name, n):
        return [self.bool('%s%d' % (name, i)) for i in range(n)]

    def array(self, name, shape, lo=None, hi=None):
        shape = shape if isinstance(shape, tuple) else (shape,)
        vals = [self.real('%s_%s' % (name, '_'.join(map(str, p))), lo, hi) for p in np.ndindex(*shape)]
        return self.pack(vals, shape, 'f')

    def iarray(self, name, shape, lo, hi):
        shape = shape if isinstance(shape, tuple) else (shape,)
        vals = [self.int('%s_%s' % (name, '_'.join(map(str, p))), lo, hi) for p in np.ndindex(*shape)]
        return self.pack(vals, shape, 'i')

    def barray(self, name, shape):
        shape = shape if isinstance(shape, tuple) else (shape,)
        vals = [self.bool('%s_%s' % (name, '_'.join(map(str, p)))) for p in np.ndindex(*shape)]
        return self.pack(vals, shape, 'b')

    def tensor(self, name, shape, lo=None, hi=None, dtype=torch.float32):
        a = self.array(name, shape, lo, hi)
        return self.to_tensor(a, dtype)

    def itensor(self, name, shape, lo, hi, dtype=torch.int64):
        return self.to_tensor(self.iarray(name, shape, lo, hi), dtype)

    def btensor(self, name, shape):
        return self.to_tensor(self.barray(name, shape), torch.bool)

    def pick(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def arr(self, x, kind=None):
        """constant / packed array in the current mode"""
        leaves, shape, d = symnp._flatten(x)
        return self.pack(leaves, shape, kind or symnp.kind_of_dtype(d))

    # -- checks
    def cover(self, label):
        self.covered.add(label)

    def same(self, a, b, tol=None):
        """(symbolic) truth value of equality of two structures; up to rounding when replayed"""
        la, lb = [], []
        _leaves(a, la)
        _leaves(b, lb)
        if [p for p, _ in la] != [p for p, _ in lb]:
            return np.False_
        r = np.True_
        for (_, x), (_, y) in zip(la, lb):
            r = symnp.LAND(r, scalar_eq(x, y, tol or self.tol))
        return r

    def fail(self, label, detail=''):
        self.check(False, label, detail)

    def shape(self, a, shape, label):
        self.check(tuple(a.shape) == tuple(shape), label, 'shape %s expected %s' % (tuple(a.shape), tuple(shape)))

    def eqs(self, pairs, label):
        for a, b in pairs:
            self.eq(a, b, label)

    def implies(self, c, d, label):
        self.check(symnp.LOR(symnp.LNOT(_sc(c)), _sc(d)), label)

    def raises(self, fn, excs, label):
        try:
            fn()
        except excs:
            return
        self.fail(label)


def _sc(x):
    """boolean-ish scalar of arrays/tensors of size 1"""
    if isinstance(x, torch.Tensor):
        x = symtorch.to_symarray(x) if isinstance(x, symtorch.SymTensor) else x.detach().cpu().numpy()
    if isinstance(x, SymArray):
        return base(x).reshape(-1)[0] if x.size == 1 else symnp.np_all(x)
    if isinstance(x, np.ndarray):
        return np.bool_(np.all(x))
    return x


def _leaves(x, out, path=''):
    """flatten nested results to (path, scalar) with shapes"""
    if isinstance(x, symtorch.SymTensor):
        x = x.a
    elif isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    if (isinstance(x, np.ndarray) and (x.dtype != object or all(is_scalar(v) for v in x.flat))) or isinstance(x, SymArray):
        b = base(x) if isinstance(x, SymArray) else x
        if b.ndim == 0:
            out.append((path, b[()]))
            return
        out.append((path + '.shape', str(tuple(b.shape))))
        for i, v in enumerate(b.flat):
            out.append(('%s[%d]' % (path, i), v))
        return
    if isinstance(x, (list, tuple)):
        out.append((path + '.len', str(len(x))))
        for i, v in enumerate(x):
            _leaves(v, out, '%s[%d]' % (path, i))
        return
    if isinstance(x, dict):
        out.append((path + '.keys', str(sorted(map(str, x)))))
        for k in sorted(x, key=str):
            _leaves(x[k], out, '%s[%s]' % (path, k))
        return
    out.append((path, x))


def scalar_eq(a, b, tol=None):
    """(symbolic) equality of two leaves"""
    na, nb = is_scalar(a), is_scalar(b)
    if not (na and nb):
        if na != nb:
            return np.False_
        return np.bool_(a is b or a == b)
    if is_special(a) or is_special(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return np.False_
        return np.bool_(a == b or (np.isnan(a) and np.isnan(b)))
    if isinstance(a, Sym) or isinstance(b, Sym):
        return binop('eq', a, b)
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return np.bool_(bool(a) == bool(b))
    return np.bool_(abs(float(a) - float(b)) <= (tol or 0.0) * (1 + max(abs(float(a)), abs(float(b)))))


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, sc):
        super().__init__()
        self.eng = eng
        self.sc = sc
        self.tol = sc.tol
        self.rng = patch.Rng(self)
        eng.rng = self.rng
        eng.on_backward = self.backward
        self.known_hit = set()
        self.cex = []           # (label, [values])
        self.proved = 0
        self.tolproved = 0
        self.unknown = []

    def real(self, name, lo=None, hi=None):
        v = self.eng.var(name, 'f')
        if not isinstance(lo, Sym) and not isinstance(hi, Sym):
            self.eng.bounds[name] = (lo, hi)
        if lo is not None:
            self.assume_(binop('ge', v, lo))
        if hi is not None:
            self.assume_(binop('le', v, hi))
        return v

    def int(self, name, lo=None, hi=None):
        v = self.eng.var(name, 'i')
        if lo is not None:
            self.assume_(binop('ge', v, lo))
        if hi is not None:
            self.assume_(binop('le', v, hi))
        return v

    def bool(self, name):
        return self.eng.var(name, 'b')

    def pack(self, vals, shape, kind=None):
        if kind is None:
            kind = 'b'
            for v in vals:
                if symnp._RANK[kind_of(v)] > symnp._RANK[kind]:
                    kind = kind_of(v)
        out = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            out[i] = coerce(v, kind)
        return SymArray.wrap(out.reshape(shape), kind)

    def to_tensor(self, a, dtype=torch.float32):
        a = a if isinstance(a, SymArray) else SymArray.make(a)
        return symtorch.SymTensor.mk(a.astype(symtorch.npd(dtype)), dtype)

    def probe(self, n):
        """a vector of auxiliary unknowns: coefficients(f(probe), probe) are the coefficients of a linear f"""
        return self.to_tensor(self.pack([Sym(self.eng.fresh('probe'), 'f') for _ in range(n)], (n,), 'f'))

    def coefficients(self, out, y):
        t = core.as_real(_sc(out))
        ys = [v.t for v in base(y.a).reshape(-1)]
        return [self.to_tensor(self.pack([Sym(core.canon(z3.substitute(t, *[(v, z3.RealVal(int(i == j))) for j, v in enumerate(ys)])), 'f')],
                                         (1,), 'f'))[0] for i in range(len(ys))]

    def assume_(self, cond):
        self.eng.assume(cond)

    def assume(self, *conds):
        for c in conds:
            c = _sc(c)
            self.eng.assume(truth(c) if isinstance(c, Sym) else c)

    # -- deciding -------------------------------------------------------------------------------------------
    def check(self, cond, label, detail=''):
        self.labels.add(label)
        cond = _sc(cond)
        if not isinstance(cond, Sym):
            self.eng.stats.queries += 1
            if bool(cond):
                # still requires the path to be real: nothing to refute
                self.proved += 1
                return
            r, m = self.eng._check([], self.eng.check_timeout, 'check')
            if r == z3.unsat:
                raise PathAbort('infeasible')
            self._candidate(label, z3.BoolVal(True), detail)
            raise Found()
        self._decide(as_bool(cond), label)

    def _decide(self, t, label, margin=None):
        t = z3.simplify(t)
        neg = z3.simplify(z3.Not(t))
        if z3.is_false(neg):
            self.proved += 1
            self.eng.stats.queries += 1
            self.eng.stats.unsat += 1
            return
        # canonical sums of monomials: decides equalities that only differ in how they are written
        if z3.is_false(core.canon(neg)):
            self.proved += 1
            self.eng.stats.queries += 1
            self.eng.stats.unsat += 1
            return
        r = prove(self.eng, neg)
        if r == z3.unsat:
            self.proved += 1
            self.eng.stats.unsat += 1
            self.eng.add(t)
            return
        if r == z3.unknown:
            self.eng.stats.unknown += 1
            self.unknown.append(label)
            self._candidate(label, neg, 'undecided', sure=False, margin=margin)
            self.eng.add(t)
            return
        if margin is not None:
            # equality up to rounding: is there a counterexample that survives the tolerance, in a bounded box?
            rm = self._margin_query(margin)
            if rm == z3.unsat:
                self.tolproved += 1
                self.eng.stats.unsat += 1
                return
        self.eng.stats.sat += 1
        self._candidate(label, neg, '', margin=margin)
        # keep exploring the rest of the path under the property
        rr, _ = self.eng._check([t], self.eng.branch_timeout)
        if rr == z3.unsat:
            raise Found()
        self.eng.add(t)

    def _box(self, bound=64):
        c = []
        for n in self.eng.order:
            v, k = self.eng.inputs[n]
            if k == 'f':
                c.append(z3.And(v <= bound, v >= -bound))
        return c

    def _margin_query(self, margin):
        r, _ = self.eng._check([margin] + self._box(), self.eng.check_timeout, 'check')
        return r

    def _candidate(self, label, neg, detail, sure=True, margin=None):
        if label in self.known_hit:
            return
        vals = []
        e = self.eng

        def grab(m):
            if m is None:
                return
            try:
                v = e.model_values(m)
            except Unsupported:
                return
            if v not in vals:
                vals.append(v)
        tmo = 2500
        try:
            if margin is not None:
                grab(e.nice_model([margin], tmo))
            grab(e.nice_model([neg], tmo))
            if margin is not None:
                r, m = e._check([margin] + self._box(), e.check_timeout, 'model')
                grab(m)
                r, m = e._check([margin], e.check_timeout, 'model')
                grab(m)
            r, m = e._check([neg], e.check_timeout, 'model')
            grab(m)
            if e._apps:
                for v in refine_transcendental(e, [neg]):
                    if v not in vals:
                        vals.append(v)
            rnd = random.Random(7)
            for _ in range(2):
                m = e.nice_model([neg], tmo, rnd)
                grab(m)
        finally:
            self.cex.append((label, vals, detail, sure, bool(e._apps)))

    def eq(self, a, b, label, tol=None):
        """a == b for all leaves; proved exactly over the reals, or up to tolerance inside a bounded box"""
        self.labels.add(label)
        la, lb = [], []
        _leaves(a, la)
        _leaves(b, lb)
        self.obs.append((label, [v for _, v in la]))
        if len(la) != len(lb) or any(x[0] != y[0] for x, y in zip(la, lb)):
            return self.check(False, label, 'structure differs: %s vs %s' % (_struct(la), _struct(lb)))
        for (p, x), (_, y) in zip(la, lb):
            c = scalar_eq(x, y, tol or self.tol)
            tiny = not isinstance(c, Sym) and not bool(c) and (isinstance(x, Sym) or isinstance(y, Sym)) and \
                is_scalar(x) and is_scalar(y) and not is_special(x) and not is_special(y) and 'f' in (kind_of(x), kind_of(y))
            if not isinstance(c, Sym) and not tiny:
                if not bool(c):
                    return self.check(False, label, '%s: %s != %s' % (p, x, y))
                self.proved += 1
                continue
            margin = None
            if kind_of(x) == 'f' or kind_of(y) == 'f':
                d = z3.simplify(as_real(x) - as_real(y), som=True)
                if z3.is_rational_value(d):
                    if abs(d.as_fraction()) <= Fraction(1, 10 ** 9):
                        self.proved += 1
                        self.eng.stats.queries += 1
                        self.eng.stats.unsat += 1
                        continue
                mg = 5e-3 if not tol else max(5e-3, 4 * tol)
                margin = z3.Or(d > z3.RealVal(mg), d < z3.RealVal(-mg))
                c = mkbool(z3.simplify(d == 0))
                if not isinstance(c, Sym):
                    c = Sym(z3.BoolVal(bool(c)), 'b')
                self._decide_eq(d, label, margin)
                continue
            self._decide(as_bool(c), label, margin)

    def _decide_eq(self, d, label, margin):
        self._decide(d == 0, label, margin)

    def le(self, a, b, label, tol=1e-6):
        """a <= b elementwise (tol: slack allowed when the model is replayed in floating point)"""
        la, lb = [], []
        _leaves(a, la)
        if is_scalar(b):
            lb = [(p, b) if is_scalar(v) and not isinstance(v, str) else (p, v) for p, v in la]
        else:
            _leaves(b, lb)
            if is_scalar(a):
                la = [(p, a) if is_scalar(v) and not isinstance(v, str) else (p, v) for p, v in lb]
        if [p for p, _ in la] != [p for p, _ in lb]:
            return self.check(False, label, 'structure differs')
        for (p, x), (_, y) in zip(la, lb):
            if isinstance(x, str):
                continue
            c = binop('le', x, y)
            if not isinstance(c, Sym):
                self.check(bool(c) or (not is_special(x) and not is_special(y) and float(x) <= float(y) + tol), label,
                           '%s: %s > %s' % (p, x, y))
                continue
            margin = z3.simplify(as_real(x) - as_real(y) > z3.RealVal(1e-3)) if not (is_special(x) or is_special(y)) \
                else None
            self.labels.add(label)
            self._decide(as_bool(c), label, margin)

    def lt(self, a, b, label):
        self.check(binop('lt', a, b), label)


def _struct(l):
    return [(p, v) for p, v in l if isinstance(v, str)][:6]


def prove(eng, neg):
    """is `neg` satisfiable under the path condition? Several procedures, each first with a short limit"""
    full = int(eng.check_timeout)
    for limit in (min(3000, full), full):
        if limit == full or not eng._apps:
            r, _ = eng._check([neg], limit, 'check')
            if r != z3.unknown:
                return r
        for tac in ('qfnra-nlsat', 'smt'):
            if eng.deadline is not None and time.time() > eng.deadline:
                raise BudgetExceeded()
            t0 = time.time()
            try:
                s = z3.Then('simplify', 'solve-eqs', tac).solver() if tac == 'qfnra-nlsat' else z3.SimpleSolver()
                s.set('timeout', limit)
                for p in eng.path:
                    s.add(p)
                s.add(neg)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            eng.stats.solver_s += time.time() - t0
            eng.stats.queries += 1
            if r != z3.unknown:
                return r
        if limit == full:
            break
    return z3.unknown


def refine_transcendental(eng, extra):
    """models in which the arguments of abstracted functions are fixed and the function values are the true ones"""
    import math
    out = []
    r, m = eng._check(list(extra), eng.check_timeout, 'model')
    if r != z3.sat:
        return out
    cons = []
    for name, lst in eng._apps.items():
        for ent in lst:
            try:
                if len(ent) == 2:
                    x, y = ent
                    xv = m.eval(x, model_completion=True)
                    f = Fraction(round(float(core._real_of(xv)) * 4), 4)
                    if f > 20:
                        f = Fraction(20)
                    if f < -20:
                        f = Fraction(-20)
                    fn = getattr(np, name)
                    yv = float(fn(float(f)))
                    if not math.isfinite(yv):
                        continue
                    cons.append(x == z3.RealVal(f))
                    cons.append(z3.And(y > z3.RealVal(Fraction(yv) - Fraction(abs(yv) + 1) / 10 ** 7),
                                       y < z3.RealVal(Fraction(yv) + Fraction(abs(yv) + 1) / 10 ** 7)))
            except (Unsupported, ValueError, OverflowError):
                continue
    r, m2 = eng._check(list(extra) + cons, eng.check_timeout, 'model')
    if r == z3.sat:
        try:
            out.append(eng.model_values(m2))
        except Unsupported:
            pass
    return out


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, values, sc, rnd=None):
        super().__init__()
        self.values = values
        self.sc = sc
        self.tol = sc.tol
        self.rng = patch.Rng(self)
        self.defaulted = 0
        self.rnd = rnd          # inputs without a value are drawn from it

    def _get(self, name, default):
        if name in self.values:
            return self.values[name]
        self.defaulted += 1
        if self.rnd is not None:
            self.values[name] = default
        return default

    def real(self, name, lo=None, hi=None):
        d = 0.0
        if lo is not None:
            d = float(lo) if hi is None else (float(lo) + float(hi)) / 2
        elif hi is not None:
            d = float(hi)
        if self.rnd is not None:
            a = (-2. if hi is None else min(-2., float(hi))) if lo is None else float(lo)
            b = max(2., a + 4) if hi is None else float(hi)
            d = a + (b - a) * self.rnd.randrange(0, 65) / 64
        return np.float64(float(self._get(name, d)))

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else 0
        if self.rnd is not None:
            d = self.rnd.randint(int(d), int(hi) if hi is not None else int(d) + 3)
        return np.int64(int(self._get(name, d)))

    def bool(self, name):
        return np.bool_(self._get(name, self.rnd is not None and self.rnd.random() < .5))

    def pack(self, vals, shape, kind=None):
        if kind is None:
            a = np.array(vals)
        else:
            a = np.array(vals, dtype={'f': float, 'i': int, 'b': bool}[kind])
        return a.reshape(shape)

    def to_tensor(self, a, dtype=torch.float32):
        return torch.as_tensor(np.array(a)).to(dtype)

    def probe(self, n):
        return torch.zeros(n, requires_grad=True)

    def coefficients(self, out, y):
        cur = torch.autograd.grad
        torch.autograd.grad = _autograd_grad
        try:
            return list(_autograd_grad(out, y)[0])
        finally:
            torch.autograd.grad = cur

    def option(self, name, options):
        """one of the given integers"""
        d = options[0] if self.rnd is None else self.rnd.choice(options)
        return np.int64(int(self._get(name, d)))

    def invalid(self):
        raise ReplayInvalid()

    def assume_(self, cond):
        # generator bounds: tolerate rounding of the model's rationals
        return

    def assume(self, *conds):
        for c in conds:
            if not bool(np.all(_sc(c))):
                raise ReplayInvalid()

    def check(self, cond, label, detail=''):
        self.labels.add(label)
        if not bool(np.all(_sc(cond))):
            raise ConcreteViolation(label, detail)

    def eq(self, a, b, label, tol=None):
        self.labels.add(label)
        la, lb = [], []
        _leaves(a, la)
        _leaves(b, lb)
        self.obs.append((label, [v for _, v in la]))
        if [p for p, _ in la] != [p for p, _ in lb]:
            raise ConcreteViolation(label, 'structure differs: %s vs %s' % (_struct(la), _struct(lb)))
        for (p, x), (_, y) in zip(la, lb):
            if not bool(scalar_eq(x, y, tol or self.tol)):
                raise ConcreteViolation(label, '%s: got %s, expected %s' % (p, x, y))

    def le(self, a, b, label, tol=1e-6):
        self.labels.add(label)
        x = a.detach().numpy() if isinstance(a, torch.Tensor) else np.asarray(a, dtype=float)
        y = b.detach().numpy() if isinstance(b, torch.Tensor) else np.asarray(b, dtype=float)
        if not np.all(x <= y + tol * (1 + np.abs(np.where(np.isfinite(y), y, 0)))):
            raise ConcreteViolation(label, '%s > %s' % (x, y))

    def lt(self, a, b, label):
        self.check(bool(a < b), label)


# ---- running ---------------------------------------------------------------------------------------------------------------------

def run_concrete(sc, values, rnd=None):
    """(outcome, info): 'ok' | 'violation' | 'exception' | 'invalid'"""
    ctx = ConcCtx(values, sc, rnd)
    core.set_engine(None)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        with patch.Binding(ctx):
            try:
                sc.fn(ctx, **sc.params)
            except ConcreteViolation as e:
                return 'violation', e, ctx
            except ReplayInvalid:
                return 'invalid', None, ctx
            except Unsupported as e:
                return 'invalid', e, ctx
            except Exception as e:          # noqa: BLE001
                return 'exception', e, ctx
    return 'ok', None, ctx


def exc_site(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/mushroom_rl/' in f.filename:
            return '%s in %s' % (type(e).__name__, f.name)
    return type(e).__name__


def _in_repo(e):
    return any('/mushroom_rl/' in f.filename for f in traceback.extract_tb(e.__traceback__))


def _blame(e):
    """an exception while the harness drives the code through its public interface is the code's; one that comes from
    the harness reaching for a private name is not, nor is one that comes from a stand-in that lacks what the code asks it for"""
    if isinstance(e, AttributeError) and getattr(e, 'obj', None) is not None:
        mro = [c.__module__ for c in (e.obj if isinstance(e.obj, type) else type(e.obj)).__mro__]
        if (mro[0].startswith('props.') or mro[0] == 'types') and not any(m.startswith('mushroom_rl') for m in mro):
            return False
    if _in_repo(e):
        return True
    return not (isinstance(e, AttributeError) and "attribute '_" in str(e))


class Tracer(object):
    def __init__(self):
        self.funcs = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            c = frame.f_code
            i = c.co_filename.find('/mushroom_rl/')
            if i >= 0:
                self.funcs.add(c.co_filename[i + 1:] + ':' + getattr(c, 'co_qualname', c.co_name))


def js(values):
    return {k: (str(v) if isinstance(v, Fraction) else v) for k, v in values.items()}


def unjs(values):
    return {k: (Fraction(v) if isinstance(v, str) else v) for k, v in values.items()}


def explore(sc, seed=1, known=(), deadline=None):
    """run one scenario; returns a plain dict"""
    stats = Stats()
    res = {'scenario': sc.name, 'bounds': sc.bounds, 'violations': [], 'known': [], 'spurious': [], 'unknown': [],
           'unsupported': [], 'labels': set(), 'proved': 0, 'tolproved': 0, 'witnesses': 0, 'witness_mismatch': [],
           'exhausted': True, 'samples': [], 'reach': 0, 'decisions': 0, 'errors': []}
    t0 = time.time()
    end = min(t0 + sc.budget, deadline or 1e18)
    tracer = Tracer()
    work = [[]]
    rnd = random.Random(seed)
    covered = set()
    known_hit = set()
    knowns = {(k['scenario'], k['label']): k for k in known}

    def note_violation(label, detail, values, kind):
        ent = {'label': label, 'detail': str(detail)[:400], 'values': js(values), 'kind': kind}
        k = knowns.get((sc.fn.__name__, label))
        if k is not None:
            if k['what'] not in res['known']:
                res['known'].append(k['what'])
            known_hit.add(label)
            return False
        res['violations'].append(ent)
        return True

    def replay(values, label, rnd=None):
        """True if a new violation was confirmed"""
        stats.replays += 1
        out, info, cctx = run_concrete(sc, values, rnd)
        if out == 'violation':
            note_violation(info.label, info.detail, values, 'check')
            return True
        if out == 'exception':
            if not _blame(info):
                if label != 'probe':
                    res['errors'].append('harness exception in replay: %r' % info)
                return False
            note_violation('exception: ' + exc_site(info), repr(info), values, 'exception')
            return True
        return False

    stop = False
    while work and not stop:
        if stats.paths >= sc.max_paths or time.time() > end:
            res['exhausted'] = False
            stats.truncated += len(work)
            break
        prefix = work.pop()
        eng = Engine(prefix, stats, deadline=end + 5)
        core.set_engine(eng)
        ctx = SymCtx(eng, sc)
        ctx.known_hit = known_hit
        stats.paths += 1
        status, err = 'ok', None
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            with patch.Binding(ctx, sc.extra() if sc.extra else None):
                if stats.paths <= 2:
                    sys.setprofile(tracer)
                try:
                    sc.fn(ctx, **sc.params)
                except Found:
                    status = 'found'
                except PathAbort:
                    status = 'abort'
                except BudgetExceeded:
                    status = 'budget'
                except Unsupported as e:
                    status, err = 'unsupported', e
                except ReplayInvalid:
                    status = 'abort'
                except Exception as e:      # noqa: BLE001
                    status, err = 'exception', e
                except RecursionError as e:
                    status, err = 'unsupported', e
                finally:
                    sys.setprofile(None)
        core.set_engine(None)
        work += eng.pending
        res['decisions'] += len(eng.decisions)
        res['labels'] |= ctx.labels
        if status in ('ok', 'found'):
            covered |= ctx.covered
        res['proved'] += ctx.proved
        res['tolproved'] += ctx.tolproved
        if status == 'abort':
            stats.infeasible += 1
            continue
        if status == 'budget':
            # not decided in time: what the solver found so far
            res['exhausted'] = False
            stats.truncated += 1
            for (label, vals, detail, sure, abstract) in ctx.cex:
                if res['violations'] or any(replay(v, label) and res['violations'] for v in vals):
                    break
            break
        # counterexamples -> replay on the real code
        for (label, vals, detail, sure, abstract) in ctx.cex:
            confirmed = False
            for v in vals:
                if replay(v, label):
                    confirmed = True
                    break
            if confirmed:
                if res['violations']:
                    stop = True
                    break
            elif not sure:
                res['unknown'].append(label)
            else:
                res['spurious'].append({'label': label, 'detail': detail, 'values': js(vals[0]) if vals else {},
                                        'abstract': abstract})
        if stop:
            break
        core.set_engine(eng)
        if status in ('unsupported', 'exception'):
            if status == 'exception':
                # an exception of the code under test: does it happen for real?
                stats.raised += 1
            models = []
            for _ in range(8 if status == 'unsupported' else 1):
                try:
                    m = eng.nice_model([], 2000, rnd if models or status == 'unsupported' else None)
                    if m is None:
                        r, m = eng._check([], min(eng.check_timeout, 6000), 'model')
                        if r == z3.unsat:
                            break
                    if m is not None:
                        models.append(eng.model_values(m))
                except (Unsupported, BudgetExceeded):
                    pass
            core.set_engine(None)
            hit = False
            for v in models:
                stats.realised += 1
                if replay(v, 'path', rnd):
                    hit = True
                    break
            if hit and res['violations']:
                break
            if not hit and models:
                res['unsupported'].append('%s: %s' % (type(err).__name__, str(err)[:200]) +
                                          (' @' + exc_site(err) if status == 'exception' else ''))
                if status == 'exception':
                    res['unsupported'][-1] += ' ' + ' | '.join(
                        '%s:%d' % (os.path.basename(f.filename), f.lineno)
                        for f in traceback.extract_tb(err.__traceback__)[-4:])
                stats.unsupported += 1
            continue
        if status == 'found':
            continue
        # witness: the path is reachable, and the encoding agrees with the real code on it
        if res['witnesses'] < sc.replay_paths:
            try:
                m = eng.nice_model([], 1500)
                if m is None:
                    r, m = eng._check([], eng.check_timeout, 'model')
                    if r == z3.unsat:
                        stats.infeasible += 1
                        core.set_engine(None)
                        continue
            except BudgetExceeded:
                m = None
            core.set_engine(None)
            if m is not None:
                try:
                    v = eng.model_values(m)
                except Unsupported:
                    v = None
                if v is not None:
                    res['reach'] += 1
                    res['witnesses'] += 1
                    stats.replays += 1
                    out, info, cctx = run_concrete(sc, v)
                    if len(res['samples']) < 3:
                        res['samples'].append({'path': [str(d) for d in eng.decisions][:40], 'inputs': js(v)})
                    if out == 'violation':
                        # real inputs break the property although the encoding did not see it
                        if note_violation(info.label, info.detail + ' (seen on the concrete witness of a path)', v,
                                          'witness'):
                            break
                    elif out == 'exception':
                        if _blame(info):
                            if note_violation('exception: ' + exc_site(info), repr(info), v, 'witness'):
                                break
                        else:
                            res['errors'].append('harness exception in witness: %r' % info)
                    elif out == 'ok' and not eng._apps:
                        mm = compare_obs(eng, m, ctx.obs, cctx.obs, sc)
                        if mm:
                            res['witness_mismatch'].append(mm)
        core.set_engine(None)
    if not res['violations'] and not res['errors'] and (res['spurious'] or res['unknown'] or res['unsupported'] or not res['exhausted'] or
                                                        not res['witnesses']):
        # undecided or not confirmed: inputs of a violation may still be found by running the real code (never counted as evidence that it holds)
        core.set_engine(None)
        for _ in range(24):
            if res['violations'] or time.time() > end + 60:
                break
            replay({}, 'probe', rnd)
    if sc.goals and res['exhausted'] and not res['violations'] and not res['unsupported'] and not res['errors']:
        for g in sc.goals:
            if g not in covered:
                note_violation('unreachable: ' + g, 'no input or random draw within the bounds reaches it', {}, 'goal')
    res['labels'] = sorted(res['labels'])
    res['functions'] = sorted(tracer.funcs)
    res['stats'] = stats.as_dict()
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def compare_obs(eng, m, sobs, cobs, sc):
    if len(sobs) != len(cobs):
        return 'different number of observations %d/%d' % (len(sobs), len(cobs))
    for (ls, vs), (lc, vc) in zip(sobs, cobs):
        if ls != lc:
            return 'observation order %s/%s' % (ls, lc)
        if vs is True or vc is True:
            continue
        for x, y in zip(vs, vc):
            if isinstance(x, Sym):
                try:
                    e = m.eval(x.t, model_completion=True)
                    if x.k == 'b':
                        xv = float(z3.is_true(e))
                    else:
                        xv = float(core._real_of(e))
                    yv = float(y)
                except Exception:           # noqa: BLE001
                    continue
                if abs(xv - yv) > max(sc.tol, 1e-5) * 10 * (1 + abs(xv)):
                    return '%s: encoding %s, real code %s' % (ls, xv, yv)
    return None


# ---- parallel driver ----------------------------------------------------------------------------------------------------------------

def _child(sc, seed, known, conn, deadline):
    try:
        r = explore(sc, seed, known, deadline)
    except BaseException as e:      # noqa: BLE001
        r = {'scenario': sc.name, 'crash': traceback.format_exc()}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_all(scs, seed, known, jobs=None, hard=840):
    jobs = jobs or min(8, os.cpu_count() or 1)
    mpx = mp.get_context('fork')
    t0 = time.time()
    deadline = t0 + hard
    pending = list(scs)[::-1]
    running = []
    results = []
    while pending or running:
        while pending and len(running) < jobs:
            sc = pending.pop()
            a, b = mpx.Pipe(False)
            p = mpx.Process(target=_child, args=(sc, seed, [k for k in known if k['property'] == sc.prop], b, deadline - 20))
            p.start()
            b.close()
            running.append((sc, p, a, time.time()))
        nxt = []
        for sc, p, a, ts in running:
            if a.poll(0):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({'scenario': sc.name, 'crash': 'worker died'})
                p.join(5)
                continue
            if not p.is_alive():
                if a.poll(0.2):
                    try:
                        results.append(a.recv())
                        continue
                    except EOFError:
                        pass
                results.append({'scenario': sc.name, 'crash': 'worker died'})
                continue
            if time.time() - ts > sc.budget * 1.5 + 60 or time.time() > deadline:
                p.terminate()
                p.join(5)
                if p.is_alive():
                    p.kill()
                results.append({'scenario': sc.name, 'timeout': True})
                continue
            nxt.append((sc, p, a, ts))
        running = nxt
        time.sleep(0.02)
    return results
