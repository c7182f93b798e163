"""Numbers that carry a bound on accumulated rounding error.

``EV(v, e, m)``: value v computed in float64, e bounds |v - exact| plus what
any other evaluation of the same expression with unit roundoff ``u`` (and any
re-association of sums and products) may differ, m bounds the sum of the
absolute values of the terms v is made of. i tells the type an evaluation in
Python/numpy would have: 0 float, 1 Python int, 2 numpy int (which wraps around
and refuses negative powers; such cases are discarded), 3 a truth value.
"""
import ast
import math

import numpy as np

from nrwalv.core import Discard

U64 = 2.3e-16
U32 = 1.2e-7
_U = [U64]


def set_precision(u):
    _U[0] = u


class EV:
    __slots__ = ('v', 'e', 'm', 'i')
    __array_priority__ = 1000

    def __init__(self, v, e=None, m=None, i=0):
        self.i = i
        v = float(v)
        if not math.isfinite(v) or abs(v) > 1e30 or 0 < abs(v) < 1e-30:
            raise Discard('range')
        self.v = v
        self.e = _U[0] * abs(v) if e is None else float(e)
        self.m = abs(v) if m is None else float(m)
        if not math.isfinite(self.e) or not math.isfinite(self.m) \
                or self.m > 1e32:
            raise Discard('range')
        if i == 2 and abs(v) > 1e15:
            raise Discard('range')

    # arithmetic
    def __add__(self, o):
        o = ev(o)
        m = self.m + o.m
        return EV(self.v + o.v, self.e + o.e + 2 * _U[0] * m, m,
                  _int(self, o))

    def __sub__(self, o):
        o = ev(o)
        m = self.m + o.m
        return EV(self.v - o.v, self.e + o.e + 2 * _U[0] * m, m,
                  _int(self, o))

    def __mul__(self, o):
        o = ev(o)
        m = self.m * o.m
        return EV(self.v * o.v, abs(self.v) * o.e + abs(o.v) * self.e
                  + self.e * o.e + 2 * _U[0] * m, m, _int(self, o))

    def __truediv__(self, o):
        o = ev(o)
        d = abs(o.v) - 2 * o.e
        if d <= 0 or abs(o.v) < 1e-12:
            raise Discard('division')
        _int(self, o)
        v = self.v / o.v
        m = self.m / d * (o.m / abs(o.v))
        return EV(v, (self.e + abs(v) * o.e) / d + 2 * _U[0] * m, m)

    def __pow__(self, o):
        o = ev(o)
        a, b = self.v, o.v
        if self.i == 3 or o.i == 3:
            # eight bit integers or half precision in numpy
            raise Discard('power of a boolean')
        i = _int(self, o)
        if b < 0:
            if i == 2:
                raise Discard('negative power of a numpy int')
            i = 0
        isint = b == round(b) and o.e <= 4 * U32 * abs(b) and abs(b) < 64
        if a == 0 and b > 0 and isint and self.e == 0:
            return EV(0.0, 0.0, 0.0, i)
        if abs(a) < 1e-9 or abs(a) <= 4 * self.e:
            raise Discard('power')
        if a < 0 and not (isint and o.e == 0):
            raise Discard('power')
        if abs(b) * abs(math.log(abs(a))) > 60:
            raise Discard('power')
        v = a ** (int(b) if isint and o.e == 0 else b)
        rel = abs(b) * self.e / (abs(a) - self.e) \
            + abs(math.log(abs(a))) * o.e
        if rel > 0.01:
            raise Discard('power')
        u = _U[0] * (4 + 4 * abs(b) * (1 + abs(math.log(abs(a)))))
        return EV(v, abs(v) * (1.5 * rel + u), abs(v) * 2, i)

    def __mod__(self, o):
        raise Discard('mod')

    def __radd__(self, o):
        return ev(o) + self

    def __rsub__(self, o):
        return ev(o) - self

    def __rmul__(self, o):
        return ev(o) * self

    def __rtruediv__(self, o):
        return ev(o) / self

    def __rpow__(self, o):
        return ev(o) ** self

    def __neg__(self):
        if self.i == 3:
            raise Discard('arithmetic of numpy booleans')
        return EV(-self.v, self.e, self.m, self.i)

    def __pos__(self):
        return self

    def __abs__(self):
        return EV(abs(self.v), self.e, self.m, self.i)

    # comparisons must not hang on a rounding error
    def _cmp(self, o):
        o = ev(o)
        d = self.v - o.v
        if abs(d) <= 10 * (self.e + o.e) and not (self.e == 0 and o.e == 0):
            raise Discard('comparison')
        return d

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __eq__(self, o):
        return self._cmp(o) == 0

    def __ne__(self, o):
        return self._cmp(o) != 0

    __hash__ = None

    def __repr__(self):
        return 'EV({!r}, +-{:.1e})'.format(self.v, self.e)


def _int(a, b):
    if a.i == 3 and b.i == 3:
        raise Discard('arithmetic of two numpy booleans')
    return min(2, max(a.i, b.i)) if a.i and b.i else 0


def npint(x):
    """Result of a numpy function that keeps integers."""
    return EV(x.v, x.e, x.m, 2 if x.i else 0)


def ev(x):
    if isinstance(x, EV):
        return x
    if isinstance(x, (bool, np.bool_)):
        return EV(float(x), 0.0, i=3)
    if isinstance(x, complex):
        raise Discard('complex')
    if isinstance(x, int):
        return EV(x, 0.0 if abs(x) < 1e6 else None, i=1)
    return EV(x, 0.0 if float(x) == int(float(x)) and abs(x) < 1e6 else None)


def exact(x):
    return EV(x, 0.0)


def _lift(fun):
    def f(*args):
        args = [ev(a) for a in args]
        if any(a.i == 3 for a in args):
            raise Discard('function of a boolean')
        vals = [a.v for a in args]
        try:
            v = float(fun(*vals))
            e = 0.0
            for i, a in enumerate(args):
                if a.e:
                    for s in (-1.0, 1.0):
                        w = list(vals)
                        w[i] += s * a.e
                        e += abs(float(fun(*w)) - v) * 2
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            raise Discard('domain')
        return EV(v, e + 8 * _U[0] * abs(v))
    return f


def _wave(fun):
    """sin and cos change no faster than their argument."""
    def f(x):
        x = ev(x)
        if x.e > 0.01:
            raise Discard('period')
        return EV(fun(x.v), x.e + 8 * _U[0])
    return f


def _where(c, a, b):
    if isinstance(c, EV):
        c = c != 0
    a, b = ev(a), ev(b)
    r = a if c else b
    return EV(r.v, r.e, r.m, 2 if a.i and b.i else 0)


def _minimum(a, b):
    a, b = ev(a), ev(b)
    return EV(min(a.v, b.v), max(a.e, b.e), max(a.m, b.m),
              2 if a.i and b.i else 0)


def _maximum(a, b):
    a, b = ev(a), ev(b)
    return EV(max(a.v, b.v), max(a.e, b.e), max(a.m, b.m),
              2 if a.i and b.i else 0)


def _clip(a, a_min=None, a_max=None, **kw):
    return _minimum(_maximum(a, a_min), a_max)


class NpShim:
    """The numpy functions used by generated and shipped expressions."""
    pi = EV(math.pi, 1e-15)
    e = EV(math.e, 1e-15)
    exp = staticmethod(_lift(math.exp))
    log = staticmethod(_lift(math.log))
    log10 = staticmethod(_lift(math.log10))
    log1p = staticmethod(_lift(math.log1p))
    sqrt = staticmethod(_lift(math.sqrt))
    tanh = staticmethod(_lift(math.tanh))
    sin = staticmethod(_wave(math.sin))
    cos = staticmethod(_wave(math.cos))
    arctan = staticmethod(_lift(math.atan))
    abs = staticmethod(lambda x: npint(abs(ev(x))))
    minimum = staticmethod(_minimum)
    maximum = staticmethod(_maximum)
    where = staticmethod(_where)
    clip = staticmethod(_clip)
    power = staticmethod(lambda a, b: npint(npint(ev(a)) ** ev(b)))
    hypot = staticmethod(_lift(math.hypot))
    add = staticmethod(lambda a, b: npint(ev(a) + ev(b)))
    subtract = staticmethod(lambda a, b: npint(ev(a) - ev(b)))
    multiply = staticmethod(lambda a, b: npint(ev(a) * ev(b)))
    divide = staticmethod(lambda a, b: ev(a) / ev(b))
    ones_like = staticmethod(lambda a: exact(1.0))

    class emath:
        """As the ordinary functions, for positive numbers."""
        sqrt = staticmethod(_lift(math.sqrt))
        log10 = staticmethod(_lift(math.log10))


class Names(dict):
    """Namespace for eval() whose names are resolved by a function."""

    def __init__(self, fun):
        super().__init__()
        self.fun = fun

    def __missing__(self, key):
        return self.fun(key)


class _Lift(ast.NodeTransformer):
    """Numbers become EV before any operator is applied to them (an integer
    power of integers could otherwise take forever)."""

    def visit_Constant(self, node):
        if isinstance(node.value, bool) or \
                not isinstance(node.value, (int, float)):
            return node
        return ast.copy_location(ast.Call(
            ast.Name('_ev_', ast.Load()), [node], []), node)


def ev_eval(text, resolve):
    """Value of an expression text under Python semantics."""
    ns = Names(resolve)
    ns['np'] = NpShim
    ns['_ev_'] = ev
    tree = ast.parse(text.strip().replace('^', '**').replace('\n', ' '),
                     mode='eval')
    tree = ast.fix_missing_locations(_Lift().visit(tree))
    try:
        return ev(eval(compile(tree, '<oracle>', 'eval'),
                       {'__builtins__': {}}, ns))
    except (OverflowError, ZeroDivisionError):
        raise Discard('overflow')


def site(x, pos):
    """Scalar of input x at a flat position of the broadcast result."""
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return float(x.reshape(-1)[0])
        return float(x.reshape(-1)[pos])
    return float(x)


def tol(ref):
    return 12 * ref.e + (1e-13 + 4 * _U[0]) * abs(ref.v)


def usable(ref):
    """The reference must be accurate enough to tell right from wrong."""
    if ref.v != 0 and tol(ref) > 2e-3 * abs(ref.v):
        raise Discard('ill conditioned')
    if ref.v == 0 and tol(ref) > 1e-3:
        raise Discard('ill conditioned')
    return ref


def close(got, ref):
    try:
        got = float(got)
    except (TypeError, ValueError):
        return False
    return math.isfinite(got) and abs(got - ref.v) <= tol(ref) + 1e-300


def compare(ctx, got, refs, kind, detail):
    """got (scalar or array) must equal refs[pos] at every flat position."""
    if type(got) is int:
        # may be too large for a numpy integer
        got = float(got)
    if len(refs) == 1 and not isinstance(got, np.ndarray):
        ctx.check(close(got, refs[0]), kind,
                  lambda: '{}: got {!r}, expected {!r}'.format(
                      detail() if callable(detail) else detail, got, refs[0]))
        return
    arr = np.asarray(got)
    if arr.dtype == object:
        ctx.fail(kind, '{}: result is {!r}'.format(
            detail() if callable(detail) else detail, got))
    flat = arr.reshape(-1)
    if flat.size == 1 and len(refs) > 1:
        flat = np.repeat(flat, len(refs))
    ctx.check(flat.size == len(refs), kind + ' (shape)',
              lambda: '{}: got shape {} for {} sites'.format(
                  detail() if callable(detail) else detail, arr.shape,
                  len(refs)))
    for i, r in enumerate(refs):
        if r is None:
            continue
        ctx.check(close(flat[i], r), kind,
                  lambda: '{}: site {}: got {!r}, expected {!r}'.format(
                      detail() if callable(detail) else detail, i, flat[i], r))
