"""Arrays of symbolic numbers: an object ndarray subclass with a logical dtype."""
import functools
import math
import operator
from fractions import Fraction

import numpy as np

from . import core
from .core import (SBool, Sym, Unsupported, s_abs, s_add, s_arccos, s_cmp, s_cos, s_div, s_exp,
                   s_floor, s_floordiv, s_log, s_mod, s_mul, s_pow, s_round, s_sin, s_sqrt, s_sub,
                   s_trunc)

F64 = np.dtype('float64')
I64 = np.dtype('int64')
B = np.dtype('bool')
OBJ = np.dtype(object)


def _dt(d):
    """Logical dtype of a dtype argument."""
    if d is None:
        return None
    if d is float:
        return F64
    try:
        d = np.dtype(d)
    except TypeError:
        if isinstance(d, type) and issubclass(d, float):
            return F64
        raise
    return d


class Uninit:
    """Marker of np.empty cells: any read makes an arbitrary value."""


def is_s(x):
    return isinstance(x, (Sym, SBool))


def any_sym(a):
    for x in a.flat:
        if type(x) is Sym or isinstance(x, SBool):
            return True
    return False


def elem(x):
    """Normalise one element read out of an array."""
    if type(x) is float:
        return np.float64(x)
    if type(x) is int:
        return np.int64(x) if -2 ** 63 <= x < 2 ** 63 else x
    if type(x) is Fraction:
        return Sym({core.ONE: core._c(x)}) if x else np.float64(0)
    return x


class SArr(np.ndarray):
    __array_priority__ = 9000
    ldt = F64

    def __array_finalize__(self, obj):
        if obj is not None:
            self.ldt = getattr(obj, 'ldt', F64)

    @property
    def dtype(self):
        return self.ldt

    # ---- indexing
    def __getitem__(self, key):
        key = fix_index(key)
        r = np.ndarray.__getitem__(self, key)
        if isinstance(r, SArr):
            return r
        return elem(r)

    def __setitem__(self, key, value):
        key = fix_index(key)
        value = to_elems(value)
        if self.ldt.kind in 'iu':
            value = map_elems(s_trunc_any, value)
            if narrow(self.ldt):
                value = map_elems(lambda x: fit(x, self.ldt), value)
        elif self.ldt.kind == 'b':
            value = map_elems(bool, value)
        base_ = self.view(np.ndarray)
        if isinstance(value, np.ndarray) and value.ndim == 0 and base_.ndim and \
                not isinstance(base_[key], np.ndarray):
            value = value[()]
        np.ndarray.__setitem__(base_, key, value)

    # ---- methods numpy would implement through dtype-dependent C code
    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        d = _dt(dtype)
        return cast(self, d)

    def copy(self, order='C'):
        r = np.array(self.view(np.ndarray), dtype=object, order=order, copy=True).view(type(self))
        r.ldt = self.ldt
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return f_var(self, axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(f_var(self, axis, ddof=ddof, keepdims=keepdims))

    def argsort(self, axis=-1, kind=None, order=None):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        r = f_sort(self, axis)
        np.ndarray.__setitem__(self.view(np.ndarray), Ellipsis, plain(r))

    def argmax(self, axis=None, out=None, **k):
        return f_argext(self, axis, True)

    def argmin(self, axis=None, out=None, **k):
        return f_argext(self, axis, False)

    def nonzero(self):
        return boolarr(self).nonzero()

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max)

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)

    def dot(self, o, out=None):
        return np.dot(self, o)

    def trace(self, *a, **k):
        return np.trace(self, *a, **k)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np.cumsum(self, axis=axis)

    def item(self, *args):
        r = np.ndarray.item(self.view(np.ndarray), *args)
        return r

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return f_zeros(self.shape)

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        x = self.view(np.ndarray).ravel()[0]
        return float(x)

    def __int__(self):
        return int(self.view(np.ndarray).ravel()[0])

    def __index__(self):
        if self.size == 1 and self.ldt.kind in 'iu':
            return operator.index(self.view(np.ndarray).ravel()[0])
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __bool__(self):
        if self.size > 1:
            raise ValueError('The truth value of an array with more than one element is '
                             'ambiguous. Use a.any() or a.all()')
        if self.size == 0:
            return False
        return bool(self.view(np.ndarray).ravel()[0])

    def __contains__(self, x):
        return bool((self == x).any())

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    # in-place operators keep the logical dtype (numpy's casting rule)
    def _inplace(self, o, uf):
        r = uf(self, o)
        rd = getattr(r, 'dtype', F64)
        if self.ldt.kind in 'iu' and rd.kind in 'fc' or self.ldt.kind == 'b' and rd.kind != 'b':
            raise np.core._exceptions._UFuncOutputCastingError(
                uf, 'same_kind', rd, self.ldt, 0)
        if np.shape(r) != self.shape:
            raise ValueError('non-broadcastable output operand')
        np.ndarray.__setitem__(self.view(np.ndarray), Ellipsis, to_elems(r))
        return self

    def __iadd__(self, o):
        return self._inplace(o, np.add)

    def __isub__(self, o):
        return self._inplace(o, np.subtract)

    def __imul__(self, o):
        return self._inplace(o, np.multiply)

    def __itruediv__(self, o):
        return self._inplace(o, np.true_divide)

    def __ipow__(self, o):
        return self._inplace(o, np.power)

    def __mul__(self, o):
        if is_sparse(o):
            return NotImplemented
        return np.multiply(self, o)

    def __matmul__(self, o):
        if is_sparse(o):
            return NotImplemented
        return np.matmul(self, o)

    def __add__(self, o):
        if is_sparse(o):
            return NotImplemented
        return np.add(self, o)

    def __sub__(self, o):
        if is_sparse(o):
            return NotImplemented
        return np.subtract(self, o)

    def __truediv__(self, o):
        return np.true_divide(self, o)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_function(func, types, args, kwargs)

    def __repr__(self):
        return 'SArr(' + repr(self.view(np.ndarray).tolist()) + ')'
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported('pickle array')

    def tobytes(self, *a, **k):
        raise Unsupported('tobytes')

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        if not a and not k:
            return np.ndarray.view(self)
        raise Unsupported('array view')


class SMatrix(SArr, np.matrix):
    """np.matrix of symbolic numbers (results of sparse sums)."""

    def __array_finalize__(self, obj):
        SArr.__array_finalize__(self, obj)

    def __getitem__(self, key):
        r = SArr.__getitem__(self.view2(), key)
        if not isinstance(r, np.ndarray):
            return r
        if r.ndim == 2:
            return asmatrix(r)
        if r.ndim == 1:
            k = key[1] if isinstance(key, tuple) and len(key) > 1 else None
            if isinstance(key, tuple) and len(key) > 1 and isinstance(key[1], (int, np.integer)):
                return asmatrix(r.reshape(-1, 1))
            return asmatrix(r.reshape(1, -1))
        return r

    def view2(self):
        r = np.ndarray.view(self, np.ndarray).view(SArr)
        r.ldt = self.ldt
        return r

    @property
    def A(self):
        return self.view2()

    @property
    def A1(self):
        return self.view2().ravel()

    @property
    def T(self):
        return asmatrix(self.view2().T)

    def __mul__(self, o):
        if np.isscalar(o) or is_s(o):
            return asmatrix(self.view2() * o)
        if is_sparse(o):
            return NotImplemented
        return asmatrix(np.dot(self.view2(), np.atleast_2d(arr(o)) if np.ndim(o) < 2 else arr(o)))

    def __rmul__(self, o):
        if np.isscalar(o) or is_s(o):
            return asmatrix(self.view2() * o)
        return asmatrix(np.dot(arr(o), self.view2()))

    def __add__(self, o):
        return asmatrix(self.view2() + base(o))
    __radd__ = __add__

    def __sub__(self, o):
        return asmatrix(self.view2() - base(o))

    def __rsub__(self, o):
        return asmatrix(base(o) - self.view2())

    def __truediv__(self, o):
        return asmatrix(self.view2() / base(o))

    def __neg__(self):
        return asmatrix(-self.view2())

    def __iadd__(self, o):
        np.ndarray.__setitem__(self.view(np.ndarray), Ellipsis, plain(self.view2() + base(o)))
        return self

    def sum(self, axis=None, **k):
        r = self.view2().sum(axis=axis)
        if axis is None:
            return r
        return asmatrix(r.reshape(1, -1) if axis in (0, -2) else r.reshape(-1, 1))

    def flatten(self, order='C'):
        return asmatrix(self.view2().ravel().reshape(1, -1))
    ravel = flatten

    def tolist(self):
        return np.ndarray.view(self, np.ndarray).tolist()


def base(o):
    return o.view2() if isinstance(o, SMatrix) else (np.asarray(o) if isinstance(o, np.matrix)
                                                     else o)


def asmatrix(a):
    a = arr(a)
    if a.ndim < 2:
        a = a.reshape(1, -1)
    r = np.ndarray.view(a.view(np.ndarray), SMatrix)
    r.ldt = a.ldt
    return r


def is_sparse(o):
    from . import sp
    return isinstance(o, sp.SM)


def s_trunc_any(x):
    if isinstance(x, (Sym,)):
        return s_trunc(x)
    return int(x)


def fix_index(key):
    if isinstance(key, tuple):
        return tuple(_fix1(k) for k in key)
    return _fix1(key)


def _fix1(k):
    if isinstance(k, SArr):
        if k.ldt.kind == 'f':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return intarr(k, k.ldt) if k.ldt.kind in 'iu' else boolarr(k)
    if isinstance(k, Sym):
        return operator.index(k)
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, list) and any(is_s(x) for x in k):
        return [_fix1(x) for x in k]
    return k


def narrow(d):
    """True for integer types whose arithmetic visibly wraps around (64 bits never do here)."""
    return isinstance(d, np.dtype) and d.kind in 'iu' and d.itemsize < 8


def fit(x, d):
    """Integer x modulo the range of the integer type d."""
    n = 8 * d.itemsize
    off = 2 ** (n - 1) if d.kind == 'i' else 0
    if isinstance(x, Sym):
        lo, hi = core.interval(x.p)
        if not x.isint or -off <= lo and hi < 2 ** n - off:
            return x
        return core.s_sub(core.s_mod(core.s_add(x, off), 2 ** n), off)
    if isinstance(x, (SBool, bool, np.bool_)):
        return int(bool(x))
    if not isinstance(x, (int, np.integer)):
        return x
    return (int(x) + off) % 2 ** n - off


def intarr(a, d=None):
    p = a.view(np.ndarray) if isinstance(a, np.ndarray) else np.asarray(a, dtype=object)
    d = np.dtype(d) if d is not None and narrow(np.dtype(d)) else None
    r = np.empty(p.shape, dtype=d or np.int64)
    for i, x in enumerate(p.flat):
        r.flat[i] = int(x) if d is None else fit(int(x), d)
    return r


def boolarr(a):
    p = a.view(np.ndarray) if isinstance(a, np.ndarray) else np.asarray(a, dtype=object)
    r = np.empty(p.shape, dtype=bool)
    for i, x in enumerate(p.flat):
        r.flat[i] = bool(x)
    return r


def plain(x):
    """SArr -> plain ndarray (object); recursive in sequences."""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [plain(y) for y in x]
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return type(x)(*[plain(y) for y in x])
        return tuple(plain(y) for y in x)
    return x


def to_elems(v):
    if isinstance(v, SArr):
        return v.view(np.ndarray)
    if isinstance(v, np.ndarray):
        if v.dtype.kind in 'f':
            return v.astype(object)
        return v
    if isinstance(v, (list, tuple)) and has_sym(v):
        return plain(sarray(v))
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, Sym):
        r = np.empty((), dtype=object)
        r[()] = v
        return r
    return v


def map_elems(f, v):
    if isinstance(v, np.ndarray):
        r = np.empty(v.shape, dtype=object)
        for i, x in enumerate(v.flat):
            r.flat[i] = f(x)
        return r
    if isinstance(v, (list, tuple)):
        return [map_elems(f, x) for x in v]
    return f(v)


def has_sym(x):
    if isinstance(x, SArr):
        return True
    if is_s(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    return False


def wrap(a, ldt=F64):
    """object ndarray -> SArr / concrete array following the logical dtype."""
    if not isinstance(a, np.ndarray):
        return elem(a)
    if a.ndim == 0:
        return elem(a[()])
    ldt = np.dtype(ldt)
    if ldt.kind == 'b':
        return boolarr(a)
    if ldt.kind in 'iu' and not any_sym(a):
        return intarr(a, ldt)
    if narrow(ldt):
        a = map_elems(lambda x: fit(x, ldt), np.asarray(a).view(np.ndarray))
    if ldt.kind in 'c':
        if any_sym(a):
            raise Unsupported('complex array')
        return a.astype(complex)
    r = np.ndarray.view(a, SArr)
    r.ldt = ldt if ldt.kind in 'iu' else F64
    return r


def arr(x):
    """Anything -> SArr (shares memory when already one)."""
    if isinstance(x, SMatrix):
        return x.view2()
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ:
            return wrap_obj(np.asarray(x))
        r = np.asarray(x).astype(object).view(SArr)
        r.ldt = x.dtype if x.dtype.kind in 'biu' else F64
        return r
    return sarray(x)


def wrap_obj(a):
    """Plain object array -> SArr, logical dtype inferred from the elements."""
    if a.ndim == 0:
        r = a.reshape(()).view(SArr)
        r.ldt = F64
        return r
    r = a.view(SArr)
    r.ldt = infer(a)
    return r


def infer(a):
    k = 'b'
    for x in a.flat:
        if isinstance(x, (bool, np.bool_)) or isinstance(x, SBool):
            continue
        if isinstance(x, (int, np.integer)) or (isinstance(x, Sym) and x.isint):
            if k == 'b':
                k = 'i'
            continue
        return F64
    return {'b': B if a.size else F64, 'i': I64}[k]


def sarray(x, dtype=None):
    """Python data with symbolic elements -> SArr."""
    x = plain(x)
    a = _objarray(x)
    r = a.view(SArr)
    d = _dt(dtype)
    r.ldt = infer(a)
    if r.ldt.kind == 'b' and a.size:
        return boolarr(r) if d is None else cast(r, d)
    return r if d is None else cast(r, d)


def sarray0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a.view(SArr)


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return (0,)
        s = [_shape(y) for y in x]
        if any(t != s[0] for t in s):
            raise ValueError('setting an array element with a sequence. The requested array '
                             'has an inhomogeneous shape')
        return (len(x),) + s[0]
    return ()


def _objarray(x):
    s = _shape(x)
    a = np.empty(s, dtype=object)
    if s == ():
        a[()] = x.item() if isinstance(x, np.generic) else x
        return a

    def fill(dst, src):
        if isinstance(src, np.ndarray):
            dst[...] = src.astype(object) if src.dtype != OBJ else src
            return
        if dst.ndim == 1:
            for i, y in enumerate(src):
                dst[i] = y.item() if isinstance(y, np.generic) else (
                    y[()] if isinstance(y, np.ndarray) else y)
            return
        for i, y in enumerate(src):
            fill(dst[i], y)
    fill(a, x)
    return a


def cast(a, d):
    """Logical cast of an SArr / ndarray to dtype d."""
    d = _dt(d)
    p = plain(a)
    if d.kind == 'b':
        return boolarr(p)
    if d.kind in 'iu':
        r = map_elems(s_trunc_any, p.astype(object))
        if narrow(d):
            r = map_elems(lambda x: fit(x, d), r)
        return wrap(r, d)
    if d.kind == 'f':
        r = np.empty(p.shape, dtype=object)
        for i, x in enumerate(p.flat):
            if isinstance(x, Sym):
                r.flat[i] = Sym(x.p, False)
            elif isinstance(x, SBool):
                r.flat[i] = float(bool(x))
            elif isinstance(x, Fraction):
                r.flat[i] = x
            else:
                r.flat[i] = float(x)
        r = r.view(SArr)
        r.ldt = F64
        return r
    if d.kind == 'c':
        if any_sym(p):
            raise Unsupported('complex array')
        return p.astype(complex)
    if d == OBJ:
        return p.astype(object).view(SArr)
    raise Unsupported(f'cast to {d}')


def concrete(x):
    """SArr without symbols -> real ndarray; other data unchanged (recursive)."""
    if isinstance(x, SArr):
        p = x.view(np.ndarray)
        if x.ldt.kind in 'iu':
            return intarr(p, x.ldt)
        if x.ldt.kind == 'b':
            return boolarr(p)
        r = np.empty(p.shape, dtype=float)
        for i, y in enumerate(p.flat):
            r.flat[i] = float(y)
        return r
    if isinstance(x, Sym):
        return float(x)
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, list):
        return [concrete(y) for y in x]
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return type(x)(*[concrete(y) for y in x])
        return tuple(concrete(y) for y in x)
    if isinstance(x, dict):
        return {k: concrete(v) for k, v in x.items()}
    return x


def symbolic_in(x):
    """True if x contains a symbol that is not a mere constant."""
    if isinstance(x, Sym):
        return not core.only_const_atoms(x.p)
    if isinstance(x, SBool):
        return True
    if isinstance(x, SArr):
        return any(symbolic_in(y) for y in x.view(np.ndarray).flat
                   if type(y) is Sym or isinstance(y, SBool))
    if isinstance(x, np.ndarray) and x.dtype == OBJ:
        return any(symbolic_in(y) for y in x.flat)
    if isinstance(x, (list, tuple)):
        return any(symbolic_in(y) for y in x)
    if isinstance(x, dict):
        return any(symbolic_in(y) for y in x.values())
    return False


def rewrap(r):
    """Real results -> float arrays become SArr."""
    if isinstance(r, np.matrix):
        return asmatrix(np.asarray(r)) if r.dtype.kind in 'fO' else r
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind == 'f':
            if r.ndim == 0:
                return np.float64(r[()])
            return r.astype(object).view(SArr)
        if r.dtype == OBJ and r.ndim > 0:
            return wrap_obj(r)
        if r.dtype == OBJ:
            return elem(r[()])
        return r
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return type(r)(*[rewrap(x) for x in r])
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    return r


# ------------------------------------------------------------------ ufuncs

def _c2(f, real):
    def g(a, b):
        if type(a) is Sym or type(b) is Sym or isinstance(a, SBool) or isinstance(b, SBool):
            a = a.item() if isinstance(a, np.generic) else a
            b = b.item() if isinstance(b, np.generic) else b
            if isinstance(a, SBool):
                a = a._n()
            if isinstance(b, SBool):
                b = b._n()
            return f(a, b)
        return py(real(a, b))
    return g


def _c1(f, real):
    def g(a):
        if type(a) is Sym:
            return f(a)
        if isinstance(a, SBool):
            a = bool(a)
        return py(real(a))
    return g


def py(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def _num(a):
    if isinstance(a, Fraction):
        return float(a)
    if isinstance(a, int) and not isinstance(a, bool) and abs(a) >= 2 ** 62:
        return float(a)
    return a


def _real(uf):
    def g(*a):
        with np.errstate(all='ignore'):
            return uf(*[_num(x) for x in a])
    return g


def _max(a, b):
    if _nan(a):
        return a
    if _nan(b):
        return b
    return a if bool(s_cmp(a, b, '>=')) else b


def _min(a, b):
    if _nan(a):
        return a
    if _nan(b):
        return b
    return a if bool(s_cmp(a, b, '<=')) else b


def _nan(a):
    return isinstance(a, float) and a != a


def _sign(a):
    if bool(s_cmp(a, 0, '>')):
        return 1.0
    if bool(s_cmp(a, 0, '<')):
        return -1.0
    return 0.0


def _hypot(a, b):
    return s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))


def _sqrt_const(a):
    """Exact square root of a simple rational constant."""
    if isinstance(a, (int, float)) and not isinstance(a, bool) and 0 < a < 1e6:
        k = core.num(float(a))
        if isinstance(k, int) or k.denominator <= 1000:
            return s_sqrt(Sym({core.ONE: k}))
    return None


def _sqrt(a):
    if type(a) is Sym:
        return s_sqrt(a)
    if isinstance(a, SBool):
        a = float(bool(a))
    r = _sqrt_const(a)
    return r if r is not None else py(_real(np.sqrt)(a))


def _tan(a):
    return s_div(s_sin(a), s_cos(a))


BIN = {
    'add': _c2(s_add, _real(np.add)), 'subtract': _c2(s_sub, _real(np.subtract)),
    'multiply': _c2(s_mul, _real(np.multiply)), 'divide': _c2(s_div, _real(np.divide)),
    'true_divide': _c2(s_div, _real(np.divide)),
    'floor_divide': _c2(s_floordiv, _real(np.floor_divide)),
    'remainder': _c2(s_mod, _real(np.remainder)), 'power': _c2(s_pow, _real(np.power)),
    'float_power': _c2(s_pow, _real(np.float_power)),
    'maximum': _c2(_max, _real(np.maximum)), 'minimum': _c2(_min, _real(np.minimum)),
    'fmax': _c2(_max, _real(np.fmax)), 'fmin': _c2(_min, _real(np.fmin)),
    'hypot': _c2(_hypot, _real(np.hypot)),
}
CMP = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==',
       'not_equal': '!='}
UN = {
    'negative': _c1(lambda a: -a, _real(np.negative)), 'positive': _c1(lambda a: a, _real(np.positive)),
    'absolute': _c1(s_abs, _real(np.absolute)), 'fabs': _c1(s_abs, _real(np.fabs)),
    'sqrt': _sqrt, 'exp': _c1(s_exp, _real(np.exp)), 'log': _c1(s_log, _real(np.log)),
    'cos': _c1(s_cos, _real(np.cos)), 'sin': _c1(s_sin, _real(np.sin)),
    'tan': _c1(_tan, _real(np.tan)), 'arccos': _c1(s_arccos, _real(np.arccos)),
    'square': _c1(lambda a: s_mul(a, a), _real(np.square)),
    'reciprocal': _c1(lambda a: s_div(1, a), _real(np.reciprocal)),
    'sign': _c1(_sign, _real(np.sign)), 'conjugate': _c1(lambda a: a, _real(np.conjugate)),
    'floor': _c1(lambda a: _fl(s_floor(a)), _real(np.floor)),
    'ceil': _c1(lambda a: _fl(-s_floor(-a)), _real(np.ceil)),
    'rint': _c1(lambda a: _fl(s_round(a)), _real(np.rint)),
    'trunc': _c1(lambda a: _fl(s_trunc(a)), _real(np.trunc)),
    'log2': _c1(lambda a: s_div(s_log(a), s_log(2)), _real(np.log2)),
    'log10': _c1(lambda a: s_div(s_log(a), s_log(10)), _real(np.log10)),
    'log1p': _c1(lambda a: s_log(s_add(a, 1)), _real(np.log1p)),
    'expm1': _c1(lambda a: s_sub(s_exp(a), 1), _real(np.expm1)),
    'deg2rad': _c1(lambda a: s_div(s_mul(a, core.s_pi()), 180), _real(np.deg2rad)),
    'cbrt': _c1(lambda a: s_pow(a, Fraction(1, 3)), _real(np.cbrt)),
    'spacing': _c1(lambda a: Fraction(1, 2 ** 52), _real(np.spacing)),
}
BOOL1 = {
    'isnan': lambda a: (not is_s(a)) and a != a,
    'isinf': lambda a: (not is_s(a)) and a in (math.inf, -math.inf),
    'isfinite': lambda a: is_s(a) or (a == a and a not in (math.inf, -math.inf)),
    'logical_not': lambda a: not bool(a),
    'signbit': lambda a: bool(s_cmp(a, 0, '<')),
}
BOOL2 = {
    'logical_and': lambda a, b: bool(a) and bool(b),
    'logical_or': lambda a, b: bool(a) or bool(b),
    'logical_xor': lambda a, b: bool(a) != bool(b),
}
BITS = {'bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'}


def _fl(x):
    return Sym(x.p, False) if isinstance(x, Sym) else float(x)


def _ld(x):
    if isinstance(x, SArr):
        return x.ldt
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return F64 if x.dtype == OBJ else x.dtype
    if isinstance(x, Sym):
        return int if x.isint else float
    if isinstance(x, bool):
        return B
    if isinstance(x, (int, float, complex)):
        return type(x)
    if isinstance(x, (list, tuple)):
        a = sarray(x)
        return a.dtype
    return F64


def result_dtype(ufunc, inputs):
    ds = [_ld(x) for x in inputs]
    try:
        r = ufunc.resolve_dtypes(tuple(ds) + (None,) * ufunc.nout)
        return r[ufunc.nin]
    except (TypeError, ValueError, AttributeError):
        try:
            fs = [np.ones((1,), dtype=d) if isinstance(d, np.dtype) else d(1) for d in ds]
            return ufunc(*fs).dtype
        except Exception:
            return F64


def _np_in(x):
    """Input -> plain array for element mapping."""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (Sym, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return _objarray(plain(x))
    if isinstance(x, np.matrix):
        return np.asarray(x)
    return x


def do_ufunc(ufunc, method, inputs, kw):
    if any(is_sparse(x) for x in inputs):
        return sparse_ufunc(ufunc, method, inputs, kw)
    name = ufunc.__name__
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0]
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    ismat = any(isinstance(x, np.matrix) for x in inputs)
    if method == '__call__':
        if name == 'matmul':
            r = np.matmul(*[_obj(_np_in(x)) for x in inputs])
            res = wrap(r, result_dtype(np.multiply, inputs)) if isinstance(r, np.ndarray) \
                else elem(r)
        else:
            res = elementwise(ufunc, name, inputs, where, out)
        if dtype is not None and isinstance(res, np.ndarray):
            res = cast(res, dtype)
        if out is not None:
            return store(out, res, where, ufunc)
        if ismat and isinstance(res, np.ndarray) and not isinstance(res, SMatrix) \
                and res.dtype.kind != 'b':
            return asmatrix(res)
        return res
    if method == 'reduce':
        a = inputs[0]
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        res = reduce_(ufunc, name, a, axis, keep, kw.get('initial', None), where)
        if dtype is not None and isinstance(res, np.ndarray) and _dt(dtype).kind != 'O':
            res = cast(res, dtype)
        if out is not None:
            return store(out, res, True, ufunc)
        return res
    if method == 'outer':
        a, b = arr(inputs[0]), arr(inputs[1])
        return getattr(np, name)(a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'accumulate':
        a = arr(inputs[0])
        axis = kw.get('axis', 0)
        p = np.moveaxis(a.view(np.ndarray), axis, 0).copy()
        f = scalar_fn(ufunc, name)
        for i in range(1, p.shape[0]):
            p[i] = np.frompyfunc(f, 2, 1)(p[i - 1], p[i])
        return wrap(np.moveaxis(p, 0, axis), result_dtype(ufunc, (a, a)))
    if method == 'at':
        tgt, idx = inputs[0], fix_index(inputs[1])
        f = scalar_fn(ufunc, name)
        idx = np.asarray(idx)
        if len(inputs) == 3:
            v = np.broadcast_to(np.asarray(_obj(_np_in(inputs[2]))), idx.shape)
            for k, i in enumerate(idx.flat):
                tgt[i] = f(tgt[i], v.flat[k])
        else:
            for i in idx.flat:
                tgt[i] = f(tgt[i])
        return None
    if method == 'reduceat':
        raise Unsupported('reduceat')
    raise Unsupported(f'ufunc {name}.{method}')


def _obj(a):
    if isinstance(a, np.ndarray) and a.dtype != OBJ:
        return a.astype(object)
    return a


def scalar_fn(ufunc, name):
    if name in BIN:
        return BIN[name]
    if name in UN:
        return UN[name]
    if name in CMP:
        op = CMP[name]
        return lambda a, b: cmp_elem(a, b, op)
    if name in BOOL1:
        return BOOL1[name]
    if name in BOOL2:
        return BOOL2[name]
    if name in BITS:
        def bit(*a):
            return py(ufunc(*[bool(x) if isinstance(x, (SBool, bool, np.bool_)) else int(x)
                              for x in a]))
        return bit
    raise Unsupported(f'ufunc {name}')


def cmp_elem(a, b, op):
    if is_s(a) or is_s(b):
        a = a.item() if isinstance(a, np.generic) else a
        b = b.item() if isinstance(b, np.generic) else b
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return op == '!='
        if isinstance(a, SBool):
            a = int(bool(a))
        if isinstance(b, SBool):
            b = int(bool(b))
        return bool(s_cmp(a, b, op))
    return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
            '==': operator.eq, '!=': operator.ne}[op](a, b)


def elementwise(ufunc, name, inputs, where, out):
    ins = [_np_in(x) for x in inputs]
    if not any(isinstance(x, np.ndarray) and x.dtype == OBJ and any_sym(x) for x in ins):
        # all concrete: numpy itself
        if not any(isinstance(x, np.ndarray) and x.dtype == OBJ and has_frac(x) for x in ins) \
                and not (name == 'sqrt'):
            cs = [concrete(x) if isinstance(x, (SArr, Sym)) else base(x) for x in inputs]
            if where is True:
                with np.errstate(all='ignore'):
                    r = ufunc(*cs)
                return rewrap(r) if isinstance(r, np.ndarray) else r
    f = scalar_fn(ufunc, name)
    boolres = name in CMP or name in BOOL1 or name in BOOL2
    if where is not True:
        w = where if isinstance(where, np.ndarray) and where.dtype == B else boolarr(
            np.asarray(_obj(_np_in(where))))
        bs = np.broadcast_arrays(*[_obj(np.asarray(x)) if not isinstance(x, np.ndarray) else x
                                   for x in ins], w)
        r = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            if bs[-1][i]:
                r[i] = f(*[x[i] for x in bs[:-1]])
            elif out is None:
                r[i] = core.fresh('uninit')
            else:
                r[i] = 0.0
    else:
        r = np.frompyfunc(f, len(ins), 1)(*[_obj(x) if isinstance(x, np.ndarray) else x
                                            for x in ins])
    if not isinstance(r, np.ndarray):
        if boolres:
            return np.bool_(bool(r))
        return elem(r)
    if boolres:
        return r.astype(bool)
    d = result_dtype(ufunc, inputs)
    return wrap(r, d)


def has_frac(a):
    return any(type(x) is Fraction for x in a.flat)


def store(out, res, where, ufunc):
    od = out.dtype
    rd = getattr(res, 'dtype', F64)
    if od.kind in 'iu' and rd.kind == 'f':
        raise np.core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', rd, od, 0)
    if where is True:
        out[...] = res
    else:
        w = boolarr(np.asarray(where)) if not (isinstance(where, np.ndarray)
                                               and where.dtype == B) else where
        w = np.broadcast_to(w, out.shape)
        res = np.broadcast_to(plain(res) if isinstance(res, SArr) else np.asarray(res, dtype=object),
                              out.shape)
        for i in np.ndindex(*out.shape):
            if w[i]:
                out[i] = res[i]
    return out


def hard_order(els):
    """Ordering these values means deciding polynomials in unknown eigenvectors."""
    hard = False
    for e in els:
        if type(e) is Sym:
            if e.isint:
                return False
            hard = True
        elif core._special(e) or isinstance(e, SBool):
            return False
    return hard


def reduce_(ufunc, name, a, axis, keep, initial, where):
    x = arr(a) if not isinstance(a, np.ndarray) or isinstance(a, SArr) else a
    p = _np_in(x)
    ld = _ld(x)
    if where is not True:
        raise Unsupported('reduce where')
    if not (isinstance(p, np.ndarray) and p.dtype == OBJ):
        return rewrap(ufunc.reduce(p, axis=axis, keepdims=keep))
    boolres = name in BOOL2 or name in CMP
    if name == 'add' and not any_sym(p) and not has_frac(p):
        r = ufunc.reduce(concrete(x), axis=axis, keepdims=keep)
        return rewrap(r) if isinstance(r, np.ndarray) else r
    f = scalar_fn(ufunc, name)
    nd = p.ndim
    if axis is None:
        axes = tuple(range(nd))
    elif isinstance(axis, tuple):
        axes = tuple(t % nd for t in axis)
    else:
        if nd == 0:
            axes = ()
        else:
            if not -nd <= axis < nd:
                raise np.AxisError(axis, nd)
            axes = (axis % nd,)
    rest = [i for i in range(nd) if i not in axes]
    q = p.transpose(rest + list(axes)).reshape([p.shape[i] for i in rest] + [-1]) if nd else \
        p.reshape(1)
    shp = q.shape[:-1]
    r = np.empty(shp, dtype=object)
    ident = {'add': 0.0 if ld.kind == 'f' else 0, 'multiply': 1.0 if ld.kind == 'f' else 1,
             'logical_and': True, 'logical_or': False}.get(name)
    for i in np.ndindex(*shp):
        els = list(q[i])
        if initial is not None and initial is not np._NoValue:
            els.insert(0, initial)
        if not els:
            if ident is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            r[i] = ident
            continue
        if name == 'add':
            r[i] = fsum(els)
        elif name in ('maximum', 'minimum') and len(els) > 2 and hard_order(els):
            r[i] = core.s_extreme(els, name == 'maximum')
        else:
            v = els[0] if not boolres else bool(els[0])
            for e in els[1:]:
                v = f(v, e)
            r[i] = v
    if keep:
        r = r.reshape([1 if i in axes else p.shape[i] for i in range(nd)])
    if boolres:
        return r.astype(bool) if r.ndim else np.bool_(bool(r[()]))
    if r.ndim == 0:
        return elem(r[()])
    if name == 'add' and ld.kind == 'b':
        ld = I64
    if name in ('add', 'multiply') and narrow(ld):
        ld = np.dtype('uint64') if ld.kind == 'u' else I64
    return wrap(r, ld)


def fsum(els):
    """Sum with one polynomial accumulation."""
    acc, num = None, 0
    for e in els:
        if type(e) is Sym:
            acc = dict(e.p) if acc is None else core.padd(acc, e.p)
        elif isinstance(e, SBool):
            num = num + int(bool(e))
        else:
            if isinstance(e, np.generic):
                e = e.item()
            num = num + (float(e) if isinstance(e, Fraction) and isinstance(num, float) else e)
    if acc is None:
        return num
    if core._special(num):
        return num
    return core.mk(core.padd(acc, core.P(num)), all(core._isint(e) for e in els))


def sparse_ufunc(ufunc, method, inputs, kw):
    if method != '__call__':
        raise Unsupported('sparse ufunc method')
    name = ufunc.__name__
    a = inputs[0]
    ops = {'add': '__add__', 'subtract': '__sub__', 'multiply': '__mul__', 'divide': '__truediv__',
           'true_divide': '__truediv__', 'matmul': '__matmul__', 'less': '__lt__',
           'greater': '__gt__', 'equal': '__eq__', 'not_equal': '__ne__', 'less_equal': '__le__',
           'greater_equal': '__ge__'}
    rops = {'add': '__radd__', 'subtract': '__rsub__', 'multiply': '__rmul__',
            'matmul': '__rmatmul__', 'less': '__gt__', 'greater': '__lt__', 'equal': '__eq__',
            'not_equal': '__ne__', 'less_equal': '__ge__', 'greater_equal': '__le__'}
    if len(inputs) == 2:
        if is_sparse(a):
            return getattr(a, ops[name])(inputs[1])
        return getattr(inputs[1], rops[name])(a)
    un = {'absolute': '__abs__', 'sqrt': 'sqrt', 'negative': '__neg__', 'sign': 'sign'}
    if name in un:
        return getattr(a, un[name])()
    raise Unsupported(f'sparse ufunc {name}')


# ------------------------------------------------------------------ array functions

FN = {}


def reg(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


def fname(func):
    m = getattr(func, '__module__', '') or ''
    n = getattr(func, '__name__', str(func))
    if 'linalg' in m:
        return 'linalg.' + n
    return n


def do_function(func, types, args, kwargs):
    n = fname(func)
    if n in FN:
        r = FN[n](*args, **kwargs)
        if r is not NotImplemented:
            return r
    ismat = any(isinstance(a, SMatrix) for a in args)
    if not symbolic_in(args) and not symbolic_in(kwargs):
        if n not in KEEP_OBJ:
            out = kwargs.get('out')
            if out is None:
                return rewrap(func(*concrete(args), **concrete(kwargs)))
    if n in DENY:
        raise Unsupported(f'np.{n} on symbolic data')
    lds = _collect_ld(args)
    a2 = [_deep_plain(a) for a in args]
    k2 = {k: _deep_plain(v) for k, v in kwargs.items()}
    r = func(*a2, **k2)
    return _rewrap_obj(r, lds)


KEEP_OBJ = {'concatenate', 'stack', 'hstack', 'vstack', 'reshape', 'transpose', 'tile', 'repeat',
            'ravel', 'expand_dims', 'squeeze', 'swapaxes', 'moveaxis', 'roll', 'flip', 'diag',
            'tril', 'triu', 'copy', 'broadcast_to', 'atleast_2d', 'atleast_1d', 'copyto'}
DENY = {'interp', 'histogram', 'fft', 'ifft', 'polyfit', 'searchsorted', 'digitize',
        'cov', 'corrcoef', 'percentile', 'quantile', 'median', 'linalg.svd', 'linalg.qr',
        'linalg.eigvals', 'linalg.cond', 'linalg.matrix_rank', 'linalg.lstsq', 'linalg.cholesky',
        'savetxt', 'save', 'savez'}


def _deep_plain(x):
    if isinstance(x, SMatrix):
        return np.ndarray.view(x, np.ndarray)
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            return x.astype(object)
        return x
    if isinstance(x, list):
        if has_sym(x) and _rect(x):
            return [_deep_plain(y) for y in x]
        return [_deep_plain(y) for y in x]
    if isinstance(x, tuple):
        return tuple(_deep_plain(y) for y in x)
    return x


def _rect(x):
    return True


def _collect_ld(x):
    ds = []

    def go(v):
        if isinstance(v, SArr):
            ds.append(v.ldt)
        elif isinstance(v, Sym):
            ds.append(I64 if v.isint else F64)
        elif isinstance(v, np.ndarray) and v.dtype != OBJ:
            ds.append(v.dtype)
        elif isinstance(v, (list, tuple)):
            for y in v:
                go(y)
    go(x)
    ds = [d for d in ds if d.kind in 'biufc']
    return np.result_type(*ds) if ds else F64


def _rewrap_obj(r, ld):
    if isinstance(r, np.ndarray):
        if r.dtype == OBJ:
            if r.ndim == 0:
                return elem(r[()])
            if ld.kind in 'iu' and any((isinstance(x, Sym) and not x.isint)
                                       or isinstance(x, float) for x in r.flat):
                ld = F64
            return wrap(r, ld if ld.kind != 'b' else infer(r))
        return rewrap(r)
    if isinstance(r, tuple):
        return tuple(_rewrap_obj(x, ld) for x in r)
    if isinstance(r, list):
        return [_rewrap_obj(x, ld) for x in r]
    return elem(r) if isinstance(r, (Sym, float, int)) and not isinstance(r, bool) else r


def f_zeros(shape, fill=0.0):
    if isinstance(shape, SArr):
        shape = intarr(shape)
    if isinstance(shape, (list, tuple)):
        shape = tuple(operator.index(s) for s in shape)
    elif not isinstance(shape, np.ndarray):
        shape = operator.index(shape)
    a = np.empty(shape, dtype=object)
    if isinstance(fill, Sym):
        for i in range(a.size):
            a.flat[i] = fill
    else:
        a.fill(fill)
    r = a.view(SArr)
    r.ldt = F64
    return r


@reg('zeros_like', 'ones_like', 'empty_like', 'full_like')
def _dummy(*a, **k):
    return NotImplemented


def _like(fill):
    def f(a, dtype=None, order='K', subok=True, shape=None, fill_value=None):
        d = _dt(dtype) if dtype is not None else _ld(a)
        if not isinstance(d, np.dtype):
            d = np.dtype(d)
        shp = shape if shape is not None else np.shape(a)
        if d.kind in 'biu':
            return np.full(shp, fill if fill is not None else 0, dtype=d)
        if fill == 'uninit':
            return uninit(shp)
        return f_zeros(shp, fill)
    return f


def uninit(shape):
    a = f_zeros(shape)
    p = a.view(np.ndarray)
    for i in range(p.size):
        p.flat[i] = core.fresh('uninit')
    return a


FN['zeros_like'] = _like(0.0)
FN['ones_like'] = _like(1.0)


@reg('empty_like')
def f_empty_like(a, dtype=None, order='K', subok=True, shape=None):
    d = _dt(dtype) if dtype is not None else _ld(a)
    shp = shape if shape is not None else np.shape(a)
    d = np.dtype(d)
    if d.kind in 'biu':
        return np.zeros(shp, dtype=d)
    return uninit(shp)


@reg('full_like')
def f_full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    d = np.dtype(_dt(dtype) if dtype is not None else _ld(a))
    shp = shape if shape is not None else np.shape(a)
    r = f_zeros(shp)
    r[...] = fill_value
    return r if d.kind == 'f' else cast(r, d)


@reg('any')
def f_any(a, axis=None, out=None, keepdims=False, **k):
    return boolarr(arr(a)).any(axis=axis) if not isinstance(a, np.ndarray) or isinstance(a, SArr) \
        else NotImplemented


@reg('all')
def f_all(a, axis=None, out=None, keepdims=False, **k):
    return boolarr(arr(a)).all(axis=axis)


@reg('array_equal')
def f_array_equal(a, b, equal_nan=False):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(a == b))


@reg('allclose')
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(f_isclose(a, b, rtol, atol)))


@reg('isclose')
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.abs(arr(a) - arr(b)) <= (atol + rtol * np.abs(arr(b)))


@reg('mean')
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = arr(a)
    s = np.add.reduce(a, axis=axis, keepdims=keepdims is True)
    n = a.size if axis is None else np.prod(
        [a.shape[t] for t in (axis if isinstance(axis, tuple) else (axis,))])
    return s / float(n)


@reg('var')
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = arr(a)
    m = f_mean(a, axis, keepdims=True) if axis is not None else f_mean(a)
    n = a.size if axis is None else a.shape[axis]
    return np.add.reduce((a - m) ** 2, axis=axis) / float(n - ddof)


@reg('std')
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(f_var(a, axis, ddof=ddof))


def _sorted_idx(els):
    """Stable order by forking comparisons."""
    idx = []
    for i, x in enumerate(els):
        lo, hi = 0, len(idx)
        while lo < hi:
            mid = (lo + hi) // 2
            if cmp_elem(x, els[idx[mid]], '<'):
                hi = mid
            else:
                lo = mid + 1
        idx.insert(lo, i)
    return idx


@reg('argsort')
def f_argsort(a, axis=-1, kind=None, order=None):
    a = arr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    p = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(p.shape, dtype=np.int64)
    for i in np.ndindex(*p.shape[:-1]):
        r[i] = _sorted_idx(list(p[i]))
    return np.moveaxis(r, -1, axis)


@reg('sort')
def f_sort(a, axis=-1, kind=None, order=None):
    a = arr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    p = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(p.shape, dtype=object)
    for i in np.ndindex(*p.shape[:-1]):
        els = list(p[i])
        r[i] = [els[j] for j in _sorted_idx(els)]
    return wrap(np.moveaxis(r, -1, axis), a.ldt)


def f_argext(a, axis, mx):
    a = arr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    p = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(p.shape[:-1], dtype=np.int64)
    if p.shape[-1] == 0:
        raise ValueError('attempt to get argmax of an empty sequence')
    for i in np.ndindex(*p.shape[:-1]):
        els, b = p[i], 0
        for j in range(1, len(els)):
            if cmp_elem(els[j], els[b], '>' if mx else '<'):
                b = j
        r[i] = b
    return r if r.ndim else np.int64(r[()])


@reg('argmax')
def f_argmax(a, axis=None, out=None, **k):
    return f_argext(a, axis, True)


@reg('argmin')
def f_argmin(a, axis=None, out=None, **k):
    return f_argext(a, axis, False)


@reg('amax', 'max')
def f_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if is_sparse(a):
        return a.max(axis)
    return np.maximum.reduce(arr(a), axis=axis, keepdims=keepdims is True)


@reg('amin', 'min')
def f_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if is_sparse(a):
        return a.min(axis)
    return np.minimum.reduce(arr(a), axis=axis, keepdims=keepdims is True)


@reg('ptp')
def f_ptp(a, axis=None, out=None, keepdims=False):
    return f_max(a, axis) - f_min(a, axis)


@reg('sum')
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if is_sparse(a):
        return a.sum(axis)
    return np.add.reduce(arr(a), axis=axis, keepdims=keepdims is True)


@reg('prod')
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return np.multiply.reduce(arr(a), axis=axis, keepdims=keepdims is True)


@reg('nonzero')
def f_nonzero(a):
    if is_sparse(a):
        return a.nonzero()
    return boolarr(arr(a)).nonzero()


@reg('flatnonzero')
def f_flatnonzero(a):
    return np.flatnonzero(boolarr(arr(a)))


@reg('argwhere')
def f_argwhere(a):
    return np.argwhere(boolarr(arr(a)))


@reg('count_nonzero')
def f_count_nonzero(a, axis=None, keepdims=False):
    return np.count_nonzero(boolarr(arr(a)), axis=axis)


@reg('where')
def f_where(c, *xy):
    cb = c if isinstance(c, np.ndarray) and c.dtype == B and not isinstance(c, SArr) else (
        boolarr(arr(c)) if not isinstance(c, (bool, np.bool_)) else np.asarray(c))
    if not xy:
        return cb.nonzero()
    x, y = xy
    ld = np.result_type(*[d if isinstance(d, np.dtype) else np.dtype(d)
                          for d in (_ld(x), _ld(y))])
    r = np.where(cb, _obj(np.asarray(_np_in(x))) if not isinstance(_np_in(x), np.ndarray)
                 else _obj(_np_in(x)),
                 _obj(np.asarray(_np_in(y))) if not isinstance(_np_in(y), np.ndarray)
                 else _obj(_np_in(y)))
    return wrap(r, ld)


@reg('around', 'round', 'round_')
def f_round(a, decimals=0, out=None):
    a = arr(a)
    r = np.empty(a.shape, dtype=object)
    for i, x in enumerate(a.view(np.ndarray).flat):
        v = s_round(x, decimals or None)
        r.flat[i] = _fl(v) if a.ldt.kind == 'f' else v
    return wrap(r, a.ldt)


@reg('clip')
def f_clip(a, a_min=None, a_max=None, out=None, **k):
    r = arr(a)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


@reg('linspace')
def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = operator.index(num)
    div = (n - 1) if endpoint else n
    if n < 0:
        raise ValueError('Number of samples must be non-negative')
    els = []
    for i in range(n):
        if i == 0:
            v = start
        elif endpoint and i == n - 1:
            v = stop
        else:
            v = s_add(start, s_mul(s_sub(stop, start), Fraction(i, div)))
        els.append(v)
    r = cast(sarray(els), F64) if els else f_zeros(0)
    if retstep:
        return r, s_div(s_sub(stop, start), div)
    return r


@reg('unique')
def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not symbolic_in(a):
        return NotImplemented
    a = arr(a).ravel()
    els = list(a.view(np.ndarray))
    idx = _sorted_idx(els)
    vals, first, cnt = [], [], []
    inv = np.zeros(len(els), dtype=int)
    for j in idx:
        if vals and cmp_elem(els[j], vals[-1], '=='):
            cnt[-1] += 1
        else:
            vals.append(els[j])
            first.append(j)
            cnt.append(1)
        inv[j] = len(vals) - 1
    out = [sarray(vals)]
    if return_index:
        out.append(np.array(first))
    if return_inverse:
        out.append(inv)
    if return_counts:
        out.append(np.array(cnt))
    return out[0] if len(out) == 1 else tuple(out)


@reg('median')
def f_median(a, axis=None, **k):
    if not symbolic_in(a) or axis is not None:
        return NotImplemented
    s = f_sort(arr(a).ravel())
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


@reg('isreal')
def f_isreal(a):
    return np.ones(np.shape(a), dtype=bool)


@reg('iscomplexobj')
def f_iscomplexobj(a):
    return False


@reg('isrealobj')
def f_isrealobj(a):
    return True


@reg('real')
def f_re(a):
    return a


@reg('shape')
def f_shape(a):
    return a.shape if hasattr(a, 'shape') else NotImplemented


@reg('ndim')
def f_ndim(a):
    return a.ndim


@reg('size')
def f_size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@reg('ravel')
def f_ravel(a, order='C'):
    if isinstance(a, SMatrix):
        return a.view2().ravel(order)
    return NotImplemented


@reg('copy')
def f_copy(a, order='K', subok=False):
    return arr(a).copy() if isinstance(a, SArr) else NotImplemented


@reg('copyto')
def f_copyto(dst, src, casting='same_kind', where=True):
    store(dst, src, where, np.add)


@reg('fill_diagonal')
def f_fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    v = np.broadcast_to(plain(val) if isinstance(val, SArr) else np.asarray(to_elems(val)), (n,))
    for i in range(n):
        a[i, i] = v[i]


@reg('einsum')
def f_einsum(*args, **kw):
    kw.pop('optimize', None)
    r = np.einsum(*[_obj(_np_in(a)) if isinstance(a, np.ndarray) else a for a in args], **kw)
    return _rewrap_obj(r, F64)


def _root_of_squares(x):
    core.NONNEG[0] = True
    try:
        return np.sqrt(x)
    finally:
        core.NONNEG[0] = False


@reg('linalg.norm')
def f_norm(x, ord=None, axis=None, keepdims=False):
    x = arr(x)
    if axis is None and (ord is None or ord == 'fro' or (ord == 2 and x.ndim == 1)):
        return _root_of_squares(np.add.reduce((x * x).ravel()))
    if isinstance(axis, int) or x.ndim == 1:
        ax = 0 if axis is None else axis
        if ord is None or ord == 2:
            return _root_of_squares(np.add.reduce(x * x, axis=ax, keepdims=keepdims))
        if ord == 1:
            return np.add.reduce(np.abs(x), axis=ax, keepdims=keepdims)
        if ord == math.inf:
            return np.maximum.reduce(np.abs(x), axis=ax, keepdims=keepdims)
        if ord == -math.inf:
            return np.minimum.reduce(np.abs(x), axis=ax, keepdims=keepdims)
        if ord == 0:
            return np.count_nonzero(x)
        return np.add.reduce(np.abs(x) ** ord, axis=ax, keepdims=keepdims) ** (1.0 / ord)
    if not symbolic_in(x):
        return np.linalg.norm(concrete(x), ord, axis, keepdims)
    if x.ndim == 2 and ord == 1:
        return np.add.reduce(np.abs(x), axis=0).max()
    if x.ndim == 2 and ord == math.inf:
        return np.add.reduce(np.abs(x), axis=1).max()
    raise Unsupported('norm')


def mat_det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    r = 0
    for j in range(n):
        if not is_s(M[0][j]) and M[0][j] == 0:
            continue
        sub = [row[:j] + row[j + 1:] for row in M[1:]]
        t = s_mul(M[0][j], mat_det(sub))
        r = s_add(r, t) if j % 2 == 0 else s_sub(r, t)
    return r


def mat_adj(M):
    n = len(M)
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            sub = [row[:j] + row[j + 1:] for k, row in enumerate(M) if k != i]
            d = mat_det(sub)
            A[j][i] = d if (i + j) % 2 == 0 else (-d if d is not 0 else 0)
    return A


def solve_exact(M, b):
    """M: list of lists, b: list of lists (n x k). Cramer; raises LinAlgError when singular."""
    n = len(M)
    if n > 5:
        return gauss(M, b)
    d = mat_det(M)
    if bool(s_cmp(d, 0, '==')):
        raise np.linalg.LinAlgError('Singular matrix')
    A = mat_adj(M)
    k = len(b[0]) if b else 0
    out = []
    for i in range(n):
        row = []
        for c in range(k):
            t = fsum([s_mul(A[i][j], b[j][c]) for j in range(n)])
            row.append(s_div(t, d))
        out.append(row)
    return out


def gauss(M, b):
    n = len(M)
    M = [list(r) + list(b[i]) for i, r in enumerate(M)]
    for c in range(n):
        piv = None
        for r in range(c, n):
            v = M[r][c]
            if not is_s(v):
                if v != 0:
                    piv = r
                    break
            elif bool(s_cmp(v, 0, '!=')):
                piv = r
                break
        if piv is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[piv] = M[piv], M[c]
        p = M[c][c]
        for r in range(c + 1, n):
            if not is_s(M[r][c]) and M[r][c] == 0:
                continue
            f = s_div(M[r][c], p)
            for k in range(c, len(M[r])):
                M[r][k] = s_sub(M[r][k], s_mul(f, M[c][k]))
    out = [None] * n
    for c in range(n - 1, -1, -1):
        row = []
        for k in range(n, len(M[c])):
            t = M[c][k]
            for j in range(c + 1, n):
                t = s_sub(t, s_mul(M[c][j], out[j][k - n]))
            row.append(s_div(t, M[c][c]))
        out[c] = row
    return out


@reg('linalg.solve')
def f_solve(a, b, **kw):
    if not symbolic_in(a) and not symbolic_in(b):
        return NotImplemented
    a, b = arr(a), arr(b)
    if a.ndim != 2:
        raise Unsupported('batched solve')
    B2 = b.view(np.ndarray)
    one = b.ndim == 1
    if one:
        B2 = B2.reshape(-1, 1)
    r = sarray(solve_exact(a.view(np.ndarray).tolist(), B2.tolist()))
    return r[:, 0] if one else r


@reg('linalg.inv')
def f_inv(a, **kw):
    if not symbolic_in(a):
        return NotImplemented
    a = arr(a)
    n = a.shape[0]
    return sarray(solve_exact(a.view(np.ndarray).tolist(), np.eye(n).tolist()))


@reg('linalg.det')
def f_det(a):
    if not symbolic_in(a):
        return NotImplemented
    return mat_det(arr(a).view(np.ndarray).tolist())


@reg('linalg.pinv')
def f_pinv(a, *args, **kw):
    if not symbolic_in(a):
        return NotImplemented
    a = arr(a)
    p = a.view(np.ndarray)
    if a.ndim > 2:
        lead = a.shape[:-2]
        out = None
        for i in np.ndindex(*lead):
            r = f_pinv(arr(p[i]))
            if out is None:
                out = np.empty(lead + r.shape, dtype=object)
            out[i] = plain(r)
        return wrap(out, F64)
    m, n = a.shape
    if n == 1 or m == 1:
        q = fsum([s_mul(x, x) for x in p.flat])
        if bool(s_cmp(q, 0, '==')):
            return f_zeros((n, m))
        return wrap(_objarray([[s_div(p[j][i], q) for j in range(m)] for i in range(n)]), F64)
    if m == n:
        g = p.tolist()
        from .lib import ident_zero
        comp = list(range(n))
        for _ in range(n):
            for i in range(n):
                for j in range(n):
                    if not (ident_zero(g[i][j]) and ident_zero(g[j][i])):
                        comp[i] = comp[j] = min(comp[i], comp[j])
        roots = sorted(set(comp))
        if len(roots) > 1:      # block diagonal
            out = [[0.0] * n for _ in range(n)]
            for r in roots:
                ix = [i for i in range(n) if comp[i] == r]
                b = sarray([[g[i][j] for j in ix] for i in ix])
                q = f_pinv(b) if symbolic_in(b) else np.linalg.pinv(concrete(b))
                for k, i in enumerate(ix):
                    for l, j in enumerate(ix):
                        out[i][j] = q[k, l]
            return sarray(out)
        d = mat_det(g)
        if bool(s_cmp(d, 0, '!=')):
            return sarray(solve_exact(p.tolist(), np.eye(n).tolist()))
        # symmetric with constant null vector (connected Laplacian): (A + J/n)^-1 - J/n
        ones_null = all(bool(s_cmp(fsum(list(p[i])), 0, '==')) for i in range(n))
        sym = all(bool(s_cmp(p[i][j], p[j][i], '==')) for i in range(n) for j in range(i))
        if ones_null and sym:
            J = [[Fraction(1, n)] * n for _ in range(n)]
            AJ = [[s_add(p[i][j], J[i][j]) for j in range(n)] for i in range(n)]
            inv = solve_exact(AJ, np.eye(n).tolist())
            return sarray([[s_sub(inv[i][j], J[i][j]) for j in range(n)] for i in range(n)])
    raise Unsupported('pinv')


@reg('linalg.eigh')
def f_eigh(a, UPLO='L'):
    from .lib import eigh_stub
    if not symbolic_in(a):
        return NotImplemented
    return eigh_stub(a)


@reg('linalg.eigvalsh')
def f_eigvalsh(a, UPLO='L'):
    from .lib import eigh_stub
    if not symbolic_in(a):
        return NotImplemented
    return eigh_stub(a)[0]


@reg('linalg.eig')
def f_eig(a):
    from .lib import eigh_stub
    if not symbolic_in(a):
        return NotImplemented
    return eigh_stub(a, check_sym=True)
