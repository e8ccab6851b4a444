"""numpy / scipy / math look-alikes handed to the code under test."""
import builtins
import math as _math
import operator
import types
from fractions import Fraction

import numpy as np
import scipy
import scipy.sparse as S

from . import arr as A
from . import core, lib, sp
from .arr import (B, F64, SArr, SMatrix, arr, asmatrix, cast, concrete, elem, f_zeros, has_sym,
                  is_s, plain, rewrap, sarray, symbolic_in, uninit, wrap, _dt)
from .core import Sym, SBool, Unsupported


class ModProxy(types.ModuleType):
    """Module look-alike: overrides first, then wrapped attributes of the real module."""

    def __init__(self, name, real, over=None, wrapf=None):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_wrapf'] = wrapf
        self.__dict__.update(over or {})

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if isinstance(v, types.ModuleType):
            return v
        if self._wrapf is not None and callable(v) and not isinstance(v, type):
            v = self._wrapf(v)
            self.__dict__[name] = v
        return v


def conv_in(x):
    """Sequences with symbols -> symbolic arrays."""
    if isinstance(x, (list, tuple)) and has_sym(x):
        try:
            if all(is_s(y) or isinstance(y, (int, float, np.generic, list)) for y in x):
                return sarray(x)
        except ValueError:
            return x
    return x


LISTLIKE = {'concatenate', 'stack', 'hstack', 'vstack', 'column_stack', 'append', 'where', 'dstack',
            'ix_', 'broadcast_arrays', 'block', 'choose', 'select'}


def npwrap(f):
    name = getattr(f, '__name__', str(f))
    if isinstance(f, np.ufunc):
        return UfuncProxy(f)

    def g(*args, **kw):
        if name not in LISTLIKE:
            args = tuple(conv_in(a) for a in args)
        r = f(*args, **kw)
        if isinstance(r, (Sym, SBool)):
            return r
        return rewrap(r)
    g.__name__ = name
    g.__wrapped__ = f
    return g


class UfuncProxy:
    """A ufunc that also accepts sequences of symbols and returns exact constants."""

    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *args, **kw):
        args = tuple(conv_in(a) for a in args)
        if self.f is np.sqrt and len(args) == 1 and not kw and not has_sym(args[0]):
            a = args[0]
            if isinstance(a, (int, float, np.integer, np.floating)) and \
                    not isinstance(a, (bool, np.bool_)):
                r = A._sqrt_const(a.item() if isinstance(a, np.generic) else a)
                if r is not None:
                    return elem(r)
            if isinstance(a, (list, np.ndarray)) and not isinstance(a, np.matrix) \
                    and not sp.issparse(a) and np.ndim(a):
                return A.do_ufunc(np.sqrt, '__call__', (arr(a),), {})
        if any(isinstance(a, sp.SM) for a in args):
            return A.sparse_ufunc(self.f, '__call__', args, kw)
        out = kw.get('out')
        if out is not None and has_sym(out) and not any(isinstance(a, SArr) for a in args):
            args = (arr(args[0]),) + args[1:]
        r = self.f(*args, **kw)
        return rewrap(r) if isinstance(r, np.ndarray) else r

    def __getattr__(self, n):
        at = getattr(self.f, n)
        if not callable(at):
            return at

        def g(*args, **kw):
            r = at(*[conv_in(a) for a in args], **kw)
            return rewrap(r) if isinstance(r, np.ndarray) else r
        return g


def n_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    r = n_as(obj, dtype)
    if isinstance(r, SMatrix) and not subok:
        r = r.view2()
    if copy and isinstance(r, np.ndarray) and (r is obj or np.shares_memory(r, obj)
                                               if isinstance(obj, np.ndarray) else False):
        r = r.copy()
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def n_as(obj, dtype=None, any_=True):
    d = _dt(dtype)
    if isinstance(obj, SMatrix):
        r = obj if any_ else obj.view2()
        return r if d is None or d == r.ldt else cast(r, d)
    if isinstance(obj, SArr):
        return obj if d is None or d == obj.ldt else cast(obj, d)
    if isinstance(obj, sp.SM):
        o = np.empty((), dtype=object)
        o[()] = obj
        return o
    if is_s(obj):
        a = np.empty((), dtype=object)
        a[()] = obj if isinstance(obj, Sym) else bool(obj)
        r = a.view(SArr)
        r.ldt = obj.dtype if isinstance(obj, Sym) else F64
        return r if d is None else cast0(r, d)
    if isinstance(obj, (list, tuple)) and has_sym(obj):
        if any(isinstance(x, sp.SM) for x in obj):
            raise Unsupported('array of sparse')
        return sarray(obj, d)
    if isinstance(obj, (map, zip, filter)):
        return np.asarray(obj)
    r = np.asanyarray(obj, dtype=d) if any_ else np.asarray(obj, dtype=d)
    if isinstance(r, np.matrix):
        return asmatrix(arr(np.asarray(r))) if r.dtype.kind == 'f' else r
    if r.dtype.kind == 'f' and r.ndim == 0:
        r0 = r.astype(object).view(SArr)
        r0.ldt = F64
        return r0
    return rewrap(r)


def cast0(r, d):
    if d.kind == 'f':
        return r
    raise Unsupported('0-d cast')


def n_asarray(obj, dtype=None, order=None, **k):
    return n_as(obj, dtype, any_=False)


def n_asany(obj, dtype=None, order=None, **k):
    return n_as(obj, dtype)


def _shp(shape):
    if isinstance(shape, np.ndarray):
        return tuple(int(s) for s in shape)
    if isinstance(shape, (list, tuple)):
        return tuple(operator.index(s) for s in shape)
    return (operator.index(shape),)


def _make(fill):
    def f(shape, dtype=float, order='C', **k):
        d = _dt(dtype) if dtype is not None else F64
        if d.kind == 'f':
            return f_zeros(_shp(shape), fill)
        return np.full(_shp(shape), fill, dtype=d)
    return f


def n_empty(shape, dtype=float, order='C', **k):
    d = _dt(dtype)
    if d.kind == 'f':
        return uninit(_shp(shape))
    return np.zeros(_shp(shape), dtype=d)


def n_full(shape, fill_value, dtype=None, order='C', **k):
    d = _dt(dtype)
    if d is None:
        if is_s(fill_value) or isinstance(fill_value, (float, np.floating)) or \
                np.ndim(fill_value):
            r = f_zeros(_shp(shape))
            r[...] = fill_value
            return r
        return np.full(_shp(shape), fill_value)
    if d.kind == 'f':
        r = f_zeros(_shp(shape))
        r[...] = fill_value
        return r
    return rewrap(np.full(_shp(shape), fill_value, dtype=d))


def n_eye(N, M=None, k=0, dtype=float, **kw):
    return rewrap(np.eye(operator.index(N), M, k, dtype=_dt(dtype)))


def n_identity(n, dtype=None, **kw):
    return rewrap(np.identity(operator.index(n), dtype=_dt(dtype)))


def n_arange(*args, dtype=None, **k):
    if any(is_s(a) for a in args):
        if all(not isinstance(a, Sym) or a.isint for a in args):
            return np.arange(*[operator.index(a) for a in args], dtype=dtype)
        start, stop, step = {1: (0, args[0], 1), 2: (args + (1,))}.get(
            len(args), args) if len(args) < 3 else args
        n = operator.index(-core.s_floor(-((stop - start) / step)))
        return cast(sarray([start + step * i for i in range(n)]), F64) if n > 0 else f_zeros(0)
    return rewrap(np.arange(*args, dtype=_dt(dtype), **k))


class _Grid:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if any(is_s(x) for k in ks if isinstance(k, slice) for x in (k.start, k.stop, k.step)):
            ks = tuple(slice(*[float(x) if isinstance(x, Sym) else x
                               for x in (k.start, k.stop, k.step)]) for k in ks)
        r = self.g[ks if isinstance(key, tuple) else ks[0]]
        return rewrap(r)


class _Grid2(_Grid):
    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if any(has_sym(k) or isinstance(k, SArr) for k in ks):
            raise Unsupported('np.r_/c_')
        return rewrap(self.g[key])


def n_isscalar(x):
    return is_s(x) or np.isscalar(x)


def n_matrix(x, dtype=None, copy=True):
    if has_sym(x) or isinstance(x, SArr):
        return asmatrix(arr(x))
    r = np.matrix(x, dtype=_dt(dtype))
    return asmatrix(arr(np.asarray(r))) if r.dtype.kind == 'f' else r


def n_kron(a, b):
    if not symbolic_in(a) and not symbolic_in(b):
        return rewrap(np.kron(concrete(conv_in(a)), concrete(conv_in(b))))
    a, b = arr(a), arr(b)
    nd = max(a.ndim, b.ndim)
    a2 = a.view(np.ndarray).reshape((1,) * (nd - a.ndim) + a.shape)
    b2 = b.view(np.ndarray).reshape((1,) * (nd - b.ndim) + b.shape)
    sh = []
    for x, y in zip(a2.shape, b2.shape):
        sh.append((x, y))
    A2 = a2.reshape([t for x, _ in sh for t in (x, 1)])
    B2 = b2.reshape([t for _, y in sh for t in (1, y)])
    r = arr(wrap(A2, a.ldt)) * arr(wrap(B2, b.ldt))
    return r.reshape([x * y for x, y in sh])


def n_append(a, v, axis=None):
    a, v = n_as(a), n_as(v)
    if axis is None:
        return NP.concatenate((np.ravel(a), np.ravel(v)))
    return NP.concatenate((a, v), axis=axis)


def n_delete(a, obj, axis=None):
    return rewrap(np.delete(a if not isinstance(a, SArr) else a.view(np.ndarray), concrete(obj),
                            axis)) if not isinstance(a, SArr) else wrap(
        np.delete(a.view(np.ndarray), concrete(obj), axis), a.ldt)


def n_trapz(y, x=None, dx=1.0, axis=-1):
    raise Unsupported('trapz')


def n_float64(x=0.0):
    if is_s(x):
        return x
    if isinstance(x, SArr):
        return x
    return np.float64(x)


class _RandomMod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(lib.global_rng(), name)


RANDOM = _RandomMod('numpy.random')
RANDOM.default_rng = lambda seed=None: lib.RNG(seed, 'gen')
RANDOM.RandomState = lambda seed=None: lib.RNG(seed, 'rs')
RANDOM.seed = lambda s=None: lib.global_rng().seed(s)

NLINALG = ModProxy('numpy.linalg', np.linalg, {}, npwrap)


def _pi():
    return core.s_pi()


class NumpyProxy(ModProxy):
    @property
    def pi(self):
        return core.s_pi()


class _DtMeta(type):
    pass


def n_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return A.f_allclose(conv_in(a), conv_in(b), rtol, atol)


NP = NumpyProxy('numpy', np, {
    'array': n_array, 'asarray': n_asarray, 'asanyarray': n_asany, 'ascontiguousarray': n_asarray,
    'asfortranarray': n_asarray, 'zeros': _make(0.0), 'ones': _make(1.0), 'empty': n_empty,
    'full': n_full, 'eye': n_eye, 'identity': n_identity, 'arange': n_arange,
    'linspace': A.f_linspace, 'isscalar': n_isscalar, 'matrix': np.matrix, 'asmatrix': n_matrix,
    'mat': n_matrix, 'kron': n_kron, 'append': n_append, 'delete': n_delete, 'random': RANDOM,
    'linalg': NLINALG, 'mgrid': _Grid(np.mgrid), 'ogrid': _Grid(np.ogrid), 'r_': _Grid2(np.r_),
    'c_': _Grid2(np.c_), 's_': np.s_, 'ix_': lambda *a: np.ix_(*[concrete(x) for x in a]),
    'errstate': np.errstate, 'float64': np.float64, 'float_': np.float64,
    'allclose': n_allclose, 'interp': None, 'e': _math.e, 'inf': _math.inf, 'nan': _math.nan,
    'newaxis': None,
    'set_printoptions': lambda *a, **k: None,
    'ndarray': np.ndarray,
    'logspace': lambda a, b, num=50, endpoint=True, base=10.0, **k:
        core_pow(base, A.f_linspace(a, b, num, endpoint)),
    'fill_diagonal': A.f_fill_diagonal,
    'count_nonzero': lambda a, axis=None, **k: A.f_count_nonzero(a, axis)
        if isinstance(a, SArr) or has_sym(a) else np.count_nonzero(a, axis=axis),
}, npwrap)


def core_pow(b, x):
    return np.power(b, x)


def n_interp(x, xp, fp, left=None, right=None, period=None):
    if not symbolic_in(x) and not symbolic_in(xp) and not symbolic_in(fp):
        return rewrap(np.interp(concrete(x), concrete(xp), concrete(fp), left, right, period))
    xp, fp = list(plain(arr(xp))), list(plain(arr(fp)))

    def one(v):
        if bool(A.cmp_elem(v, xp[0], '<=')):
            return fp[0] if left is None or not bool(A.cmp_elem(v, xp[0], '<')) else left
        for i in range(1, len(xp)):
            if bool(A.cmp_elem(v, xp[i], '<=')):
                t = core.s_div(core.s_sub(v, xp[i - 1]), core.s_sub(xp[i], xp[i - 1]))
                return core.s_add(fp[i - 1], core.s_mul(t, core.s_sub(fp[i], fp[i - 1])))
        return fp[-1] if right is None else right
    xa = arr(x)
    r = np.empty(xa.shape, dtype=object)
    for i, v in enumerate(xa.view(np.ndarray).flat):
        r.flat[i] = one(v)
    return wrap(r, F64)


NP.interp = n_interp

# ------------------------------------------------------------------ scipy


def conc_wrap(f):
    """Concrete arguments only: delegate to the real routine."""
    def g(*args, **kw):
        if _anysym(args) or _anysym(kw):
            raise Unsupported(f'{getattr(f, "__module__", "")}.{getattr(f, "__name__", f)} '
                              'on symbolic data')
        r = f(*[_conc(a) for a in args], **{k: _conc(v) for k, v in kw.items()})
        return sp.from_any(r) if S.issparse(r) or isinstance(r, tuple) else (
            rewrap(r) if isinstance(r, np.ndarray) else r)
    g.__name__ = getattr(f, '__name__', 'f')
    return g


def _anysym(x):
    if isinstance(x, sp.SM):
        return symbolic_in(x.v)
    if isinstance(x, (list, tuple)):
        return any(_anysym(y) for y in x)
    if isinstance(x, dict):
        return any(_anysym(y) for y in x.values())
    return symbolic_in(x)


def _conc(x):
    if isinstance(x, sp.SM):
        return sp.real(x)
    if isinstance(x, (list, tuple)) and any(isinstance(y, sp.SM) for y in x):
        return type(x)(_conc(y) for y in x)
    if callable(x) and not isinstance(x, type):
        return lambda *a, **k: concrete(x(*[rewrap(t) if isinstance(t, np.ndarray) else t
                                            for t in a], **k))
    return concrete(x)


SPLINALG = ModProxy('scipy.sparse.linalg', __import__('scipy.sparse.linalg').sparse.linalg, {
    'eigsh': lib.eigsh, 'eigs': lib.eigs, 'spsolve': lib.spsolve, 'inv': lib.sparse_inv,
    'LinearOperator': lib.LinearOperator, 'cg': lib.cg, 'gmres': lib.cg, 'bicgstab': lib.cg,
    'minres': lib.cg, 'aslinearoperator': lib.aslinearoperator,
}, conc_wrap)


def sp_random(m, n, density=0.01, format='coo', dtype=None, random_state=None, data_rvs=None, **k):
    raise Unsupported('sparse.random')


SPARSE = ModProxy('scipy.sparse', S, {
    'linalg': SPLINALG, 'csr_matrix': sp.csr_matrix, 'csc_matrix': sp.csc_matrix,
    'coo_matrix': sp.coo_matrix, 'lil_matrix': sp.lil_matrix, 'dia_matrix': sp.dia_matrix,
    'bsr_matrix': sp.bsr_matrix, 'spmatrix': sp.spmatrix, 'issparse': sp.issparse,
    'isspmatrix': sp.issparse, 'eye': sp.eye, 'identity': sp.identity, 'diags': sp.diags,
    'spdiags': sp.spdiags, 'tril': sp.tril, 'triu': sp.triu, 'find': sp.find, 'kron': sp.kron,
    'hstack': sp.hstack, 'vstack': sp.vstack, 'block_diag': sp.block_diag,
    'isspmatrix_csr': lambda x: isinstance(x, sp.csr_matrix),
    'isspmatrix_csc': lambda x: isinstance(x, sp.csc_matrix),
    'isspmatrix_coo': lambda x: isinstance(x, sp.coo_matrix),
    'isspmatrix_lil': lambda x: isinstance(x, sp.lil_matrix),
    'random': sp_random, 'rand': sp_random,
}, conc_wrap)


def l_eigh(a, *args, **kw):
    if not symbolic_in(a):
        kw.pop('overwrite_a', None)
        kw.pop('check_finite', None)
        r = scipy.linalg.eigh(concrete(a), *args, **kw)
        return rewrap(r)
    if args or set(kw) - {'overwrite_a', 'check_finite', 'lower', 'eigvals_only'}:
        raise Unsupported('eigh options')
    e, U = lib.eigh_stub(a)
    return e if kw.get('eigvals_only') else (e, U)


LINALG = ModProxy('scipy.linalg', __import__('scipy.linalg').linalg, {
    'eigh': l_eigh, 'eigvalsh': lambda a, **k: l_eigh(a)[0], 'norm': NLINALG.norm,
    'inv': lambda a, **k: NLINALG.inv(a), 'solve': lambda a, b, **k: NLINALG.solve(a, b),
    'pinv': lambda a, **k: NLINALG.pinv(a), 'det': lambda a, **k: NLINALG.det(a),
}, conc_wrap)

DISTANCE = ModProxy('scipy.spatial.distance', __import__('scipy.spatial.distance')
                    .spatial.distance, {
    'minkowski': lib.minkowski, 'euclidean': lib.euclidean, 'cdist': lib.pdist_matrix,
    'cityblock': lambda u, v: lib.minkowski(u, v, 1),
    'chebyshev': lambda u, v: lib.minkowski(u, v, _math.inf),
    'squareform': conc_wrap(__import__('scipy.spatial.distance').spatial.distance.squareform),
}, conc_wrap)

SPATIAL = ModProxy('scipy.spatial', __import__('scipy.spatial').spatial, {
    'KDTree': lib.KDTree, 'cKDTree': lib.KDTree, 'distance': DISTANCE,
}, conc_wrap)

_stats = None


class LazyStats(ModProxy):
    pass


def _statsmod():
    import scipy.stats
    return ModProxy('scipy.stats', scipy.stats, {'rv_discrete': lib.rv_discrete}, conc_wrap)


def o_min_scalar(f, *args, **kw):
    import scipy.optimize
    return scipy.optimize.minimize_scalar(lambda x: float(concrete(f(np.float64(x)))), *args,
                                          **{k: concrete(v) for k, v in kw.items()})


def _optmod():
    import scipy.optimize
    return ModProxy('scipy.optimize', scipy.optimize, {'minimize_scalar': o_min_scalar}, conc_wrap)


class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, fill_value=None, bounds_error=None, **k):
        if kind != 'linear':
            raise Unsupported('interp1d kind')
        self.x, self.y = x, y
        self.fill, self.be = fill_value, bounds_error

    def __call__(self, v):
        if self.fill is None or (isinstance(self.fill, float) and self.fill != self.fill):
            xa = arr(v)
            for t in xa.view(np.ndarray).flat:
                if bool(A.cmp_elem(t, self.x[0], '<')) or \
                        bool(A.cmp_elem(t, self.x[len(self.x) - 1], '>')):
                    raise ValueError('A value in x_new is out of the interpolation range.')
        elif self.fill == 'extrapolate':
            raise Unsupported('extrapolate')
        return n_interp(v, self.x, self.y, left=self.fill, right=self.fill) \
            if not isinstance(self.fill, tuple) else n_interp(v, self.x, self.y, *self.fill)


def _interpmod():
    import scipy.interpolate
    return ModProxy('scipy.interpolate', scipy.interpolate, {'interp1d': Interp1d}, conc_wrap)


class ScipyProxy(ModProxy):
    def __getattr__(self, name):
        if name == 'stats':
            self.__dict__['stats'] = _statsmod()
            return self.__dict__['stats']
        if name == 'optimize':
            self.__dict__['optimize'] = _optmod()
            return self.__dict__['optimize']
        if name == 'interpolate':
            self.__dict__['interpolate'] = _interpmod()
            return self.__dict__['interpolate']
        if name == 'io':
            import scipy.io
            return ModProxy('scipy.io', scipy.io, {}, None)
        return getattr(scipy, name)


SCIPY = ScipyProxy('scipy', scipy, {
    'sparse': SPARSE, 'linalg': LINALG, 'spatial': SPATIAL})


# ------------------------------------------------------------------ math

def _m(f, real):
    def g(x, *a):
        if is_s(x) or any(is_s(y) for y in a):
            return f(x, *a)
        return real(x, *a)
    return g


MATH = ModProxy('math', _math, {
    'sqrt': _m(core.s_sqrt, _math.sqrt), 'exp': _m(core.s_exp, _math.exp),
    'cos': _m(core.s_cos, _math.cos), 'sin': _m(core.s_sin, _math.sin),
    'acos': _m(core.s_arccos, _math.acos), 'floor': _m(core.s_floor, _math.floor),
    'ceil': _m(lambda x: -core.s_floor(-x), _math.ceil), 'fabs': _m(core.s_abs, _math.fabs),
    'log': _m(lambda x, b=None: core.s_log(x) if b is None else
              core.s_div(core.s_log(x), core.s_log(b)), _math.log),
    'pow': _m(core.s_pow, _math.pow), 'isnan': _m(lambda x: False, _math.isnan),
    'isinf': _m(lambda x: False, _math.isinf), 'isfinite': _m(lambda x: True, _math.isfinite),
    'fsum': lambda xs: A.fsum(list(xs)),
    'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(core.s_cmp(
        core.s_abs(core.s_sub(a, b)), max(rel_tol * abs(b), abs_tol), '<=')),
})


# ------------------------------------------------------------------ builtins

def sx_float(x=0.0):
    if isinstance(x, Sym):
        return Sym(x.p, False) if x.isint else x
    if isinstance(x, SBool):
        return float(bool(x))
    if isinstance(x, SArr):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return sx_float(x.view(np.ndarray).ravel()[0])
    return float(x)


def sx_int(x=0, *a):
    """Integers of a wide range stay symbolic, the others are decided."""
    y = x.view(np.ndarray).ravel()[0] if isinstance(x, SArr) and x.size == 1 else x
    if isinstance(y, Sym) and y.isint and not a:
        lo, hi = core.bounds(y.p)
        if hi - lo > 8:
            return y
    return int(x, *a)


_FLOATS = (float, np.floating, np.float64)
_INTS = (int, np.integer)


AUG = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv',
       'Mod': 'mod', 'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and_', 'BitOr': 'or_',
       'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift'}


def sx_aug(op, x, v):
    if type(x) is np.ndarray and x.dtype.kind == 'f' and (is_s(v) or has_sym(v)):
        r = getattr(operator, AUG[op])(arr(x), v)
        if r.shape != x.shape:
            raise ValueError('non-broadcastable output operand')
        return r
    return getattr(operator, 'i' + AUG[op].strip('_'))(x, v)


def sx_isinstance(o, t):
    if isinstance(o, t):
        return True
    if isinstance(o, Sym):
        import numbers
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if u in (numbers.Number, numbers.Real, np.generic, np.number):
                return True
            if o.isint and u in (int, np.integer, np.int64, numbers.Integral):
                return True
            if not o.isint and u in (float, np.floating, np.float64):
                return True
    return False
