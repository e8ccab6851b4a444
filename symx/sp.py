"""Sparse matrices of symbolic numbers.

Structure (pattern, formats, index order, slicing, result types) is delegated to the real scipy on
matrices whose data are pointers; values are symbolic.  `SM.P` is a scipy spmatrix whose data are
1-based pointers (0 = a stored zero of a dia padding) into `SM.v`.
"""
import operator

import numpy as np
import scipy.sparse as S

from . import core
from .core import Sym, Unsupported, s_add, s_cmp, s_div, s_mul, s_sub
from .arr import (fit, narrow, B, F64, I64, OBJ, SArr, SMatrix, arr, asmatrix, boolarr, cast, concrete, elem,
                  f_zeros, fix_index, fsum, is_s, plain, rewrap, sarray, symbolic_in, to_elems,
                  wrap, _dt, _ld, cmp_elem)

import warnings
warnings.simplefilter('ignore', S.SparseEfficiencyWarning)


def isz(x):
    return not bool(cmp_elem(x, 0, '!='))


def mkvals(v, ldt=F64):
    r = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        r[i] = x.item() if isinstance(x, np.generic) else x
    r = r.view(SArr)
    r.ldt = np.dtype(ldt) if np.dtype(ldt).kind in 'iu' else F64
    if r.ldt.kind in 'iu' and any((isinstance(x, Sym) and not x.isint) for x in v):
        r.ldt = F64
    if narrow(r.ldt):
        for i, x in enumerate(r.view(np.ndarray)):
            r[i] = fit(x, r.ldt)
    return r


def fitted(f, d):
    """f with the wrap-around of the result type."""
    return (lambda *a: fit(f(*a), d)) if narrow(d) else f


def sum_type(d):
    """Result type of sums (small integers are added as 64-bit ones)."""
    return (np.dtype('uint64') if d.kind == 'u' else I64) if narrow(d) else d


class SM:
    """Symbolic sparse matrix."""
    __array_priority__ = 10.1e5
    ndim = 2

    def __init__(self, P, v):
        self.P = P
        self.v = v
        self._norm()

    # data store aligned with P for formats that have a flat data array
    def _norm(self):
        f = self.P.format
        if f in ('csr', 'csc', 'coo'):
            ptr = self.P.data
            n = len(ptr)
            if not (len(self.v) == n and (n == 0 or (ptr == np.arange(1, n + 1)).all())):
                old = self.v.view(np.ndarray)
                nv = np.empty(n, dtype=object)
                for i, p in enumerate(ptr):
                    nv[i] = old[int(p) - 1]
                ld = self.v.ldt
                self.v = nv.view(SArr)
                self.v.ldt = ld
                self.P.data = np.arange(1, n + 1, dtype=np.int64)

    # ---- basic attributes
    @property
    def shape(self):
        return self.P.shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self.P, self.v = r.P, r.v

    @property
    def format(self):
        return self.P.format

    def getformat(self):
        return self.P.format

    @property
    def dtype(self):
        return self.v.ldt

    @property
    def nnz(self):
        return int(self.P.nnz)

    @property
    def size(self):
        return int(self.P.size)

    @property
    def has_sorted_indices(self):
        return self.P.has_sorted_indices

    @property
    def has_canonical_format(self):
        return self.P.has_canonical_format

    def getnnz(self, axis=None):
        return self.P.getnnz(axis=axis)

    def count_nonzero(self, axis=None):
        if axis is not None:
            raise Unsupported('count_nonzero axis')
        return int(sum(0 if isz(x) else 1 for _, _, x in self.items()))

    def get_shape(self):
        return self.P.shape

    def sort_indices(self):
        q = self.P.copy()
        q.sort_indices()
        r = SM(q, self.v)
        self.P, self.v = r.P, r.v

    def sorted_indices(self):
        r = self.copy()
        r.sort_indices()
        return r

    def sum_duplicates(self):
        r = dedup(self)
        self.P, self.v = r.P, r.v
        if self.P.format == 'coo':
            o = np.lexsort((self.P.col, self.P.row))
            self.P = S.coo_matrix((self.P.data[o], (self.P.row[o], self.P.col[o])),
                                  shape=self.P.shape)

    def prune(self):
        pass

    def check_format(self, full_check=True):
        self.P.check_format(full_check)

    @property
    def data(self):
        f = self.P.format
        if f in ('csr', 'csc', 'coo'):
            return self.v
        if f in ('dia', 'bsr'):
            old = self.v.view(np.ndarray)
            d = self.P.data
            r = np.empty(d.shape, dtype=object)
            for i, p in enumerate(d.flat):
                r.flat[i] = old[int(p) - 1] if p else 0.0
            r = r.view(SArr)
            r.ldt = self.v.ldt
            return r
        if f == 'lil':
            r = np.empty(self.P.data.shape, dtype=object)
            for i, row in enumerate(self.P.data):
                r[i] = [self.v[int(p) - 1] for p in row]
            return r
        raise Unsupported(f'{f}.data')

    @data.setter
    def data(self, val):
        if self.P.format not in ('csr', 'csc', 'coo'):
            raise Unsupported('data setter')
        val = arr(val).copy()
        if len(val) != len(self.v):
            raise Unsupported('data setter size')
        self.v = val

    @property
    def indices(self):
        return self.P.indices

    @indices.setter
    def indices(self, x):
        self.P.indices = concrete(x)

    @property
    def indptr(self):
        return self.P.indptr

    @property
    def offsets(self):
        return self.P.offsets

    @property
    def row(self):
        return self.P.row

    @row.setter
    def row(self, x):
        self.P.row = x

    @property
    def col(self):
        return self.P.col

    @col.setter
    def col(self, x):
        self.P.col = x

    @property
    def rows(self):
        return self.P.rows

    @property
    def coords(self):
        return self.P.coords

    @property
    def T(self):
        return self.transpose()

    @property
    def A(self):
        return self.toarray()

    @property
    def real(self):
        return self

    def items(self):
        """(i, j, value) of the stored entries, in storage order."""
        c = self.P.tocoo()
        old = self.v.view(np.ndarray)
        for i, j, p in zip(c.row, c.col, c.data):
            yield int(i), int(j), old[int(p) - 1] if p else 0.0

    def todict(self):
        d = {}
        for i, j, x in self.items():
            k = (i, j)
            d[k] = s_add(d[k], x) if k in d else x
        return d

    def rowdict(self):
        d = {}
        for (i, j), x in self.todict().items():
            d.setdefault(i, {})[j] = x
        return d

    # ---- conversions
    def _conv(self, fmt, copy=False):
        src = self
        if self.P.format == fmt and not copy:
            return self
        if self.P.format == 'coo' and fmt != 'coo':
            src = dedup(self)
        P = src.P.asformat(fmt)
        if P is src.P or copy:
            P = P.copy()
        v = src.v.copy()
        return SM(P, v)

    def tocsr(self, copy=False):
        return self._conv('csr', copy)

    def tocsc(self, copy=False):
        return self._conv('csc', copy)

    def tocoo(self, copy=True):
        if self.P.format == 'coo':
            return SM(self.P.copy(), self.v.copy()) if copy else self
        r = SM(self.P.tocoo(), self.v)
        if not copy and self.P.format in ('csr', 'csc'):
            r.v = self.v      # scipy shares the data array
        return r

    def tolil(self, copy=False):
        return self._conv('lil', copy)

    def todia(self, copy=False):
        return self._conv('dia', copy)

    def tobsr(self, *a, **k):
        return self._conv('bsr')

    def todok(self, copy=False):
        raise Unsupported('dok')

    def asformat(self, fmt, copy=False):
        if fmt is None:
            return self.copy() if copy else self
        return self._conv(fmt, copy)

    def toarray(self, order=None, out=None):
        r = f_zeros(self.shape)
        if self.v.ldt.kind in 'iu':
            p = np.zeros(self.shape, dtype=object)
        else:
            p = r.view(np.ndarray)
        for (i, j), x in self.todict().items():
            p[i, j] = x
        return wrap(p, self.v.ldt)

    def todense(self, order=None, out=None):
        return asmatrix(arr(self.toarray()))

    def copy(self):
        return SM(self.P.copy(), self.v.copy())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, casting='unsafe', copy=True):
        d = _dt(dtype)
        if d.kind == 'b':
            return map_bool(self, lambda x: bool(x) if not is_s(x) else bool(s_cmp(x, 0, '!=')))
        v = cast(self.v, d)
        return SM(self.P.copy(), arr(v))

    def asfptype(self):
        if self.v.ldt.kind == 'f':
            return self
        return self.astype(float)

    def conj(self, copy=True):
        return self
    conjugate = conj

    def getH(self):
        return self.transpose()

    # ---- structure
    def transpose(self, axes=None, copy=False):
        r = SM(self.P.transpose(), self.v)
        r.v = self.v.copy() if copy else r.v
        return r

    def reshape(self, *a, **k):
        return SM(self.P.tocoo().reshape(*a, **k), self.v)

    def diagonal(self, k=0):
        d = self.todict()
        n = len(self.P.diagonal(k))
        return wrap_seq([d.get((i + max(-k, 0), i + max(k, 0)), 0.0) for i in range(n)],
                        self.v.ldt)

    def trace(self, offset=0):
        return self.diagonal(offset).sum()

    def setdiag(self, values, k=0):
        n = len(self.P.diagonal(k))
        vals = plain(arr(values)) if np.ndim(values) else [values] * n
        P = self.P.copy()
        ptrs = np.arange(1, n + 1) + len(self.v)
        m = min(n, len(vals))
        P.setdiag(ptrs[:m], k) if m else None
        v = np.concatenate([self.v.view(np.ndarray),
                            np.array([elem_(x) for x in list(vals)[:m]] + [None],
                                     dtype=object)[:-1]])
        v = v.view(SArr)
        v.ldt = self.v.ldt
        r = SM(P, v)
        self.P, self.v = r.P, r.v

    def nonzero(self):
        rows, cols = [], []
        src = self
        c = src.P.tocoo()
        old = src.v.view(np.ndarray)
        for i, j, p in zip(c.row, c.col, c.data):
            if p and not isz(old[int(p) - 1]):
                rows.append(i)
                cols.append(j)
        dt = c.row.dtype
        return np.array(rows, dtype=dt), np.array(cols, dtype=dt)

    def eliminate_zeros(self):
        f = self.P.format
        if f == 'dia' or f == 'lil':
            raise AttributeError(f"'{f}_matrix' object has no attribute 'eliminate_zeros'") \
                if f == 'lil' else Unsupported('dia eliminate_zeros')
        P = self.P.copy()
        old = self.v.view(np.ndarray)
        keep = P.data.copy()
        for k, p in enumerate(keep.flat):
            if p and isz(old[int(p) - 1]):
                keep.flat[k] = 0
        P.data = keep
        P.eliminate_zeros()
        shared = [m for m in getattr(self, '_shares', ()) if m.v is self.v]
        if P.nnz == self.P.nnz:
            shared = []
        r = SM(P, self.v)
        self.P, self.v = r.P, r.v
        for m in shared:        # compacted in place
            m.P, m.v = self.P.copy(), self.v.copy()

    def getrow(self, i):
        return SM(self.P.getrow(i), self.v)

    def getcol(self, j):
        return SM(self.P.getcol(j), self.v)

    def resize(self, *shape):
        q = self.P.copy()
        q.resize(*shape)
        r = SM(q, self.v)
        self.P, self.v = r.P, r.v

    def __len__(self):
        raise TypeError('sparse array length is ambiguous; use getnnz()')

    def __bool__(self):
        if self.shape == (1, 1):
            return self.nnz != 0
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[[i], :] if self.P.format != 'lil' else self.getrow(i)

    def _key(self, key):
        def one(k):
            if is_sparse_any(k):
                raise Unsupported('sparse index')
            if isinstance(k, SArr):
                return concrete(fix_index(k))
            k = fix_index(k)
            if isinstance(k, np.ndarray) and isinstance(k, SArr):
                return concrete(k)
            return k
        if isinstance(key, tuple):
            return tuple(one(k) for k in key)
        return one(key)

    def __getitem__(self, key):
        if is_sparse_any(key):
            m = key
            i, j = m.nonzero()
            return asmatrix(sarray([self[a, b] for a, b in zip(i, j)]))
        key = self._key(key)
        src = self
        if self.P.format in ('dia', 'coo', 'bsr'):
            raise TypeError(f"'{self.P.format}_matrix' object is not subscriptable")
        if not self.P.has_canonical_format if self.P.format in ('csr', 'csc') else False:
            src = dedup(self)
        r = src.P[key]
        if S.issparse(r):
            return SM(r, src.v)
        if isinstance(r, np.ndarray):
            old = src.v.view(np.ndarray)
            o = np.empty(r.shape, dtype=object)
            for i, p in enumerate(np.asarray(r).flat):
                o.flat[i] = old[int(p) - 1] if p else 0.0
            return asmatrix(wrap_f(o))
        return elem(src.v.view(np.ndarray)[int(r) - 1]) if r else elem(
            0 if src.v.ldt.kind in 'iu' else 0.0)

    def __setitem__(self, key, val):
        key = self._key(key)
        P = self.P.copy()
        n0 = len(self.v)
        if is_sparse_any(val):
            val = arr(val.toarray())
        val = plain(arr(val)) if np.ndim(val) else val
        # pointers of the new values
        tgt = S.csr_matrix(self.shape, dtype=np.int64)
        sel = np.zeros(self.shape, dtype=np.int64)
        if np.ndim(val) == 0:
            newv = [elem_(val)]
            if self.P.format == 'lil' and isz(newv[0]):
                # lil drops explicit zeros
                P[key] = 0
                newv = []
            else:
                P[key] = n0 + 1
        else:
            newv = [elem_(x) for x in val.flat]
            ptr = (n0 + 1 + np.arange(val.size)).reshape(val.shape)
            if self.P.format == 'lil':
                ptr = np.array([0 if isz(x) else p for x, p in zip(newv, ptr.flat)],
                               dtype=np.int64).reshape(val.shape)
            P[key] = ptr
        v = np.empty(n0 + len(newv), dtype=object)
        v[:n0] = self.v.view(np.ndarray)
        for i, x in enumerate(newv):
            v[n0 + i] = x
        v = v.view(SArr)
        v.ldt = self.v.ldt
        r = SM(P, v)
        self.P, self.v = r.P, r.v

    # ---- elementwise on the stored data
    def _map(self, f, ldt=None):
        old = self.v.view(np.ndarray)
        v = np.empty(len(old), dtype=object)
        for i, x in enumerate(old):
            v[i] = f(x)
        v = v.view(SArr)
        v.ldt = np.dtype(ldt or self.v.ldt)
        if v.ldt.kind in 'iu' and any(isinstance(x, float) or (isinstance(x, Sym) and not x.isint)
                                      for x in v.view(np.ndarray)):
            v.ldt = F64
        if narrow(v.ldt):
            for i, x in enumerate(v.view(np.ndarray)):
                v[i] = fit(x, v.ldt)
        return SM(self.P.copy(), v)

    def __neg__(self):
        return self._map(lambda x: -x)

    def __abs__(self):
        return self._map(lambda x: elem_(np.abs(x)) if not isinstance(x, Sym) else abs(x))

    def __round__(self, n=0):
        return self._map(lambda x: elem_(np.round(x, n)))

    def sqrt(self):
        return self._map(lambda x: elem_(np.sqrt(x)) if not isinstance(x, Sym)
                         else core.s_sqrt(x), F64)

    def _un(self, name):
        from .arr import UN
        return self._map(UN[name], F64)

    def sign(self):
        return self._un('sign')

    def floor(self):
        return self._un('floor')

    def ceil(self):
        return self._un('ceil')

    def rint(self):
        return self._un('rint')

    def expm1(self):
        return self._un('expm1')

    def log1p(self):
        return self._un('log1p')

    def sin(self):
        return self._un('sin')

    def tan(self):
        return self._un('tan')

    def power(self, n, dtype=None):
        return self._map(lambda x: core.s_pow(x, n))

    def __pow__(self, n):
        if isinstance(n, Sym):
            raise Unsupported('sparse ** symbolic')
        if n == 0:
            return eye(self.shape[0])
        r = self
        for _ in range(int(n) - 1):
            r = r @ self
        return r.copy()

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None):
        d = self.todict()
        m, n = self.shape
        if axis is None:
            return elem(fsum(list(d.values()))) if d else elem(0.0)
        ax = axis % 2
        g = {}
        for (i, j), x in d.items():
            g.setdefault(j if ax == 0 else i, []).append(x)
        k = n if ax == 0 else m
        z = 0 if self.v.ldt.kind in 'iu' else 0.0
        res = wrap_seq([fsum(g[t]) if t in g else z for t in range(k)], sum_type(self.v.ldt))
        res = res.reshape(1, -1) if ax == 0 else res.reshape(-1, 1)
        return asmatrix(res) if isinstance(res, SArr) else np.asmatrix(res)

    def mean(self, axis=None, dtype=None, out=None):
        m, n = self.shape
        if axis is None:
            return self.sum() / (m * n)
        return self.sum(axis) / float(m if axis % 2 == 0 else n)

    def _ext(self, axis, mx):
        uf = np.maximum if mx else np.minimum
        a = arr(self.toarray())
        if axis is None:
            return uf.reduce(a.ravel())
        r = uf.reduce(a, axis=axis)
        r = r.reshape(1, -1) if axis % 2 == 0 else r.reshape(-1, 1)
        return coo_matrix(r)

    def max(self, axis=None, out=None, *, explicit=False):
        return self._ext(axis, True)

    def min(self, axis=None, out=None, *, explicit=False):
        return self._ext(axis, False)

    def argmax(self, axis=None, out=None, **k):
        r = np.argmax(arr(self.toarray()), axis=axis)
        return r if axis is None else np.asmatrix(r)

    def argmin(self, axis=None, out=None, **k):
        r = np.argmin(arr(self.toarray()), axis=axis)
        return r if axis is None else np.asmatrix(r)

    # ---- binary operators
    def multiply(self, o):
        return binop('multiply', self, o)

    def maximum(self, o):
        return binop('maximum', self, o)

    def minimum(self, o):
        return binop('minimum', self, o)

    def __add__(self, o):
        return binop('add', self, o)

    def __radd__(self, o):
        return binop('add', o, self)

    def __sub__(self, o):
        return binop('sub', self, o)

    def __rsub__(self, o):
        return binop('sub', o, self)

    def __mul__(self, o):
        if is_scalar(o):
            return scale(self, o)
        return matmul(self, o)

    def __rmul__(self, o):
        if is_scalar(o):
            return scale(self, o)
        return matmul(o, self)

    def __imul__(self, o):
        if is_scalar(o):
            r = scale(self, o)
            self.v = r.v if r.P.format in ('csr', 'csc', 'coo') else r.v
            return self
        raise NotImplementedError

    def __itruediv__(self, o):
        if is_scalar(o):
            self.v = divide(self, o).v
            return self
        raise NotImplementedError

    def __matmul__(self, o):
        if is_scalar(o):
            raise ValueError('Scalar operands are not allowed, use \'*\' instead')
        return matmul(self, o)

    def __rmatmul__(self, o):
        if is_scalar(o):
            raise ValueError('Scalar operands are not allowed, use \'*\' instead')
        return matmul(o, self)

    def dot(self, o):
        return self * o

    def __truediv__(self, o):
        return divide(self, o)

    def __rtruediv__(self, o):
        return NotImplemented

    def __lt__(self, o):
        return compare('<', self, o)

    def __gt__(self, o):
        return compare('>', self, o)

    def __le__(self, o):
        return compare('<=', self, o)

    def __ge__(self, o):
        return compare('>=', self, o)

    def __eq__(self, o):
        return compare('==', self, o)

    def __ne__(self, o):
        return compare('!=', self, o)

    __hash__ = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import do_ufunc
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import do_function
        return do_function(func, types, args, kwargs)

    def __array__(self, *a, **k):
        r = np.empty((), dtype=object)
        r[()] = self
        return r

    def __repr__(self):
        return f'SM({self.P.format}, {self.shape}, {list(self.items())!r})'

    def __getattr__(self, name):
        if name.startswith('__') or name in ('P', 'v'):
            raise AttributeError(name)
        if hasattr(self.P, name):
            if symbolic_in(self.v):
                raise Unsupported(f'sparse method {name}')
            at = getattr(real(self), name)
            if callable(at):
                return lambda *a, **k: from_any(at(*map(real_or, a), **k))
            return at
        raise AttributeError(f"'{self.P.format}_matrix' object has no attribute '{name}'")


def elem_(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    return x


def wrap_seq(els, ldt):
    a = np.empty(len(els), dtype=object)
    for i, x in enumerate(els):
        a[i] = elem_(x)
    return wrap(a, ldt if ldt.kind in 'iu' and not any(
        isinstance(x, Sym) and not x.isint for x in els) else F64)


def wrap_f(o):
    r = o.view(SArr)
    r.ldt = F64
    return r


def is_scalar(o):
    if is_s(o):
        return True
    if isinstance(o, np.ndarray):
        return o.ndim == 0
    return np.isscalar(o)


def is_sparse_any(x):
    return isinstance(x, SM) or S.issparse(x)


def real(m):
    """SM without symbols -> real scipy matrix (float/int data)."""
    if not isinstance(m, SM):
        return m
    src = m
    P = src.P.copy()
    vals = concrete(src.v)
    if P.format in ('csr', 'csc', 'coo'):
        P.data = vals.copy() if len(vals) else vals.astype(src.v.ldt)
        return P
    if P.format in ('dia', 'bsr'):
        d = np.zeros(P.data.shape, dtype=vals.dtype if len(vals) else float)
        for i, p in enumerate(P.data.flat):
            if p:
                d.flat[i] = vals[int(p) - 1]
        if P.format == 'dia':
            return S.dia_matrix((d, P.offsets), shape=P.shape)
        return S.bsr_matrix((d, P.indices, P.indptr), shape=P.shape)
    c = P.tocoo()
    d = np.array([vals[int(p) - 1] for p in c.data], dtype=src.v.ldt)
    return S.coo_matrix((d, (c.row, c.col)), shape=P.shape).asformat(P.format)


def real_or(x):
    return real(x) if isinstance(x, SM) else concrete(x)


def from_real(m):
    """Real scipy matrix of numbers -> SM (bool matrices stay real)."""
    if m.dtype.kind == 'b':
        return m
    if m.dtype.kind == 'c':
        raise Unsupported('complex sparse')
    if not isinstance(m, S.spmatrix):
        raise Unsupported('sparse array')
    f = m.format
    ldt = m.dtype if m.dtype.kind in 'iu' else F64
    if f in ('csr', 'csc', 'coo'):
        P = m.copy()
        v = mkvals(list(m.data), ldt)
        P.data = np.arange(1, len(v) + 1, dtype=np.int64)
        return SM(P, v)
    if f in ('dia', 'bsr'):
        d = m.data
        ptr = np.arange(1, d.size + 1, dtype=np.int64).reshape(d.shape)
        if f == 'dia':
            ptr = np.where(d != 0, ptr, 0)
        v = mkvals(list(d.ravel()), ldt)
        P = S.dia_matrix((ptr, m.offsets), shape=m.shape) if f == 'dia' else \
            S.bsr_matrix((ptr, m.indices, m.indptr), shape=m.shape)
        return SM(P, v)
    if f in ('lil', 'dok'):
        c = m.tocoo()
        P = S.coo_matrix((np.arange(1, len(c.data) + 1, dtype=np.int64), (c.row, c.col)),
                         shape=m.shape).asformat(f)
        return SM(P, mkvals(list(c.data), ldt))
    raise Unsupported(f'format {f}')


def from_any(r):
    if S.issparse(r):
        return from_real(r)
    if isinstance(r, tuple):
        return tuple(from_any(x) for x in r)
    return rewrap(r) if isinstance(r, np.ndarray) else r


def to_sm(x):
    return x if isinstance(x, SM) else from_real(x.astype(np.int64) if x.dtype.kind == 'b' else x)


def dedup(m):
    """Sum duplicate entries (symbolically), keep the format."""
    c = m.P.tocoo()
    n = len(c.data)
    keys = list(zip(c.row.tolist(), c.col.tolist()))
    if len(set(keys)) == n:
        if m.P.format in ('csr', 'csc'):
            P = m.P.copy()
            P.sort_indices()
            return SM(P, m.v)
        return m
    old = m.v.view(np.ndarray)
    g = {}
    for k, p in zip(keys, c.data):
        g.setdefault(k, []).append(old[int(p) - 1])
    ks = list(g)
    v = mkvals([fsum(g[k]) if len(g[k]) > 1 else g[k][0] for k in ks], m.v.ldt)
    P = S.coo_matrix((np.arange(1, len(ks) + 1, dtype=np.int64),
                      (np.array([k[0] for k in ks], dtype=c.row.dtype),
                       np.array([k[1] for k in ks], dtype=c.col.dtype))), shape=m.shape)
    return SM(P.asformat(m.P.format) if m.P.format != 'coo' else P, v)


def from_entries(shape, entries, fmt='csr', ldt=F64, order=None):
    """entries: list of (i, j, value) without duplicates."""
    n = len(entries)
    P = S.coo_matrix((np.arange(1, n + 1, dtype=np.int64),
                      (np.array([e[0] for e in entries], dtype=np.int32),
                       np.array([e[1] for e in entries], dtype=np.int32))), shape=shape)
    v = mkvals([e[2] for e in entries], ldt)
    return SM(P.asformat(fmt), v)


def from_dense(a, fmt='csr'):
    a = arr(a) if not isinstance(a, np.ndarray) or isinstance(a, SArr) or a.dtype == OBJ else \
        np.asarray(a)
    if not isinstance(a, SArr):
        return from_any(getattr(S, fmt + '_matrix')(a))
    if a.ndim < 2:
        a = a.reshape(1, -1)
    if a.ndim > 2:
        raise TypeError('expected dimension <= 2 array or matrix')
    p = a.view(np.ndarray)
    ent = [(i, j, p[i, j]) for i in range(p.shape[0]) for j in range(p.shape[1])
           if not isz(p[i, j])]
    return from_entries(a.shape, ent, fmt, a.ldt)


DUMMY = [1]


def dummy(m):
    """Real matrix of the same structure with generic positive values."""
    if not isinstance(m, SM):
        return m
    rng = np.random.RandomState(DUMMY[0] % 2 ** 31)
    DUMMY[0] += 1
    P = m.P.copy()
    if P.format == 'lil':
        c = P.tocoo()
        return S.coo_matrix((1.0 + rng.rand(len(c.data)), (c.row, c.col)),
                            shape=P.shape).tolil()
    d = P.data
    P = P.astype(float)
    P.data = np.where(d != 0, 1.0 + rng.rand(*d.shape), 0.0)
    return P


def dummy_any(o):
    if isinstance(o, SM):
        return dummy(o)
    if S.issparse(o):
        return o.astype(float)
    if isinstance(o, SMatrix):
        return np.asmatrix(np.ones(o.shape))
    if isinstance(o, np.matrix):
        return np.asmatrix(np.ones(o.shape))
    return np.ones(np.shape(o))


SOPS = {'add': s_add, 'sub': s_sub, 'multiply': s_mul}


def _smax(a, b):
    from .arr import _max
    return _max(a, b)


def _smin(a, b):
    from .arr import _min
    return _min(a, b)


SOPS['maximum'] = _smax
SOPS['minimum'] = _smin
NPOPS = {'add': np.add, 'sub': np.subtract, 'multiply': np.multiply, 'maximum': np.maximum,
         'minimum': np.minimum}
PYOPS = {'add': operator.add, 'sub': operator.sub,
         'multiply': lambda a, b: a.multiply(b), 'maximum': lambda a, b: a.maximum(b),
         'minimum': lambda a, b: a.minimum(b)}


def fop(op):
    f = SOPS[op]

    def g(a, b):
        if is_s(a) or is_s(b):
            return f(elem_(a), elem_(b))
        return elem_(NPOPS[op](a, b))
    return g


def both_real(a, b):
    return not symbolic_in(a.v if isinstance(a, SM) else a) and \
        not symbolic_in(b.v if isinstance(b, SM) else b)


def binop(op, a, b):
    if not isinstance(a, SM) and not is_sparse_any(a) or not isinstance(b, SM) \
            and not is_sparse_any(b):
        pass
    for x in (a, b):
        if isinstance(x, (list, tuple)):
            pass
    if is_scalar(a) or is_scalar(b):
        sc, m = (a, b) if is_scalar(a) else (b, a)
        if op == 'multiply':
            return scale(m, sc)
        if op in ('add', 'sub'):
            if isz(sc):
                return m.copy() if (op == 'add' or m is a) else -m
            raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
        r = NPOPS[op](arr(m.toarray()), sc)
        return from_dense(r, 'csr')
    if both_real(a, b):
        return from_any(PYOPS[op](real_or(a), real_or(b)))
    da, db = dummy_any(a), dummy_any(b)
    with np.errstate(all='ignore'):
        R = PYOPS[op](da, db)
    ldt = np.result_type(getattr(a, 'dtype', F64), getattr(b, 'dtype', F64))
    if not S.issparse(R):
        A = arr(a.toarray()) if isinstance(a, SM) else (
            a.toarray() if S.issparse(a) else a)
        Bm = arr(b.toarray()) if isinstance(b, SM) else (
            b.toarray() if S.issparse(b) else b)
        A = np.asarray(A) if isinstance(A, np.matrix) and not isinstance(A, SArr) else A
        Bm = np.asarray(Bm) if isinstance(Bm, np.matrix) and not isinstance(Bm, SArr) else Bm
        r = NPOPS[op](arr(A), arr(Bm))
        return asmatrix(r) if isinstance(R, np.matrix) else r
    f = fitted(fop(op), ldt)
    if is_sparse_any(a) and is_sparse_any(b) and np.shape(a) == np.shape(b):
        da_, db_ = to_sm(a).todict(), to_sm(b).todict()
        c = R.tocoo()
        coords = list(zip(c.row.tolist(), c.col.tolist()))
        seen = set(coords)
        # dummy values may hide entries of maximum/minimum; use the union there
        if op in ('maximum', 'minimum'):
            coords += [k for k in list(da_) + list(db_) if k not in seen and not seen.add(k)]
        ent = []
        for k in coords:
            x = f(da_.get(k, 0), db_.get(k, 0))
            if not isz(x):
                ent.append((k[0], k[1], x))
        return _like_order(R, ent, ldt)
    # broadcasting sparse multiply
    A = arr(a.toarray()) if isinstance(a, SM) else arr(a.toarray() if S.issparse(a) else a)
    Bm = arr(b.toarray()) if isinstance(b, SM) else arr(b.toarray() if S.issparse(b) else b)
    A, Bm = np.atleast_2d(A), np.atleast_2d(Bm)
    full = arr(NPOPS[op](A, Bm)).view(np.ndarray)
    c = R.tocoo()
    ent = [(int(i), int(j), full[i, j]) for i, j in zip(c.row, c.col)]
    return _like_order(R, ent, ldt)


def _like_order(R, ent, ldt):
    """Build an SM in R's format keeping R's index order."""
    fmt = R.format
    n = len(ent)
    if n == R.nnz and fmt in ('csr', 'csc', 'coo'):
        P = R.copy()
        P.data = np.arange(1, n + 1, dtype=np.int64)
        c = P.tocoo()
        d = {(e[0], e[1]): e[2] for e in ent}
        if len(d) == n:
            v = mkvals([d[k] for k in zip(c.row.tolist(), c.col.tolist())], ldt)
            return SM(P, v)
    return from_entries(R.shape, ent, fmt, ldt)


def scale(m, k):
    k = elem_(k)
    if isinstance(k, float) and (k != k or abs(k) == float('inf')):
        f = fop('multiply')
    f = fop('multiply')
    ldt = F64 if (isinstance(k, float) or (isinstance(k, Sym) and not k.isint)) else m.v.ldt \
        if isinstance(m, SM) else F64
    m = to_sm(m)
    r = m._map(lambda x: f(x, k), ldt)
    if r.P.format == 'lil':
        return r
    return r


def divide(a, b):
    if is_scalar(b):
        b = elem_(b)

        def f(x):
            if is_s(x) or is_s(b):
                return s_div(x, b)
            with np.errstate(all='ignore'):
                return elem_(np.true_divide(x, b))
        r = a._map(f, F64)
        return r
    if both_real(a, b):
        with np.errstate(all='ignore'):
            return from_any(real_or(a) / real_or(b))
    with np.errstate(all='ignore'):
        R = dummy(a) / dummy_any(b)
    A = arr(a.toarray())
    Bm = arr(b.toarray()) if is_sparse_any(b) else arr(b)
    r = A / Bm
    if S.issparse(R):
        return from_dense(r, R.format)
    return asmatrix(r) if isinstance(R, np.matrix) else r


def compare(op, a, b):
    if is_scalar(b):
        if b is None:
            return op == '!='
        zero = {'<': 0 < 0, '>': False, '<=': True, '>=': True, '==': True, '!=': False}
        fz = bool(cmp_elem(0, elem_(b), op))
        d = a.todict()
        R = dummy(a)
        if R.format not in ('csr', 'csc'):
            R = R.tocsr()
        if not fz:
            c = R.tocoo()
            ent = [(i, j) for i, j in zip(c.row.tolist(), c.col.tolist())
                   if bool(cmp_elem(d[(i, j)], elem_(b), op))]
            out = S.coo_matrix((np.ones(len(ent), dtype=bool),
                                ([e[0] for e in ent], [e[1] for e in ent])), shape=a.shape)
            return out.asformat(R.format)
        full = np.zeros(a.shape, dtype=bool)
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                full[i, j] = bool(cmp_elem(d.get((i, j), 0), elem_(b), op))
        return getattr(S, R.format + '_matrix')(full)
    if is_sparse_any(b):
        if a.shape != b.shape:
            if op == '==':
                return False
            if op == '!=':
                return True
            raise ValueError('inconsistent shapes')
        da, db = to_sm(a).todict(), to_sm(b).todict()
        fz = bool(cmp_elem(0, 0, op))
        fmt = a.P.format if isinstance(a, SM) else a.format
        fmt = fmt if fmt in ('csr', 'csc') else 'csr'
        keys = sorted(set(da) | set(db))
        full = np.full(a.shape, fz, dtype=bool)
        for k in keys:
            full[k] = bool(cmp_elem(da.get(k, 0), db.get(k, 0), op))
        return getattr(S, fmt + '_matrix')(full)
    from .arr import CMP
    uf = {v: k for k, v in CMP.items()}[op]
    r = getattr(np, uf)(arr(a.toarray()), arr(b))
    return np.asmatrix(r)


def matmul(a, b):
    if isinstance(a, SM) and (isinstance(b, (list, tuple))):
        b = arr(b) if symbolic_in(b) else np.asarray(b)
    if isinstance(b, SM) and isinstance(a, (list, tuple)):
        a = arr(a) if symbolic_in(a) else np.asarray(a)
    if both_real(a, b):
        return from_any(real_or(a) @ real_or(b))
    ldt = np.result_type(getattr(a, 'dtype', F64), getattr(b, 'dtype', F64))
    if is_sparse_any(a) and is_sparse_any(b):
        if a.shape[1] != b.shape[0]:
            raise ValueError('dimension mismatch')
        R = dummy_any(a) @ dummy_any(b)
        ra, rb = to_sm(a).rowdict(), to_sm(b).rowdict()
        acc = {}
        for i, row in ra.items():
            for k, x in row.items():
                for j, y in rb.get(k, {}).items():
                    acc.setdefault((i, j), []).append(_mul(x, y))
        c = R.tocoo()
        ent = []
        for i, j in zip(c.row.tolist(), c.col.tolist()):
            x = fsum(acc.get((i, j), [0.0]))
            x = fit(x, ldt) if narrow(ldt) else x
            if not isz(x):
                ent.append((i, j, x))
        return _like_order(R, ent, ldt)
    if isinstance(a, SM) or S.issparse(a):
        m, o = to_sm(a), b
        if np.ndim(o) == 0:
            raise Unsupported('matmul 0d')
        oa = arr(o)
        if oa.shape[0] != m.shape[1]:
            raise ValueError('dimension mismatch')
        p = oa.view(np.ndarray)
        one = p.ndim == 1
        if p.ndim > 2:
            raise ValueError('could not interpret dimensions')
        p2 = p.reshape(-1, 1) if one else p
        rows = m.rowdict()
        k = p2.shape[1]
        out = np.empty((m.shape[0], k), dtype=object)
        z = 0 if ldt.kind in 'iu' else 0.0
        for i in range(m.shape[0]):
            row = rows.get(i)
            for c in range(k):
                out[i, c] = fsum([_mul(x, p2[j, c]) for j, x in row.items()]) if row else z
        if one:
            out = out[:, 0]
        r = wrap(out, ldt)
        if isinstance(o, np.matrix):
            return asmatrix(arr(r))
        return r
    # dense @ sparse
    o = a
    r = matmul(b.transpose(), arr(o).T if np.ndim(o) == 2 else o)
    r = r.T if np.ndim(o) == 2 else r
    return asmatrix(arr(r)) if isinstance(o, np.matrix) else r


def _mul(x, y):
    if is_s(x) or is_s(y):
        return s_mul(elem_(x), elem_(y))
    return elem_(x) * elem_(y)


# ------------------------------------------------------------------ constructors

def _isbool(a):
    return isinstance(a, np.ndarray) and a.dtype == B


def build(fmt, arg, shape=None, dtype=None, copy=False):
    cls = getattr(S, fmt + '_matrix')
    if isinstance(arg, SM):
        r = arg._conv(fmt, copy)
        if not copy and arg.P.format == fmt:
            r = SM.__new__(SM)
            r.P, r.v = arg.P.copy(), arg.v      # scipy shares the data array
            r._shares = [arg]
        if dtype is not None:
            r = r.astype(dtype)
        return r
    if S.issparse(arg):
        return from_any(cls(arg, shape=shape, dtype=_dt(dtype), copy=copy))
    if isinstance(arg, tuple) and not (len(arg) == 2 and all(isinstance(x, (int, np.integer))
                                                            for x in arg)):
        if symbolic_in(arg[0]) or isinstance(arg[0], SArr):
            data = cast(arr(arg[0]), dtype) if dtype is not None else arr(arg[0])
            if fmt == 'dia':
                d2 = np.atleast_2d(data)
                ptr = np.arange(1, d2.size + 1, dtype=np.int64).reshape(d2.shape)
                p = arr(d2).view(np.ndarray)
                for i, x in enumerate(p.flat):
                    if isz(x):
                        ptr.flat[i] = 0
                return SM(S.dia_matrix((ptr, arg[1]), shape=shape), mkvals(list(p.flat), F64))
            rest = arg[1:]
            rest = tuple(tuple(np.asarray(concrete(y)) for y in x) if isinstance(x, (tuple, list))
                         and len(x) == 2 and np.ndim(x[0]) else np.asarray(concrete(x))
                         for x in rest)
            n = data.size
            v = mkvals(list(data.view(np.ndarray).ravel()) if isinstance(data, SArr)
                       else list(data), data.dtype if data.dtype.kind in 'iu' else F64)
            ptr = np.arange(1, n + 1, dtype=np.int64)
            if len(rest) == 1:
                P = S.coo_matrix((ptr, rest[0]), shape=shape)
                m = SM(P, v)
                return m if fmt == 'coo' else m._conv(fmt)
            P = cls((ptr,) + rest, shape=shape)
            m = SM.__new__(SM)
            m.P, m.v = P, (data if isinstance(data, SArr) and not copy and data.ndim == 1 else v)
            return m
        return from_any(cls(tuple(concrete(x) if not isinstance(x, tuple) else x for x in arg),
                            shape=shape, dtype=_dt(dtype), copy=copy))
    if isinstance(arg, tuple):
        return from_any(cls(arg, dtype=_dt(dtype)))
    if symbolic_in(arg) or isinstance(arg, SArr):
        a = arr(arg)
        if dtype is not None:
            d = _dt(dtype)
            if d.kind == 'b':
                return cls(boolarr(a))
            a = arr(cast(a, d))
        return from_dense(a, fmt)
    if arg is None:
        raise TypeError('expected dimension <= 2 array or matrix')
    return from_any(cls(arg, shape=shape, dtype=_dt(dtype), copy=copy))


class _Meta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, SM):
            return cls.fmt is None or o.P.format == cls.fmt
        return isinstance(o, cls.real)

    def __subclasscheck__(cls, o):
        return o is cls or cls.fmt is None and isinstance(o, _Meta) or (
            isinstance(o, type) and issubclass(o, cls.real))


class spmatrix(metaclass=_Meta):
    fmt = None
    real = S.spmatrix


def _mkcls(fmt):
    def new(cls, arg1, shape=None, dtype=None, copy=False, **kw):
        return build(fmt, arg1, shape, dtype, copy)
    return _Meta(fmt + '_matrix', (spmatrix,), {'fmt': fmt, 'real': getattr(S, fmt + '_matrix'),
                                                '__new__': new})


csr_matrix = _mkcls('csr')
csc_matrix = _mkcls('csc')
coo_matrix = _mkcls('coo')
lil_matrix = _mkcls('lil')
dia_matrix = _mkcls('dia')
bsr_matrix = _mkcls('bsr')


def map_bool(m, f):
    c = m.P.tocoo()
    old = m.v.view(np.ndarray)
    d = np.array([f(old[int(p) - 1]) for p in c.data], dtype=bool)
    return S.coo_matrix((d, (c.row, c.col)), shape=m.shape).asformat(m.P.format)


def issparse(x):
    return isinstance(x, SM) or S.issparse(x)


def eye(m, n=None, k=0, dtype=float, format=None):
    return from_any(S.eye(m, n, k, dtype=_dt(dtype), format=format))


def identity(n, dtype='d', format=None):
    return from_any(S.identity(n, dtype=_dt(dtype), format=format))


def diags(diagonals=None, offsets=0, shape=None, format=None, dtype=None, **kw):
    if not symbolic_in(diagonals):
        return from_any(S.diags(concrete(diagonals), offsets, shape=shape, format=format,
                                dtype=_dt(dtype)))
    one = is_scalar(offsets)
    if one and not (isinstance(diagonals, (list, tuple)) and np.ndim(diagonals[0]) == 1):
        dl, off = [arr(diagonals).ravel()], [int(offsets)]
    else:
        dl = [np.atleast_1d(arr(d)).ravel() if np.ndim(d) else arr([d]) for d in diagonals]
        off = [int(o) for o in np.atleast_1d(offsets)]
    v, dums = [], []
    for d in dl:
        ptr = []
        for x in arr(d).view(np.ndarray).ravel():
            v.append(x)
            ptr.append(0 if isz(x) else len(v))
        dums.append(np.array(ptr, dtype=np.int64))
    P = S.diags(dums, off, shape=shape)
    P = S.dia_matrix((P.data.astype(np.int64), P.offsets), shape=P.shape)
    r = SM(P, mkvals(v, F64))
    return r.asformat(format) if format else r


def spdiags(data, diags_, m=None, n=None, format=None):
    if not symbolic_in(data):
        return from_any(S.spdiags(concrete(data), diags_, m, n, format))
    raise Unsupported('spdiags')


def _tri(name):
    def f(A, k=0, format=None):
        if not issparse(A):
            A = from_dense(A, 'coo') if symbolic_in(A) else from_any(S.coo_matrix(concrete(A)))
        if not isinstance(A, SM):
            return getattr(S, name)(A, k, format)
        src = dedup(A) if A.P.format == 'coo' and format not in (None, 'coo') else A
        return SM(getattr(S, name)(src.P, k, format), src.v)
    return f


tril = _tri('tril')
triu = _tri('triu')


def find(A):
    A = dedup(to_sm(A if issparse(A) else coo_matrix(A)).tocoo())
    c = A.P
    # scipy >= 1.13: sum_duplicates sorts by row, then column
    order = np.lexsort((c.col, c.row))
    old = A.v.view(np.ndarray)
    rows, cols, vals = [], [], []
    for t in order:
        x = old[int(c.data[t]) - 1]
        if not isz(x):
            rows.append(c.row[t])
            cols.append(c.col[t])
            vals.append(x)
    return (np.array(rows, dtype=c.row.dtype), np.array(cols, dtype=c.col.dtype),
            wrap_seq(vals, A.v.ldt))


def kron(A, Bm, format=None):
    if not issparse(A):
        A = coo_matrix(A)
    if not issparse(Bm):
        Bm = coo_matrix(Bm)
    if both_real(A, Bm):
        return from_any(S.kron(real_or(A), real_or(Bm), format))
    R = S.kron(dummy_any(A), dummy_any(Bm), format)
    da, db = to_sm(A).todict(), to_sm(Bm).todict()
    m, n = Bm.shape
    ent = [(i * m + k, j * n + l, _mul(x, y)) for (i, j), x in da.items()
           for (k, l), y in db.items()]
    return from_entries(R.shape, ent, R.format, F64)


def _stack(name):
    def f(blocks, format=None, dtype=None):
        bl = [b if issparse(b) else coo_matrix(b) for b in blocks]
        bl = [to_sm(b) for b in bl]
        v, Ps = [], []
        for b in bl:
            c = dedup(b).tocoo()
            Ps.append(S.coo_matrix((c.P.data + len(v), (c.P.row, c.P.col)), shape=c.shape)
                      .asformat(b.P.format))
            v.extend(c.v.view(np.ndarray))
        P = getattr(S, name)(Ps, format=format)
        return SM(P, mkvals(v, np.result_type(*[b.v.ldt for b in bl])))
    return f


hstack = _stack('hstack')
vstack = _stack('vstack')


def block_diag(mats, format=None, dtype=None):
    mats = [to_sm(m if issparse(m) else coo_matrix(m)) for m in mats]
    ent, r, c = [], 0, 0
    for m in mats:
        ent += [(i + r, j + c, x) for (i, j), x in m.todict().items()]
        r += m.shape[0]
        c += m.shape[1]
    return from_entries((r, c), ent, format or 'coo', F64)


def _patch_multiply():
    """Boolean (real) sparse matrices multiplied elementwise by symbolic ones."""
    import scipy.sparse._base as B
    import scipy.sparse._compressed as C
    for cls in (B._spbase, C._cs_matrix):
        if 'multiply' in cls.__dict__ and not getattr(cls.multiply, '_symx', False):
            def wrap_(orig):
                def multiply(self, other):
                    if isinstance(other, SM):
                        return binop('multiply', other, self)
                    return orig(self, other)
                multiply._symx = True
                return multiply
            cls.multiply = wrap_(cls.__dict__['multiply'])


_patch_multiply()
