"""Contracts standing in for compiled numerical routines and random sources."""
import itertools
import math
import types
from fractions import Fraction

import numpy as np
import scipy.sparse as S
import scipy.linalg as SLA
import scipy.sparse.linalg as SL

from . import core, sp
from .arr import (F64, SArr, SMatrix, arr, asmatrix, cast, cmp_elem, concrete, elem, f_zeros, fsum,
                  has_sym, is_s, plain, rewrap, sarray, solve_exact, symbolic_in, wrap)
from .core import (Sym, Unsupported, cmp0, fresh, s_abs, s_add, s_cmp, s_div, s_mul, s_pow, s_sqrt,
                   s_sub, z3)


RandomState = np.random.RandomState


def grid(a):
    return plain(arr(a)).tolist()


# ------------------------------------------------------------------ eigen-decompositions

def is_zero(x):
    return not bool(cmp_elem(x, 0, '!='))


def ident_zero(x):
    """True when x is identically zero after clearing denominators (no fork)."""
    if not is_s(x):
        return abs(x) < 1e-300
    q, _ = core.clear(x.p)
    if not q:
        return True
    b = cmp0(q, '==')
    return b is True


def eigh_stub(a, check_sym=False):
    """Orthonormal U and ascending e with a = U diag(e) U'.  Exact closed forms for diagonal
    blocks and n<=2, singular n=3 spectrum; otherwise contract atoms (shared per matrix)."""
    a = arr(a)
    n = a.shape[0]
    M = grid(a)
    # numpy/scipy eigh read one triangle only
    for i in range(n):
        for j in range(i + 1, n):
            M[i][j] = M[j][i]
    if not symbolic_in(M) and not getattr(core.CTX, 'eig_signs', False):
        e, U = SLA.eigh(np.array([[float(x) for x in r] for r in M], dtype=float).reshape(n, n))
        return cast(sarray(e.tolist()), F64), cast(sarray(U.tolist()), F64)
    comps = _components(M)
    if len(comps) > 1 or n == 1:
        parts = []
        for c in comps:
            sub = [[M[i][j] for j in c] for i in c]
            if not symbolic_in(sub):
                e, U = np.linalg.eigh(np.array([[float(x) for x in r] for r in sub]))
                e, U = list(e), U.tolist()
            else:
                e, U = eig_irred(sub)
            for k in range(len(c)):
                vec = [0.0] * n
                for r, i in enumerate(c):
                    vec[i] = U[r][k]
                parts.append((e[k], vec))
        order = _order([p[0] for p in parts])
        parts = [parts[i] for i in order]
        e = [p[0] for p in parts]
        U = [[p[1][i] for p in parts] for i in range(n)]
    else:
        e, U = eig_irred(M)
    if getattr(core.CTX, 'eig_signs', False):
        for k in range(n):
            if core.CTX.choose(2):
                for i in range(n):
                    U[i][k] = -U[i][k]
    return cast(sarray(e), F64), cast(sarray(U), F64)


def _order(es):
    from .arr import _sorted_idx
    return _sorted_idx(es)


def _components(M):
    n = len(M)
    seen, out = [False] * n, []
    for s in range(n):
        if seen[s]:
            continue
        st, comp = [s], []
        seen[s] = True
        while st:
            v = st.pop()
            comp.append(v)
            for j in range(n):
                if not seen[j] and not is_zero(M[v][j]):
                    seen[j] = True
                    st.append(j)
        out.append(sorted(comp))
    return out


def eig_irred(M):
    n = len(M)
    if n == 1:
        return [M[0][0]], [[1.0]]
    key = ('eig', n, tuple(core.pkey(core.P(x)) for r in M for x in r))
    cache = core.CTX.__dict__.setdefault('_eig', {})
    if key not in cache:
        cache[key] = _eig2(M) if n == 2 else (_eig3(M, key) if n == 3 else _eign(M, key))
        if n > 2 and getattr(core.CTX, 'lemmas', True):
            _bounds(M, cache[key][0])
    e, U = cache[key]
    return list(e), [list(r) for r in U]


def _eig2(M):
    a, b, c = M[0][0], M[0][1], M[1][1]
    det = s_sub(s_mul(a, c), s_mul(b, b))
    tr = s_add(a, c)
    if ident_zero(det):
        if bool(s_cmp(tr, 0, '>=')):
            e = [0.0, tr]
            zero = 0
        else:
            e = [tr, 0.0]
            zero = 1
        # null vector
        if ident_zero(s_sub(a, c)) and ident_zero(s_add(a, b)):
            h = s_sqrt(core.mk({core.ONE: Fraction(1, 2)}))
            nv, ov = [h, h], [h, -h]
        else:
            nrm = s_sqrt(s_add(s_mul(c, c), s_mul(b, b)))
            nv = [s_div(c, nrm), s_div(-b, nrm)]
            ov = [s_div(b, nrm), s_div(c, nrm)]
        cols = [nv, ov] if zero == 0 else [ov, nv]
    else:
        disc = s_add(s_mul(s_sub(a, c), s_sub(a, c)), s_mul(4, s_mul(b, b)))
        core.CTX.assume(cmp0(core.P(disc), '>='))
        r = s_sqrt(disc)
        e = [s_div(s_sub(tr, r), 2), s_div(s_add(tr, r), 2)]
        if ident_zero(s_sub(a, c)):
            h = s_sqrt(core.mk({core.ONE: Fraction(1, 2)}))
            up = bool(s_cmp(b, 0, '>'))
            cols = [[h, -h], [h, h]] if up else [[h, h], [h, -h]]
        else:
            # unit circle parametrisation
            s = fresh('u0', -1, 1, key=('eig2s', core.pkey(core.P(a)), core.pkey(core.P(b)),
                                         core.pkey(core.P(c))))
            q = s_sub(1, s_mul(s, s))
            core.CTX.assume(cmp0(core.P(q), '>='))
            co = s_sqrt(q)
            cols = [[co, s], [-s, co]]
    U = [[cols[k][i] for k in range(2)] for i in range(2)]
    return e, U


def _nonpos(x):
    if not is_s(x):
        return x <= 0
    b = s_cmp(x, 0, '<=')
    return b is True or (b is not False and core.sign(core.P(x)) == -1)


def _bounds(M, e):
    """Theorems on the largest eigenvalue, part of the contract: scaled Gershgorin discs with the
    all-ones, diagonal and null vectors; Anderson-Morley and complete-graph bounds of Laplacians."""
    n = len(M)
    if not all(_nonpos(M[i][j]) for i in range(n) for j in range(n) if i != j):
        return
    top = e[-1]
    diag = [M[i][i] for i in range(n)]

    def bound(xs, k=1):
        b = s_mul(k, core.s_extreme(xs, True)) if any(is_s(x) for x in xs) else k * max(xs)
        core.CTX.assume(s_cmp(top, b, '<='))
    lap = _null_ones(M)
    if lap:
        bound(diag, 2)
        bound([s_sub(0, M[i][j]) for i in range(n) for j in range(n) if i != j], n)
        bound([s_add(diag[i], diag[j]) for i in range(n) for j in range(i)
               if not ident_zero(M[i][j])])
        bound([s_add(diag[i], s_div(fsum([s_mul(s_sub(0, M[i][j]), diag[j]) for j in range(n)
                                         if j != i]), diag[i])) for i in range(n)])
    elif n == 3 and not is_s(e[0]) and e[0] == 0 and not _nonpos(e[1]):
        t, m, _ = _charp(M)
        if (not is_s(t) and t > 0 or is_s(t) and core.sign(core.P(t)) == 1) and \
                (not is_s(m) and m > 0 or is_s(m) and core.sign(core.P(m)) == 1):
            bound(diag, 2)


def _charp(M):
    tr = fsum([M[i][i] for i in range(3)])
    m = fsum([s_sub(s_mul(M[i][i], M[j][j]), s_mul(M[i][j], M[i][j]))
              for i in range(3) for j in range(i)])
    from .arr import mat_det
    return tr, m, mat_det(M)


def quaternion_rotation(key):
    """A generic 3x3 rotation: unit quaternion with a^2 -> 1-b^2-c^2-d^2."""
    b, c, d = (fresh(f'q{i}', -1, 1, key=(key, i)) for i in range(3))
    q = s_sub(1, s_add(s_add(s_mul(b, b), s_mul(c, c)), s_mul(d, d)))
    core.CTX.assume(cmp0(core.P(q), '>='))
    a = s_sqrt(q)
    R = [[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
         [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
         [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]
    return R


def _eig3(M, key):
    tr, m, det = _charp(M)
    if ident_zero(det):
        disc = s_sub(s_mul(tr, tr), s_mul(4, m))
        core.CTX.assume(cmp0(core.P(disc), '>='))
        r = s_sqrt(disc)
        es = [0.0, s_div(s_sub(tr, r), 2), s_div(s_add(tr, r), 2)]
        es = [es[i] for i in _order(es)]
    else:
        es = [fresh(f'e{i}', key=(key, 'e', i)) for i in range(3)]
        for i in range(2):
            core.CTX.assume(s_cmp(es[i], es[i + 1], '<='))
        core.CTX.assume(s_cmp(fsum(es), tr, '=='))
        core.CTX.assume(s_cmp(fsum([s_mul(es[i], es[j]) for i in range(3) for j in range(i)]), m,
                              '=='))
        core.CTX.assume(s_cmp(s_mul(s_mul(es[0], es[1]), es[2]), det, '=='))
    U = quaternion_rotation(key)
    return es, U


def _eign(M, key):
    n = len(M)
    es = [fresh(f'e{i}', key=(key, 'e', i)) for i in range(n)]
    sym = _null_ones(M)
    if sym:
        es[0] = 0.0
    for i in range(n - 1):
        core.CTX.assume(s_cmp(es[i], es[i + 1], '<='))
    tr = fsum([M[i][i] for i in range(n)])
    core.CTX.assume(s_cmp(fsum(es), tr, '=='))
    U = [[fresh(f'u{i}{k}', -1, 1, key=(key, 'u', i, k)) for k in range(n)] for i in range(n)]
    return es, U


def _null_ones(M):
    """Row sums vanish and off-diagonals are non-positive: positive semidefinite, singular."""
    n = len(M)
    for i in range(n):
        if not ident_zero(fsum(M[i])):
            return False
        for j in range(n):
            if i != j:
                b = s_cmp(M[i][j], 0, '<=')
                if b is True:
                    continue
                if b is False or core.sign(core.P(M[i][j])) != -1:
                    return False
    return True


def extreme_eig(M):
    """Largest eigenvalue of a symmetric matrix."""
    e, _ = eigh_stub(M)
    return e[len(e) - 1]


def eigsh(A, k=6, M=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0,
          return_eigenvectors=True, Minv=None, OPinv=None, mode='normal', **kw):
    n = A.shape[0]
    if getattr(core.CTX, 'eigsh_fail', False):
        raise ArpackNoConvergence('no convergence', np.zeros(0), np.zeros((0, 0)))
    sym = symbolic_in(A.v) if isinstance(A, sp.SM) else symbolic_in(A)
    if not sym:
        if k < n:
            # deterministic start vector: ARPACK draws a random one
            v0_ = v0 if v0 is not None else np.linspace(1.0, 2.0, n)
            try:
                r = SL.eigsh(sp.real_or(A), k, sigma=sigma, which=which, v0=v0_, ncv=ncv,
                             maxiter=maxiter, tol=tol, return_eigenvectors=return_eigenvectors)
                return rewrap(r)
            except TypeError:
                pass
        raise TypeError('Cannot use scipy.linalg.eigh for sparse A with k >= N. '
                        'Use scipy.linalg.eigh(A.toarray()) or reduce k.')
    if sigma is not None or M is not None:
        raise Unsupported('eigsh sigma')
    D = A.toarray() if isinstance(A, sp.SM) else A
    if k >= n:
        raise TypeError('Cannot use scipy.linalg.eigh for sparse A with k >= N. '
                        'Use scipy.linalg.eigh(A.toarray()) or reduce k.')
    e, U = eigh_stub(D)
    if which == 'SM':
        ee, UU = e[:k], U[:, :k]
    elif which in ('LM', 'LA'):
        ee, UU = e[n - k:], U[:, n - k:]
    elif which == 'SA':
        ee, UU = e[:k], U[:, :k]
    else:
        raise Unsupported('eigsh which')
    if which in ('LM', 'SM') and not bool(cmp_elem(e[0], 0, '>=')):
        raise Unsupported('eigsh LM with negative eigenvalues')
    if tol:
        tol = core.num(tol)
        t = core.CTX.input(f'lanczos_err{len([x for x in core.CTX.inputs if "lanczos" in x])}',
                           0, tol)
        ee = ee * (1 - t)
        if return_eigenvectors:
            raise Unsupported('approximate eigenvectors')
    ee = arr(ee).copy()
    return (ee, UU) if return_eigenvectors else ee


class ArpackNoConvergence(SL.ArpackNoConvergence):
    pass


def eigs(A, k=6, M=None, sigma=None, which='LM', **kw):
    n = A.shape[0]
    if k >= n - 1:
        raise TypeError('Cannot use scipy.linalg.eig for sparse A with k >= N - 1. '
                        'Use scipy.linalg.eig(A.toarray()) or reduce k.')
    if not (symbolic_in(A.v) if isinstance(A, sp.SM) else symbolic_in(A)):
        return rewrap(tuple(np.real(x) for x in SL.eigs(
            sp.real_or(A), k, which=which, v0=np.linspace(1.0, 2.0, n))))
    e, U = eigh_stub(A.toarray())
    return e[n - k:], U[:, n - k:]


# ------------------------------------------------------------------ linear solves

def _dense_rows(A):
    return grid(A.toarray() if sp.issparse(A) else A)


def spsolve(A, b, permc_spec=None, use_umfpack=True):
    sb = sp.issparse(b)
    if not symbolic_in(A.v if isinstance(A, sp.SM) else A) and \
            not symbolic_in(b.v if isinstance(b, sp.SM) else b):
        return sp.from_any(SL.spsolve(sp.real_or(A), sp.real_or(b)))
    n = A.shape[0]
    if A.shape[0] != A.shape[1]:
        raise ValueError('matrix must be square')
    if b.shape[0] != n:
        raise ValueError('matrix - rhs dimension mismatch')
    B2 = b.toarray() if sb else arr(b)
    one = B2.ndim == 1 or (not sb and B2.shape[1] == 1)
    B2 = arr(B2)
    shape1 = B2.ndim == 1
    rows = B2.view(np.ndarray).reshape(n, -1).tolist()
    try:
        r = solve_exact(_dense_rows(A), rows)
        res = sarray(r) if n else f_zeros(B2.shape)
    except np.linalg.LinAlgError:
        res = f_zeros((n, len(rows[0]) if rows else 0), math.nan)
    if sb:
        if b.shape[1] == 1:
            return arr(res)[:, 0]
        return sp.from_dense(res, 'csc')
    return arr(res)[:, 0] if one else res


def sparse_inv(A):
    if not sp.issparse(A):
        raise TypeError('Input must be a sparse matrix')
    if not symbolic_in(A.v):
        return sp.from_any(SL.inv(sp.real(A)))
    n = A.shape[0]
    try:
        r = solve_exact(_dense_rows(A), np.eye(n).tolist())
    except np.linalg.LinAlgError:
        raise RuntimeError('Factor is exactly singular')
    return sp.from_dense(sarray(r), 'csc')


class LinearOperator:
    def __init__(self, shape, matvec, rmatvec=None, matmat=None, dtype=None, rmatmat=None):
        self.shape = tuple(shape)
        self.matvec = matvec


def aslinearoperator(A):
    return LinearOperator(A.shape, lambda x: A.dot(x))


def cg(A, b, x0=None, **kw):
    n = A.shape[0]
    cols = []
    for j in range(n):
        v = f_zeros(n)
        v[j] = 1.0
        r = A.matvec(v) if isinstance(A, LinearOperator) else A.dot(v)
        cols.append(list(plain(arr(r)).ravel()))
    M = [[cols[j][i] for j in range(n)] for i in range(n)]
    rhs = list(plain(arr(b)).ravel())
    # contract: the residual is within the tolerances, or arbitrary if iterations are limited
    rtol = kw.get('rtol', 1e-5)
    atol = kw.get('atol', 0.0) or 0.0
    hi = [core.interval(core.P(e)) if is_s(e) else (float(e), float(e)) for e in rhs]
    norm = math.sqrt(sum(max(abs(l), abs(h)) ** 2 for l, h in hi))
    if kw.get('maxiter') is not None and int(kw['maxiter']) < 10 * n:
        rtol = max(rtol, 0.1)
    delta = max(float(rtol) * norm, float(atol))
    if delta > 0 and math.isfinite(delta):
        delta = core.num(delta)
        rhs = [s_add(e, core.fresh('cg', -delta, delta)) for e in rhs]
    x = solve_exact(M, [[e] for e in rhs])
    return cast(sarray([r[0] for r in x]), F64), 0


# ------------------------------------------------------------------ neighbours

def dist_key(x, y, p):
    """(order key, distance) of two points; the key is cheap to compare."""
    d = [s_sub(a, b) for a, b in zip(x, y)]
    if p == 2:
        q = fsum([s_mul(t, t) for t in d])
        return q, (lambda: s_sqrt(q))
    if p == 1:
        q = fsum([s_abs(t) for t in d])
        return q, (lambda: q)
    if p == math.inf:
        q = s_abs(d[0])
        for t in d[1:]:
            t = s_abs(t)
            if bool(s_cmp(t, q, '>')):
                q = t
        return q, (lambda: q)
    p = float(p)
    if p < 1:
        raise ValueError('Only p-norms with 1<=p<=infinity permitted')
    q = fsum([s_pow(s_abs(t), p) for t in d])
    return q, (lambda: s_pow(q, Fraction(1) / core.num(p)))


class KDTree:
    def __init__(self, data, *a, **k):
        self.data = arr(data)
        if self.data.ndim != 2:
            raise ValueError('data must be 2 dimensions')
        self.n, self.m = self.data.shape
        self.rows = plain(self.data).tolist()

    def _keys(self, x, p):
        return [dist_key(list(x), r, p) for r in self.rows]

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=math.inf, workers=1):
        x = arr(x)
        from .arr import _sorted_idx
        one = x.ndim == 1
        X = plain(x).tolist() if not one else [plain(x).tolist()]
        D, NN = [], []
        k = int(k)
        for pt in X:
            ks = self._keys(pt, p)
            # the nearest comes first; ties in index order
            idx = _partial_order([q for q, _ in ks], k)
            D.append([ks[i][1]() for i in idx] + [math.inf] * (k - len(idx)))
            NN.append(list(idx) + [self.n] * (k - len(idx)))
        D, NN = cast(sarray(D), F64), np.array(NN, dtype=np.int64)
        if k == 1:
            D, NN = D[:, 0], NN[:, 0]
        return (D[0], NN[0]) if one else (D, NN)

    def query_ball_point(self, x, r, p=2.0, eps=0, **kw):
        x = arr(x)
        if x.ndim > 1:
            out = np.empty(len(x), dtype=object)
            for i in range(len(x)):
                out[i] = self.query_ball_point(x[i], r, p)
            return out
        res = []
        for i, (q, d) in enumerate(self._keys(plain(x).tolist(), p)):
            lim = s_mul(r, r) if p == 2 else (s_pow(r, float(p)) if p not in (1, math.inf) else r)
            if bool(cmp_elem(q, lim, '<=')):
                res.append(i)
        return res

    def query_pairs(self, r, p=2.0, eps=0, output_type='set'):
        res = set()
        for i in range(self.n):
            for j in self.query_ball_point(self.data[i], r, p):
                if j > i:
                    res.add((i, j))
        return res


def _partial_order(keys, k):
    """Indices of the k smallest keys in order (ties by index), with few comparisons."""
    left = list(range(len(keys)))
    out = []
    # points at known distance zero first
    while left and len(out) < k:
        b = left[0]
        for i in left[1:]:
            if cmp_elem(keys[i], keys[b], '<'):
                b = i
        out.append(b)
        left.remove(b)
    return out


def minkowski(u, v, p=2, w=None):
    return elem(dist_key(plain(arr(u)).tolist(), plain(arr(v)).tolist(), p)[1]())


def euclidean(u, v):
    return minkowski(u, v, 2)


def pdist_matrix(X, Y, metric='euclidean', p=2, **k):
    p = {'euclidean': 2, 'cityblock': 1, 'chebyshev': math.inf, 'minkowski': p,
         'manhattan': 1}.get(metric)
    if p is None:
        raise Unsupported(f'cdist {metric}')
    X, Y = plain(arr(X)).tolist(), plain(arr(Y)).tolist()
    return cast(sarray([[dist_key(x, y, p)[1]() for y in Y] for x in X]), F64)


class NearestNeighbors:
    """scikit-learn's interface on top of the exact neighbour contract."""

    def __init__(self, n_neighbors=5, radius=1.0, algorithm='auto', metric='minkowski', p=2,
                 metric_params=None, **k):
        self.k = n_neighbors
        mp = dict(metric_params or {})
        self.p = {'euclidean': 2, 'manhattan': 1, 'cityblock': 1, 'chebyshev': math.inf,
                  'minkowski': mp.get('p', p)}[metric]

    def fit(self, X):
        self.tree = KDTree(X)
        return self

    def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
        k = n_neighbors or self.k
        if k > self.tree.n:
            raise ValueError(f'Expected n_neighbors <= n_samples_fit, but n_neighbors = {k}, '
                             f'n_samples_fit = {self.tree.n}')
        D, NN = self.tree.query(self.tree.data if X is None else X, k=k, p=self.p)
        D, NN = arr(D).reshape(-1, k), np.asarray(NN).reshape(-1, k)
        return (D, NN) if return_distance else NN


# ------------------------------------------------------------------ random sources

class RNG:
    """Arbitrary draws; equal seeds give equal streams."""

    def __init__(self, seed=None, kind='gen'):
        c = core.CTX
        if isinstance(seed, RNG):
            self.__dict__ = seed.__dict__
            return
        if seed is None:
            k = c.rng_counter.get('unseeded', 0)
            c.rng_counter['unseeded'] = k + 1
            self.tag = f'{kind}:none{k}'
        else:
            self.tag = f'{kind}:{_seedstr(seed)}'
        self.n = 0

    def _name(self, what):
        self.n += 1
        c = core.CTX
        if c is not None and getattr(c, 'draws_left', None) is not None:
            if c.draws_left == 0:
                raise core.PathAbort('more random draws than stated')
            c.draws_left -= 1
        return f'rng:{self.tag}:{what}:{self.n - 1}'

    def _draw(self, size, f):
        if size is None:
            return f()
        shape = (size,) if not np.iterable(size) else tuple(size)
        shape = tuple(int(s) for s in shape)
        a = np.empty(shape, dtype=object)
        for i in range(a.size):
            a.flat[i] = f()
        if getattr(core.CTX, 'draws_fixed', None) and not any(is_s(x) for x in a.flat):
            return a.astype(float)
        return a

    def _u01(self):
        f = getattr(core.CTX, 'draws_fixed', None)
        v = f('u', self.n) if f else None
        if v is not None:
            self._name('u')
            if getattr(core.CTX, 'draws_apart', None) is not None:
                self.__dict__.setdefault('reals', []).append(v)
            return v
        x = core.CTX.input(self._name('u'), 0, 1)
        core.CTX.assume(s_cmp(x, 1, '<'))
        return self._apart(x)

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self._draw(size, lambda: s_add(low, s_mul(s_sub(high, low), self._u01())))
        if size is not None and r.dtype != object:
            return r
        return wrap(r, F64) if size is not None else elem(r)

    def random(self, size=None, dtype=None, out=None):
        r = self._draw(size, self._u01)
        if size is not None and r.dtype != object:
            return r
        return wrap(r, F64) if size is not None else elem(r)
    random_sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def _norm1(self):
        return self._apart(core.CTX.input(self._name("n"), -3, 3), False)

    def _apart(self, x, others=True):
        c = core.CTX
        d = getattr(c, 'draws_apart', None)
        if d is None:
            return x
        seen = self.__dict__.setdefault('reals', [])
        for y in [0] + (seen if others else []):
            c.assume(s_cmp(s_sub(x, y), d, '>') | s_cmp(s_sub(y, x), d, '>'))
        seen.append(x)
        return x

    def standard_normal(self, size=None, **k):
        r = self._draw(size, self._norm1)
        return wrap(r, F64) if size is not None else elem(r)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = self._draw(size, lambda: s_add(loc, s_mul(scale, self._norm1())))
        return wrap(r, F64) if size is not None else elem(r)

    def _fix(self, kind, values):
        """The stated one of the values, if any."""
        f = getattr(core.CTX, 'draws_ints', None)
        u = f(kind, self.n) if f else None
        if u is None:
            return None
        self._name(kind)
        return values[int(u * len(values))]

    def _int(self, low, high):
        if high <= low:
            raise ValueError('low >= high')
        v = self._fix('i', range(int(low), int(high)))
        if v is not None:
            return v
        x = core.CTX.input(self._name('i'), int(low), int(high) - 1, isint=True)
        return core.concretize_int(x)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        r = self._draw(size, lambda: self._int(low, high))
        return r.astype(np.int64) if size is not None else np.int64(r)
    randint = integers

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pop = None if isinstance(a, (int, np.integer)) else a
        n = int(a) if pop is None else len(a)
        if p is not None:
            ps = list(plain(arr(p)))
            if not ident_zero(s_sub(fsum(ps), 1)):
                if not bool(np.isclose(float(concrete(elem(fsum(ps)))), 1)):
                    raise ValueError('probabilities do not sum to 1')
            ok = [bool(cmp_elem(q, 0, '>')) for q in ps]
        else:
            ok = [True] * n
        cnt = 1 if size is None else int(np.prod(size))
        if not replace and cnt > sum(ok):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        used = set()
        out = []
        for _ in range(cnt):
            no = {i for i in range(n) if not ok[i] or (not replace and i in used)}
            v = self._fix('c', [i for i in range(n) if i not in no])
            if v is None:
                x = core.CTX.input(self._name('c'), 0, n - 1, isint=True)
                for i in no:
                    core.CTX.assume(s_cmp(x, i, '!='))
                v = core.concretize_int(x)
            used.add(v)
            out.append(v)
        if size is None:
            return np.int64(out[0]) if pop is None else pop[out[0]]
        idx = np.array(out, dtype=np.int64).reshape(size)
        return idx if pop is None else (arr(pop) if has_sym(pop) else np.asarray(pop))[idx]

    def permutation(self, x, axis=0):
        n = int(x) if isinstance(x, (int, np.integer)) else len(x)
        used, out = set(), []
        for k in range(n):
            if len(used) == n - 1:
                v = (set(range(n)) - used).pop()
            else:
                v = self._fix('p', [i for i in range(n) if i not in used])
                if v is None:
                    y = core.CTX.input(self._name('p'), 0, n - 1, isint=True)
                    for i in used:
                        core.CTX.assume(s_cmp(y, i, '!='))
                    v = core.concretize_int(y)
            used.add(v)
            out.append(v)
        idx = np.array(out, dtype=np.int64)
        return idx if isinstance(x, (int, np.integer)) else (
            x[idx] if isinstance(x, np.ndarray) else np.asarray(x)[idx])

    def shuffle(self, x, axis=0):
        p = self.permutation(len(x))
        y = [x[i] for i in p]
        for i, v in enumerate(y):
            x[i] = v

    def seed(self, s=None):
        self.__init__(s, 'global')

    def __getattr__(self, name):
        raise Unsupported(f'random.{name}')

    def __deepcopy__(self, memo):
        r = object.__new__(RNG)
        r.__dict__.update(self.__dict__)
        return r


def _seedstr(s):
    if isinstance(s, (int, np.integer)):
        return str(int(s))
    return repr(s)


def global_rng():
    c = core.CTX
    if not hasattr(c, '_global_rng'):
        c._global_rng = RNG(None, 'global')
    return c._global_rng


class ReplayRNG:
    """Concrete counterpart: draws come from the witness (defaults from a fixed stream)."""
    env = {}
    unseeded = 0
    glob = ()
    fixed = None
    ints = None
    used = None

    def __init__(self, seed=None, kind='gen'):
        if isinstance(seed, ReplayRNG):
            self.__dict__ = seed.__dict__
            return
        if seed is None:
            k = ReplayRNG.unseeded
            ReplayRNG.unseeded += 1
            self.tag = f'{kind}:none{k}'
        else:
            self.tag = f'{kind}:{_seedstr(seed)}'
        self.n = 0
        import zlib
        self.rs = RandomState(zlib.crc32(self.tag.encode()) % 2 ** 31)

    def _name(self, what):
        self.n += 1
        return f'rng:{self.tag}:{what}:{self.n - 1}'

    def _get(self, what, default):
        nm = self._name(what)
        v = ReplayRNG.env.get(nm)
        return default() if v is None else v

    def _draw(self, size, f, dt=float):
        if size is None:
            return dt(f())
        shape = (size,) if not np.iterable(size) else tuple(size)
        n = int(np.prod(shape))
        return np.array([f() for _ in range(n)], dtype=dt).reshape(shape)

    def _u01(self):
        v = self.fixed('u', self.n) if self.fixed else None
        if v is not None:
            self._name('u')
            return v
        return self._get('u', self.rs.uniform)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(size, lambda: low + (high - low) * self._u01())

    def random(self, size=None, dtype=None, out=None):
        return self._draw(size, self._u01)
    random_sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def _norm1(self):
        return self._get('n', self.rs.normal)

    def standard_normal(self, size=None, **k):
        return self._draw(size, self._norm1)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw(size, lambda: loc + scale * self._norm1())

    def _int(self, low, high):
        if high <= low:
            raise ValueError('low >= high')
        v = self._fix('i', range(int(low), int(high)))
        return int(self._get('i', lambda: self.rs.randint(low, high))) if v is None else v

    def _fix(self, kind, values):
        u = self.ints(kind, self.n) if self.ints else None
        if u is None:
            return None
        self._name(kind)
        return values[int(u * len(values))]

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        return self._draw(size, lambda: self._int(low, high), np.int64)
    randint = integers

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pop = None if isinstance(a, (int, np.integer)) else a
        n = int(a) if pop is None else len(a)
        if p is not None:
            p = np.asarray(p, dtype=float).ravel()
            if abs(p.sum() - 1) > 1e-6:
                raise ValueError('probabilities do not sum to 1')
        ok = [True] * n if p is None else [q > 0 for q in p]
        cnt = 1 if size is None else int(np.prod(size))
        if not replace and cnt > sum(ok):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        used, out = set(), []
        for _ in range(cnt):
            cand = [i for i in range(n) if ok[i] and (replace or i not in used)]
            v = self._fix('c', cand)
            v = int(self._get('c', lambda: self.rs.choice(cand))) if v is None else v
            used.add(v)
            out.append(v)
        if size is None:
            return np.int64(out[0]) if pop is None else pop[out[0]]
        idx = np.array(out, dtype=np.int64).reshape(size)
        return idx if pop is None else np.asarray(pop)[idx]

    def permutation(self, x, axis=0):
        n = int(x) if isinstance(x, (int, np.integer)) else len(x)
        used, out = set(), []
        for k in range(n):
            cand = [i for i in range(n) if i not in used]
            v = cand[0] if len(cand) == 1 else self._fix('p', cand)
            v = int(self._get('p', lambda: self.rs.choice(cand))) if v is None else v
            used.add(v)
            out.append(v)
        idx = np.array(out, dtype=np.int64)
        return idx if isinstance(x, (int, np.integer)) else np.asarray(x)[idx]

    def shuffle(self, x, axis=0):
        p = self.permutation(len(x))
        y = [x[i] for i in p]
        for i, v in enumerate(y):
            x[i] = v

    def seed(self, s=None):
        self.__init__(s, 'global')


# ------------------------------------------------------------------ discrete distribution

class rv_discrete:
    def __init__(self, values=None, seed=None, **k):
        self.xk = values[0]
        self.pk = values[1]
        if not ident_zero(s_sub(fsum(list(plain(arr(self.pk)))), 1)):
            t = fsum(list(plain(arr(self.pk))))
            if not bool(s_cmp(s_abs(s_sub(t, 1)), Fraction(1, 10 ** 6), '<')):
                raise ValueError('The sum of provided pk is not 1.')
        self.rng = RNG(seed, 'rvd') if seed is not None else RNG(None, 'rvd')

    def rvs(self, size=1, **k):
        n = len(self.pk)
        r = self.rng.choice(n, size=int(size), p=self.pk)
        return np.asarray(self.xk)[r]


class ReplayRVD:
    def __init__(self, values=None, seed=None, **k):
        self.xk, self.pk = values
        if abs(np.sum(self.pk) - 1) > 1e-6:
            raise ValueError('The sum of provided pk is not 1.')
        self.rng = ReplayRNG(seed, 'rvd')

    def rvs(self, size=1, **k):
        return np.asarray(self.xk)[self.rng.choice(len(self.pk), size=int(size), p=self.pk)]
