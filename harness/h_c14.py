"""C14 Kron reduction, C19 matrix utilities."""
import itertools
from fractions import Fraction

from symx.session import harness
from . import ref
from .common import TYPES, typed, SHAPES, any_graph, dir_edges, pattern, shape, und_edges

# ------------------------------------------------------------------ C14


def det(M):
    if not M:
        return 1
    if len(M) == 1:
        return M[0][0]
    return ref.tot((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
                   for j in range(len(M)))


def inverse(M):
    n = len(M)
    d = det(M)
    return [[(-1) ** (i + j) * det([r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]) / d
             for j in range(n)] for i in range(n)]


def schur(L, ind):
    """Schur complement on ind, in that order."""
    n = len(L)
    out = [i for i in range(n) if i not in ind]
    inv = inverse([[L[i][j] for j in out] for i in out]) if out else []
    return [[L[i][j] - ref.tot(L[i][p] * inv[a][b] * L[q][j] for a, p in enumerate(out)
                               for b, q in enumerate(out)) for j in ind] for i in ind]


def reach(n, edges):
    c = list(range(n))
    for _ in range(n):
        for i, j in edges:
            c[i] = c[j] = min(c[i], c[j])
    return c


def selections(n, edges, full=True):
    """Ordered selections meeting every component."""
    c = reach(n, edges)
    r = []
    for k in range(1, n + 1):
        for p in itertools.permutations(range(n), k):
            if {c[i] for i in p} == set(c) and (full or list(p) == sorted(p) or len(p) == 2):
                r.append(list(p))
    return r


def kron_case(S, n, edges, W, sel):
    coords = S.choice('coords', [None, 1, 2])
    c = None if coords is None else S.mat('c', n, 2) if coords == 2 else S.vec('c', n)
    G = S.graphs.Graph(W, coords=c, plotting={'vertex_size': 9})
    snap = S.snapshot(G.W)
    v = S.choice('keep', sel)
    ind = S.np.array(v) if S.flag('array') else list(v)
    H = S.mod('reduction').kron_reduction(G, ind)
    L = ref.laplacian(W)
    K = schur(L, v)
    m = len(v)
    S.same('size', H.n_vertices, m)
    S.eq('weights', S.dense(H.W), [[-K[i][j] if i != j else 0.0 for j in range(m)]
                                   for i in range(m)])
    S.eq('Laplacian', S.dense(H.L), K)
    S.check('undirected', not H.is_directed())
    S.check('loop-free', not H.has_loops())
    S.same('plotting', H.plotting['vertex_size'], 9)
    S.same('lap_type', H.lap_type, 'combinatorial')
    # two kept vertices are joined iff a path connects them through eliminated vertices
    out = set(range(n)) - set(v)
    inner = [(i, j) for i, j in edges if i in out or j in out]
    joined = set()
    for a in range(m):
        for b in range(m):
            if a != b:
                ok = {v[a]}
                for _ in range(n):
                    for i, j in inner:
                        for x, y in ((i, j), (j, i)):
                            if x in ok and (x in out or x == v[a]) and (y in out or y == v[b]):
                                ok.add(y)
                if v[b] in ok or (v[a], v[b]) in edges or (v[b], v[a]) in edges:
                    joined.add((a, b))
    Wd = ref.grid(S.dense(H.W))
    S.le('non-negative', [[0.0] * m] * m, Wd)
    S.same('edges', {(a, b) for a in range(m) for b in range(m) if ref.nz(Wd[a][b])}, joined)
    if c is None:
        S.check('no coordinates', not hasattr(H, 'coords'))
    else:
        S.eq('coordinates', H.coords, [ref.grid(c)[i] for i in v])
    S.unchanged('graph kept', G.W, snap)


@harness('C14', cfgs=[dict(n=n, loops=l) for n in (1, 2, 3) for l in (False, True)],
         paths=1500, budget=60)
def kron_any(S, n, loops):
    """1..3 vertices, every pattern (self-loops included), arbitrary weights, every ordered
    selection meeting every component, coordinates or none"""
    W, edges = any_graph(S, n, loops=loops)
    edges = [(i, j) for i, j in edges if i != j]
    kron_case(S, n, edges, W, selections(n, edges))


@harness('C14', cfgs=[dict(name=s) for s in ('p4', 's4', 'c4', 'k4', 'd4', 'paw', 'k3+1', '2k2',
                                             'p3+1')], paths=400, budget=70)
def kron_four(S, name):
    """4 vertices, arbitrary weights, selections of every size"""
    n, edges = SHAPES[name]
    W = shape(S, name)
    kron_case(S, n, edges, W, selections(n, edges, name in ('p4', 'c4')))


@harness('C14', paths=200, cfgs=[dict(w=w) for w in (1 / 3, 1e4 / 3, 1e7 / 7)])
def kron_scales(S, w):
    """6 vertices with concrete weights of any magnitude next to one arbitrary weight: rounding
    leaves no phantom edge, loop or direction"""
    n = 6
    edges = [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (4, 5), (1, 4)]
    W = S.np.zeros((n, n))
    for k, (i, j) in enumerate(edges):
        W[i, j] = W[j, i] = w * (k + 1) / 3 if k else S.real('a', Fraction(1, 8), 8)
    kron_case(S, n, edges, W, [[0, 1, 2, 5], [5, 0, 2], [3, 1, 0], [0, 3, 5, 4], [1, 3], [4]])


@harness('C14', cfgs=[dict(name=s) for s in ('k2', 'p3', 'k3')], paths=200)
def kron_matrix(S, name):
    """matrix inputs: Schur complement of a regularised Laplacian with arbitrary weights and
    regularisation, in any order and sparse format"""
    n, edges = SHAPES[name]
    L = ref.laplacian(shape(S, name))
    r = S.real('r', Fraction(1, 16), 2)
    M = [[L[i][j] + (r if i == j else 0) for j in range(n)] for i in range(n)]
    v = S.choice('keep', [list(p) for k in range(1, n + 1)
                          for p in itertools.permutations(range(n), k)])
    A = S.container(S.choice('fmt', ['csr', 'csc']), S.array(M))
    snap = S.snapshot(A)
    K = S.mod('reduction').kron_reduction(A, v)
    S.eq('schur', S.dense(K), schur(M, v))
    S.unchanged('matrix kept', A, snap)


@harness('C14', paths=100)
def kron_rejects(S):
    """directed graphs and normalized Laplacians are refused"""
    W, edges = any_graph(S, 2, directed=True)
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap, coords=S.mat('c', 2, 2))
    if lap == 'normalized' or G.is_directed():
        S.raises('refused', NotImplementedError, lambda: S.mod('reduction').kron_reduction(G, [0]))
    elif edges:
        S.eq('null', S.dense(S.mod('reduction').kron_reduction(G, [0]).W), [[0.0]])


@harness('C14', cfgs=[dict(name=s, dtype=d) for s in ('p3', 'k3') for d in TYPES], paths=60)
def kron_types(S, name, dtype):
    """boolean, 8, 16 and 64-bit integer weights (every value of the type), single precision"""
    W, M = typed(S, name, dtype)
    sel = S.choice('sel', [[0, 2], [2, 1], [1]])
    K = S.mod('reduction').kron_reduction(S.graphs.Graph(W), sel)
    a, b, c = M[0][1], M[1][2], M[0][2]
    # resistors in series through the dropped vertex
    if len(sel) == 1:
        w = 0.0
    elif sel == [0, 2]:
        w = c + a * b / (a + b)
    else:
        w = b + (a * c / (a + c) if name == 'k3' else 0.0)
    k = len(sel)
    S.eq('weights', S.dense(K.W), [[w if i != j else 0.0 for j in range(k)] for i in range(k)],
         tol=1e-5)
    S.eq('Laplacian', S.dense(K.L), [[w if i == j else -w for j in range(k)] for i in range(k)],
         tol=1e-5)


# ------------------------------------------------------------------ C19

@harness('C19', cfgs=[dict(d=d, n=n, m=m) for d in (1, 2, 3) for n in (1, 2, 3)
                      for m in (None, 1, 2, 3)])
def distances(S, d, n, m):
    """1..3 dimensions, 1..3 points in each set, arbitrary coordinates"""
    u = S.mod('utils')
    x = S.mat('x', d, n)
    y = x if m is None else S.mat('y', d, m)
    snaps = S.snapshot(x), S.snapshot(y)
    D = u.distanz(x) if m is None else u.distanz(x, y)
    k = n if m is None else m
    S.same('shape', tuple(D.shape), (n, k))
    xs, ys = ref.grid(x), ref.grid(y)
    want = [[ref.tot((xs[r][i] - ys[r][j]) * (xs[r][i] - ys[r][j]) for r in range(d))
             for j in range(k)] for i in range(n)]
    S.eq('squared', D * D, want, tol=1e-6)
    S.le('non-negative', [[0.0] * k] * n, D)
    S.unchanged('x kept', x, snaps[0])
    S.unchanged('y kept', y, snaps[1])
    if m is not None:
        S.raises('dimensions', ValueError, lambda: u.distanz(x, S.mat('z', d + 1, m)))


@harness('C19', cfgs=[dict(n=n, m=m) for n in (1, 2, 3) for m in (None, 1, 3)])
def distances_line(S, n, m):
    """vectors of 1..3 numbers are points on a line"""
    u = S.mod('utils')
    x = S.vec('x', n)
    y = x if m is None else S.vec('y', m)
    D = u.distanz(x) if m is None else u.distanz(x, y)
    S.eq('squared', D * D, [[(a - b) * (a - b) for b in ref.grid(y)] for a in ref.grid(x)],
         tol=1e-6)


METHODS = ['average', 'maximum', 'fill', 'tril', 'triu']


def symmetrized(W, method):
    n = len(W)
    R = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            a, b = W[i][j], W[j][i]
            if method == 'average':
                r = (a + b) / 2
            elif method == 'maximum':
                r = a if bool(a >= b) else b
            elif method == 'fill':
                r = b if not ref.nz(a) else a if not ref.nz(b) else (a + b) / 2
            else:
                r = a if (i >= j) == (method == 'tril') or i == j else b
            R[i][j] = r
    return R


@harness('C19', cfgs=[dict(method=m, kind=k) for m in METHODS
                      for k in ('array', 'csr', 'csc', 'coo', 'lil')], paths=800)
def symmetrization(S, method, kind):
    """2..3 vertices, every pattern of a non-negative matrix (any sign for average and maximum),
    every container; the result is symmetric, symmetric matrices are kept"""
    u = S.mod('utils')
    n = S.choice('n', [1, 2, 3])
    cand = dir_edges(n) if n < 3 else [(0, 1), (1, 0), (1, 2), (2, 0)]
    edges = pattern(S, cand + ([(0, 0)] if S.flag('loop') else []))
    lo = Fraction(-4) if method in ('average', 'maximum') else Fraction(1, 8)
    M = [[0.0] * n for _ in range(n)]
    for i, j in edges:
        M[i][j] = S.real(f'w{i}{j}', lo, 4)
    if S.flag('symmetric'):
        for i in range(n):
            for j in range(i):
                M[i][j] = M[j][i]
    W = S.container(kind, S.array(M))
    snap = S.snapshot(W)
    R = u.symmetrize(W, method=method)
    S.check('sparse iff sparse', hasattr(R, 'toarray') == hasattr(W, 'toarray'))
    S.eq('definition', S.dense(R), symmetrized(M, method))
    S.eq('symmetric', S.dense(R), ref.tr(S.dense(R)))
    S.unchanged('matrix kept', W, snap)


@harness('C19', cfgs=[dict(method=m, dtype=d) for m in METHODS for d in TYPES], paths=200)
def symmetrization_types(S, method, dtype):
    """booleans, 8, 16 and 64-bit integers (every value of the type), single precision; arrays and
    sparse matrices: same result as in double precision"""
    W, M = typed(S, S.choice('shape', ['d2', 'd2b', 'd3m']), dtype)
    R = S.dense(S.mod('utils').symmetrize(W, method=method))
    g = [[x * 1. for x in r] for r in ref.grid(R)]
    S.eq('definition', g, symmetrized(M, method))


@harness('C19', cfgs=[dict(dtype=t) for t in ('uint8', 'int8', 'int16')])
def distances_types(S, dtype):
    """points with 8 and 16-bit coordinates (every value of the type, up to 1000)"""
    u = S.mod('utils')
    lo, hi = {'uint8': (0, 255), 'int8': (-128, 127), 'int16': (-1000, 1000)}[dtype]
    d = S.choice('d', [1, 2])
    M = [[S.symint(f'x{i}{j}', lo, hi) for j in range(2)] for i in range(d)]
    x = S.intarray(M, dtype)
    D = u.distanz(x)
    f = [[v * 1. for v in r] for r in M]
    S.eq('squared', D * D, [[ref.tot((f[r][i] - f[r][j]) * (f[r][i] - f[r][j]) for r in range(d))
                             for j in range(2)] for i in range(2)], tol=1e-6)


@harness('C19', cfgs=[dict(name=s, dtype=d) for s in ('k2', 'p3', 'k3') for d in TYPES])
def resistance_types(S, name, dtype):
    """booleans, 8, 16 and 64-bit integer weights (every value of the type), single precision"""
    W, M = typed(S, name, dtype)
    R = S.mod('utils').resistance_distance(S.graphs.Graph(W))
    n, edges = SHAPES[name]
    if dtype != 'bool':
        resist(S, n, edges, M, R)
        return
    r = {'k2': [1], 'p3': [1, 2, 1], 'k3': [2 / 3] * 3}[name]
    S.eq('resistances', [S.dense(R)[i, j] for i in range(n) for j in range(i + 1, n)], r)


@harness('C19')
def symmetrization_rejects(S):
    """non-square matrices and unknown methods are rejected"""
    u = S.mod('utils')
    W = S.mat('w', 2, 3)
    for m in METHODS:
        S.raises('square', ValueError, lambda: u.symmetrize(W, method=m))
        S.raises('square', ValueError, lambda: u.symmetrize(S.sparse.csr_matrix(W), method=m))
    S.raises('method', ValueError, lambda: u.symmetrize(S.mat('v', 2, 2), method='sum'))


@harness('C19', cfgs=[dict(n=n) for n in (1, 2, 3)], paths=200, budget=40)
def resistance(S, n):
    """1..3 vertices, every pattern (also disconnected), arbitrary weights, graph or Laplacian; normalized
    Laplacians are rejected"""
    u = S.mod('utils')
    W, edges = any_graph(S, n, lo=Fraction(1, 2), hi=4)
    G = S.graphs.Graph(W, lap_type='normalized')
    S.raises('normalized', ValueError, lambda: u.resistance_distance(G))
    G = S.graphs.Graph(W)
    R = u.resistance_distance(G if S.flag('graph') else G.L)
    resist(S, n, edges, W, R)


def resist(S, n, edges, W, R):
    L = ref.laplacian(W)
    c = reach(n, edges)
    # pseudo-inverse of a Laplacian: (L + sum of J/|c|)^-1 - sum of J/|c|
    J = [[(1 / c.count(c[i]) if S.sym is False else Fraction(1, c.count(c[i])))
          if c[i] == c[j] else 0 for j in range(n)] for i in range(n)]
    inv = inverse([[L[i][j] + J[i][j] for j in range(n)] for i in range(n)])
    P = [[inv[i][j] - J[i][j] for j in range(n)] for i in range(n)]
    S.eq('pseudo-inverse', S.dense(R), [[P[i][i] + P[j][j] - P[i][j] - P[j][i] for j in range(n)]
                                        for i in range(n)], tol=1e-6)


@harness('C19', cfgs=[dict(name=s) for s in ('p4', 's4', 'c4', 'paw', '2k2')])
def resistance_four(S, name):
    """4 vertices, arbitrary weights"""
    n, edges = SHAPES[name]
    W = shape(S, name, lo=Fraction(1, 2), hi=4)
    resist(S, n, edges, W, S.mod('utils').resistance_distance(S.graphs.Graph(W)))


@harness('C19')
def resistance_series(S):
    """resistances in series add, in parallel combine; normalized Laplacians are rejected"""
    u = S.mod('utils')
    a, b, c = (S.real(x, Fraction(1, 4), 4) for x in 'abc')
    G = S.graphs.Graph(S.array([[0, a, 0], [a, 0, b], [0, b, 0]]))
    R = S.dense(u.resistance_distance(G))
    S.eq('series', R[0, 2], 1 / a + 1 / b, tol=1e-6)
    S.eq('edge', R[0, 1], 1 / a, tol=1e-6)
    G = S.graphs.Graph(S.array([[0, a, c], [a, 0, b], [c, b, 0]]))
    R = S.dense(u.resistance_distance(G))
    S.eq('parallel', R[0, 2] * (c + a * b / (a + b)), 1, tol=1e-6)
    G.compute_laplacian('normalized')
    S.raises('normalized', ValueError, lambda: u.resistance_distance(G))


@harness('C19', cfgs=[dict(d=d, n=n) for d in (1, 2, 3) for n in (1, 2, 3)])
def rescale(S, d, n):
    """1..3 rows of 1..3 numbers: rows centred, largest value one"""
    u = S.mod('utils')
    x = S.mat('x', d, n)
    g = ref.grid(x)
    mean = [ref.tot(r) / n for r in g]
    c = [[g[i][j] - mean[i] for j in range(n)] for i in range(d)]
    S.assume(any(bool(v > 0.01) for r in c for v in r))
    snap = S.snapshot(x)
    r = u.rescale_center(x)
    big = c[0][0]
    for row in c:
        for v in row:
            if bool(v > big):
                big = v
    S.eq('centred and scaled', r * big, c)
    S.eq('centred', r.sum(axis=1), [0.0] * d, tol=1e-6)
    S.unchanged('kept', x, snap)


@harness('C19', cfgs=[dict(k=k) for k in (1, 2, 3, 5, 9)])
def log_scales(S, k):
    """arbitrary spectrum bounds and factors, 1..9 scales: geometric from t2/lmin to t1/lmax"""
    u = S.mod('utils')
    lmin = S.real('lmin', Fraction(1, 64), 2)
    lmax = S.real('lmax', Fraction(1, 2), 64)
    S.assume(lmin < lmax)
    if S.flag('factors'):
        t1, t2 = S.real('t1', Fraction(1, 4), 4), S.real('t2', Fraction(1, 4), 4)
        s = u.compute_log_scales(lmin, lmax, k, t1, t2)
    else:
        t1, t2 = 1, 2
        s = u.compute_log_scales(lmin, lmax, k)
    S.same('count', tuple(s.shape), (k,))
    S.eq('largest', s[0], t2 / lmin)
    if k > 1:
        S.eq('smallest', s[k - 1], t1 / lmax)
    for i in range(1, k - 1):
        S.eq('geometric', s[i] * s[i], s[i - 1] * s[i + 1], tol=1e-6)
