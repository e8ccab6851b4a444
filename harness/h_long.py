"""Hundreds of vertices: fixed sparse graphs with a few arbitrary weights or signal values far apart,
so that code that works by blocks, chunks or thresholds on the size is covered too."""
import math
from fractions import Fraction

from symx.session import harness
from . import ref
from .h_c22 import simple

N = 300
LAPS = ('combinatorial', 'normalized')


def long_edges(S, n=N, directed=False, weights=True):
    """{(i, j): weight}: a shuffled path with chords; two arbitrary weights (if weights)."""
    order = [(7 * k + 3) % n for k in range(n)]
    e = {}
    a, b = (S.real('w0', Fraction(1, 2), 2), S.real('w1', Fraction(1, 2), 2)) if weights \
        else (0.75, 1.5)
    for k in range(n - 1):
        e[order[k], order[k + 1]] = a if k == 2 else b if k == n - 5 else 1.0 + (k % 7) / 4
        if k % 3 == 0 and k + 10 < n:
            e[order[k], order[k + 10]] = 0.5 + (k % 5) / 2
        if directed and k % 4 == 0:
            e[order[k + 1], order[k]] = 0.75 + (k % 3)
    if not directed:
        e.update({(j, i): w for (i, j), w in e.items()})
    return e, order


def matrix(S, e, n=N, kind='csr'):
    W = S.sparse.lil_matrix((n, n))
    for (i, j), w in e.items():
        W[i, j] = w
    return W if kind == 'lil' else getattr(W, 'to' + kind)()


def entries(M):
    M = M.tocoo()
    return {(int(i), int(j)): v for i, j, v in zip(M.row, M.col, ref.grid(M.data))}


def same_matrix(S, label, M, want):
    got = entries(M)
    keys = sorted(want)
    S.same(label + ' pattern', sorted(got), keys)
    S.eq(label, [got[k] for k in keys if k in got], [want[k] for k in keys if k in got])


def lap_of(e, n, lap, directed):
    s = {}
    for (i, j), w in e.items():
        for k in ((i, j), (j, i)):
            s[k] = s.get(k, 0.0) + w * 0.5
    d = [0.0] * n
    for (i, j), w in s.items():
        d[i] = d[i] + w
    if lap == 'combinatorial':
        L = {k: -w for k, w in s.items()}
        L.update({(i, i): d[i] for i in range(n)})
    else:
        r = [1 / ref.sqrt(x) for x in d]
        L = {(i, j): -(r[i] * w * r[j]) for (i, j), w in s.items()}
        L.update({(i, i): 1.0 for i in range(n)})
    return L, d


def signal(S, n=N, name='x', m=None, at=(1, 150, 298)):
    """concrete but for three arbitrary values (per column)"""
    x = [[((5 * i + 3 * j) % 11) / 4 - 1 for j in range(m or 1)] for i in range(n)]
    for i in at:
        for j in range(m or 1):
            x[i][j] = S.real(f'{name}{i}_{j}', -2, 2)
    return S.array(x if m else [r[0] for r in x])


@harness('C01', cfgs=[dict(kind=k) for k in ('lil', 'csr', 'csc', 'coo', 'array')], budget=40)
def construction_long(S, kind):
    """300 vertices, two arbitrary weights, dense and sparse containers, directed or not; a bad
    value in the last row is rejected"""
    directed = S.flag('directed')
    e, order = long_edges(S, directed=directed)
    W = matrix(S, e, kind='csr' if kind == 'array' else kind)
    W = W.toarray() if kind == 'array' else W
    c = S.np.arange(2. * N).reshape((N, 2))
    G = S.graphs.Graph(W, coords=c)
    same_matrix(S, 'weights', G.W, e)
    S.same('sizes', (G.n_vertices, G.n_edges), (N, len(e) // (1 if directed else 2)))
    S.eq('coordinates', G.coords, c)
    S.same('direction', bool(G.is_directed()), directed)
    if kind in ('lil', 'array'):
        for bad in (float('nan'), float('inf')):
            B = W.copy()
            B[N - 1, N - 2] = bad
            S.raises('bad value', ValueError, lambda: S.graphs.Graph(B))


@harness('C02', cfgs=[dict(lap=l, directed=d) for l in LAPS for d in (False, True)], budget=40)
def laplacian_long(S, lap, directed):
    """300 vertices, two arbitrary weights, both types, directed or not"""
    e, order = long_edges(S, directed=directed)
    G = S.graphs.Graph(matrix(S, e), lap_type=lap)
    same_matrix(S, 'L', G.L, lap_of(e, N, lap, directed)[0])


@harness('C03', budget=40)
def predicates_long(S):
    """300 vertices in a chain, directed or not, closed into a cycle or cut anywhere: connection,
    direction, self-loops, weights"""
    order = [(7 * k + 3) % N for k in range(N)]
    w = S.real('w', Fraction(1, 2), 2)
    directed = S.flag('directed')
    closed = S.flag('closed')
    cut = S.choice('cut', [None, 0, 150, 298])
    loop = S.flag('loop')
    e = {(order[k], order[k + 1]): 1.0 for k in range(N - 1) if k != cut}
    e[order[200], order[201]] = w
    if closed:
        e[order[-1], order[0]] = 1.0
    if not directed:
        e.update({(j, i): v for (i, j), v in e.items()})
    if loop:
        e[order[299], order[299]] = 1.0
    G = S.graphs.Graph(matrix(S, e))
    S.same('directed', bool(G.is_directed()), directed)
    S.same('connected', bool(G.is_connected()),
           closed and cut is None if directed else closed or cut is None)
    S.same('loops', bool(G.has_loops()), loop)
    S.same('weighted', bool(G.is_weighted()), bool(w != 1))


@harness('C04', cfgs=[dict(directed=d) for d in (False, True)], budget=40)
def degrees_long(S, directed):
    """300 vertices, two arbitrary weights: degrees, pattern and edge list"""
    e, order = long_edges(S, directed=directed)
    G = S.graphs.Graph(matrix(S, e))
    _, d = lap_of(e, N, 'combinatorial', directed)
    S.eq('weighted degrees', G.dw, d)
    c = [0.0] * N
    for i, j in e:
        c[i] += .5
        c[j] += .5
    S.eq('degrees', G.d, c)
    same_matrix(S, 'pattern', G.A * 1., {k: 1. for k in e})
    s, t, w = G.get_edge_list()
    got = {}
    for a, b, v in zip(s, t, ref.grid(w)):
        k = (int(a), int(b))
        k = k if directed else (min(k), max(k))
        S.check('once', k not in got)
        got[k] = v
    want = {k: v for k, v in e.items() if directed or k[0] < k[1]}
    S.same('edges', sorted(got), sorted(want))
    S.eq('edge weights', [got[k] for k in sorted(got)], [want[k] for k in sorted(got)])
    S.same('count', G.n_edges, len(want))


@harness('C05', cfgs=[dict(lap=l, directed=d) for l in LAPS for d in (False, True)], budget=40)
def differential_long(S, lap, directed):
    """300 vertices, two arbitrary weights (undirected, combinatorial) and three arbitrary signal
    values: the operator factors the Laplacian, gradient and divergence are its products"""
    e, order = long_edges(S, directed=directed, weights=lap == 'combinatorial' and not directed)
    G = S.graphs.Graph(matrix(S, e), lap_type=lap)
    L = lap_of(e, N, lap, directed)[0]
    S.same('shape', tuple(G.D.shape), (N, G.n_edges))
    P = entries(G.D.dot(G.D.T))
    keys = sorted(set(P) | set(L))
    S.eq('factors L', [P.get(k, 0.0) for k in keys], [L.get(k, 0.0) for k in keys], tol=1e-9)
    x = signal(S)
    g = ref.grid(x)
    Lx = [0.0] * N
    for (i, j), w in L.items():
        Lx[i] = Lx[i] + w * g[j]
    S.eq('div grad = L', G.div(G.grad(x)), Lx, tol=1e-9)


@harness('C08', cfgs=[dict(n=150)], thorough=[dict(n=400)], budget=60)
def fourier_long(S, n):
    """150 vertices (400 when thorough), signals of one or two columns with three arbitrary values
    each: the transform is the product with the basis, and the inverse undoes it"""
    e, order = long_edges(S, n, weights=False)
    G = S.graphs.Graph(matrix(S, e, n))
    m = S.choice('m', [None, 2])
    x = signal(S, n, m=m, at=(1, n // 2, n - 2))
    y = G.gft(x)
    S.same('shape', tuple(y.shape), (n,) if m is None else (n, m))
    S.eq('inverse', G.igft(y), x, tol=1e-9)
    S.eq('norm', (y * y).sum(), (x * x).sum(), tol=1e-6)
    S.check('ascending', all(a <= b for a, b in zip(list(G.e), list(G.e)[1:])))
    S.eq('other axis', G.gft(x)[n - 1], ref.dot([G.U[i, n - 1] for i in range(n)], ref.grid(x))
         if m is None else [ref.dot([G.U[i, n - 1] for i in range(n)], [r[j] for r in ref.grid(x)])
                            for j in range(m)], tol=1e-9)


def times(L, x):
    r = [0.0] * len(x)
    for (i, j), w in L.items():
        r[i] = r[i] + w * x[j]
    return r


@harness('C10', cfgs=[dict(how='chebyshev', n=300), dict(how='exact', n=71)],
         thorough=[dict(how='chebyshev', n=1000), dict(how='exact', n=151)], budget=60)
def filtering_long(S, how, n):
    """71 (exact) and 300 vertices (151, 1000 when thorough), polynomial kernels, signals with three
    arbitrary values, analysis of one or three signals and synthesis: equals the matrix polynomial"""
    e, order = long_edges(S, n, weights=False)
    G = S.graphs.Graph(matrix(S, e, n))
    if how == 'chebyshev':
        G.estimate_lmax('bounds')
    L = lap_of(e, n, 'combinatorial', False)[0]
    m = S.choice('m', [None, 3])
    F = S.filters.Filter(G, [lambda x: 2 - x / 2, lambda x: 1 + x * x / 4])
    kw = dict(method='exact') if how == 'exact' else dict(method='chebyshev', order=3)
    x = signal(S, n, m=m, at=(1, n // 2, n - 2))
    y = F.filter(x, **kw)
    S.same('shape', tuple(y.shape), (n, 2) if m is None else (n, 3, 2))
    back = F.filter(y if m else y.reshape((n, 1, 2)), **kw)
    for j in range(m or 1):
        c = [r[j] if m else r for r in ref.grid(x)]
        Lc = times(L, c)
        LLc = times(L, Lc)
        p = [[2 * a - b / 2 for a, b in zip(c, Lc)], [a + b / 4 for a, b in zip(c, LLc)]]
        Lp = [times(L, q) for q in p]
        LLp = times(L, Lp[1])
        for k in range(2):
            S.eq('analysis', [y[i, j, k] if m else y[i, k] for i in range(n)], p[k], tol=1e-6)
        S.eq('synthesis', back[:, j] if m else back,
             [2 * a - b / 2 + c + d / 4 for a, b, c, d in zip(p[0], Lp[0], p[1], LLp)], tol=1e-6)


@harness('C15', budget=40)
def interpolation_long(S):
    """300 vertices, 40 samples of which three arbitrary: the samples are kept"""
    e, order = long_edges(S, weights=False)
    G = S.graphs.Graph(matrix(S, e))
    keep = [(7 * k) % N for k in range(40)]
    x = signal(S, 40, at=(0, 20, 39))
    f = S.mod('reduction').interpolate(G, x, S.np.array(keep), reg_eps=.25, method='exact')
    S.eq('samples kept', [f[i, 0] for i in keep], x, tol=1e-6)
    L = lap_of(e, N, 'combinatorial', False)[0]
    c = [f[i, 0] for i in range(N)]
    Lc = times(L, c)
    S.eq('smooth elsewhere', [Lc[i] + c[i] / 4 for i in range(N) if i not in keep],
         [0.0] * (N - 40), tol=1e-6)


@harness('C16', budget=60)
def regression_long(S):
    """300 vertices, a third of them measured, three arbitrary measurements, one or two columns:
    the harmonic interpolant"""
    e, order = long_edges(S, weights=False)
    G = S.graphs.Graph(matrix(S, e))
    m = S.choice('m', [None, 2])
    y = signal(S, m=m, at=(0, 150, 297))
    M = S.np.array([i % 3 == 0 for i in range(N)])
    x = S.mod('learning').regression_tikhonov(G, y, M, 0)
    L = lap_of(e, N, 'combinatorial', False)[0]
    for j in range(m or 1):
        c = [r[j] if m else r for r in ref.grid(x)]
        d = [r[j] if m else r for r in ref.grid(y)]
        S.eq('measurements kept', c[::3], d[::3])
        Lc = times(L, c)
        S.eq('harmonic', [Lc[i] for i in range(N) if i % 3], [0.0] * (N - N // 3), tol=1e-6)


@harness('C17', cfgs=[dict(directed=d) for d in (False, True)], budget=40)
def nx_long(S, directed):
    """300 vertices, two arbitrary weights, signals with three arbitrary values: round trip"""
    e, order = long_edges(S, directed=directed)
    G = S.graphs.Graph(matrix(S, e))
    x = signal(S)
    G.set_signal(x, 'x')
    g = G.to_networkx()
    S.same('sizes', (g.number_of_nodes(), g.number_of_edges()), (N, G.n_edges))
    H = S.graphs.Graph.from_networkx(g)
    same_matrix(S, 'weights', H.W, e)
    S.eq('signal', H.signals['x'], x)


@harness('C18', cfgs=[dict(directed=d) for d in (False, True)], budget=40)
def subgraph_long(S, directed):
    """300 vertices, two arbitrary weights, selections of 290 vertices in another order"""
    e, order = long_edges(S, directed=directed)
    G = S.graphs.Graph(matrix(S, e))
    x = signal(S)
    G.set_signal(x, 'x')
    v = [(11 * k) % N for k in range(290)]
    H = G.subgraph(v)
    at = {i: k for k, i in enumerate(v)}
    same_matrix(S, 'weights', H.W, {(at[i], at[j]): w for (i, j), w in e.items()
                                    if i in at and j in at})
    S.eq('signal', H.signals['x'], [ref.grid(x)[i] for i in v])


@harness('C19', budget=40)
def symmetrize_long(S):
    """300 x 300 matrices with two arbitrary entries, every method"""
    e, order = long_edges(S, directed=True)
    W = matrix(S, e)
    method = S.choice('method', ['average', 'maximum', 'fill', 'tril', 'triu'])
    R = S.mod('utils').symmetrize(W, method=method)
    want = {}
    for i, j in set(e) | {(j, i) for i, j in e}:
        a, b = e.get((i, j), 0.0), e.get((j, i), 0.0)
        lo, up = (a, b) if i > j else (b, a)
        if method == 'average':
            v = (a + b) * 0.5
        elif method == 'maximum':
            v = a if bool(a >= b) else b
        elif method == 'fill':
            v = None if (i, j) in e and (j, i) in e else a + b
        else:
            v = lo if method == 'tril' else up
        want[i, j] = v
    got = entries(R)
    got = {k: v for k, v in got.items() if bool(v != 0)}
    known = sorted(k for k, v in want.items() if v is not None and bool(v != 0))
    S.same('pattern', sorted(got), sorted(k for k, v in want.items() if v is None or bool(v != 0)))
    S.eq('values', [got.get(k, 0.0) for k in known], [want[k] for k in known])
    S.eq('symmetric', [got[i, j] for i, j in sorted(got)],
         [got.get((j, i), 0.0) for i, j in sorted(got)])


@harness('C24', budget=40)
def average_degree_long(S):
    """300 vertices, two arbitrary weights: average degree of the neighbours"""
    e, order = long_edges(S)
    G = S.graphs.Graph(matrix(S, e))
    c = [0] * N
    for i, j in e:
        c[i] += 1
    t = list(c)
    for i, j in e:
        t[i] += c[j]
    S.eq('average', S.np.reshape(S.np.asarray(S.pygsp.features.compute_avg_adj_deg(G)), N),
         [a / (b + 1) for a, b in zip(t, c)])


@harness('C14', budget=60)
def kron_long(S):
    """300 vertices, ten kept, an arbitrary weight between two of them: Schur complement"""
    e, order = long_edges(S, weights=False)
    keep = [order[k] for k in (280, 0, 40, 41, 100, 299, 150, 77, 200, 20)]
    w = S.real('w', Fraction(1, 2), 2)
    e[keep[2], keep[3]] = e[keep[3], keep[2]] = w
    G = S.graphs.Graph(matrix(S, e))
    H = S.mod('reduction').kron_reduction(G, S.np.array(keep))
    import numpy as np
    L = np.zeros((N, N))
    e[keep[2], keep[3]] = e[keep[3], keep[2]] = 0.0
    for (i, j), v in e.items():
        L[i, j] -= v
        L[i, i] += v
    out = [i for i in range(N) if i not in keep]
    R = L[np.ix_(keep, keep)] - L[np.ix_(keep, out)] @ np.linalg.solve(L[np.ix_(out, out)],
                                                                      L[np.ix_(out, keep)])
    R = [[float(R[i, j]) for j in range(10)] for i in range(10)]
    for i, j, s in ((2, 2, 1), (3, 3, 1), (2, 3, -1), (3, 2, -1)):
        R[i][j] = R[i][j] + s * w
    S.eq('Schur complement', S.dense(H.L), R, tol=1e-6)


@harness('C20', cfgs=[dict(kind=k, dist=d) for k in ('knn', 'radius')
                      for d in ('euclidean', 'manhattan')], budget=60)
def neighbours_long(S, kind, dist):
    """120 points of the plane, shifted by an arbitrary amount: neighbours and weights"""
    n = 120
    t = S.real('t', -3, 3)
    P = [((k * 0.6180339887) % 1 + 0.02 * math.sin(k * k), (k * 0.7548776662) % 1 + 0.02 * math.cos(k))
         for k in range(n)]
    x = [[a + t, b] for a, b in P]
    k, eps, sigma = 5, 0.2, 0.125
    kw = dict(NNtype='knn', k=k) if kind == 'knn' else dict(NNtype='radius', epsilon=eps)
    G = S.mod('graphs').NNGraph(S.array(x), center=False, rescale=False, sigma=sigma,
                                dist_type=dist, **kw)

    def metric(p, q):
        a, b = abs(p[0] - q[0]), abs(p[1] - q[1])
        return math.hypot(a, b) if dist == 'euclidean' else a + b
    want = {}
    for i in range(n):
        o = sorted((metric(P[i], P[j]), j) for j in range(n) if j != i)
        for d, j in (o[:k] if kind == 'knn' else [v for v in o if v[0] <= eps]):
            want[i, j] = math.exp(-d * d / sigma)
    e = {}
    for i, j in want:
        e[i, j] = e[j, i] = (want.get((i, j), 0.0) + want.get((j, i), 0.0)) / 2
    got = entries(G.W)
    S.same('neighbours', sorted(got), sorted(e))
    S.eq('weights', [got[q] for q in sorted(got)], [e[q] for q in sorted(got)], tol=1e-6)


def most(*free):
    """Fixed draws, except those of the given indices."""
    return lambda kind, i: None if i in free else ((i * 37 + 11) % 101) / 101


@harness('C22', cfgs=[dict(kind=k) for k in ('sbm', 'directed', 'attachment', 'regular', 'ring',
                                             'community')], paths=40, budget=60)
def families_long(S, kind):
    """30..120 vertices, all draws fixed but a few arbitrary ones: block models, attachment,
    regular graphs, rings, communities"""
    if kind in ('sbm', 'directed'):
        n, k, d = 40, 3, kind == 'directed'
        h = S.real('h', Fraction(1, 10), Fraction(9, 10))
        S.draws(fixed=lambda t, i: None if i in (7, 700) else (0.05, 0.95)[i * i % 3 > 0])
        M = [[0.0, 1.0, h], [1.0 - d, h, 0.0], [h, 0.0, 1.0]]
        z = [0] * 11 + [1] * 13 + [2] * 16
        G = S.graphs.StochasticBlockModel(n, k=k, z=S.np.array(z), M=S.array(M), directed=d, seed=1)
        W = simple(S, G, n, d)
        for i in range(n):
            for j in range(n):
                m = M[z[i]][z[j]] if d or i >= j else M[z[j]][z[i]]
                if i != j and isinstance(m, float) and m in (0.0, 1.0):
                    S.check('certain', W[i][j] == m)
        S.same('sizes', [int(v) for v in G.info['comm_sizes']], [11, 13, 16])
    elif kind == 'attachment':
        S.draws(ints=most(3, 90, 141))
        n, m0, m = 60, 5, 3
        G = S.graphs.BarabasiAlbert(n, m0=m0, m=m, seed=2)
        W = simple(S, G, n)
        for i in range(m0, n):
            S.same('new edges', sum(W[i][:i]), float(m))
        S.same('edges', G.n_edges, m * (n - m0))
    elif kind == 'regular':
        S.draws(ints=most(2, 50))
        n, k = 30, S.choice('k', [3, 4])
        logs = []
        with S.logged('pygsp', logs):
            G = S.graphs.RandomRegular(n, k, max_iter=50, seed=4)
        W = simple(S, G, n)
        d = [sum(r) for r in W]
        S.check('degrees are not larger', all(v <= k for v in d))
        S.check('regular, or said not to be', all(v == k for v in d) != (len(logs) > 0))
    elif kind == 'ring':
        n = 120
        S.draws(fixed=lambda t, i: None if i in (118, 119) else (i * 37 % 211 + i / 1000) / 212,
                apart=Fraction(1, 100000))
        G = S.graphs.RandomRing(n, seed=8)
        a = [G.angles[i] for i in range(n)]
        S.check('sorted', all(bool(a[i] <= a[i + 1]) for i in range(n - 1)))
        e = {}
        for i in range(n):
            j = (i + 1) % n
            gap = a[j] - a[i] if j else 2 * S.np.pi + a[0] - a[i]
            e[i, j] = e[j, i] = 2 * S.np.pi / n / gap
        same_matrix(S, 'weights', G.W, e)
    else:
        n = 90
        S.draws(fixed=most(4, 77), ints=most(15, 400))
        world = 0.01
        G = S.graphs.Community(n, Nc=4, min_comm=10, comm_density=0.5, world_density=world, seed=7)
        W = simple(S, G, n)
        z = [int(v) for v in G.info['node_com']]
        S.check('labels', z == sorted(z) and min(z.count(a) for a in range(4)) >= 10)
        across = [W[i][j] for i in range(n) for j in range(i) if z[i] != z[j]]
        S.same('edges between communities', sum(across), float(int(world * len(across))))
        for a in range(4):
            v = [W[i][j] for i in range(n) for j in range(i) if z[i] == z[j] == a]
            S.same('edges inside', sum(v), float(int(len(v) / 2)))
    S.same_random('global generator untouched')


@harness('C21', cfgs=[dict(kind=k) for k in ('path', 'ring', 'grid', 'torus', 'star', 'comet', 'full',
                                             'line')], budget=40)
def structure_long(S, kind):
    """paths, rings, grids, tori, stars, comets, complete and line graphs of 60..500 vertices, any
    diagonal weight, three arbitrary signal values"""
    g, e = S.graphs, {}
    directed = False
    if kind == 'path':
        n, directed = 500, S.flag('directed')
        G = g.Path(n, directed=directed)
        e = {(i, i + 1): 1. for i in range(n - 1)}
    elif kind == 'ring':
        n = 300
        k = S.choice('k', [1, 9])
        G = g.Ring(n, k=k)
        e = {(i, (i + d) % n): 1. for i in range(n) for d in range(1, k + 1)}
    elif kind == 'grid':
        a, b = S.choice('size', [(20, 17), (3, 100), (100, 3)])
        n, w = a * b, S.real('diagonal', Fraction(1, 4), 4)
        G = g.Grid2d(a, b, diagonal=w)
        for r in range(a):
            for c in range(b):
                for y, x, v in ((0, 1, 1.), (1, 0, 1.), (1, 1, w), (1, -1, w)):
                    if r + y < a and 0 <= c + x < b:
                        e[r * b + c, (r + y) * b + c + x] = v
    elif kind == 'torus':
        a, b = 13, 19
        n, G = a * b, g.Torus(a, b)
        for i in range(b):
            for j in range(a):
                e[i * a + j, i * a + (j + 1) % a] = 1.
                e[i * a + j, (i + 1) % b * a + j] = 1.
    elif kind == 'star':
        n = 400
        G = g.Star(n)
        e = {(0, i): 1. for i in range(1, n)}
    elif kind == 'comet':
        n, k = 300, 120
        G = g.Comet(n, k)
        e = {(0, i): 1. for i in range(1, k + 1)}
        e.update({(i, i + 1): 1. for i in range(k, n - 1)})
    elif kind == 'full':
        n = 60
        G = g.FullConnected(n)
        e = {(i, j): 1. for i in range(n) for j in range(i)}
    else:
        c, order = long_edges(S, 150)
        H = g.Graph(matrix(S, c, 150))
        G = g.LineGraph(H)
        s, t, _ = H.get_edge_list()
        ends = [{int(a), int(b)} for a, b in zip(s, t)]
        n = len(ends)
        S.same('edges', sorted(tuple(sorted(v)) for v in ends), sorted(k for k in c if k[0] < k[1]))
        e = {(i, j): 1. for i in range(n) for j in range(i) if ends[i] & ends[j]}
    if not directed:
        e.update({(j, i): v for (i, j), v in e.items()})
    S.same('vertices', G.n_vertices, n)
    same_matrix(S, 'weights', G.W, e)
    x = signal(S, n, at=(1, n // 2, n - 2))
    L = lap_of(e, n, 'combinatorial', directed)[0]
    S.eq('Laplacian', G.L.dot(x), times(L, ref.grid(x)), tol=1e-9)


@harness('C13', cfgs=[dict(n=200)], thorough=[dict(n=600)], budget=40)
def localize_long(S, n):
    """200 vertices (600 when thorough), a quadratic kernel of arbitrary coefficients, three
    vertices: sqrt(N) times the response to an impulse"""
    e, order = long_edges(S, n, weights=False)
    G = S.graphs.Graph(matrix(S, e, n))
    G.estimate_lmax('bounds')
    a, b = S.real('a', -2, 2), S.real('b', -2, 2)
    F = S.filters.Filter(G, lambda x: a + b * x / 4 + x * x / 16)
    L = lap_of(e, n, 'combinatorial', False)[0]
    i = S.choice('i', [0, 3, n - 1])
    d = [1. * (j == i) for j in range(n)]
    Ld = times(L, d)
    LLd = times(L, Ld)
    S.eq('atom', F.localize(i, method='chebyshev', order=4),
         [math.sqrt(n) * (a * p + b * q / 4 + r / 16) for p, q, r in zip(d, Ld, LLd)], tol=1e-6)
