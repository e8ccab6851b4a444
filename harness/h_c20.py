"""C20 nearest-neighbour graphs."""
from fractions import Fraction
from itertools import combinations

from symx.session import harness
from . import ref

INF = float('inf')
METRIC = {'euclidean': 2, 'manhattan': 1, 'max_dist': INF, 'minkowski': 3}


def sq(v):
    return v * v


def norm(S, d, dist):
    """Length of a difference vector."""
    if dist == 'euclidean':
        return S.np.sqrt(ref.tot(sq(t) for t in d))
    a = [abs(t) for t in d]
    if dist == 'manhattan':
        return ref.tot(a)
    r = a[0]
    for t in a[1:]:
        if bool(t > r):
            r = t
    return r


def dist2(S, x, i, j, dist):
    """Squared distance (which orders like the distance)."""
    d = [a - b for a, b in zip(x[i], x[j])]
    if dist == 'euclidean':
        return ref.tot(sq(t) for t in d)
    return sq(norm(S, d, dist))


def distances(S, x, dist):
    n = len(x)
    q = {}
    for i, j in combinations(range(n), 2):
        q[i, j] = q[j, i] = dist2(S, x, i, j, dist)
    return q


def symmetrise(A, how):
    n = len(A)
    r = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            a, b = A[i][j], A[j][i]
            if how == 'average':
                r[i][j] = (a + b) / 2 if (a is not None and b is not None) else \
                    (a if b is None else b) / 2 if not (a is None and b is None) else 0.0
            elif how in ('maximum', 'fill'):
                r[i][j] = a if a is not None else (b if b is not None else 0.0)
            else:
                t = A[max(i, j)][min(i, j)] if how == 'tril' else A[min(i, j)][max(i, j)]
                r[i][j] = t if t is not None else 0.0
    return r


def weights(S, x, links, q, sigma):
    n = len(x)
    return [[S.np.exp(-q[i, j] / sigma) if j in links[i] else None for j in range(n)]
            for i in range(n)]


def points(S, n, d, free):
    """n points in d dimensions: the first `free` coordinates (in order) are arbitrary."""
    fixed = [[(3 * i * i + 2 * i + 5 * k + i * k) % 7 - 3 + 0.25 * (i + k) for k in range(d)]
             for i in range(n)]
    t = 0
    for i in range(n):
        for k in range(d):
            if t < free:
                fixed[i][k] = S.real(f'x{i}{k}', -3, 3)
            t += 1
    return fixed


CFG = [dict(n=3, d=1, free=3, dist='euclidean'), dict(n=4, d=1, free=3, dist='euclidean'),
       dict(n=3, d=2, free=2, dist='euclidean'), dict(n=3, d=2, free=2, dist='manhattan'),
       dict(n=3, d=2, free=2, dist='max_dist'), dict(n=5, d=2, free=1, dist='euclidean'),
       dict(n=4, d=3, free=1, dist='manhattan'), dict(n=4, d=3, free=1, dist='euclidean'),
       dict(n=4, d=2, free=1, dist='max_dist')]


# symmetrisation, neighbour search, sigma given
COMBOS = [('average', 'scipy', False), ('average', 'flann', True), ('maximum', 'sklearn', False),
          ('fill', 'fallback', True), ('tril', 'scipy', True), ('triu', 'scipy', True),
          ('maximum', 'scipy', True), ('fill', 'flann', False)]


def centre(S, x):
    n, d = len(x), len(x[0])
    m = [ref.tot(r[k] for r in x) / n for k in range(d)]
    return [[r[k] - m[k] for k in range(d)] for r in x]


@harness('C20', cfgs=CFG, thorough=[dict(c, free=c['free'] + 1) for c in CFG], paths=160, budget=30)
def knn(S, n, d, free, dist):
    """3..5 points in 1..3 dimensions, up to 3 arbitrary coordinates, all distances from a point
    different, every k, metric, symmetrisation, sigma given or not, all neighbour searches"""
    x = points(S, n, d, free)
    k = S.choice('k', list(range(1, n)))
    how, search, given = S.choice('options', COMBOS)
    sigma = S.real('sigma', Fraction(1, 4), 4) if given else None
    if dist != 'euclidean':
        S.fork_abs()
    q = distances(S, x, dist)
    for i in range(n):
        for a, b in combinations([j for j in range(n) if j != i], 2):
            S.assume(abs(q[i, a] - q[i, b]) > Fraction(1, 100))
        for a in range(n):
            if a != i:
                S.assume(q[i, a] > Fraction(1, 100))
    X = S.array(x)
    snap = S.snapshot(X)
    missing = {'sklearn': ['pyflann'], 'fallback': ['pyflann', 'sklearn']}.get(search, [])
    with S.flann(), S.without(*missing):
        G = S.mod('graphs').NNGraph(X, k=k, center=False, rescale=False, dist_type=dist,
                                    sigma=sigma, symmetrize_type=how, use_flann=search != 'scipy')
    S.unchanged('points untouched', X, snap)
    S.eq('coordinates', G.coords, x)
    links = []
    for i in range(n):
        o = sorted((j for j in range(n) if j != i), key=_Key.of(lambda j, i=i: q[i, j]))
        links.append(o[:k])
    if sigma is None:
        sigma = ref.tot(norm(S, [a - b for a, b in zip(x[i], x[j])], dist) for i in range(n) for j in links[i]) / (n * k)
    W = symmetrise(weights(S, x, links, q, sigma), how)
    S.eq('weights', S.dense(G.W), W, tol=1e-7)
    S.eq('no self-loop', [S.dense(G.W)[i][i] for i in range(n)], [0.0] * n)


class _Key:
    """Sorting key comparing with < on symbolic values."""

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)

    @classmethod
    def of(cls, f):
        return lambda j: cls(f(j))


@harness('C20', cfgs=CFG, thorough=[dict(c, free=c['free'] + 1) for c in CFG], paths=100, budget=30)
def radius(S, n, d, free, dist):
    """3..5 points in 1..3 dimensions, up to 3 arbitrary coordinates, arbitrary radius, every
    metric, symmetrisation, sigma given or not"""
    x = points(S, n, d, free)
    eps = S.real('eps', Fraction(1, 4), 4)
    how, _, given = S.choice('options', [COMBOS[0]] + COMBOS[3:7])
    sigma = S.real('sigma', Fraction(1, 4), 4) if given else None
    if dist != 'euclidean':
        S.fork_abs()
    q = distances(S, x, dist)
    for (i, j), v in q.items():
        if i < j:
            S.assume(abs(v - eps * eps) > Fraction(1, 100))
            S.assume(v > Fraction(1, 100))
    X = S.array(x)
    snap = S.snapshot(X)
    links = [[j for j in range(n) if j != i and bool(q[i, j] <= eps * eps)] for i in range(n)]

    def make():
        return S.mod('graphs').NNGraph(X, NNtype='radius', epsilon=eps, center=False,
                                       rescale=False, dist_type=dist, sigma=sigma,
                                       symmetrize_type=how)
    if not any(links) and sigma is None:
        S.raises('no neighbour', ValueError, make)
        return
    G = make()
    S.unchanged('points untouched', X, snap)
    S.eq('coordinates', G.coords, x)
    if sigma is None:
        sigma = ref.tot(norm(S, [a - b for a, b in zip(x[i], x[j])], dist) for i in range(n) for j in links[i]) \
            / sum(len(v) for v in links)
    W = symmetrise(weights(S, x, links, q, sigma), how)
    S.eq('weights', S.dense(G.W), W, tol=1e-7)


@harness('C20', cfgs=[dict(n=n, d=d, free=f) for n, d, f in ((2, 1, 2), (3, 1, 3), (3, 2, 2),
                                                            (4, 3, 1), (5, 2, 1), (3, 4, 2))],
         paths=100, budget=25)
def scaling(S, n, d, free):
    """2..5 points in 1..4 dimensions, up to 3 arbitrary coordinates, every combination of centring
    and rescaling (in place on nothing), both kinds of graphs, integer points too"""
    x = points(S, n, d, free)
    ints = S.flag('integers')
    if ints:
        x = [[(3 * i * i + 5 * k + i * k) % 7 - 3 for k in range(d)] for i in range(n)]
    c, r = S.flag('center'), S.flag('rescale')
    kind = S.choice('kind', ['knn', 'radius'])
    for k in range(d):      # no ties, which decide the range
        S.assume(abs(x[0][k] - x[n - 1][k]) > Fraction(1, 10))
    X = S.np.array(x) if ints else S.array(x)
    snap = S.snapshot(X)
    G = S.mod('graphs').NNGraph(X, NNtype=kind, k=1, epsilon=50.0, sigma=1.0, center=c, rescale=r)
    S.unchanged('points untouched', X, snap)
    y = centre(S, x) if c else x
    if r:
        span = []
        for k in range(d):
            lo = hi = y[0][k]
            for i in range(1, n):
                if bool(y[i][k] < lo):
                    lo = y[i][k]
                if bool(y[i][k] > hi):
                    hi = y[i][k]
            span.append(hi - lo)
        f = n ** (1 / min(d, 3)) / 10 / (0.5 * S.np.sqrt(ref.tot(sq(t) for t in span)))
        y = [[t * f for t in row] for row in y]
    S.eq('coordinates', G.coords, y, tol=1e-7)
    S.same('size', G.n_vertices, n)


@harness('C20', cfgs=[dict(kind=k, dist=d) for k in ('knn', 'radius') for d in METRIC])
def duplicates(S, kind, dist):
    """6 points, two or more of them equal (arbitrary position): no self-loop, unit weight between
    equal points, neighbours complete"""
    t = S.real('t', -3, 3)
    x = [[0.0, t], [1.0, 2.0], [0.0, t], [4.0, -5.0], [1.0, 2.0], [0.0, t]]
    n = len(x)
    m = S.choice('k', [1, 2, 3])
    kw = dict(k=m) if kind == 'knn' else dict(NNtype='radius', epsilon=0.5)
    if dist == 'minkowski':
        kw['order'] = S.choice('order', [1, 2])
    G = S.mod('graphs').NNGraph(S.array(x), center=False, rescale=False, sigma=2.0,
                                dist_type=dist, symmetrize_type='maximum', **kw)
    W = S.dense(G.W)
    S.eq('no self-loop', [W[i][i] for i in range(n)], [0.0] * n)
    if kind == 'radius' or m == 2:
        for i, j in ((0, 2), (0, 5), (2, 5)):
            S.eq('equal points', W[i][j], 1.0)
    if kind == 'radius' or m == 1:
        S.eq('equal points', W[1][4], 1.0)
    S.check('neighbours', all(sum(bool(W[i][j] > 0) for j in range(n)) >= (m if kind == 'knn' else 0)
                              for i in range(n)))
    S.eq('symmetric', W, ref.tr(ref.grid(W)), obs=False)


@harness('C20')
def rejects(S):
    """too many neighbours, unknown kinds, symmetrisations and metrics"""
    X = S.array([[0.0, S.real('t', -1, 1)], [2.0, 1.0], [5.0, 0.5]])
    NN = S.mod('graphs').NNGraph
    for k in (3, 4, 10):
        S.raises('k', ValueError, lambda: NN(X, k=k))
    S.raises('kind', ValueError, lambda: NN(X, NNtype='other', k=1))
    S.raises('symmetrisation', ValueError, lambda: NN(X, k=1, symmetrize_type='other'))
    S.raises('metric', KeyError, lambda: NN(X, k=1, dist_type='other'))
    S.raises('radius', ValueError, lambda: NN(X, NNtype='radius', epsilon=0.001, center=False,
                                              rescale=False))
    for k in (1, 2):
        S.same('size', NN(X, k=k).n_vertices, 3)
