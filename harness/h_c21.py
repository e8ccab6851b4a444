"""C21 deterministic graph families."""
import math
from fractions import Fraction

from symx.session import harness
from . import ref
from .common import any_graph

TAU = 2 * math.pi


def both(pairs):
    """Undirected unit edges."""
    e = {}
    for i, j in pairs:
        e[i, j] = e[j, i] = 1
    return e


def structure(S, G, n, edges, coords=None, directed=False, lap='combinatorial', name=None):
    """G has exactly the given weighted edges: {(source, target): weight}."""
    W = [[edges.get((i, j), 0) for j in range(n)] for i in range(n)]
    S.same('vertices', G.n_vertices, n)
    S.same('Laplacian type', G.lap_type, lap)
    S.eq('weights', S.dense(G.W), W)
    if coords is not None:
        S.eq('coordinates', G.coords, coords, tol=1e-9)
    if name is not None:
        S.check('representation', repr(G).startswith(name + '('))
        S.same('direction', bool(G.is_directed()), directed)
    # the graph seen by any signal
    x = [S.real(f's{i}', -2, 2) for i in range(n)]
    e = [W[i][j] * (x[i] - x[j]) * (x[i] - x[j]) / 2 for i in range(n) for j in range(n) if (i, j) in edges]
    e = ref.tot(e) if e else 0.0
    if lap == 'combinatorial':
        S.eq('energy', G.dirichlet_energy(S.array(x)), e, tol=1e-7)
    S.eq('degrees', G.dw, [(ref.tot(W[i]) + ref.tot(r[i] for r in W)) / 2 for i in range(n)])


def circle(n):
    return [[math.cos(TAU * i / n), math.sin(TAU * i / n)] for i in range(n)]


@harness('C21', cfgs=[dict(hi=16)], thorough=[dict(hi=32)], paths=400)
def path(S, hi):
    """paths of 1..16 vertices (32 when thorough), directed or not, any signal"""
    n = S.int('N', 1, hi)
    directed = S.flag('directed')
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Path(n, directed=directed, lap_type=lap)
    e = {(i, i + 1): 1 for i in range(n - 1)}
    if not directed:
        e = both(e)
    structure(S, G, n, e, [[i, 0] for i in range(n)], directed and n > 1, lap, 'Path')
    S.same('edges', G.n_edges, n - 1)


@harness('C21', cfgs=[dict(hi=13)], thorough=[dict(hi=24)], paths=400)
def ring(S, hi):
    """rings of 0..13 vertices (24 when thorough) and every number of neighbours, any signal"""
    n = S.int('N', 0, hi)
    k = S.int('k', 1, hi // 2 + 1)
    if n < 3 or 2 * k > n:
        S.raises('inadmissible', ValueError, lambda: S.graphs.Ring(n, k))
        return
    G = S.graphs.Ring(n, k) if k > 1 else S.graphs.Ring(n)
    e = both((i, (i + d) % n) for i in range(n) for d in range(1, k + 1))
    structure(S, G, n, e, circle(n), name='Ring')
    S.same('edges', G.n_edges, len(e) // 2)


@harness('C21', cfgs=[dict(hi=5)], thorough=[dict(hi=8)], paths=400)
def grid(S, hi):
    """grids of 1..5 (8 when thorough) rows and columns, any diagonal weight, any signal"""
    a = S.int('N1', 1, hi)
    square = S.flag('square')
    b = a if square else S.int('N2', 1, hi)
    w = S.real('diagonal', 0, 4)
    G = S.graphs.Grid2d(a, diagonal=w) if square else S.graphs.Grid2d(a, b, diagonal=w)
    pos = [(r, c) for r in range(a) for c in range(b)]
    e = {}
    for i, (r, c) in enumerate(pos):
        for j, (s, d) in enumerate(pos):
            if abs(r - s) + abs(c - d) == 1:
                e[i, j] = 1
            elif abs(r - s) == 1 and abs(c - d) == 1:
                e[i, j] = w
    coords = [[c / b, (a - 1 - r) / a] for r, c in pos]
    structure(S, G, a * b, e, coords, name='Grid2d')


@harness('C21', cfgs=[dict(hi=5)], thorough=[dict(hi=8)], paths=400)
def torus(S, hi):
    """tori of 3..5 x 3..5 vertices (8 when thorough), any signal"""
    a = S.int('Nv', 3, hi)
    square = S.flag('square')
    b = a if square else S.int('Mv', 3, hi)
    G = S.graphs.Torus(a) if square else S.graphs.Torus(a, b)
    e = both([(i * a + j, i * a + (j + 1) % a) for i in range(b) for j in range(a)] +
             [(i * a + j, (i + 1) % b * a + j) for i in range(b) for j in range(a)])
    xyz = [[math.cos(TAU * j / a) * (1.5 + math.sin(TAU * i / b)),
            math.sin(TAU * j / a) * (1.5 + math.sin(TAU * i / b)), math.cos(TAU * i / b)]
           for i in range(b) for j in range(a)]
    structure(S, G, a * b, e, xyz, name='Torus')
    S.same('edges', G.n_edges, 2 * a * b)


@harness('C21', cfgs=[dict(hi=10)], thorough=[dict(hi=20)], paths=400)
def comet(S, hi):
    """comets, stars and complete graphs of 1..10 vertices (20 when thorough), any signal"""
    n = S.int('N', 1, hi)
    kind = S.choice('kind', ['comet', 'star', 'full'])
    if kind == 'full':
        e = both((i, j) for i in range(n) for j in range(i))
        structure(S, S.graphs.FullConnected(n), n, e, name='FullConnected')
        return
    if kind == 'star':
        k = n - 1
        G = S.graphs.Star(n, plotting={'vertex_size': 3})
        S.same('option', G.plotting['vertex_size'], 3)
        S.check('limits', 'limits' in G.plotting)
    else:
        k = S.int('k', 1, hi)
        if k > n - 1:
            S.raises('inadmissible', ValueError, lambda: S.graphs.Comet(n, k))
            return
        G = S.graphs.Comet(n, k)
    e = both([(0, i) for i in range(1, k + 1)] + [(i, i + 1) for i in range(k, n - 1)])
    xy = [[0, 0]] + [[math.cos(TAU * i / k), math.sin(TAU * i / k)] for i in range(1, k + 1)] + \
        [[i - k + 1, 0] for i in range(k + 1, n)]
    structure(S, G, n, e, xy, name=kind.capitalize())
    S.same('edges', G.n_edges, n - 1)


@harness('C21', cfgs=[dict(hi=3)], thorough=[dict(hi=4)])
def tree(S, hi):
    """low-stretch trees of 4, 16, 64 vertices (256 when thorough), any signal"""
    k = S.int('k', 1, hi)
    G = S.graphs.LowStretchTree(k)
    n = 4 ** k
    xy = [[1 + sum((i >> (2 * b) & 1) << b for b in range(k)),
           1 + sum((i >> (2 * b + 1) & 1) << b for b in range(k))] for i in range(n)]
    at = {tuple(p): i for i, p in enumerate(xy)}
    pairs = []

    def block(x, y, p):
        """The tree of the block of 2^p x 2^p vertices whose corner is (x, y): three edges
        around the center join its four blocks in the shape of a U turned right."""
        h = 2 ** (p - 1)
        for dx, dy in ((0, 0), (h, 0), (0, h), (h, h)):
            if p > 1:
                block(x + dx, y + dy, p - 1)
        c, d = x + h - 1, y + h - 1
        a = [at[c, d], at[c + 1, d], at[c, d + 1], at[c + 1, d + 1]]
        pairs.extend([(a[0], a[1]), (a[0], a[2]), (a[2], a[3])])

    block(1, 1, k)
    structure(S, G, n, both(pairs), xy, name='LowStretchTree')
    S.same('edges', G.n_edges, n - 1)
    S.check('connected', bool(G.is_connected()))
    S.same('root', G.root, 4 ** (k - 1))


@harness('C21', cfgs=[dict(n=2, directed=False), dict(n=2, directed=True), dict(n=3, directed=False),
                      dict(n=4, directed=False)],
         thorough=[dict(n=3, directed=True), dict(n=5, directed=False)], paths=300)
def linegraph(S, n, directed):
    """line graph of every graph of 2..4 vertices (loops included up to 3), any weights, with or
    without coordinates, any signal on the edges"""
    W, edges = any_graph(S, n, directed=directed, loops=n < 4,
                         lo=Fraction(1, 8) if n == 2 else Fraction(5, 4), hi=4)
    if not edges:
        return
    X = None if n == 4 or S.flag('bare') else S.mat('c', n, 2)
    g = S.graphs.Graph(W, coords=X) if X is not None else S.graphs.Graph(W)
    L = S.graphs.LineGraph(g)
    src, tgt, _ = g.get_edge_list()
    ends = [(int(a), int(b)) for a, b in zip(src, tgt)]
    if directed and not g.is_directed():
        edges = [(i, j) for i, j in edges if i <= j]
    S.same('edges', sorted(ends), sorted(edges))
    m = len(ends)
    e = both((a, b) for a in range(m) for b in range(a) if set(ends[a]) & set(ends[b]))
    xy = None if X is None else [[(X[a, t] + X[b, t]) / 2 for t in range(2)] for a, b in ends]
    structure(S, L, m, e, xy)
    if X is None:
        S.check('no coordinates', not hasattr(L, 'coords') or L.coords is None)
