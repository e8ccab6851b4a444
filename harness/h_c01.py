"""C01: graph construction and validation."""
import math

from symx.session import harness

from . import ref
from .common import any_graph, pattern, shape, und_edges

KINDS = ('array', 'list', 'matrix', 'csr', 'csc', 'coo', 'lil')


def basics(S, G, W, edges, directed, n):
    S.same('N', (G.N, G.n_vertices), (n, n))
    S.same('directed', bool(G.is_directed()), directed)
    S.same('Ne', (G.Ne, G.n_edges), (len(edges), len(edges)))
    S.check('csr', S.sparse.issparse(G.W) and G.W.format == 'csr')
    S.eq('W', G.W, W)
    S.eq('L', G.L, ref.laplacian(W, G.lap_type))
    S.same('nnz', G.W.nnz, sum(ref.nz(x) for r in ref.grid(W) for x in r))


@harness('C01', cfgs=[dict(n=n, kind=k) for n in (2, 3) for k in KINDS])
def construct_undirected(S, n, kind):
    """n<=3 vertices, every undirected pattern with loops (n=2), weights in [1/8,8], 7 containers,
    both Laplacians"""
    W, edges = any_graph(S, n, loops=n == 2)
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    A = S.container(kind, W)
    G = S.graphs.Graph(A, lap_type=lap)
    S.same('lap_type', G.lap_type, lap)
    basics(S, G, W, edges, False, n)
    S.same('signals', dict(G.signals), {})
    S.check('no coords', not hasattr(G, 'coords'))


@harness('C01', cfgs=[dict(kind=k) for k in KINDS], paths=900, budget=30)
def construct_directed(S, kind):
    """n=3 vertices, every directed pattern without loops, weights in [1/8,8] (possibly equal in
    both directions)"""
    n = 3
    W, edges = any_graph(S, n, directed=True)
    G = S.graphs.Graph(S.container(kind, W))
    g = ref.grid(W)
    asym = any([bool(g[i][j] != g[j][i]) for i in range(n) for j in range(i)])
    ne = len(edges) if asym else len(edges) // 2
    basics(S, G, W, edges[:ne], asym, n)


@harness('C01', cfgs=[dict(kind=k) for k in KINDS if k != 'matrix'])
def construct_integer(S, kind):
    """integer weights 0..6 on 3 vertices, every container"""
    n = 3
    w = [S.symint(f'w{k}', 0, 6) for k in range(3)]
    rows = [[0, w[0], w[1]], [w[0], 0, w[2]], [w[1], w[2], 0]]
    W = S.intarray(rows)
    nz = [bool(x != 0) for x in w]
    G = S.graphs.Graph(S.container(kind, W))
    edges = [e for e, b in zip(und_edges(3), nz) if b]
    basics(S, G, W, edges, False, n)


@harness('C01')
def construct_coo(S):
    """COO/CSR inputs with duplicate and explicitly stored zero entries on 3 vertices"""
    n = 3
    a, b, c = (S.real(x, 0.125, 8) for x in 'abc')
    rows, cols = [0, 1, 0, 1, 2, 2], [1, 0, 1, 0, 0, 1]
    z = S.choice('zero', [0, 1])
    vals = S.array([a, a, b, b, c * z, 0.0])
    M = S.sparse.coo_matrix((vals, (rows, cols)), shape=(n, n))
    if S.flag('csr'):
        M = M.tocsr()
    G = S.graphs.Graph(M)
    W = S.array([[0., a + b, 0.], [a + b, 0., 0.], [c * z, 0., 0.]])
    basics(S, G, W, [1, 2, 3] if z else [1], bool(z), n)


@harness('C01')
def construct_bool(S):
    """boolean adjacency on 3 vertices, every symmetric pattern"""
    np_ = S.np
    e = pattern(S, und_edges(3))
    M = np_.zeros((3, 3), dtype=bool)
    for i, j in e:
        M[i, j] = M[j, i] = True
    A = S.sparse.csr_matrix(M) if S.flag('sparse') else M
    G = S.graphs.Graph(A)
    S.same('Ne', G.Ne, len(e))
    S.same('W', G.W.toarray().astype(int).tolist(), M.astype(int).tolist())
    W = M.astype(float)
    S.eq('dw', G.dw, [float(x) for x in W.sum(0)])


@harness('C01')
def rejects(S):
    """shapes (2,3), (3,2), 1-D, 3-D; NaN/inf/-inf at any position of a 2- or 3-vertex adjacency;
    unknown Laplacian"""
    np_ = S.np
    G = S.graphs.Graph
    a = S.real('a', 0.125, 8)
    case = S.choice('case', ['23', '32', '1d', '3d', 'special', 'lap', 'W'])
    if case == '23':
        S.raises('2x3', ValueError, lambda: G(S.array([[0., a, 0.], [a, 0., 1.]])))
        S.raises('s2x3', ValueError, lambda: G(S.sparse.csr_matrix(
            S.array([[0., a, 0.], [a, 0., 1.]]))))
    elif case == '32':
        S.raises('3x2', ValueError, lambda: G(S.array([[0., a], [a, 0.], [1., a]])))
    elif case == '1d':
        S.raises('1d', ValueError, lambda: G(S.array([a, a, a, a])))
    elif case == '3d':
        S.raises('3d', ValueError, lambda: G(np_.zeros((2, 2, 2))))
    elif case == 'lap':
        W = S.array([[0., a], [a, 0.]])
        S.raises('lap', ValueError, lambda: G(W, lap_type=S.choice(
            'name', ['unknown', 'Combinatorial', '', None])))
    elif case == 'W':
        g = G(S.array([[0., a], [a, 0.]]))

        def set_():
            g.W = S.array([[0., 1.], [1., 0.]])
        S.raises('W is read-only', AttributeError, set_)
        S.eq('W kept', g.W, S.array([[0., a], [a, 0.]]))
    else:
        n = S.choice('n', [2, 3])
        i = S.choice('i', range(n))
        j = S.choice('j', range(n))
        v = S.choice('v', [math.nan, math.inf, -math.inf])
        M = [[a if r != c else 0.0 for c in range(n)] for r in range(n)]
        M[i][j] = v
        if S.flag('symmetric'):
            M[j][i] = v
        k = S.choice('kind', ['array', 'list', 'csr', 'coo'])
        S.raises('special', ValueError, lambda: G(S.container(k, S.array(M))))


@harness('C01')
def coordinates(S):
    """coords given as list or array, 1-D/2-D/3-D, 3 vertices; plotting options override defaults"""
    W = shape(S, 'p3')
    dim = S.choice('dim', [1, 2, 3])
    C = S.vec('c', 3) if dim == 1 else S.mat('c', 3, dim)
    G = S.graphs.Graph(W, coords=C.tolist() if S.flag('list') else C,
                       plotting={'vertex_size': 7, 'extra': 1})
    S.eq('coords', G.coords, C)
    S.same('plotting', (G.plotting['vertex_size'], G.plotting['extra'], G.plotting['edge_width']),
           (7, 1, 2))
    G2 = S.graphs.Graph(W)
    S.same('defaults unaffected', G2.plotting['vertex_size'], 100)
    S.check('independent', G2.signals is not G.signals and G2.plotting is not G.plotting)


@harness('C01', cfgs=[dict(n=n) for n in (1, 2, 3)])
def coordinates_shapes(S, n):
    """1..3 vertices, any coordinates of shape (n,), (n,1), (n,2) and (n,3), integers included: kept
    with their shape"""
    sh = S.choice('shape', [(n,), (n, 1), (n, 2), (n, 3)])
    C = S.vec('c', n) if len(sh) == 1 else S.mat('c', *sh)
    if S.flag('integers'):
        C = S.np.arange(n * (sh[1] if len(sh) > 1 else 1)).reshape(sh)
    W = S.np.ones((n, n)) - S.np.eye(n)
    s = S.snapshot(C)
    G = S.graphs.Graph(W, coords=C)
    S.same('shape', tuple(G.coords.shape), sh)
    S.eq('coords', G.coords, C)
    S.unchanged('kept', C, s)


@harness('C01', cfgs=[dict(n=n) for n in (12, 40, 130)], budget=30)
def construct_larger(S, n):
    """rings of 12, 40 and 130 vertices with three symbolic weights among fixed ones"""
    W = S.np.zeros((n, n))
    for i in range(n):
        j = (i + 1) % n
        w = S.real(f'w{i}', 0.125, 8) if i in (0, n // 2, n - 1) else 1 + (i % 5) / 4
        W[i, j] = w
        W[j, i] = w
    G = S.graphs.Graph(S.sparse.csr_matrix(W))
    S.same('N', (G.N, G.Ne), (n, n))
    S.same('directed', bool(G.is_directed()), False)
    S.same('connected', bool(G.is_connected()), True)
    S.eq('W', G.W, W)
    g = ref.grid(W)
    S.eq('dw', G.dw, [ref.tot(r) for r in g])
    L = ref.laplacian(W)
    S.eq('L', G.L, L)
