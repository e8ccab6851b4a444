"""C02-C05: Laplacian, predicates, degrees/edges, differential operator."""
from symx.session import harness

from . import ref
from .common import DSHAPES, SHAPES, SCALES, TYPES, scaled, typed, any_graph, dir_edges, pattern, shape, und_edges

SH = sorted(SHAPES)
DS = sorted(DSHAPES)
LAPS = ('combinatorial', 'normalized')


def lap_checks(S, G, W, lap, n):
    L = ref.laplacian(W, lap)
    S.eq('L', G.L, L)
    S.same('shape', tuple(G.L.shape), (n, n))
    S.check('sparse', S.sparse.issparse(G.L))
    S.eq('symmetric', S.dense(G.L), ref.tr(S.dense(G.L)))
    for i in range(n):
        S.le('diagonal >= 0', 0, ref.grid(G.L)[i][i])


@harness('C02', cfgs=[dict(name=s) for s in SH])
def laplacian_undirected(S, name):
    """14 undirected shapes on 2..4 vertices (isolated vertices included), weights in [1/8,8],
    optional self-loops (n<4): definition, symmetry, quadratic form, null vector"""
    n, e = SHAPES[name]
    loops = pattern(S, [(0, 0)], 'l') if n < 4 else []
    W = S.adjacency(n, e + loops)
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    lap_checks(S, G, W, lap, n)
    x = S.vec('x', n)
    q = x.dot(G.L.dot(x))
    g = ref.grid(W)
    if lap == 'combinatorial':
        E = ref.tot(g[i][j] * (x[i] - x[j]) * (x[i] - x[j]) for i in range(n) for j in range(i))
        S.eq('quadratic form', q, E)
        S.eq('constants', G.L.dot(S.np.ones(n)), [0.0] * n)
    else:
        d = ref.degrees(W, False)
        s = [0.0 if not ref.nz(v) else ref.sqrt(v) for v in d]
        S.eq('null vector', G.L.dot(S.array(s)), [0.0] * n)
    S.eq('dirichlet_energy', G.dirichlet_energy(x), q)


@harness('C02', cfgs=[dict(name=s) for s in DS])
def laplacian_directed(S, name):
    """6 directed shapes on 2..3 vertices, weights in [1/8,8], optional self-loop; both types"""
    n, e = DSHAPES[name]
    loops = pattern(S, [(0, 0)], 'l')
    W = S.adjacency(n, e + loops, directed=True)
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    lap_checks(S, G, W, lap, n)
    x = S.vec('x', n)
    if lap == 'combinatorial':
        g = ref.sym(W)
        E = ref.tot(g[i][j] * (x[i] - x[j]) * (x[i] - x[j]) for i in range(n) for j in range(i))
        S.eq('quadratic form', x.dot(G.L.dot(x)), E)


@harness('C02', cfgs=[dict(name=s) for s in ('k2', 'p3', 'k3', 'k2+1', 'd2', 'd3c', 'd3m')])
def laplacian_switching(S, name):
    """up to three successive Laplacian type changes leave exactly the last type's Laplacian"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W, lap_type=S.choice('lap', LAPS))
    for k in range(S.choice('times', [1, 2, 3])):
        lap = S.choice(f'lap{k}', LAPS)
        G.compute_laplacian(lap)
        S.same('lap_type', G.lap_type, lap)
        S.eq('L', G.L, ref.laplacian(W, lap))
    S.eq('W untouched', G.W, W)


@harness('C02')
def laplacian_integer(S):
    """integer weights 0..5 on 3 vertices: same Laplacians as with real weights"""
    w = [S.symint(f'w{k}', 0, 5) for k in range(3)]
    W = S.intarray([[0, w[0], w[1]], [w[0], 0, w[2]], [w[1], w[2], 0]])
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    S.eq('L', G.L, ref.laplacian(W, lap))


@harness('C02', cfgs=[dict(name=s, dtype=d) for s in ('p3', 'd2', 'd2b', 'd3m') for d in TYPES])
def laplacian_types(S, name, dtype):
    """booleans, 8, 16 and 64-bit integers (every weight of the type), single precision; arrays and
    sparse matrices: same Laplacians as with double-precision weights"""
    W, M = typed(S, name, dtype)
    n = len(M)
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    S.eq('L', G.L, ref.laplacian(M, lap), tol=1e-6 if dtype != 'float32' else 1e-5)
    x = S.vec('x', n)
    if lap == 'combinatorial':
        g = ref.sym(M)
        E = ref.tot(g[i][j] * (x[i] - x[j]) * (x[i] - x[j]) for i in range(n) for j in range(i))
        S.eq('quadratic form', G.dirichlet_energy(x), E, tol=1e-5)


@harness('C02', cfgs=[dict(n=n, lap=l) for n in (10, 64) for l in LAPS])
def laplacian_larger(S, n, lap):
    """directed circulant graphs of 10 and 64 vertices, three symbolic weights"""
    W = S.np.zeros((n, n))
    for i in range(n):
        W[i, (i + 1) % n] = S.real(f'a{i}', 0.125, 8) if i in (0, 5, n - 1) else 1 + (i % 3) / 2
        W[i, (i + 3) % n] = 0.5 + (i % 4) / 4
    G = S.graphs.Graph(W, lap_type=lap)
    S.eq('L', G.L, ref.laplacian(W, lap))


def uneven(S, name, unit=1.0, sign=1):
    """(adjacency whose weights are [1/8,8] times 1e-9, 1 and 1e6 in turn, those factors, edges)"""
    n, e = (DSHAPES if name in DSHAPES else SHAPES)[name]
    f = S.choice('scales', [(1e-9, 1.0, 1e6), (1.0, 1e-9, 1e-9), (1e-9,) * 3, (1e6,) * 3])
    M = [[0.0] * n for _ in range(n)]
    F = [[1.0] * n for _ in range(n)]
    for k, (i, j) in enumerate(e):
        w = sign * S.real(f'w{k}', 0.125, 8) * f[k % 3]
        for a, b in ((i, j),) if name in DSHAPES else ((i, j), (j, i)):
            M[a][b], F[a][b] = w, f[k % 3]
    return S.array(M), F, n, e


@harness('C02', cfgs=[dict(name=s) for s in ('k2', 'p3', 'k3', 'k2+1', 'd2', 'd3c', 'd3m')])
def laplacian_scales(S, name):
    """weights in [1/8,8] times 1e-9, 1 or 1e6, mixed in one graph: every entry of both Laplacians to
    a relative precision of 1e-7 of the largest term entering it"""
    W, F, n, e = uneven(S, name)
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    L, R = ref.grid(G.L), ref.laplacian(W, lap)
    for i in range(n):
        for j in range(n):
            # the size of the terms of entry (i, j)
            near = [F[i][k] for k in range(n) if ref.nz(ref.grid(W)[i][k])] + \
                   [F[k][i] for k in range(n) if ref.nz(ref.grid(W)[k][i])]
            if lap == 'normalized' or not near:
                S.eq('L', L[i][j], R[i][j], tol=1e-7)
            else:
                u = max(near) if i == j else max(F[i][j] if ref.nz(ref.grid(W)[i][j]) else 0,
                                                 F[j][i] if ref.nz(ref.grid(W)[j][i]) else 0) or 1.0
                S.eq('L', L[i][j] / u, R[i][j] / u, tol=1e-7)


# ------------------------------------------------------------------ C03

@harness('C03', cfgs=[dict(first=f) for f in (0, 1)], paths=1200, budget=40)
def predicates_directed(S, first):
    """3 vertices, every directed pattern, weights in [1/8,8] including ties and weight 1;
    asked twice, in different orders"""
    n = 3
    W, edges = any_graph(S, n, directed=True)
    predicates(S, W, edges, n, first)


@harness('C03', cfgs=[dict(first=f) for f in (0, 1)], paths=1200, budget=40)
def predicates_loops(S, first):
    """2 vertices, every directed pattern with self-loops, weights in [1/8,8]"""
    W, edges = any_graph(S, 2, directed=True, loops=True)
    predicates(S, W, edges, 2, first)


@harness('C03', cfgs=[dict(n=n) for n in (1, 2, 3, 4)], paths=900, budget=40)
def predicates_undirected(S, n):
    """1..4 vertices, every undirected pattern, weights in [1/8,8] or all 1"""
    if S.flag('unit'):
        edges = pattern(S, und_edges(n))
        W = S.np.zeros((n, n))
        for i, j in edges:
            W[i, j] = W[j, i] = 1.0
    else:
        W, edges = any_graph(S, n)
    predicates(S, W, edges, n, 0)


def predicates(S, W, edges, n, first):
    g = ref.grid(W)
    directed = any([bool(g[i][j] != g[j][i]) for i in range(n) for j in range(i)])
    con = ref.connected(W, directed)
    loops = any(ref.nz(g[i][i]) for i in range(n))
    G = S.graphs.Graph(W)
    if first:
        S.same('connected', bool(G.is_connected()), con)
        S.same('directed', bool(G.is_directed()), directed)
    else:
        S.same('directed', bool(G.is_directed()), directed)
        S.same('connected', bool(G.is_connected()), con)
    S.same('loops', bool(G.has_loops()), loops)
    weighted = any([bool(g[i][j] != 1) for i in range(n) for j in range(n)
                    if i != j and ref.nz(g[i][j])] +
                   [bool(g[i][i] != 1) for i in range(n) if ref.nz(g[i][i])])
    S.same('weighted', bool(G.is_weighted()), weighted)
    S.same('again', (bool(G.is_connected()), bool(G.is_directed()), bool(G.has_loops())),
           (con, directed, loops))
    S.eq('W', G.W, W)


@harness('C03', cfgs=[dict(n=n, cut=c) for n in (6, 25) for c in (False, True)])
def predicates_long(S, n, cut):
    """directed cycles of 6 and 25 vertices with one arc possibly missing, reversed or doubled"""
    W = S.np.zeros((n, n))
    k = S.choice('k', [0, n // 2, n - 1])
    kind = S.choice('kind', ['keep', 'drop', 'reverse', 'both'])
    for i in range(n):
        j = (i + 1) % n
        w = S.real('w', 0.125, 8) if i == k else 1.5
        if i == k and kind == 'drop':
            continue
        if i == k and kind == 'reverse':
            W[j, i] = w
            continue
        W[i, j] = w
        if i == k and kind == 'both':
            W[j, i] = w
    if cut:
        W = W + W.T
    G = S.graphs.Graph(W)
    S.same('directed', bool(G.is_directed()), not cut)
    S.same('connected', bool(G.is_connected()), ref.connected(W, not cut))


@harness('C03', cfgs=[dict(name=s, sign=g) for s in ('k2', 'p3', 'k3', 'k2+1', 'd2', 'd2b', 'd3c', 'd3m')
                      for g in (1, -1)])
def predicates_scales(S, name, sign):
    """weights in [1/8,8] times 1e-9, 1 or 1e6, mixed in one graph, positive or all negative,
    possibly with a loop of either sign"""
    W, F, n, e = uneven(S, name, sign=sign)
    loop = S.choice('loop', [0.0, 1e-9, -1.0])
    if loop:
        W[0, 0] = loop
    predicates(S, W, e, n, 0)


@harness('C03')
def predicates_values(S):
    """two vertices whose weights are all one special value (1, -1, 0.5, 2, 1 +- 1e-12, 1e-300), in
    several types"""
    v = S.choice('v', [1, -1, 0.5, 2, 1 + 1e-12, 1 - 1e-12, 1e-300, 0])
    dt = S.choice('dtype', ['float64', 'int64', 'bool', 'float32'])
    if dt in ('int64', 'bool') and v not in (0, 1, -1, 2) or dt == 'bool' and v not in (0, 1) or \
            dt == 'float32' and v not in (0, 1, -1, 0.5, 2):
        v = 1
    W = S.np.array([[0, v], [v, 0]], dtype=dt)
    if S.flag('directed'):
        W[1, 0] = 0
    G = S.graphs.Graph(W)
    S.same('weighted', bool(G.is_weighted()), v not in (0, 1))
    S.same('directed', bool(G.is_directed()), bool(W[0, 1] != W[1, 0]))
    S.same('connected', bool(G.is_connected()), bool(W[0, 1] != 0 and W[1, 0] != 0))
    S.same('loops', bool(G.has_loops()), False)


# ------------------------------------------------------------------ C04

def degree_checks(S, G, W, directed, n):
    np_ = S.np
    g = ref.grid(W)
    S.eq('dw', G.dw, ref.degrees(W, directed))
    S.eq('d', G.d, [float(x) for x in ref.counts(W, directed)])
    A = G.A.toarray() if hasattr(G.A, 'toarray') else G.A
    S.same('A', A.astype(int).tolist(), [[int(ref.nz(x)) for x in r] for r in g])
    s, t, w = G.get_edge_list()
    s, t = [int(x) for x in s], [int(x) for x in t]
    want = {(i, j): g[i][j] for i in range(n) for j in range(n)
            if ref.nz(g[i][j]) and (directed or i <= j)}
    S.same('edges', sorted(zip(s, t)), sorted(want))
    S.same('n_edges', (G.n_edges, G.Ne), (len(want), len(want)))
    w = ref.grid(w)
    if sorted(zip(s, t)) == sorted(want):
        S.eq('weights', S.array(list(w)), S.array([want[k] for k in zip(s, t)]))
    S.eq('total', ref.tot(ref.grid(G.dw)), ref.tot(x for r in g for x in r))


@harness('C04', cfgs=[dict(n=n) for n in (1, 2, 3)], paths=500)
def degrees_undirected(S, n):
    """1..3 vertices, every undirected pattern with self-loops, weights in [1/8,8]"""
    W, edges = any_graph(S, n, loops=True)
    G = S.graphs.Graph(W)
    degree_checks(S, G, W, False, n)
    degree_checks(S, G, W, False, n)


@harness('C04', cfgs=[dict(n=n, loops=l) for n, l in ((2, True), (3, False))], paths=900, budget=40)
def degrees_directed(S, n, loops):
    """2..3 vertices, every directed pattern (self-loops for n=2), weights in [1/8,8]"""
    W, edges = any_graph(S, n, directed=True, loops=loops)
    g = ref.grid(W)
    directed = any([bool(g[i][j] != g[j][i]) for i in range(n) for j in range(i)])
    G = S.graphs.Graph(W)
    degree_checks(S, G, W, directed, n)


@harness('C04')
def degrees_integer(S):
    """integer weights 0..5 on 3 vertices; directed integer weights on 2"""
    if S.flag('directed'):
        w = [S.symint(f'w{k}', 0, 5) for k in range(2)]
        W = S.intarray([[0, w[0]], [w[1], 0]])
        directed = bool(w[0] != w[1])
        n = 2
    else:
        w = [S.symint(f'w{k}', 0, 5) for k in range(3)]
        W = S.intarray([[0, w[0], w[1]], [w[0], 0, w[2]], [w[1], w[2], 0]])
        directed, n = False, 3
    degree_checks(S, S.graphs.Graph(W), W, directed, n)


@harness('C04', cfgs=[dict(name=s, dtype=d) for s in ('p3', 'd2', 'd2b', 'd3m') for d in TYPES])
def degrees_types(S, name, dtype):
    """booleans, 8, 16 and 64-bit integers (every weight of the type), single precision; arrays and
    sparse matrices"""
    W, M = typed(S, name, dtype)
    directed = name in ('d2', 'd3m') or (name == 'd2b' and bool(M[0][1] != M[1][0]))
    degree_checks(S, S.graphs.Graph(W), M, directed, len(M))


@harness('C04', cfgs=[dict(n=n, directed=d) for n in (9, 48) for d in (False, True)])
def degrees_larger(S, n, directed):
    """circulant graphs of 9 and 48 vertices (self-loop on vertex 1), symbolic weights on 3 edges"""
    W = S.np.zeros((n, n))
    for i in range(n):
        for k in (1, 3):
            j = (i + k) % n
            w = S.real(f'a{i}{k}', 0.125, 8) if (i, k) in ((0, 1), (n - 1, 1), (4, 3)) else \
                1 + (i % 3) / 2
            W[i, j] = w
            if not directed:
                W[j, i] = w
    W[1, 1] = 0.75
    G = S.graphs.Graph(S.sparse.coo_matrix(W) if directed else W)
    degree_checks(S, G, W, directed, n)


@harness('C04', cfgs=[dict(name=s) for s in ('k2', 'p3', 'k3', 'k2+1', 'd2', 'd3c', 'd3m')])
def degrees_scales(S, name):
    """weights in [1/8,8] times 1e-9, 1 or 1e6, mixed in one graph: degrees to a relative precision of
    1e-7 of the largest weight, pattern and edges exactly"""
    W, F, n, e = uneven(S, name)
    G = S.graphs.Graph(W)
    g = ref.grid(W)
    directed = name in DSHAPES
    S.same('A', S.dense(G.A).astype(int).tolist(), [[int(ref.nz(x)) for x in r] for r in g])
    S.eq('d', G.d, [float(x) for x in ref.counts(W, directed)])
    dw, R = ref.grid(G.dw), ref.degrees(W, directed)
    for i in range(n):
        u = max([F[i][j] for j in range(n) if ref.nz(g[i][j])] +
                [F[j][i] for j in range(n) if ref.nz(g[j][i])] + [0]) or 1.0
        S.eq('dw', dw[i] / u, R[i] / u, tol=1e-7)
    s, t, w = G.get_edge_list()
    got = {(int(a), int(b)): x for a, b, x in zip(s, t, ref.grid(w))}
    want = {(i, j): g[i][j] for i in range(n) for j in range(n)
            if ref.nz(g[i][j]) and (directed or i <= j)}
    S.same('edges', sorted(got), sorted(want))
    S.same('n_edges', (G.n_edges, len(s)), (len(want), len(want)))
    for k in want:
        if k in got:
            S.eq('weight', got[k] / F[k[0]][k[1]], want[k] / F[k[0]][k[1]], tol=1e-9)


# ------------------------------------------------------------------ C05

def diff_checks(S, G, W, directed, lap, n):
    D = G.D
    m = G.Ne
    S.same('shape', tuple(D.shape), (n, m))
    Dd = ref.grid(D)
    S.eq('D D^T = L', S.dense(D.dot(D.T)), S.dense(G.L))
    S.eq('L', G.L, ref.laplacian(W, lap))
    x = S.vec('x', n)
    y = S.vec('y', m) if m else S.np.zeros(0)
    gx = G.grad(x)
    S.same('grad shape', tuple(gx.shape), (m,))
    S.eq('grad = D^T x', gx, ref.mm(ref.tr(Dd), x) if m else [])
    S.eq('div = D y', G.div(y), ref.mm(Dd, y) if m else [0.0] * n)
    S.eq('div grad = L', G.div(gx), G.L.dot(x))
    S.eq('energy', ref.dot(ref.grid(gx), ref.grid(gx)), x.dot(G.L.dot(x)))
    S.eq('adjoint', ref.dot(ref.grid(gx), ref.grid(y)), ref.dot(ref.grid(x), ref.grid(G.div(y))))
    s, t, w = G.get_edge_list()
    if lap == 'combinatorial' and not directed:
        # the gradient of an edge is sqrt(w)*(x[target]-x[source])
        want = [ref.sqrt(c) * (x[int(b)] - x[int(a)]) for a, b, c in zip(s, t, ref.grid(w))]
        S.eq('definition', gx, S.array(want))


@harness('C05', cfgs=[dict(name=s, lap=l) for s in SH + DS for l in LAPS])
def differential(S, name, lap):
    """14 undirected shapes on 2..4 vertices and 6 directed on 2..3, weights in [1/8,8], optional
    self-loop (n=2), both Laplacians; arbitrary vertex and edge signals"""
    n, e = SHAPES.get(name) or DSHAPES[name]
    directed = name in DSHAPES
    loops = pattern(S, [(1, 1)], 'l') if n == 2 else []
    W = S.adjacency(n, e + loops, directed=directed)
    if directed and name in ('d2b', 'd3f'):
        g = ref.grid(W)
        S.assume(g[0][1] != g[1][0])
    G = S.graphs.Graph(W, lap_type=lap)
    if S.flag('explicit'):
        G.compute_differential_operator()
    diff_checks(S, G, W, directed, lap, n)


@harness('C05', cfgs=[dict(name=s) for s in ('k2', 'p3', 'd2', 'd3m', 'k2+1')])
def differential_switch(S, name):
    """the operator follows Laplacian type changes"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W, lap_type=S.choice('lap', LAPS))
    G.compute_differential_operator()
    lap = S.choice('lap2', LAPS)
    G.compute_laplacian(lap)
    S.eq('D D^T = L', S.dense(G.D.dot(G.D.T)), S.dense(G.L))
    S.eq('L', G.L, ref.laplacian(W, lap))
    x = S.vec('x', n)
    S.eq('energy', G.dirichlet_energy(x), ref.dot(ref.grid(G.grad(x)), ref.grid(G.grad(x))))


@harness('C05')
def differential_signals(S):
    """2-column signals, integer and list signals, and wrong lengths on a weighted triangle"""
    W = shape(S, 'k3')
    G = S.graphs.Graph(W)
    X = S.mat('x', 3, 2)
    Gx = G.grad(X)
    S.same('shape', tuple(Gx.shape), (3, 2))
    for k in range(2):
        S.eq('column', Gx[:, k], G.grad(X[:, k]))
    Y = S.mat('y', 3, 2)
    for k in range(2):
        S.eq('div column', G.div(Y)[:, k], G.div(Y[:, k]))
    S.eq('list', G.grad(X[:, 0].tolist()), G.grad(X[:, 0]))
    S.eq('int', G.grad([1, 2, 5]), G.grad(S.array([1., 2., 5.])))
    S.eq('int div', G.div([1, 2, 5]), G.div(S.array([1., 2., 5.])))
    S.eq('energy matrix', G.dirichlet_energy(X), ref.mm(ref.tr(X), G.L.dot(X)))
    for bad in (2, 4):
        S.raises('grad length', ValueError, lambda: G.grad(S.np.ones(bad)))
        S.raises('div length', ValueError, lambda: G.div(S.np.ones(bad)))
        S.raises('energy length', ValueError, lambda: G.dirichlet_energy(S.np.ones(bad)))


@harness('C05', cfgs=[dict(name=s, dtype=d, lap=l) for s in ('p3', 'd2', 'd2b') for d in TYPES
                      for l in LAPS])
def differential_types(S, name, dtype, lap):
    """booleans, 8, 16 and 64-bit integers (every weight of the type), single precision; arrays and
    sparse matrices; real signals"""
    W, M = typed(S, name, dtype)
    n = len(M)
    G = S.graphs.Graph(W, lap_type=lap)
    tol = 1e-6 if dtype != 'float32' else 1e-4
    S.eq('D D^T = L', S.dense(G.D.dot(G.D.T)), ref.laplacian(M, lap), tol=tol)
    x = S.vec('x', n)
    gx = G.grad(x)
    S.eq('energy', ref.dot(ref.grid(gx), ref.grid(gx)), G.dirichlet_energy(x), tol=tol)
    S.eq('div grad = L', G.div(gx), ref.mm(ref.laplacian(M, lap), x), tol=tol)


@harness('C05', cfgs=[dict(name=s, scale=k, lap=l) for s in ('p3', 'd3m') for k in SCALES
                      for l in LAPS])
def differential_scales(S, name, scale, lap):
    """weights around 1e-9 and 1e6: the operator scales with their square roots"""
    W, M = scaled(S, name, scale)
    G = S.graphs.Graph(W, lap_type=lap)
    s = scale if lap == 'combinatorial' else 1
    S.same('directed', bool(G.is_directed()), name == 'd3m')
    L = ref.laplacian(M, lap)
    S.eq('L', S.dense(G.L) / s, L)
    S.eq('D D^T = L', S.dense(G.D.dot(G.D.T)) / s, L)
    x = S.vec('x', len(M))
    S.eq('div grad = L', G.div(G.grad(x)) / s, ref.mm(L, x))


@harness('C05', cfgs=[dict(n=n, directed=d, lap=l) for n in (8, 20) for d in (False, True)
                      for l in LAPS], budget=40)
def differential_larger(S, n, directed, lap):
    """circulant graphs of 8 and 20 vertices, symbolic weights on 3 edges"""
    W = S.np.zeros((n, n))
    for i in range(n):
        for k in (1, 3):
            j = (i + k) % n
            w = S.real(f'a{i}{k}', 0.125, 8) if (i, k) in ((0, 1), (n - 1, 1), (4, 3)) else \
                (1, 4, 2.25)[i % 3]
            W[i, j] = w
            if not directed:
                W[j, i] = w
    G = S.graphs.Graph(W, lap_type=lap)
    S.eq('D D^T = L', S.dense(G.D.dot(G.D.T)), S.dense(G.L))
    S.eq('L', G.L, ref.laplacian(W, lap))
