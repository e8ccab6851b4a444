"""C23 the data of the caller are not modified."""
from fractions import Fraction

from symx.session import harness

from .h_c09 import poly

CALLS = {}


def call(group):
    def deco(f):
        CALLS.setdefault(group, []).append(f)
        return f
    return deco


def weights(S, n=3, lo=Fraction(1, 4), hi=4, edges=None, directed=False):
    return S.adjacency(n, edges if edges is not None else [(i, i + 1) for i in range(n - 1)],
                       lo=lo, hi=hi, directed=directed)


def graph(S, n=3, lap=None, W=None, basis=True, **kw):
    """A graph for which everything that can be computed has been."""
    if W is None:
        W = S.np.zeros((n, n))
        for i in range(n - 1):
            W[i, i + 1] = W[i + 1, i] = [1.0, 0.5, 2.0, 1.5][i % 4]
    G = S.graphs.Graph(W, lap_type=lap or 'combinatorial',
                       coords=S.np.array([[i, (i * i) % 3] for i in range(n)]), **kw)
    G.set_signal(S.np.array([1.0, -2.0, 0.5, 3.0, 0.25][:n]), 'signal')
    if basis:
        G.compute_fourier_basis()
        G.compute_differential_operator()
    return G


def state(S, G, extra=()):
    """All the data of a graph."""
    r = dict(W=G.W, L=G.L, lap=G.lap_type, n=(G.n_vertices, G.n_edges), A=G.A, d=G.d, dw=G.dw,
             plotting=G.plotting, signals=G.signals)
    for k in ('_e', '_U', '_D', 'coords') + tuple(extra):
        v = getattr(G, k, None)
        if v is not None:
            r[k] = v
    return r


class Args:
    """Values which have to survive."""

    def __init__(self, S):
        self.S, self.kept = S, []

    def __call__(self, name, x, dense=False):
        if isinstance(x, self.S.graphs.Graph):
            g = x
            self.kept.append((name, (lambda: state(self.S, g)), self.S.snapshot(state(self.S, g))))
        else:
            self.kept.append((name, (lambda: x), self.S.snapshot(x)))
        return x

    def check(self):
        for name, get, s in self.kept:
            self.S.unchanged(name, get(), s)


# ------------------------------------------------------------------ graphs

@call('graph')
def build(S, a):
    """adjacency in any container and dtype, with explicit zeros"""
    kind = S.choice('kind', ['array', 'list', 'matrix', 'csr', 'csc', 'coo', 'lil', 'dia', 'bsr', 'int', 'bool'])
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    w = [S.real('w01', 0, 4), S.real('w12', 0, 4)] if kind not in ('int', 'bool', 'bsr', 'dia', 'lil') \
        else [1, S.choice('w12', [0, 2])]
    if kind in ('int', 'bool'):
        W = S.np.array([[0, w[0], 0], [w[0], 0, w[1]], [0, w[1], 0]], dtype=kind)
        if S.flag('csr'):
            W = S.sparse.csr_matrix((S.np.array([w[0], w[0], w[1], w[1], 0], dtype=kind),
                                     ([0, 1, 1, 2, 2], [1, 0, 2, 1, 2])), shape=(3, 3))
    elif kind == 'csr' or kind == 'csc' or kind == 'coo':
        W = getattr(S.sparse, kind + '_matrix')(
            (S.array([w[0], w[0], w[1], w[1]]), ([0, 1, 1, 2], [1, 0, 2, 1])), shape=(3, 3))
    else:
        W = S.container(kind, S.array([[0.0, w[0], 0.0], [w[0], 0.0, w[1]], [0.0, w[1], 0.0]]))
    a('adjacency', W)
    X = a('coords', S.np.array([[0, 1], [2, 3], [4, 5]]))
    p = a('plotting', dict(vertex_size=3))
    G = S.graphs.Graph(W, lap_type=lap, coords=X, plotting=p)
    G.L, G.d, G.dw, G.A, G.n_edges
    G.is_connected(), G.is_weighted(), G.has_loops(), G.is_directed()
    G.compute_laplacian('combinatorial')
    G.compute_differential_operator()
    G.D, G.get_edge_list(), G.estimate_lmax('bounds')
    if kind in ('int', 'bool', 'csr'):
        G.compute_laplacian('normalized')


@call('graph')
def read(S, a):
    """queries of a graph"""
    kind = S.choice('kind', ['weights', 'directed', 'loops'])
    W = weights(S, directed=kind == 'directed')
    if kind == 'loops':
        W[1, 1] = 1.0
    G = S.graphs.Graph(W, lap_type=S.choice('lap', ['combinatorial', 'normalized']))
    a('graph', G)
    q = S.choice('query', ['predicates', 'degrees', 'edges', 'lmax', 'components', 'repr', 'energy',
                           'line', 'resistance', 'learned'])
    if q == 'predicates':
        G.is_connected(), G.is_weighted(), G.has_loops(), G.is_directed()
    elif q == 'degrees':
        G.d, G.dw, G.A, G.N, G.Ne, G.n_edges
    elif q == 'edges':
        G.get_edge_list()
    elif q == 'lmax':
        G._get_upper_bound()
    elif q == 'components':
        if not G.is_directed():
            G.extract_components()
    elif q == 'repr':
        repr(G), str(G)
    elif q == 'energy':
        G.dirichlet_energy(S.array([1.0, 2.0, 3.0]))
    elif q == 'line':
        if kind == 'weights':
            S.graphs.LineGraph(G)
    elif q == 'resistance':
        if G.lap_type == 'combinatorial':
            S.mod('utils').resistance_distance(G)


@call('graph')
def signals(S, a):
    """signals, sub-graphs, coordinates"""
    G = graph(S, 4, plotting=dict(edge_width=1))
    a('graph', G)
    v = a('vertices', S.choice('vertices', [[2, 0], S.np.array([1, 3, 2])]))
    G.subgraph(v)
    if not S.flag('more'):
        return
    K = graph(S, 4)
    s = a('signal', S.vec('s', 4))
    K.set_signal(s, 'other')
    c = a('coordinates', S.mat('c', 4, 2))
    K.set_coordinates(c)
    K.set_coordinates('line1D')
    K.set_coordinates('ring2D')
    p = a('positions', [S.np.array([i, 1.0 - i]) for i in range(4)])
    f = a('fixed', [0, 1, 3])
    m = a('center', S.np.array([[1.0, 2.0]]))
    K.set_coordinates('spring', pos=p, fixed=f, iterations=1, seed=1, center=m)


@call('fourier')
def transforms(S, a):
    """transforms and differential operators"""
    W = weights(S)
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = graph(S, 3, lap, W=W)
    a('graph', G)
    s = a('signal', S.vec('s', 3) if S.flag('1d') else S.mat('s', 3, 2))
    y = G.gft(s)
    a('transform', y)
    G.igft(y)
    z = G.grad(s)
    a('gradient', z)
    G.div(z)
    if len(s.shape) == 1:
        G.dirichlet_energy(s)
    G.estimate_lmax()
    G.compute_fourier_basis(2)
    G.coherence


# ------------------------------------------------------------------ filters

def kernels():
    return [poly([1.0, -0.25]), poly([0.5, 0.125]), poly([0.25, 0.0, 0.125])]


@call('filters')
def apply(S, a):
    """filtering, frames, localisation; int and float signals"""
    G = a('graph', graph(S, 3, S.choice('lap', ['combinatorial', 'normalized'])))
    nf = S.choice('nf', [1, 2, 3])
    ks = a('kernels', kernels()[:nf])
    F = S.filters.Filter(G, ks)
    sh = S.choice('shape', [(3,), (3, 2), (3, 1, 1), (3, 2, nf)])
    k = 1
    for m in sh:
        k *= m
    s = S.np.reshape(S.array([S.real(f's{i}') if i < 6 else i / 4 for i in range(k)]), sh)
    if S.flag('ints'):
        s = S.np.reshape(S.np.arange(k), sh)
    a('signal', s)
    method = S.choice('method', ['exact', 'chebyshev'])
    y = F.filter(s, method=method, order=3)
    a('filtered', y)
    if sh != (3, 2, nf):
        F.analyze(s, method=method, order=3)
    else:
        F.synthesize(s, method=method, order=3)
    x = a('points', S.array([S.real('x', 0, 4), 1.0]))
    F.evaluate(x), F(x)
    F.localize(1, method=method, order=3)
    F.compute_frame(method=method, order=3)
    F.estimate_frame_bounds(x)
    H = S.filters.Filter(G, kernels()[0])
    K = F + H
    H + F, F[0]
    S.same('filters kept', (len(F), len(H), len(K)), (nf, 1, nf + 1))
    F.complement(), F.inverse()
    S.check('kernels kept', F._kernels[0] is ks[0])


@call('filters')
def families(S, a):
    """kernels of all families, on arrays and scalars; parameters given as arrays"""
    G = a('graph', graph(S, 3))
    name = S.choice('family', ['Heat', 'Wave', 'MexicanHat', 'Meyer', 'Abspline', 'SimpleTight', 'HalfCosine',
                               'Itersine', 'Expwin', 'Rectangular', 'Regular', 'Held', 'Simoncelli',
                               'Papadakis', 'Gabor', 'Modulation'])
    C = getattr(S.filters, name)
    if name == 'Heat':
        t = a('scale', S.choice('scale', [[1.0, 2.0], (1.0, 3.0), S.np.array([1.0, 2.0]), 5]))
        F = C(G, t, normalize=S.flag('normalize'))
    elif name == 'Wave':
        t = a('time', S.choice('time', [[1.0, 2.0], S.np.array([1.0, 2.0]), 3]))
        v = a('speed', S.choice('speed', [[0.5, 1.0], 1]))
        if isinstance(v, list) and isinstance(t, int):
            return
        F = C(G, t, v)
    elif name in ('MexicanHat', 'Meyer', 'Abspline', 'SimpleTight'):
        t = S.choice('scales', [None, S.np.array([3.0, 2.0]), [3.0, 2.0]])
        if t is not None:
            a('scales', t)
        F = C(G, Nf=3, scales=t)
    elif name in ('HalfCosine', 'Itersine'):
        F = C(G, 4)
    elif name == 'Gabor':
        k = S.filters.Rectangular(G, None, 0.5)
        F = C(G, k)
        a('mother', k._kernels)
    elif name == 'Modulation':
        k = S.filters.Heat(G)
        first = S.flag('first')
        F = C(G, k, modulation_first=first)
        a('mother', k._kernels)
    else:
        F = C(G)
    a('kernels', F._kernels)
    x = a('points', S.array([0.0, S.real('x', 0, 3), 1.0]))
    if name not in ('Gabor', 'Modulation'):
        F.evaluate(x)
        S.unchanged('kernel values', [k(x) for k in F._kernels][0], S.snapshot(F._kernels[0](x)))
    s = a('signal', S.vec('s', 3))
    if name not in ('Gabor', 'Modulation'):
        F.filter(s, order=3)
    elif name == 'Gabor' or first:
        F.filter(s)


@call('filters')
def approximations(S, a):
    """coefficients, Chebyshev operators and rectangles, Lanczos"""
    G = a('graph', graph(S, 3))
    A = S.mod('filters.approximations')
    F = S.filters.Filter(G, kernels()[:2])
    s = a('signal', S.vec('s', 3) if S.flag('1d') else S.mat('s', 3, 2))
    what = S.choice('what', ['op', 'bank', 'rect', 'jackson', 'lanczos'])
    if what == 'op':
        A.cheby_op(G, a('coefficients', [S.real(f'c{i}') for i in range(4)]), s)
    elif what == 'bank':
        c = A.compute_cheby_coeff(F, m=4)
        a('computed', c)
        A.cheby_op(G, c, s)
        A.cheby_op(G, a('rows', S.array([[S.real(f'c{j}{i}') for i in range(4)] for j in range(2)])), s)
    elif what == 'rect':
        b = a('bounds', S.choice('bounds', [[0.5, 1.0], S.np.array([0.25, 1.5]), S.np.array([0, 1])]))
        A.cheby_rect(G, b, s, order=4)
    elif what == 'jackson':
        b = a('bounds', S.choice('bounds', [[0.5, 1.0], S.np.array([0.25, 1.5]), S.np.array([0, 1])]))
        i = a('interval', S.choice('interval', [[0.0, 2.0], (0, 3), S.np.array([0.0, 2.5])]))
        A.compute_jackson_cheby_coeff(b, i, 5)
    else:
        M = a('matrix', S.np.array([[2.0, -1.0, 0.0], [-1.0, 3.0, 0.5], [0.0, 0.5, 1.0]]))
        x = a('vector', S.choice('x', [S.np.array([1.0, 2.0, -1.0]), S.np.array([1, 2, 2])]))
        A.lanczos(M, 2, x)


# ------------------------------------------------------------------ reduction, learning, utilities

@call('reduction')
def reductions(S, a):
    """Kron reduction, interpolation, multiresolution, pyramids, sparsification, trees"""
    R = S.mod('reduction')
    what = S.choice('what', ['kron', 'kron matrix', 'interpolate', 'multires', 'pyramid', 'sparsify',
                             'sparsify matrix'])
    n = 4
    G = graph(S, n, basis=False)
    if what == 'kron':
        a('graph', G)
        i = a('kept', S.choice('kept', [S.np.array([0, 2]), [3, 1]]))
        R.kron_reduction(G, i)
    elif what == 'kron matrix':
        L = a('Laplacian', S.container(S.choice('format', ['csr', 'csc', 'lil']), S.dense(G.L)))
        i = a('kept', S.np.array([0, 2]))
        R.kron_reduction(L, i)
    elif what == 'interpolate':
        G.mr = dict()
        G.estimate_lmax('bounds')
        G.mr['K_reg'] = a('K_reg', S.mod('reduction').kron_reduction(
            G.L + S.sparse.eye(n) * 0.005, [0, 2]))
        G.mr['green_kernel'] = S.filters.Filter(G, lambda x: 1.0 / (0.005 + x))
        a('graph', G)
        s = a('samples', S.vec('s', 2) if S.flag('1d') else S.mat('s', 2, 2))
        i = a('kept', S.choice('kept', [S.np.array([0, 2]), [0, 2]]))
        R.interpolate(G, s, i, order=3)
    elif what == 'multires':
        a('graph', G)
        Gs = R.graph_multiresolution(G, 1, sparsify=False)
        S.check('first level', Gs[0] is G)
    elif what == 'pyramid':
        Gs = R.graph_multiresolution(G, 1, sparsify=False)
        f = a('signal', S.vec('f', n))
        h = a('filters', [lambda x: 5.0 / (5 + x)])
        for i, g in enumerate(Gs):
            a(f'level {i}', g)
        ca, pe = R.pyramid_analysis(Gs, f, h_filters=h, order=3)
        a('coarse', ca)
        a('errors', pe)
        R.pyramid_synthesis(Gs, ca[1], pe, order=3)
    elif what == 'sparsify':
        a('graph', G)
        S.draws(fixed=lambda kind, i: 0.3 + 0.1 * (i % 5))
        R.graph_sparsify(G, 0.9, maxiter=1, seed=1)
    else:
        L = a('Laplacian', G.L.copy())
        S.draws(fixed=lambda kind, i: 0.3 + 0.1 * (i % 5))
        R.graph_sparsify(L, 0.9, maxiter=1, seed=1)


@call('learning')
def learn(S, a):
    """classification and regression; masks and labels of all types"""
    L = S.mod('learning')
    G = graph(S, 4, S.choice('lap', ['combinatorial', 'normalized']))
    a('graph', G)
    M = a('mask', S.choice('mask', [S.np.array([True, False, True, True]), S.np.array([1, 0, 1, 0]) > 0]))
    what = S.choice('what', ['regression', 'classification', 'simplex'])
    tau = S.choice('tau', [0, 0.5])
    if what == 'regression':
        y = S.vec('y', 4) if S.flag('1d') else S.mat('y', 4, 2)
        if S.flag('nan'):
            y = S.np.array([1.0, S.np.nan, 2.0, S.np.nan])
            if bool(M[3]):
                return
        a('measures', y)
        L.regression_tikhonov(G, y, M, tau)
    elif what == 'classification':
        y = a('labels', S.choice('labels', [S.np.array([0, 1, 2, 1]), S.np.array([1.0, 0.0, 1.0, 0.0])]))
        if not str(y.dtype).startswith('int'):
            return
        L.classification_tikhonov(G, y, M, tau)
    else:
        y = a('labels', S.np.array([0, 1, 0, 1]))
        with S.solver():
            L.classification_tikhonov_simplex(G, y, M, 0.5)


@call('utils')
def utilities(S, a):
    """distances, symmetrisation, rescaling; dense and sparse, int and float"""
    U = S.mod('utils')
    what = S.choice('what', ['distanz', 'symmetrize', 'rescale', 'resistance'])
    if what == 'distanz':
        x = a('x', S.mat('x', 2, 3) if S.flag('2d') else S.vec('x', 3))
        y = a('y', S.mat('y', 2, 2) if len(x.shape) == 2 else S.vec('y', 2))
        D = U.distanz(x)
        a('distances', D)
        U.distanz(x, y)
    elif what == 'symmetrize':
        W = S.array([[S.real(f'w{i}{j}', -1, 4) for j in range(2)] for i in range(2)])
        if S.flag('sparse'):
            W = S.sparse.csr_matrix(W)
        a('W', W)
        U.symmetrize(W, S.choice('method', ['average', 'maximum', 'fill', 'tril', 'triu']))
    elif what == 'rescale':
        x = a('x', S.mat('x', 2, 2) if S.flag('real') else S.np.array([[1, 2, 4], [0, 5, 3]]))
        S.assume(True if not S.sym else True)
        U.rescale_center(x)
    else:
        L = a('L', graph(S, 3).L.copy())
        U.resistance_distance(L)


@call('models')
def parameters(S, a):
    """parameters of graph families given as arrays"""
    g = S.graphs
    what = S.choice('what', ['sbm', 'ring', 'community', 'line', 'img'])
    if what == 'sbm':
        k = 2
        z = a('z', S.choice('z', [S.np.array([1, 0, 1]), S.np.array([0, 0, 1])]))
        how = S.choice('how', ['pq', 'M', 'lists'])
        if how == 'M':
            M = a('M', S.np.array([[1.0, 0.5], [0.5, 0.0]]))
            g.StochasticBlockModel(3, k, z=z, M=M, seed=1)
        else:
            p = a('p', S.np.array([1.0, 0.5]) if how == 'pq' else [1.0, 0.5])
            q = a('q', S.np.array([[0.0, 1.0], [1.0, 0.0]]) if S.flag('matrix') else S.np.array([1.0, 0.0]))
            try:
                g.StochasticBlockModel(3, k, z=z, p=p, q=q, seed=1)
            except ValueError:
                pass
    elif what == 'ring':
        t = a('angles', S.array([3.0, S.real('t', Fraction(1, 10), 2), 5.0]))
        g.RandomRing(3, t)
    elif what == 'community':
        c = a('sizes', S.choice('sizes', [[2, 3], S.np.array([3, 2]), (1, 4)]))
        S.draws(fixed=lambda kind, i: ((i * 37) % 101) / 101 if kind == 'u' else None)
        kw = dict(comm_density=1.0) if S.flag('dense') else dict(k_neigh=1)
        g.Community(5, Nc=2, min_comm=1, comm_sizes=c, seed=1, world_density=0.01, **kw)
    elif what == 'line':
        G = a('graph', graph(S, 4))
        g.LineGraph(G)
    elif what == 'img':
        I = a('image', S.choice('image', [S.np.array([[0.0, 1.0], [0.5, 2.0]]), S.np.array([[0, 1], [3, 2]])]))
        S.rounded()
        g.Grid2dImgPatches(I, patch_shape=(1, 1), k=2)


@call('models')
def neighbours(S, a):
    """points given to the nearest-neighbour graphs"""
    X = a('points', S.choice('points', [S.np.array([[0.0, 1.0], [2.0, 0.5], [1.0, 3.0], [4.0, 4.0]]),
                                        S.np.array([[0, 1], [2, 0], [1, 3], [4, 4]])]))
    nn = S.choice('type', ['knn', 'radius'])
    S.graphs.NNGraph(X, NNtype=nn, k=2, epsilon=3.0, center=S.flag('center'), rescale=S.flag('rescale'),
                     dist_type=S.choice('dist', ['euclidean', 'manhattan', 'max_dist']))


@call('models')
def layouts(S, a):
    """the same, with symbolic points"""
    X = a('points', S.mat('x', 3, 1))
    x = [X[i, 0] for i in range(3)]
    S.assume((x[1] - x[0] > 0.1) & (x[2] - x[1] > x[1] - x[0] + 0.1))
    S.graphs.NNGraph(X, k=1, center=S.flag('center'), rescale=S.flag('rescale'), sigma=1.0)


# ------------------------------------------------------------------ features, conversions

@call('other')
def feature(S, a):
    """features"""
    G = a('graph', graph(S, 3))
    F = S.filters.Filter(G, kernels()[:2])
    f = S.pygsp.features
    f.compute_avg_adj_deg(G)
    f.compute_tig(F, order=3)
    f.compute_norm_tig(F, method='exact')
    f.compute_spectrogram(G, M=2, method='exact')


@call('other')
def networkx(S, a):
    """conversions from and to networkx"""
    G = a('graph', graph(S, 3, W=weights(S)))
    g = G.to_networkx()
    S.same('nodes', g.number_of_nodes(), 3)
    data = {(u, v): w for u, v, w in g.edges(data='weight')}
    nodes = {u: dict(d) for u, d in g.nodes(data=True)}
    S.graphs.Graph.from_networkx(g)
    S.unchanged('edges kept', {(u, v): w for u, v, w in g.edges(data='weight')}, S.snapshot(data))
    S.unchanged('nodes kept', {u: dict(d) for u, d in g.nodes(data=True)}, S.snapshot(nodes))


def run_case(S, f):
    a = Args(S)
    f(S, a)
    a.check()
    S.same_random('global generator untouched')


@harness('C23', cfgs=[dict(group=g, name=f.__name__) for g in CALLS for f in CALLS[g]], paths=400)
def kept(S, group, name):
    """every public entry point, with arguments of all accepted types: arrays, lists, matrices,
    dictionaries and graphs (with everything they have computed) are the same after the call"""
    run_case(S, [f for f in CALLS[group] if f.__name__ == name][0])
