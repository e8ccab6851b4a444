"""Weights, signals, kernels and points of extreme magnitudes (1e-9, 1e6) across the properties."""
from fractions import Fraction

from symx.session import harness

from . import ref
from .common import DSHAPES, SCALES, SHAPES, shape
from .h_c02 import uneven
from .h_c09 import apply_p, operators, poly, ring_like
from .h_c16 import all_masks, optimal

LAPS = ('combinatorial', 'normalized')


def times(S, W, s):
    return S.array([[x * s for x in r] for r in ref.grid(W)])


def fixed(S, name):
    n, e = SHAPES[name] if name in SHAPES else DSHAPES[name]
    M = S.np.zeros((n, n))
    for (i, j), w in zip(e, (1.5, 0.5, 2.0)):
        M[i, j] = w
        if name in SHAPES:
            M[j, i] = w
    return M


def small(S, name):
    return shape(S, name, lo=Fraction(1, 2), hi=2)


@harness('C09', cfgs=[dict(name=n, scale=s) for n in ('k2', 'p3', 'd3m') for s in SCALES], paths=40,
         eig_signs=False, budget=30)
def exact_scales(S, name, scale):
    """fixed weights of 2..3 vertices times 1e-9 or 1e6, kernels of the normalised frequency,
    arbitrary signals times 1e-9, 1 or 1e6: analysis and synthesis"""
    M = fixed(S, name)
    n = M.shape[0]
    G = S.graphs.Graph(times(S, M, scale))
    g = [lambda x: 1 / (1 + x), lambda x: 0.5 - x / 4]
    F = S.filters.Filter(G, [lambda x, f=f: f(x / scale) for f in g])
    H = operators(S, ref.laplacian(M), g)
    u = S.choice('signal', [1e-9, 1.0, 1e6])
    s = S.vec('s', n)
    y = F.filter(s * u, method='exact')
    for k in range(2):
        S.eq('analysis', y[:, k] / u, ref.mm(H[k], s))
    t = S.mat('t', n, 2)
    z = F.filter(t * u, method='exact')
    S.eq('synthesis', z / u, [ref.tot(p) for p in zip(*[ref.mm(H[k], [t[i, k] for i in range(n)])
                                                        for k in range(2)])])


@harness('C10', cfgs=[dict(name=n, scale=s) for n in ('k2', 'p3', 'd3m') for s in SCALES], paths=60,
         budget=30)
def cheby_scales(S, name, scale):
    """2..3 vertices with weights in [1/2,2] times 1e-9 or 1e6, polynomials of the normalised
    frequency, signals times 1e-9, 1 or 1e6, bounds and full decomposition for lmax"""
    M = small(S, name)
    n = M.shape[0]
    G = S.graphs.Graph(times(S, M, scale))
    if S.flag('bounds'):
        G.estimate_lmax('bounds')
    else:
        G.compute_fourier_basis()
    c = [S.real(f'c{k}', -2, 2) for k in range(3)]
    F = S.filters.Filter(G, lambda x: poly(c)(x / scale))
    u = S.choice('signal', [1e-9, 1.0, 1e6])
    s = S.vec('s', n)
    y = F.filter(s * u, order=S.choice('order', [2, 3]))
    S.eq('analysis', y / u, apply_p(ref.laplacian(M), c, s), tol=1e-6)


@harness('C11', cfgs=[dict(gain=g) for g in (1e-6, 1e-3, 1e3, 1e6)])
def frame_scales(S, gain):
    """banks of two kernels with gains 1e-6..1e6 on weights in [1/2,2]: bounds, complement, inverse"""
    M = small(S, 'k2')
    G = S.graphs.Graph(M)
    G.compute_fourier_basis()
    a, b = S.real('a', Fraction(1, 2), 2), S.real('b', Fraction(1, 2), 2)
    g = [lambda x: a / (1 + x), lambda x: b * x / 8]
    F = S.filters.Filter(G, [lambda x, f=f: gain * f(x) for f in g])
    x = S.np.array([0.0, 0.5, 1.25, 2.0])
    q = [ref.tot(f(t) * f(t) for f in g) for t in (0.0, 0.5, 1.25, 2.0)]
    A, B = F.estimate_frame_bounds(x)
    S.eq('lower bound', A / gain ** 2, S.np.min(S.array(q)))
    S.eq('upper bound', B / gain ** 2, S.np.max(S.array(q)))
    c = F.complement(frame_bound=9 * gain ** 2).evaluate(x)[0]
    S.eq('complement', [(v / gain) ** 2 for v in ref.grid(c)], [9 - v for v in q])
    F.estimate_frame_bounds = lambda *p, **k: (0.25 * gain ** 2, 400.0 * gain ** 2)  # only logged
    h = F.inverse().evaluate(x)
    for k in range(2):
        S.eq('inverse', [v * gain for v in ref.grid(h[k])],
             [g[k](t) / v for t, v in zip((0.0, 0.5, 1.25, 2.0), q)])


@harness('C13', cfgs=[dict(scale=s) for s in SCALES], paths=40)
def localize_scales(S, scale):
    """fixed weights of 3 vertices times 1e-9 or 1e6, rational kernels with an arbitrary coefficient:
    localised atoms"""
    M = fixed(S, 'p3')
    G = S.graphs.Graph(times(S, M, scale))
    c = S.real('c', -2, 2)
    g = [lambda x: c + 1 / (1 + x)]
    F = S.filters.Filter(G, lambda x: g[0](x / scale))
    i = S.choice('i', [0, 1, 2])
    h = operators(S, ref.laplacian(M), g)[0]
    S.eq('localised', F.localize(i, method='exact'), [ref.sqrt(3) * h[j][i] for j in range(3)])


@harness('C15', cfgs=[dict(scale=s) for s in SCALES], paths=60, budget=40)
def pyramid_scales(S, scale):
    """signals of 6 vertices times 1e-9 or 1e6 (arbitrary entries), two levels: exact reconstruction
    to a relative precision, interpolation linear in the samples"""
    W = ring_like(S, 6)
    G = S.graphs.Graph(W)
    R = S.mod('reduction')
    Gs = R.graph_multiresolution(G, 2, sparsify=False, compute_full_eigen=True)
    s = S.array([S.real(f's{k}') if k < 3 else k / 4 for k in range(6)])
    ca, pe = R.pyramid_analysis(Gs, s * scale, method='exact')
    y, _ = R.pyramid_synthesis(Gs, ca[2], pe, method='exact')
    S.eq('reconstruction', y / scale, s)
    ind = Gs[1].mr['idx']
    a = R.interpolate(G, s[ind], ind, method='exact')
    b = R.interpolate(G, s[ind] * scale, ind, method='exact')
    S.eq('interpolation', b / scale, a)


@harness('C16', cfgs=[dict(name=n, scale=s) for n in ('k2', 'p3') for s in SCALES], paths=120, budget=40)
def regression_scales(S, name, scale):
    """weights in [1/2,2] times 1e-9 or 1e6, measurements times 1e-9, 1 or 1e6, tau balancing the
    weights or null"""
    M = small(S, name)
    n = M.shape[0]
    G = S.graphs.Graph(times(S, M, scale))
    mask = S.choice('M', all_masks(name))
    u = S.choice('y', [1e-9, 1.0, 1e6])
    tau = S.real('tau', Fraction(1, 8), 8) if S.flag('tau') else None
    y = S.vec('y', n)
    x = S.mod('learning').regression_tikhonov(G, y * u, S.np.array(mask),
                                              0 if tau is None else tau / scale)
    optimal(S, 'scaled', ref.laplacian(M), ref.grid(x / u), ref.grid(y), mask, tau,
            1e-3 if tau is not None else 1e-6)


@harness('C17', cfgs=[dict(name=n) for n in ('k2', 'p3', 'd2', 'd3m')])
def nx_scales(S, name):
    """weights in [1/8,8] times 1e-9, 1 or 1e6 mixed in one graph, positive or negative, signals
    times 1e-9 or 1e6: exported and imported back with full precision"""
    W, F, n, e = uneven(S, name, sign=S.choice('sign', [1, -1]))
    u = S.choice('signal', SCALES)
    G = S.graphs.Graph(W)
    s = S.vec('s', n)
    G.set_signal(s * u, 's')
    g = G.to_networkx()
    w = ref.grid(W)
    for i, j in e:
        S.eq('edge weight', g.edges[i, j]['weight'] / F[i][j], w[i][j] / F[i][j], tol=1e-12)
    for i in range(n):
        S.eq('node signal', g.nodes[i]['s'] / u, s[i], tol=1e-12)
    H = S.graphs.Graph.from_networkx(g)
    S.same('edges', H.n_edges, len(e))
    v = ref.grid(S.dense(H.W))
    for i in range(n):
        for j in range(n):
            S.eq('weights', v[i][j] / F[i][j], w[i][j] / F[i][j], tol=1e-12)
    S.eq('signal', H.signals['s'] / u, s, tol=1e-12)


@harness('C18', cfgs=[dict(name=n) for n in ('k2', 'p3', 'k3', 'k2+1', '2k2', 'p3+1')])
def components_scales(S, name):
    """weights in [1/8,8] times 1e-9, 1 or 1e6 mixed in one graph: the components do not depend on
    them and keep every weight"""
    W, F, n, e = uneven(S, name)
    G = S.graphs.Graph(W)
    s = S.vec('s', n)
    G.set_signal(s, 's')
    comp = {i: {i} for i in range(n)}
    for i, j in e:
        c = comp[i] | comp[j]
        for k in c:
            comp[k] = c
    want = sorted({tuple(sorted(c)) for c in comp.values()})
    parts = G.extract_components()
    S.same('components', sorted(tuple(int(i) for i in p.info['orig_idx']) for p in parts), want)
    w = ref.grid(W)
    for p in parts:
        idx = [int(i) for i in p.info['orig_idx']]
        v = ref.grid(S.dense(p.W))
        for a, i in enumerate(idx):
            for b, j in enumerate(idx):
                S.eq('weight', v[a][b] / F[i][j], w[i][j] / F[i][j], tol=1e-12)
        S.eq('signal', p.signals['s'], [s[i] for i in idx])


@harness('C19', cfgs=[dict(method=m) for m in ('average', 'maximum', 'fill', 'tril', 'triu')])
def symmetrize_scales(S, method):
    """2x2 matrices with entries in [1/8,8] times 1e-9, 1 or 1e6 (or zero), dense and sparse"""
    f = S.choice('scales', [(1e-9, 1e-9), (1e-9, 1.0), (1.0, 1e-9), (1e6, 1e-9), (1e6, 1e6)])
    a, b = [S.real(k, Fraction(1, 8), 8) * t if S.flag('has ' + k) else 0.0 for k, t in zip('ab', f)]
    d = S.real('d', Fraction(1, 8), 8) * f[0]
    W = S.array([[d, a], [b, 0.0]])
    if S.flag('sparse'):
        W = S.sparse.csr_matrix(W)
    R = ref.grid(S.dense(S.mod('utils').symmetrize(W, method)))
    za, zb = not ref.nz(a), not ref.nz(b)
    if method == 'average':
        want = (a + b) / 2
    elif method == 'maximum':
        want = a if bool(a >= b) else b
    elif method == 'fill':
        want = b if za else a if zb else (a + b) / 2
    else:
        want = b if method == 'tril' else a
    u = max(f)
    if method in ('tril', 'triu', 'maximum') or za or zb:
        u = f[0] if want is a else f[1]
    for i, j in ((0, 1), (1, 0)):
        S.eq('entry', R[i][j] / u, want / u, tol=1e-9)
    S.eq('diagonal', [R[0][0] / f[0], R[1][1] / f[0]], [d / f[0], 0.0], tol=1e-9)


@harness('C20', cfgs=[dict(kind=k, scale=s) for k in ('knn', 'radius') for s in (1e-6, 1e6)])
def neighbours_scales(S, kind, scale):
    """4 points on a line at distances around 1e-6 or 1e6 (one arbitrary): same neighbours, kernel
    weights of the width given or of the mean distance, coordinates kept"""
    t = S.real('t', Fraction(9, 4), Fraction(11, 4))
    x = [0.0, 1.0, t, 5.0]
    X = S.array([[v * scale] for v in x])
    kw = dict(k=1) if kind == 'knn' else dict(NNtype='radius', epsilon=1.75 * scale)
    links = [[1], [0], [1], [2]] if kind == 'knn' else [[1], [0, 2], [1], []]
    sigma = S.choice('sigma', [None, 2.0])
    # The kernel divides a squared distance by the width.
    G = S.mod('graphs').NNGraph(X, center=False, rescale=False, symmetrize_type='maximum',
                                sigma=None if sigma is None else sigma * scale ** 2, **kw)
    S.eq('coordinates', [c / scale for c in ref.grid(G.coords[:, 0])], x)
    if sigma is None:
        d = [abs(x[i] - x[j]) for i in range(4) for j in links[i]]
        S.eq('width', G.sigma / scale, ref.tot(d) / len(d))
        return
    W = [[0.0] * 4 for _ in range(4)]
    for i in range(4):
        for j in links[i]:
            W[i][j] = W[j][i] = S.np.exp(-(x[i] - x[j]) * (x[i] - x[j]) / sigma)
    S.eq('weights', S.dense(G.W), W, tol=1e-7)


@harness('C24', cfgs=[dict(name=n) for n in ('k2', 'p3', 'k3', 'k2+1', '2k2')])
def average_degree_scales(S, name):
    """weights in [1/8,8] times 1e-9, 1 or 1e6 mixed in one graph: the average degree only depends on
    the edges"""
    W, F, n, e = uneven(S, name)
    got = S.np.reshape(S.np.asarray(S.pygsp.features.compute_avg_adj_deg(S.graphs.Graph(W))), n)
    nb = [[j for j in range(n) if (i, j) in e or (j, i) in e] for i in range(n)]
    S.eq('average degree', got, [(len(nb[i]) + sum(len(nb[j]) for j in nb[i])) / (len(nb[i]) + 1)
                                 for i in range(n)])


@harness('C26', cfgs=[dict(scale=s) for s in SCALES])
def approximation_scales(S, scale):
    """weights of a path of 4 vertices times 1e-9 or 1e6, signals times 1e-9, 1 or 1e6 (fixed):
    Lanczos filtering of arbitrary polynomials of the normalised frequency; ideal bands"""
    S.rounded()
    M = S.np.zeros((4, 4))
    for i, w in enumerate((1.0, 2.0, 0.5)):
        M[i, i + 1] = M[i + 1, i] = w
    G = S.graphs.Graph(M * scale)
    G.estimate_lmax('bounds')
    A = S.mod('filters.approximations')
    u = S.choice('signal', [1e-9, 1.0, 1e6])
    s = S.np.array([1.0, -0.5, 2.0, 0.25])
    c = [S.real(f'c{k}', -2, 2) for k in range(3)]
    F = S.filters.Filter(G, lambda x: poly(c)(x / scale))
    y = A.lanczos_op(F, s * u, order=4)
    L = ref.laplacian(M)
    S.eq('Lanczos', y / u, apply_p(L, c, ref.grid(s)), tol=1e-5)
    H = S.graphs.Graph(M)
    H.estimate_lmax('bounds')
    b = [0.0, float(H.lmax) / 2]
    S.eq('lmax', G.lmax / scale, H.lmax)
    S.eq('band', A.cheby_rect(G, [v * scale for v in b], s * u, order=5) / u,
         A.cheby_rect(H, b, s, order=5), tol=1e-6)
