"""C24 vertex features."""
from fractions import Fraction

from symx.session import harness

from . import ref
from .common import any_graph, shape
from .h_c09 import apply_poly, apply_p, bank, operators, poly, ring_like  # noqa: F401


@harness('C24', cfgs=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)],
         paths=1100)
def average_degree(S, n):
    """every undirected edge pattern on 1..4 vertices (5 when thorough), any positive weights"""
    W, edges = any_graph(S, n)
    G = S.graphs.Graph(W)
    d = S.pygsp.features.compute_avg_adj_deg(G)
    nb = [[j for j in range(n) if (i, j) in edges or (j, i) in edges] for i in range(n)]
    want = [(len(nb[i]) + sum(len(nb[j]) for j in nb[i])) / (len(nb[i]) + 1) for i in range(n)]
    S.same('one value per vertex', int(S.np.size(d)), n)
    S.eq('average degree', S.np.reshape(S.np.asarray(d), n), want)


@harness('C24')
def average_degree_families(S):
    """named graphs"""
    name = S.choice('name', ['Star', 'Ring', 'Path', 'FullConnected', 'Comet', 'Grid2d'])
    arg = S.choice('size', [5, 8, 12])
    args = (arg, 4) if name == 'Comet' else (arg // 2, 3) if name == 'Grid2d' else (arg,)
    G = getattr(S.graphs, name)(*args)
    A = [[1.0 if v else 0.0 for v in r] for r in ref.grid(S.dense(G.W))]
    d = [sum(r) for r in A]
    got = S.np.reshape(S.np.asarray(S.pygsp.features.compute_avg_adj_deg(G)), G.N)
    S.eq('average degree', got, [(d[i] + ref.dot(A[i], d)) / (d[i] + 1) for i in range(G.N)])


def norm(r):
    return ref.sqrt(ref.tot(x * x for x in r))


@harness('C24', cfgs=[dict(name=s, nf=k) for s in ('k2', 'p3', 'd3m') for k in (1, 2, 3)],
         paths=60, eig_signs=False)
def tig(S, name, nf):
    """2..3 vertices, weights in [1/8,8], both Laplacians, banks of 1..3 arbitrary kernels, exact
    filtering"""
    W = shape(S, name)
    n = W.shape[0]
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    ks = bank(S, nf)
    F = S.filters.Filter(G, ks)
    H = operators(S, ref.laplacian(W, lap), ks)
    T = S.pygsp.features.compute_tig(F, method='exact')
    Nm = S.pygsp.features.compute_norm_tig(F, method='exact')
    if nf == 1:
        T, Nm = [T], [Nm]
    S.same('one per filter', (len(T), len(Nm)), (nf, nf))
    for k in range(nf):
        S.eq('atoms', T[k], H[k])
        S.same('norms per vertex', tuple(S.np.shape(Nm[k])), (n,))
        S.eq('squared norms', Nm[k] ** 2, [ref.tot(x * x for x in r) for r in H[k]], tol=1e-6)
        for i in range(n):
            S.le('norms', 0, Nm[k][i])
    i = S.choice('i', list(range(nf)))
    S.eq('one filter', S.pygsp.features.compute_tig(F, i=i, method='exact'), H[i])
    S.eq('norms of one filter', S.pygsp.features.compute_norm_tig(F, i=i, method='exact'), Nm[i])


@harness('C24', cfgs=[dict(n=n, nf=k) for n in (4, 6) for k in (1, 2, 4, 6)])
def tig_polynomial(S, n, nf):
    """fixed graphs on 4 and 6 vertices, banks of 1..6 polynomial kernels, Chebyshev and exact"""
    W = ring_like(S, n)
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    L = ref.laplacian(W, lap)
    c = [[S.real(f'c{k}', -2, 2), k / 2, 0.25] for k in range(nf)]
    F = S.filters.Filter(G, [poly(a) for a in c])
    kw = S.choice('kw', [dict(method='exact'), dict(method='chebyshev', order=2), dict(order=9), {}])
    T = S.pygsp.features.compute_tig(F, **kw)
    Nm = S.pygsp.features.compute_norm_tig(F, **kw)
    if nf == 1:
        T, Nm = [T], [Nm]
    S.same('one per filter', (len(T), len(Nm)), (nf, nf))
    for k in range(nf):
        H = ref.tr([apply_p(L, c[k], [1.0 if i == j else 0.0 for i in range(n)]) for j in range(n)])
        S.eq('atoms', T[k], H, tol=1e-6)
        S.eq('squared norms', Nm[k] ** 2, [ref.tot(x * x for x in r) for r in H], tol=1e-5)


@harness('C24', cfgs=[dict(name=s, atom=a) for s in ('k2', 'p3', 'k3', 'k2+1')
                      for a in ('default', 'poly', 'rational')], paths=60, eig_signs=False)
def spectrogram(S, name, atom):
    """2..3 vertices, weights in [1/2,2], both Laplacians, the default atom, polynomial and
    rational atoms with an arbitrary coefficient, 2..4 samples, exact filtering"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    G.compute_fourier_basis()
    M = S.choice('M', [2, 3, 4])
    L = ref.laplacian(W, lap)
    e, U = S.eigh(L)
    lmax = e[n - 1]
    c = S.real('c', -2, 2)
    if atom == 'default':
        f, kw = (lambda x: S.np.exp(-M * (x / lmax) ** 2)), {}
    elif atom == 'poly':
        f = poly([1.0, c, -0.25])
        kw = dict(atom=f)
    else:
        def f(x):
            return c + 1 / (1 + x * x)
        kw = dict(atom=f)
    R = S.pygsp.features.compute_spectrogram(G, M=M, method='exact', **kw)
    S.same('size', tuple(R.shape), (n, M))
    S.check('kept in the graph', G.spectr is R)
    for k in range(M):
        d = ref.grid(f(e - lmax * k / (M - 1)))
        want = [ref.tot(U[i, j] * U[i, j] * d[j] * d[j] for j in range(n)) for i in range(n)]
        S.eq('spectrogram', R[:, k], want, tol=1e-6)


@harness('C24', cfgs=[dict(n=n) for n in (1, 4, 6)])
def spectrogram_larger(S, n):
    """fixed graphs on 1, 4 and 6 vertices, polynomial atoms with arbitrary coefficients, default
    number of samples included, Chebyshev and exact filtering"""
    if n == 1:
        W = S.np.zeros((1, 1))
    else:
        W = ring_like(S, n)
    G = S.graphs.Graph(W)
    G.estimate_lmax('bounds') if n > 1 else G.compute_fourier_basis()
    if n == 1:
        S.same('lmax', float(G.lmax), 0.0)
        c = S.real('c', -2, 2)
        R = S.pygsp.features.compute_spectrogram(G, M=2, atom=lambda x: c + x, method='exact')
        S.eq('spectrogram', R, [[c * c, c * c]])
        return
    lmax = G.lmax
    cases = [(dict(order=3), 5), (dict(), 2), (dict(method='chebyshev', order=2), 2), (dict(), 5),
             (dict(order=3), 2), (dict(order=1), 3)]
    kw, M = S.choice('case', cases + [(dict(order=3), None)] if n == 4 else cases)
    if M == 5:
        G.compute_fourier_basis(2)
    c = [S.real('c0', -2, 2), S.real('c1', -2, 2), 0.125]
    R = S.pygsp.features.compute_spectrogram(G, atom=poly(c), **({} if M is None else dict(M=M)), **kw)
    m = 100 if M is None else M
    S.same('size', tuple(R.shape), (n, m))
    L = ref.laplacian(W)
    if kw.get('order') == 1:
        # Too low an order for the atom: as filtering with the same parameters does.
        for k in range(m):
            s = lmax * k / (m - 1)
            H = S.filters.Filter(G, lambda x: poly(c)(x - s)).filter(S.np.eye(n), **kw)
            S.eq('as filtered', R[:, k], [ref.tot(H[i, j] * H[i, j] for j in range(n)) for i in range(n)], tol=1e-6)
        return
    for k in range(m) if m < 10 else (0, 1, 37, 99):
        s = lmax * k / (m - 1)
        ck = [c[0] - c[1] * s + c[2] * s * s, c[1] - 2 * c[2] * s, c[2]]
        H = [apply_p(L, ck, [1.0 if i == j else 0.0 for i in range(n)]) for j in range(n)]
        S.eq('spectrogram', R[:, k], [ref.tot(x * x for x in h) for h in H], tol=1e-5)
