"""C15 multiresolution, interpolation, pyramids, sparsification."""
from fractions import Fraction

from symx.session import harness
from . import ref
from .common import SHAPES, any_graph, scaled, shape
from .h_c14 import inverse, reach, schur

BIG = {
    'ring6': (6, [(i, (i + 1) % 6, 1 + i / 4) for i in range(6)]),
    'grid8': (8, [(i, i + 1, 1.0) for i in range(7) if i != 3]
              + [(i, i + 4, 0.5 + i / 3) for i in range(4)]),
    'star5': (5, [(2, i, 0.75 + i) for i in range(5) if i != 2]),
    'two9': (9, [(i, i + 1, 1 + i / 5) for i in range(8)] + [(0, 5, 2.0), (2, 7, 0.25)]),
}


def fixed(S, name, edges=None):
    n, edges = (name, edges) if edges is not None else BIG[name]
    M = [[0.0] * n for _ in range(n)]
    for i, j, w in edges:
        M[i][j] = M[j][i] = w
    return S.array(M)


def levels_ok(S, Gs, levels, L0, coords=None):
    """Each level is the Kron reduction of the previous one to the vertices of one polarity of the
    last eigenvector."""
    S.same('levels', len(Gs), levels + 1)
    n = Gs[0].n_vertices
    S.same('orig_idx 0', [int(i) for i in Gs[0].mr['orig_idx']], list(range(n)))
    for k in range(levels):
        a, b = Gs[k], Gs[k + 1]
        idx = [int(i) for i in b.mr['idx']]
        S.check('increasing', idx == sorted(set(idx)) and all(0 <= i < a.n_vertices for i in idx))
        S.same('size', b.n_vertices, len(idx))
        S.same('orig_idx', [int(i) for i in b.mr['orig_idx']],
               [int(a.mr['orig_idx'][i]) for i in idx])
        S.same('level', b.mr.get('level'), k)
        if coords is not None:
            c = ref.grid(coords)
            S.eq('coordinates', b.coords, [c[int(i)] for i in b.mr['orig_idx']], obs=False)
        S.check('undirected', not b.is_directed())


@harness('C15', cfgs=[dict(name=s) for s in ('k2', 'p3', 'k3', 'k2+1')], paths=80, budget=40)
def multires(S, name):
    """2..3 vertices, arbitrary weights, one or two levels with and without a Fourier basis: the
    kept vertices are one polarity of the last eigenvector, the levels nest, each is the Kron
    reduction of the previous one, the Fourier basis is left alone"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    c = S.mat('c', n, 2)
    G = S.graphs.Graph(W, coords=c)
    full = S.flag('full')
    levels = 1
    if S.flag('before'):
        G.compute_fourier_basis()
    try:
        Gs = S.mod('reduction').graph_multiresolution(G, levels, sparsify=False,
                                                      compute_full_eigen=full)
    except RuntimeError:        # a component without a kept vertex has no Schur complement
        S.check('singular only if disconnected', name == 'k2+1')
        return
    levels_ok(S, Gs, levels, ref.laplacian(W), c)
    idx = [int(i) for i in Gs[1].mr['idx']]
    S.check('first vertex kept', 0 in idx)
    S.eq('weights', S.dense(Gs[1].L), schur(ref.laplacian(W), idx), tol=1e-6, obs=False)
    if full or G._U is not None:
        U = ref.grid(G.U)
        v = [r[n - 1] for r in U]
        neg = bool(v[0] < 0)
        S.same('polarity', idx, [i for i in range(n) if bool((v[i] <= 0) if neg else v[i] >= 0)])
        S.spectral('basis', G.e, G.U, ref.laplacian(W))
    S.check('first level', Gs[0] is G)


@harness('C15', cfgs=[dict(name=s, full=f) for s in BIG for f in (False, True)], eig_signs=False)
def multires_larger(S, name, full):
    """fixed graphs of 5..9 vertices, 1..3 levels, arbitrary coordinates"""
    W = fixed(S, name)
    n = W.shape[0]
    c = S.mat('c', n, 2) if S.flag('coords') else None
    G = S.graphs.Graph(W, coords=c)
    levels = S.choice('levels', [1, 2, 3])
    Gs = S.mod('reduction').graph_multiresolution(G, levels, sparsify=False,
                                                  compute_full_eigen=full)
    levels_ok(S, Gs, levels, None, c)
    L = ref.laplacian(W)
    for k in range(levels):
        idx = [int(i) for i in Gs[k + 1].mr['idx']]
        S.check('first vertex kept', 0 in idx)
        L = schur(L, idx)
        S.eq('weights', S.dense(Gs[k + 1].L), L, tol=1e-6)
    if full:
        tops = [H.lmax for H in Gs]
        for H, top in zip(Gs, tops):
            S.eq('exact largest eigenvalue', top, H.e[-1])
            S.spectral('basis', H.e, H.U, ref.laplacian(S.dense(H.W)))
    for bad in ('downsampling_method', 'reduction_method'):
        S.raises('unknown', NotImplementedError, lambda: S.mod('reduction').graph_multiresolution(
            S.graphs.Graph(W), 1, sparsify=False, **{bad: 'x'}))


@harness('C15', cfgs=[dict(name=s) for s in ('k2', 'k2+1', 'd2b')], paths=60, budget=40)
def interpolation(S, name):
    """2..3 vertices, arbitrary weights, samples and regularisation, every set of sampled vertices,
    one or several signals: (L + eps I) f vanishes off the samples and f keeps the samples"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    if name == 'd2b':
        W = W + W.T
    n = W.shape[0]
    G = S.graphs.Graph(W)
    eps = S.choice('eps', [0.005, 0.25])
    keep = S.choice('keep', [[0], [1], [1, 0], [0, 1]] + ([[2, 0], [0, 1, 2]] if n == 3 else []))
    m = S.choice('m', [None, 1, 2])
    x = S.vec('x', len(keep)) if m is None else S.mat('x', len(keep), m)
    snap = S.snapshot(x)
    f = S.mod('reduction').interpolate(G, x, S.np.array(keep), reg_eps=eps, method='exact')
    S.same('shape', tuple(f.shape), (n, m or 1))
    L = ref.laplacian(W)
    xs = ref.grid(x)
    for j in range(m or 1):
        col = [f[i, j] for i in range(n)]
        Lf = [ref.tot(L[i][k] * col[k] for k in range(n)) + eps * col[i] for i in range(n)]
        S.eq('samples kept', [col[i] for i in keep],
             [xs[k] if m is None else xs[k][j] for k in range(len(keep))], tol=1e-6)
        S.eq('smooth elsewhere', [Lf[i] for i in range(n) if i not in keep],
             [0.0] * (n - len(keep)), tol=1e-6)
    S.unchanged('samples unchanged', x, snap)


@harness('C15', cfgs=[dict(name=s) for s in BIG])
def interpolation_larger(S, name):
    """fixed graphs of 5..9 vertices, arbitrary samples, exact and Chebyshev (order 100)"""
    W = fixed(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    keep = S.choice('keep', [[0, 3], [4, 1, 2], list(range(n))])
    m = S.choice('m', [None, 2])
    exact = S.flag('exact')
    eps = 0.005 if exact else 0.5
    x = S.vec('x', len(keep)) if m is None else S.mat('x', len(keep), m)
    kw = {'method': 'exact'} if exact else {}
    f = S.mod('reduction').interpolate(G, x, S.np.array(keep), reg_eps=eps, **kw)
    L = ref.laplacian(W)
    M = [[L[i][j] + (eps if i == j else 0) for j in range(n)] for i in range(n)]
    P = S.np.linalg.inv(S.np.array(M))
    xs = ref.grid(x)
    K = S.np.linalg.inv(P[S.np.ix_(keep, keep)])
    for j in range(m or 1):
        xj = [xs[k] if m is None else xs[k][j] for k in range(len(keep))]
        a = ref.mm(K, xj)
        S.eq('interpolant', [f[i, j] for i in range(n)],
             [ref.tot(P[i, keep[k]] * a[k] for k in range(len(keep))) for i in range(n)],
             tol=1e-5)


def pyramid_case(S, Gs, f, m, hs, kernels, kw):
    """analysis against its definition, then reconstruction"""
    R = S.mod('reduction')
    n = Gs[0].n_vertices
    levels = len(Gs) - 1
    snap = S.snapshot(f)
    args = dict(kw, h_filters=hs) if hs is not None else dict(kw)
    ca, pe = R.pyramid_analysis(Gs, f, **args)
    S.unchanged('signal kept', f, snap)
    S.same('counts', (len(ca), len(pe)), (levels + 1, levels))
    S.eq('finest', ca[0], f)
    cols = m or 1
    cur = [[ref.grid(f)[i] if m is None else ref.grid(f)[i][j] for i in range(n)]
           for j in range(cols)]
    for k in range(levels):
        G = Gs[k]
        idx = Gs[k + 1].mr['idx']
        F = S.filters.Filter(G, kernels[k if len(kernels) > 1 else 0])
        fkw = {q: v for q, v in kw.items() if q != 'reg_eps'}
        ikw = dict(fkw, reg_eps=kw.get('reg_eps', 0.005))
        nxt = []
        S.same('coarse shape', tuple(ca[k + 1].shape), (len(idx), cols))
        S.same('error size', pe[k].size, G.n_vertices * cols)
        for j in range(cols):
            low = F.filter(S.array(cur[j]), **fkw)
            c = [low[int(i)] for i in idx]
            S.eq('coarse', ca[k + 1][:, j], c, tol=1e-6)
            p = R.interpolate(G, S.array(c), idx, **ikw)
            e = ref.grid(pe[k].reshape((G.n_vertices, cols))[:, j])
            S.eq('prediction error', e, [cur[j][i] - p[i, 0] for i in range(G.n_vertices)],
                 tol=1e-6)
            nxt.append(c)
        cur = nxt
    skw = dict(kw)
    r, cas = R.pyramid_synthesis(Gs, ca[levels], pe, **skw)
    S.eq('reconstruction', r, f, tol=1e-6)
    S.same('coarse count', len(cas), levels + 1)
    for k in range(levels + 1):
        S.eq('approximations', cas[k], ca[k], tol=1e-6)


@harness('C15', cfgs=[dict(name=s, m=m) for s, m in
                      (('ring6', None), ('star5', None), ('star5', 1), ('star5', 2), ('ring6', 2))],
         thorough=[dict(name=s, m=m) for s in BIG for m in (None, 1, 2)])
def pyramid(S, name, m):
    """fixed graphs of 5..9 vertices, 1..2 levels, signals (one or several) arbitrary on 3 vertices, arbitrary
    low-pass kernel per level, exact and Chebyshev filtering with default or given options"""
    W = fixed(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    levels = S.choice('levels', [1, 2])
    Gs = S.mod('reduction').graph_multiresolution(G, levels, sparsify=False,
                                                  compute_full_eigen=True)
    f = ref.grid(S.vec('f', 3) if m is None else S.mat('f', 3, m))
    f += [(i - 3.5) / 2 if m is None else [i - 2.5, 1.0 + i][:m] for i in range(3, n)]
    f = S.array(f)
    how = S.choice('how', ['default', 'exact', 'order', 'eps', 'list'])
    a = S.real('a', 0, 2)
    h = lambda x: a / (1 + x)       # noqa
    if how == 'default':
        pyramid_case(S, Gs, f, m, None, [lambda x: 1.0 / (2 * x + 1)], {})
    elif how == 'exact':
        pyramid_case(S, Gs, f, m, h, [h], dict(method='exact'))
    elif how == 'order':
        pyramid_case(S, Gs, f, m, [h], [h], dict(order=12))
    elif how == 'eps':
        pyramid_case(S, Gs, f, m, h, [h], dict(method='exact', reg_eps=0.25))
    else:
        hs = [h, lambda x: a / (2 + x)][:levels]
        pyramid_case(S, Gs, f, m, hs, hs, dict(method='exact'))


@harness('C15')
def pyramid_rejects(S):
    """signals of the wrong length, wrong numbers of filters or of prediction errors"""
    R = S.mod('reduction')
    G = S.graphs.Graph(fixed(S, 'ring6'))
    Gs = R.graph_multiresolution(G, 2, sparsify=False)
    f = S.vec('f', 6)
    S.raises('length', ValueError, lambda: R.pyramid_analysis(Gs, S.vec('g', 5)))
    h = lambda x: 1 / (1 + x)   # noqa
    S.raises('filters', ValueError, lambda: R.pyramid_analysis(Gs, f, h_filters=[h] * 3))
    ca, pe = R.pyramid_analysis(Gs, f, method='exact')
    S.raises('errors', ValueError, lambda: R.pyramid_synthesis(Gs, ca[2], pe[:1]))
    S.raises('filters missing', ValueError,
             lambda: R.pyramid_synthesis(Gs, ca[2], pe, least_squares=True))
    r, _ = R.pyramid_synthesis(Gs, ca[2], pe, method='exact', least_squares=False)
    S.eq('reconstruction', r, f, tol=1e-6)


@harness('C15', cfgs=[dict(name=s, mat=b) for s in ('k2', 'p3', 'k3', 'p4', 'c4', 's4')
                      for b in (False, True)], paths=150, budget=40)
def sparsify(S, name, mat):
    """2..4 vertices, arbitrary weights, every outcome of the sampling: only existing edges,
    non-negative weights, preserved total effective weight; graph or Laplacian"""
    R = S.mod('reduction')
    n, edges = SHAPES[name]
    if n < 4:
        W = shape(S, name, lo=Fraction(1, 2), hi=2)
    else:
        w = S.real('w', Fraction(1, 2), 2)
        W = fixed(S, n, [(i, j, w if k == 1 else 0.75 + k / 4)
                         for k, (i, j) in enumerate(edges)])
    G = S.graphs.Graph(W)
    eps = S.choice('eps', [1.0, 0.9, 0.75] if n > 2 else [1.0, 0.75])
    A = G.L if mat else G
    snap = S.snapshot(G.L), S.snapshot(G.W)
    out = R.graph_sparsify(A, eps, maxiter=1, seed=3)
    if mat:
        Ln = ref.grid(S.dense(out))
        Wn = [[-Ln[i][j] if i != j else 0.0 for j in range(n)] for i in range(n)]
        S.eq('Laplacian', [ref.tot(r) for r in Ln], [0.0] * n, tol=1e-6)
    else:
        S.same('vertices', out.n_vertices, n)
        Wn = ref.grid(S.dense(out.W))
        S.check('undirected', not out.is_directed())
    S.eq('symmetric', Wn, ref.tr(Wn))
    es = set(edges) | {(j, i) for i, j in edges}
    for i in range(n):
        for j in range(n):
            if (i, j) not in es:
                S.eq('only edges', Wn[i][j], 0.0)
    S.le('non-negative', [[0.0] * n] * n, Wn)
    L = ref.laplacian(W)
    J = Fraction(1, n) if S.sym else 1 / n
    P = inverse([[L[i][j] + J for j in range(n)] for i in range(n)])
    res = {(i, j): P[i][i] + P[j][j] - 2 * P[i][j] for i, j in edges}
    S.eq('effective weight', ref.tot(Wn[i][j] * res[i, j] for i, j in edges), n - 1, tol=1e-6)
    S.unchanged('L kept', G.L, snap[0])
    S.unchanged('W kept', G.W, snap[1])


@harness('C15', cfgs=[dict(name=n, s=s) for n in ('k2', 'p3', 'k3') for s in (1e-6, 1e6)],
         paths=60)
def sparsify_scales(S, name, s):
    """2..3 vertices, arbitrary weights of any magnitude, every outcome of the sampling: preserved
    total effective weight"""
    W, M = scaled(S, name, s)
    n, edges = SHAPES[name]
    eps = S.choice('eps', [1.0, 0.75])
    out = S.mod('reduction').graph_sparsify(S.graphs.Graph(W), eps, maxiter=1, seed=3)
    Wn = [[x / s for x in r] for r in ref.grid(S.dense(out.W))]
    S.le('non-negative', [[0.0] * n] * n, Wn)
    L = ref.laplacian(S.array(M))
    J = Fraction(1, n) if S.sym else 1 / n
    P = inverse([[L[i][j] + J for j in range(n)] for i in range(n)])
    S.eq('effective weight', ref.tot(Wn[i][j] * (P[i][i] + P[j][j] - 2 * P[i][j])
                                     for i, j in edges), n - 1, tol=1e-6)


@harness('C15')
def sparsify_rejects(S):
    """parameters out of range, normalized Laplacians"""
    R = S.mod('reduction')
    W = shape(S, 'p4', lo=Fraction(1, 2), hi=2)
    G = S.graphs.Graph(W)
    for bad in (0.25, 0.49, 1.5, 0.0):
        S.raises('range', ValueError, lambda: R.graph_sparsify(G, bad))
    G.compute_laplacian('normalized')
    S.raises('normalized', NotImplementedError, lambda: R.graph_sparsify(G, 0.75))


@harness('C15', cfgs=[dict(name=s) for s in ('ring6', 'grid8')], paths=12, budget=40)
def multires_sparsified(S, name):
    """fixed graphs, two levels with sparsification, every outcome of the sampling (first paths):
    the levels nest"""
    W = fixed(S, name)
    G = S.graphs.Graph(W)
    Gs = S.mod('reduction').graph_multiresolution(G, 1, sparsify_eps=1.0)
    levels_ok(S, Gs, 1, None)
    full = S.mod('reduction').kron_reduction(G, Gs[1].mr['idx'])
    Wk, Ws = ref.grid(S.dense(full.W)), ref.grid(S.dense(Gs[1].W))
    m = len(Wk)
    for i in range(m):
        for j in range(m):
            if Wk[i][j] == 0:
                S.eq('only edges', Ws[i][j], 0.0)
