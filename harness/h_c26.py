"""C26: the low-level polynomial and Lanczos approximations."""
import math
from fractions import Fraction

from symx.session import harness

from . import ref
from .common import shape

PATHW = [[0, 1.5, 0, 0], [1.5, 0, 0.25, 0], [0, 0.25, 0, 2], [0, 0, 2, 0]]


def graph(S, name):
    """fixed graphs with simple and repeated eigenvalues, connected or not"""
    n = {'path': 4, 'ring': 6, 'full': 5, 'star': 5, 'two': 5}[name]
    W = S.np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if name == 'path':
                W[i, j] = PATHW[i][j]
            elif name == 'ring' and (i - j) % n in (1, n - 1) or name == 'full' and i != j or \
                    name == 'star' and (i == 0) != (j == 0) or \
                    name == 'two' and i != j and (i < 2) == (j < 2):
                W[i, j] = 1.0
    return S.graphs.Graph(W)


def expansion(S, G, L, cs, x):
    """sum_k cs[k] T_k(2 L / lmax - I) x"""
    h = G.lmax / 2
    n = len(x)
    t = [ref.grid(x), [p / h - q for p, q in zip(ref.mm(L, x), ref.grid(x))]]
    while len(t) < len(cs):
        t.append([2 * (p / h - q) - r for p, q, r in zip(ref.mm(L, t[-1]), t[-1], t[-2])])
    return [ref.tot(c * t[k][i] for k, c in enumerate(cs)) for i in range(n)]


def band(S, a, b, order):
    """Chebyshev coefficients of the indicator of [a,b] within [-1,1] (the first one halved)"""
    p, q = S.np.arccos(a), S.np.arccos(b)
    return [(p - q) / math.pi] + [2 / (k * math.pi) * (S.np.sin(k * p) - S.np.sin(k * q))
                                  for k in range(1, order + 1)]


@harness('C26', cfgs=[dict(name=s, order=k) for s in ('k2', 'p3', 'd3m') for k in (1, 2, 3, 5)],
         paths=60)
def rectangle(S, name, order):
    """2..3 vertices, weights in [1/2,2], arbitrary bands and signals (one or two columns),
    orders 1..5: truncated expansion of the ideal band-pass filter"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    G.estimate_lmax('bounds')
    # bands relative to the largest eigenvalue
    a, b = S.real('a', 0, 1), S.real('b', 0, 1)
    S.assume(a <= b)
    cols = S.choice('columns', [None, 1, 2])
    s = S.vec('s', n) if cols is None else S.mat('s', n, cols)
    snap = S.snapshot(s)
    A = S.mod('filters.approximations')
    bounds = [a * G.lmax, b * G.lmax]
    r = A.cheby_rect(G, bounds if S.flag('list') else S.array(bounds), s, order=order)
    S.unchanged('signal kept', s, snap)
    S.same('shape', tuple(r.shape), tuple(s.shape))
    cs = band(S, 2 * a - 1, 2 * b - 1, order)
    L = ref.laplacian(W, lap)
    for c in range(cols or 1):
        S.eq('expansion', r if cols is None else r[:, c],
             expansion(S, G, L, cs, s if cols is None else s[:, c]), tol=1e-6)


@harness('C26', cfgs=[dict(name=s, order=k) for s in ('path', 'ring', 'two') for k in (4, 10, 30)])
def rectangle_larger(S, name, order):
    """fixed graphs of 4..6 vertices, fixed bands (whole spectrum and empty ones included),
    arbitrary signal, orders 4..30"""
    G = graph(S, name)
    G.estimate_lmax(S.choice('method', ['bounds', 'lanczos', 'fourier']) if not S.sym else 'bounds')
    f = S.choice('band', [(0, 1), (0, 0.5), (0.25, 0.75), (0.5, 0.5), (0.9, 1)])
    s = S.vec('s', G.N)
    lmax = float(G.lmax)
    kw = {} if order == 30 else dict(order=order)
    r = S.mod('filters.approximations').cheby_rect(G, [v * lmax for v in f], s, **kw)
    p, q = (math.acos(2 * v - 1) for v in f)
    cs = [(p - q) / math.pi] + [2 / (k * math.pi) * (math.sin(k * p) - math.sin(k * q))
                                for k in range(1, order + 1)]
    S.eq('expansion', r, expansion(S, G, S.dense(G.L), cs, s), tol=1e-6)
    if f == (0, 1):
        S.eq('all-pass', r, s, tol=1e-6)
    if f == (0.5, 0.5):
        S.eq('empty band', r, [0.0] * G.N, tol=1e-6)


@harness('C26')
def rectangle_rejects(S):
    """bands given by anything but two bounds"""
    G = graph(S, 'path')
    G.estimate_lmax('bounds')
    A = S.mod('filters.approximations')
    s = S.vec('s', 4)
    for bad in ([0.5], [0, 1, 2], 1.0, S.np.zeros(3)):
        S.raises('bounds', ValueError, lambda: A.cheby_rect(G, bad, s))


@harness('C26', cfgs=[dict(m=m) for m in (1, 2, 3, 5, 10)], paths=60)
def jackson(S, m):
    """arbitrary spectra and bands within them, 1..10 coefficients: coefficients of the ideal
    band-pass filter and their Jackson damping"""
    A = S.mod('filters.approximations')
    lo, d = S.real('lo', -2, 2), S.real('d', Fraction(1, 4), 8)
    a, b = S.real('a', 0, 1), S.real('b', 0, 1)
    S.assume(a <= b)
    hi = lo + d
    ch, jch = A.compute_jackson_cheby_coeff([lo + a * d, lo + b * d], [lo, hi], m)
    S.same('count', (len(ch), len(jch)), (m + 1, m + 1))
    cs = band(S, 2 * a - 1, 2 * b - 1, m)
    S.eq('coefficients', ch, [2 * cs[0]] + cs[1:], tol=1e-6)
    t = math.pi / (m + 2)
    # Jackson's kernel in its usual form
    g = [((m + 2 - k) * math.cos(k * t) * math.sin(t) + math.sin(k * t) * math.cos(t)) /
         ((m + 2) * math.sin(t)) for k in range(m + 1)]
    S.eq('damping', jch, [(2 * c if k == 0 else c) * v for k, (c, v) in enumerate(zip(cs, g))],
         tol=1e-6)


@harness('C26')
def jackson_rejects(S):
    """bands which exceed the spectrum are rejected, on either side"""
    A = S.mod('filters.approximations')
    lo, d = S.real('lo', -2, 2), S.real('d', Fraction(1, 4), 8)
    e = S.real('e', Fraction(1, 64), 4)
    S.raises('below', ValueError,
             lambda: A.compute_jackson_cheby_coeff([lo - e, lo + d / 2], [lo, lo + d], 3))
    S.raises('above', ValueError,
             lambda: A.compute_jackson_cheby_coeff([lo + d / 2, lo + d + e], [lo, lo + d], 3))


@harness('C26', cfgs=[dict(m=m) for m in (1, 3)])
def jackson_filter(S, m):
    """the coefficients given to the Chebyshev operator filter like the rectangle"""
    A = S.mod('filters.approximations')
    G = graph(S, 'path')
    G.estimate_lmax('bounds')
    a, b = S.real('a', 0, 1), S.real('b', 0, 1)
    S.assume(a <= b)
    s = S.vec('s', 4)
    lmax = float(G.lmax)
    ch, _ = A.compute_jackson_cheby_coeff([a * lmax, b * lmax], [0, lmax], m)
    S.eq('same filter', A.cheby_op(G, ch, s), A.cheby_rect(G, [a * lmax, b * lmax], s, order=m),
         tol=1e-6)


def lanczos_checks(S, A, x, order, V, H, k=None):
    n = len(ref.grid(A))
    k = V.shape[1]
    S.same('shapes', (tuple(V.shape), tuple(H.shape)), ((n, k), (k, k)))
    S.eq('orthonormal', V.T.dot(V), S.np.eye(k), tol=1e-6)
    S.eq('projection', V.T.dot(S.array(ref.grid(A)).dot(V)), H, tol=1e-5)
    h = ref.grid(H)
    S.eq('tridiagonal', [h[i][j] for i in range(k) for j in range(k) if abs(i - j) > 1] or [0.0],
         [0.0] * max((k - 1) * (k - 2), 1), tol=1e-6)
    S.eq('starts from the signal', ref.grid(V[:, 0] * S.np.sqrt(x.dot(x))), x, tol=1e-5)


@harness('C26', cfgs=[dict(name=s, order=k) for s, k in (('k2', 1), ('k2', 2), ('p3', 1), ('p3', 2))],
         paths=40, budget=30)
def krylov(S, name, order):
    """Laplacians of 2..3 vertices with weights in [1/2,2], signals with a Krylov space of the
    order: orthonormal basis and tridiagonal projection"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    L = S.array(ref.laplacian(W))
    n = L.shape[0]
    x = S.vec('x', n)
    S.assume(x.dot(x) > 1)
    y = ref.mm(L, x)
    q = x.dot(x)
    # the residual of the first step
    r2 = ref.dot(y, y) * q - ref.dot(ref.grid(x), y) * ref.dot(ref.grid(x), y)
    S.assume(r2 > 1)
    V, H, orth = S.mod('filters.approximations').lanczos(L, order, x)
    lanczos_checks(S, L, x, order, V, H)


@harness('C26', cfgs=[dict(name=s, order=k) for s in ('path', 'ring', 'full', 'star', 'two')
                      for k in (2, 3, 5, 30)], paths=100)
def lanczos_filter(S, name, order):
    """fixed graphs, signals whose Krylov spaces have 1..N dimensions, arbitrary polynomial
    kernels: exact once the order reaches the dimension of the Krylov space"""
    S.rounded()
    G = graph(S, name)
    n = G.N
    A = S.mod('filters.approximations')
    kind = S.choice('signal', ['impulse', 'constant', 'generic', 'antisymmetric'])
    x = {'impulse': [1.0] + [0.0] * (n - 1), 'constant': [2.0] * n,
         'generic': [((k * k * 7) % 11 - 4) / 4 for k in range(n)],
         'antisymmetric': [1.0, -1.0] + [0.0] * (n - 2)}[kind]
    xa = S.array(x)
    L = S.dense(G.L)
    V, H, _ = A.lanczos(L, order, xa)
    lanczos_checks(S, L, xa, order, V, H)
    k = V.shape[1]
    S.check('at most the order', k <= order and k <= n)
    cs = [[S.real(f'a{i}{d}') for d in range(3)] for i in range(2)]
    ks = [lambda t, c=c: c[0] + c[1] * t + c[2] * t * t for c in cs]
    F = S.filters.Filter(G, ks[:S.choice('filters', [1, 2])])
    cols = S.choice('columns', [None, 2])
    s = xa if cols is None else S.array([[v, v if i % 2 else -v] for i, v in enumerate(x)])
    # a polynomial of degree d is exact from d+1 dimensions on
    y = A.lanczos_op(F, s, order)
    S.same('shape', tuple(y.shape), (n * F.Nf,) + (() if cols is None else (2,)))
    if order >= 3:
        for c in range(cols or 1):
            col = [v if cols is None else v[c] for v in ref.grid(s)]
            l1 = ref.mm(L, col)
            l2 = ref.mm(L, l1)
            for f in range(F.Nf):
                want = [cs[f][0] * p + cs[f][1] * q + cs[f][2] * r for p, q, r in zip(col, l1, l2)]
                got = y[f * n:(f + 1) * n]
                S.eq('polynomial filter', got if cols is None else got[:, c], want, tol=1e-5)
