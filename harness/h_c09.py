"""C09 exact filtering, C10 Chebyshev filtering, C11 frames, C13 localisation and modulation."""
import itertools
import math
from fractions import Fraction

from symx.session import harness

from . import ref
from .common import SIGNALS, shape, typed_signal

KERNELS = [lambda x: 1 / (1 + x) + 0 * x, lambda x: x * x / 8 - 0.5, lambda x: 1.5 - x / 4]
SH3 = ['k2', 'p3', 'k3', 'd3m', 'k2+1']


def bank(S, n):
    return [S.kernel(f'g{i}', KERNELS[i], -64, 64) for i in range(n)]


def operators(S, L, ks):
    """g(L) = U diag g(e) U^T for each kernel, from an independent eigendecomposition"""
    e, U = S.eigh(L)
    n = len(e)
    out = []
    for f in ks:
        d = ref.grid(f(e))
        out.append([[ref.tot(U[i, k] * d[k] * U[j, k] for k in range(n)) for j in range(n)]
                    for i in range(n)])
    return out


def squeezed(sh):
    return tuple(k for k in sh if k != 1)


def signal(S, sh, name='s'):
    """Symbolic entries for the first dozen elements, fixed ones after that."""
    X = S.np.zeros(sh)
    for k, i in enumerate(itertools.product(*[range(m) for m in sh])):
        X[i] = S.real(f'{name}{k}') if k < 12 else ((k * 7) % 11 - 5) / 4
    return X


def get(Y, sh, idx):
    """Element idx of the un-squeezed array of shape sh."""
    i = tuple(a for a, m in zip(idx, sh) if m != 1)
    return Y[i] if i else Y


# ------------------------------------------------------------------ C09

@harness('C09', cfgs=[dict(name=s, nf=k) for s in SH3 for k in (1, 2, 3)], paths=60, budget=30,
         eig_signs=False)
def exact(S, name, nf):
    """2..3 vertices, weights in [1/8,8], both Laplacians, banks of 1..3 arbitrary kernels, every
    accepted signal layout with up to 3 signals"""
    W = shape(S, name)
    n = W.shape[0]
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    ks = bank(S, nf)
    F = S.filters.Filter(G, ks if nf > 1 or S.flag('list') else ks[0])
    H = operators(S, ref.laplacian(W, lap), ks)
    S.same('sizes', (F.Nf, F.n_filters, F.n_features_in, F.n_features_out, len(F), F.shape),
           (nf, nf, 1, nf, nf, (nf, 1)))
    m = 2 if nf != 2 else 3
    layout = S.choice('layout', ['1d', 'col', 'multi', 'multi1', 'synth1', 'synthm'])
    sh = {'1d': (n,), 'col': (n, 1), 'multi': (n, m), 'multi1': (n, m, 1), 'synth1': (n, nf),
          'synthm': (n, m, nf)}[layout]
    s = signal(S, sh)
    snap = S.snapshot(s)
    y = F.filter(s, method='exact')
    S.unchanged('signal kept', s, snap)
    if layout.startswith('synth') and nf > 1:
        ms = 1 if layout == 'synth1' else m
        z = S.np.reshape(s, (n, ms, nf))
        out = (n, ms, 1)
        S.same('layout', tuple(y.shape), squeezed(out))
        for c in range(ms):
            want = [ref.tot(ref.dot(H[k][i], [z[j, c, k] for j in range(n)]) for k in range(nf))
                    for i in range(n)]
            S.eq('synthesis', S.array([get(y, out, (i, c, 0)) for i in range(n)]), want)
        y2 = F.synthesize(s, method='exact')
        S.eq('synthesize', y2, y)
        # adjoint of the analysis
        if ms == 1:
            t = S.vec('t', n)
            a = F.filter(t, method='exact')
            S.eq('adjoint', ref.tot(a[i, k] * z[i, 0, k] for i in range(n) for k in range(nf)),
                 ref.dot(ref.grid(y), ref.grid(t)))
    else:
        ms = 1 if sh == (n,) else sh[1]
        z = S.np.reshape(s, (n, ms))
        out = (n, ms, nf)
        S.same('layout', tuple(y.shape), squeezed(out))
        for k in range(nf):
            for c in range(ms):
                S.eq('analysis', S.array([get(y, out, (i, c, k)) for i in range(n)]),
                     ref.mm(H[k], [z[j, c] for j in range(n)]))
        S.eq('analyze', F.analyze(s, method='exact'), y)


@harness('C09', cfgs=[dict(dtype=d, layout=l) for d in SIGNALS for l in ('1d', 'synth1')],
         eig_signs=False)
def exact_types(S, dtype, layout):
    """boolean and integer signals (every value of the type), transforms and filtering"""
    W = S.np.array([[0, 1.5, 0], [1.5, 0, 0.25], [0, 0.25, 0]])
    G = S.graphs.Graph(W)
    F = S.filters.Filter(G, [lambda x: 1 / (1 + x), lambda x: 0.25 * x])
    s, x = typed_signal(S, (3,) if layout == '1d' else (3, 2), dtype)
    S.eq('transform', G.gft(s), G.gft(x))
    S.eq('inverse transform', G.igft(s), G.igft(x))
    y = F.filter(s, method='exact')
    S.eq('filtering', y, F.filter(x, method='exact'))


@harness('C09', cfgs=[dict(name=s) for s in ('k2', 'p3')])
def exact_rejects(S, name):
    """malformed signals and methods, banks of 1..3 kernels"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    nf = S.choice('nf', [1, 2, 3])
    F = S.filters.Filter(G, bank(S, nf))
    ones = S.np.ones
    for method in ('exact', 'chebyshev'):
        for sh in [(n + 1,), (n - 1, 2), (n + 1, 2, nf), (n, 2, nf + 1), (n, 2, nf + 2),
                   (n, 1, 1, 1), (n, 2, 2, nf), (n, 2, 2, 1)]:
            S.raises(f'shape {sh} {method}', ValueError, lambda: F.filter(ones(sh), method=method))
        S.raises('analyze', ValueError, lambda: F.analyze(ones((n, 2, nf + 1)), method=method))
        if nf > 1:
            S.raises('analyze', ValueError, lambda: F.analyze(ones((n, 2, nf)), method=method))
        S.raises('synthesize', ValueError, lambda: F.synthesize(ones((n, nf + 1)), method=method))
        S.raises('synthesize', ValueError, lambda: F.synthesize(ones((n, 2, nf + 2)),
                                                                method=method))
    for m in ('unknown', 'Exact', ''):
        S.raises('method', ValueError, lambda: F.filter(ones(n), method=m))
    for sh in [(n,), (n, 1), (n, 2, 1)]:
        S.eq('lists', F.filter(ones(sh).tolist(), method='exact'),
             F.filter(ones(sh), method='exact'))


@harness('C09', cfgs=[dict(name=s) for s in ('k2', 'p3', 'k3')])
def banks(S, name):
    """banks from 1..3 arbitrary kernels: evaluation on scalars and arrays, selection, slices,
    concatenation, re-binding to another graph, conversion to a matrix"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    ks = bank(S, 3)
    F = S.filters.Filter(G, ks)
    x, y = S.real('x', 0, 16), S.real('y', 0, 16)
    v = [ref.grid(k(S.array([x, y]))) for k in ks]
    S.eq('evaluate', F.evaluate(S.array([x, y])), v)
    S.eq('call', F(S.array([x, y])), v)
    S.eq('evaluate 2d', F.evaluate(S.array([[x], [y]])), [[[a] for a in r] for r in v])
    S.eq('evaluate list', F.evaluate([1.0, 2.5]), [ref.grid(k(S.array([1.0, 2.5]))) for k in ks])
    at = F.evaluate(S.np.array([0.0, 1.0, 3.0]))
    S.eq('evaluate integers', F.evaluate(S.np.array([0, 1, 3])), at)
    S.eq('evaluate integers', F.evaluate([0, 1, 3]), at)
    S.eq('evaluate scalar', F.evaluate(3), [r[2] for r in ref.grid(at)])
    for i in range(3):
        S.same('item size', F[i].Nf, 1)
        S.eq('item', F[i].evaluate(S.array([x, y])), [v[i]])
    S.eq('slice', F[1:].evaluate(S.array([x, y])), v[1:])
    S.eq('negative', F[-1].evaluate(S.array([x])), [v[2][:1]])
    S.same('slice size', (F[1:].Nf, F[::2].Nf, F[:].Nf), (2, 2, 3))
    S.eq('strided', F[::2].evaluate(S.array([x])), [v[0][:1], v[2][:1]])
    A = S.filters.Filter(G, ks[0]) + F[1:]
    S.same('sum size', (A.Nf, F.Nf), (3, 3))
    S.eq('sum', A.evaluate(S.array([x, y])), v)
    B = F + F
    S.same('double size', (B.Nf, F.Nf), (6, 3))
    S.eq('double', B.evaluate(S.array([x, y])), v + v)
    for label, T in (('tuple', tuple(ks)), ('generator', (k for k in ks)),
                     ('array', S.np.array(ks, dtype=object))):
        C = S.filters.Filter(G, T)
        S.same(label + ' size', (len(C), C.Nf, C.n_features_out, C.shape), (3, 3, 3, (3, 1)))
        S.eq(label, C.evaluate(S.array([x, y])), v)
        for D, want in ((C + F, v + v), (F[:1] + C, v[:1] + v), (C[1:] + C, v[1:] + v)):
            S.same(label + ' sum size', D.Nf, len(want))
            S.eq(label + ' sum', D.evaluate(S.array([x, y])), want)
    own = list(ks)
    C = S.filters.Filter(G, own)
    own.reverse()
    own.append(ks[0])
    S.eq('list changed afterwards', C.evaluate(S.array([x, y])), v)
    G2 = S.graphs.Graph(shape(S, 'k2', name='v'))
    F2 = F(G2)
    S.check('graph', F2.G is G2 and F.G is G and F2.Nf == 3)
    S.eq('rebound', F2.evaluate(S.array([x])), [r[:1] for r in v])
    s = S.vec('s', 2)
    H = operators(S, ref.laplacian(G2.W.toarray()), ks)
    out = F2.filter(s, method='exact')
    for k in range(3):
        S.eq('rebound filter', out[:, k], ref.mm(H[k], s))


@harness('C09', cfgs=[dict(n=n) for n in (7, 20)])
def exact_larger(S, n):
    """fixed weighted graphs on 7 and 20 vertices: arbitrary signals (up to 12 symbolic entries),
    banks of 1..4 polynomial and rational kernels, both Laplacians"""
    W = ring_like(S, n)
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    nf = S.choice('nf', [1, 4])
    fs = [lambda x: x, lambda x: 1 / (1 + x), lambda x: x ** 2 - 1, lambda x: 0 * x + 2]
    F = S.filters.Filter(G, fs[:nf])
    L = ref.laplacian(W, lap)
    A = [[(1.0 if i == j else 0) + L[i][j] for j in range(n)] for i in range(n)]
    if S.flag('synthesis') and nf > 1:
        s = signal(S, (n, 2, nf))
        y = F.filter(s, method='exact')
        S.same('layout', tuple(y.shape), (n, 2))
        for c in range(2):
            t = [[s[i, c, k] for i in range(n)] for k in range(nf)]
            # apply (I + L) to remove the rational kernel
            lhs = ref.mm(A, y[:, c])
            rhs = apply_poly(L, A, t)
            S.eq('synthesis', S.array(lhs), rhs)
        return
    s = signal(S, (n, 3))
    y = F.filter(s, method='exact')
    S.same('layout', tuple(y.shape), (n, 3, nf) if nf > 1 else (n, 3))
    for c in range(3):
        z = y[:, c, :] if nf > 1 else S.np.reshape(y[:, c], (n, 1))
        x = [s[i, c] for i in range(n)]
        S.eq('x', z[:, 0], ref.mm(L, x))
        if nf > 1:
            S.eq('1/(1+x)', S.array(ref.mm(A, z[:, 1])), x)
            S.eq('x^2-1', z[:, 2], [a - b for a, b in zip(ref.mm(L, ref.mm(L, x)), x)])
            S.eq('2', z[:, 3], [2 * a for a in x])


def apply_poly(L, A, t):
    a = ref.mm(A, ref.mm(L, t[0]))
    b = t[1]
    c = ref.mm(A, [p - q for p, q in zip(ref.mm(L, ref.mm(L, t[2])), t[2])])
    d = ref.mm(A, [2 * p for p in t[3]])
    return [ref.tot(x) for x in zip(a, b, c, d)]


def ring_like(S, n):
    W = S.np.zeros((n, n))
    for i in range(n):
        W[i, (i + 1) % n] = W[(i + 1) % n, i] = 1 + (i % 3) / 2
    W[1, n // 2] = W[n // 2, 1] = 0.75
    return W


# ------------------------------------------------------------------ C10

def poly(c):
    def f(x):
        r = 0 * x
        for a in reversed(c):
            r = r * x + a
        return r
    return f


def apply_p(L, c, x):
    """sum_d c_d L^d x"""
    r = [0.0] * len(x)
    for a in reversed(c):
        r = [p + a * q for p, q in zip(ref.mm(L, r), x)]
    return r


LAYOUTS = ['1d', 'col', 'multi', 'multi1', 'synth1', 'synthm']
CALLS = [(nf, la, o) for nf in (1, 2, 3) for la in LAYOUTS for o in (1, 2, 3, 4)
         if nf > 1 or not la.startswith('synth')]
PAIRS = [c for i, c in enumerate(CALLS) if (i // 4 + i) % 4 == 0]


@harness('C10', cfgs=[dict(name=s, lmax=m) for s in ('k2', 'p3', 'k3', 'd3m', 'k2+1', 'e2')
                      for m in ('fourier', 'lanczos', 'bounds')], paths=200, budget=45)
def cheby(S, name, lmax):
    """2..3 vertices, weights in [1/8,8], both Laplacians, every way of estimating lmax, orders
    1..4 and 30, 1..3 polynomial kernels with arbitrary coefficients of degree up to 3, every
    signal layout"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    if lmax == 'fourier':
        G.compute_fourier_basis()
    else:
        G.estimate_lmax(lmax)
    S.assume(G.lmax > 0 or name == 'e2')
    L = ref.laplacian(W, lap)
    few = lmax != 'bounds' and name in ('p3', 'k3', 'd3m')
    nf, layout, order = S.choice('call', CALLS if n == 2 else PAIRS[::2] if few else PAIRS)
    deg = min(order, 3 if n == 2 or lmax == 'bounds' and lap == 'combinatorial' else 2)
    cs = [[S.real(f'a{k}_{d}') for d in range(deg + 1 if k != 1 else 2)]
          for k in range(nf)]
    F = S.filters.Filter(G, [poly(c) for c in cs])
    m = 2 if nf != 2 else 3
    sh = {'1d': (n,), 'col': (n, 1), 'multi': (n, m), 'multi1': (n, m, 1), 'synth1': (n, nf),
          'synthm': (n, m, nf)}[layout]
    s = signal(S, sh)
    snap = S.snapshot(s)
    y = F.filter(s, method='chebyshev', order=order)
    S.unchanged('signal kept', s, snap)
    if order == 30:
        S.eq('product', F @ s, y, obs=False)
    if layout.startswith('synth') and nf > 1:
        ms = 1 if layout == 'synth1' else m
        z = S.np.reshape(s, (n, ms, nf))
        out = (n, ms, 1)
        S.same('layout', tuple(y.shape), squeezed(out))
        for c in range(ms):
            w = [apply_p(L, cs[k], [z[j, c, k] for j in range(n)]) for k in range(nf)]
            S.eq('synthesis', S.array([get(y, out, (i, c, 0)) for i in range(n)]),
                 [ref.tot(r) for r in zip(*w)])
    else:
        ms = 1 if sh == (n,) else sh[1]
        z = S.np.reshape(s, (n, ms))
        out = (n, ms, nf)
        S.same('layout', tuple(y.shape), squeezed(out))
        for k in range(nf):
            for c in range(ms):
                S.eq('analysis', S.array([get(y, out, (i, c, k)) for i in range(n)]),
                     apply_p(L, cs[k], [z[j, c] for j in range(n)]))


@harness('C10', cfgs=[dict(n=n, order=k) for n in (6, 15) for k in (1, 2, 5, 30)], budget=30)
def cheby_larger(S, n, order):
    """fixed graphs on 6 and 15 vertices, orders 1, 2, 5, 30: polynomial kernels with arbitrary
    coefficients (degree up to 4), an arbitrary over-estimate of lmax, arbitrary signals"""
    W = ring_like(S, n)
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    L = ref.laplacian(W, lap)
    how = S.choice('lmax', ['default', 'bounds', 'fourier'])
    if how == 'bounds':
        G.estimate_lmax('bounds')
    elif how == 'fourier':
        G.compute_fourier_basis()
    deg = min(order, 4)
    cs = [[S.real(f'a{k}_{d}', -2, 2) for d in range(deg + 1)] for k in range(2)]
    F = S.filters.Filter(G, [poly(c) for c in cs])
    x = S.np.zeros(n)
    for i in (0, 2, n - 1):
        x[i] = S.real(f'x{i}')
    y = F.filter(x, order=order)
    S.same('layout', tuple(y.shape), (n, 2))
    xs = ref.grid(x)
    for k in range(2):
        S.eq('analysis', y[:, k], apply_p(L, cs[k], xs), tol=1e-5)
    z = F.filter(y, order=order)
    w = [apply_p(L, cs[k], apply_p(L, cs[k], xs)) for k in range(2)]
    S.eq('synthesis', z, [a + b for a, b in zip(*w)], tol=1e-5)


@harness('C10', cfgs=[dict(name=s) for s in ('k2', 'p3')])
def cheby_coefficients(S, name):
    """coefficients of polynomial kernels in the shifted Chebyshev basis, lists of coefficients,
    the operator on given arbitrary coefficients, orders too small"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    A = S.mod('filters.approximations')
    a = [S.real(f'a{d}') for d in range(3)]
    F = S.filters.Filter(G, [poly(a), poly(a[:2])])
    m = S.choice('m', [2, 3, 5])
    c = A.compute_cheby_coeff(F, m=m)
    S.same('one list per kernel', (len(c), len(c[0]), len(c[1])), (2, m + 1, m + 1))
    h = G.lmax / 2
    # x = h t + h with t in [-1, 1]: a0 + a1 x + a2 x^2 in T0, T1, T2
    want = [a[0] + a[1] * h + a[2] * h * h * 3 / 2, a[1] * h + a[2] * 2 * h * h,
            a[2] * h * h / 2]
    S.eq('coefficients', S.array([c[0][0] / 2, c[0][1], c[0][2]]), want)
    for d in range(3, m + 1):
        S.eq('no higher terms', c[0][d], 0)
    # arbitrary coefficients
    b = [[S.real(f'b{k}_{d}') for d in range(4)] for k in range(2)]
    s = S.vec('s', n)
    L = ref.laplacian(W)
    T = [s, [(p - h * q) / h for p, q in zip(ref.mm(L, s), s)]]
    for d in range(2, 4):
        T.append([2 * (p - h * q) / h - r for p, q, r in
                  zip(ref.mm(L, T[-1]), ref.grid(T[-1]), ref.grid(T[-2]))])
    want = []
    for k in range(2):
        for i in range(n):
            want.append(b[k][0] / 2 * T[0][i] + ref.tot(b[k][d] * T[d][i] for d in (1, 2, 3)))
    S.eq('operator', A.cheby_op(G, S.array(b), s), want)
    S.eq('operator, lists', A.cheby_op(G, [S.array(b[0]), S.array(b[1])], s), want)
    S.eq('operator, 1 kernel', A.cheby_op(G, S.array(b[0]), s), want[:n])
    s2 = S.array([[s[i], 2 * s[i] + 1] for i in range(n)])
    S.eq('operator, columns', A.cheby_op(G, S.array(b), s2)[:, 0], want)
    S.raises('order 0', TypeError, lambda: F.filter(s, order=0))
    S.raises('1 coefficient', TypeError, lambda: A.cheby_op(G, S.array([[1.0], [2.0]]), s))


@harness('C10', cfgs=[dict(dtype=d, layout=l) for d in SIGNALS for l in ('1d', 'multi', 'synth1')])
def cheby_types(S, dtype, layout):
    """boolean and integer signals (every value of the type) on a path of fixed weights"""
    W = S.np.array([[0, 1.5, 0], [1.5, 0, 0.25], [0, 0.25, 0]])
    G = S.graphs.Graph(W)
    G.estimate_lmax('bounds')
    cs = [[0.75, -0.3], [-2, 0.7]]
    F = S.filters.Filter(G, [poly(c) for c in cs])
    s, x = typed_signal(S, {'1d': (3,), 'multi': (3, 2, 1), 'synth1': (3, 2)}[layout], dtype)
    y = F.filter(s, order=S.choice('order', [1, 3]))
    L = ref.laplacian(W)
    col = lambda c: [x[i] if layout == '1d' else x[i, c] if layout == 'synth1' else x[i, c, 0]
                     for i in range(3)]
    if layout == 'synth1':
        S.eq('synthesis', y, [a + b for a, b in zip(apply_p(L, cs[0], col(0)),
                                                    apply_p(L, cs[1], col(1)))])
        return
    for k in range(2):
        for c in range(1 if layout == '1d' else 2):
            S.eq('analysis', y[:, k] if layout == '1d' else y[:, c, k],
                 apply_p(L, cs[k], col(c)))


@harness('C10', cfgs=[dict(dtype=d) for d in SIGNALS])
def operator_types(S, dtype):
    """the Chebyshev operator on boolean and integer signals"""
    W = S.np.array([[0, 1.5], [1.5, 0]])
    G = S.graphs.Graph(W)
    G.estimate_lmax('bounds')
    A = S.mod('filters.approximations')
    b = [0.3, 0.7, -0.25]
    sh = S.choice('shape', [(2,), (2, 2)])
    s, x = typed_signal(S, sh, dtype)
    r = A.cheby_op(G, S.array(b), s)
    S.same('shape', tuple(r.shape), sh)
    S.eq('same as double precision', r, A.cheby_op(G, S.array(b), x))
    h = G.lmax / 2
    L = ref.laplacian(W)
    for c in range(len(sh)):
        t = [x[i] if len(sh) == 1 else x[i, c] for i in range(2)]
        t1 = [(p - h * q) / h for p, q in zip(ref.mm(L, t), t)]
        t2 = [2 * (p - h * q) / h - o for p, q, o in zip(ref.mm(L, t1), t1, t)]
        S.eq('operator', r if len(sh) == 1 else r[:, c],
             [b[0] / 2 * p + b[1] * q + b[2] * o for p, q, o in zip(t, t1, t2)])


@harness('C10', cfgs=[dict(name=s) for s in ('k2', 'p3', 'k3')])
def cheby_linear(S, name):
    """arbitrary kernels, orders 1..6: the approximation is the same polynomial of the Laplacian
    for every signal (linear, commutes with L, columns independent)"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    ks = bank(S, S.choice('nf', [1, 2]))
    F = S.filters.Filter(G, ks)
    order = S.choice('order', [1, 2, 3])
    x, y = S.vec('x', n), S.vec('y', n)
    a = S.real('a')
    f = lambda s: F.filter(s, order=order)
    fx, fy = f(x), f(y)
    S.eq('linear', f(a * x + y), a * fx + fy)
    L = G.L
    lx = f(L.dot(x))
    if len(ks) == 1:
        S.eq('commutes', lx, L.dot(fx))
    else:
        for k in range(2):
            S.eq('commutes', lx[:, k], L.dot(fx[:, k]))
    X = S.np.zeros((n, 3))
    X[:, 0], X[:, 1], X[:, 2] = x, y, x
    fX = f(X)
    S.eq('columns', fX[:, 0], fx)
    S.eq('columns', fX[:, 1], fy)
    if len(ks) == 2:                       # synthesis is the adjoint of analysis
        z = S.mat('z', n, 2)
        S.eq('adjoint', ref.tot(fx[i, k] * z[i, k] for i in range(n) for k in range(2)),
             ref.dot(ref.grid(f(z)), ref.grid(x)))


# ------------------------------------------------------------------ C11

@harness('C11', cfgs=[dict(name=s, nf=k) for s in ('k2', 'p3', 'k3', 'd3m') for k in (1, 2, 3)],
         paths=40, budget=30)
def frame(S, name, nf):
    """2..3 vertices, banks of 1..3 arbitrary kernels (also as many kernels as vertices), exact
    and Chebyshev: the frame operator applied to any signal is the analysis of that signal"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    ks = bank(S, nf)
    F = S.filters.Filter(G, ks)
    method = S.choice('method', ['exact', 'chebyshev', 'default'][:3 if n == 2 else 2])
    s = S.vec('s', n)
    if method == 'exact':
        D = F.compute_frame(method='exact')
        y = F.filter(s, method='exact')
        H = operators(S, ref.laplacian(W), ks)
        S.eq('definition', D, [r for h in H for r in h])
    elif method == 'chebyshev':
        D = F.compute_frame(method='chebyshev', order=2)
        y = F.filter(s, method='chebyshev', order=2)
    else:
        S.assume(G.lmax > 0 or name == 'e2')
        c = [1.5, S.real('c'), 0.25]
        F = S.filters.Filter(G, [poly(c), poly([0.5, 1.0]), poly([-1.0])][:nf])
        D, y = F.compute_frame(), F.filter(s)
        S.eq('toarray', F.toarray(), D)
    S.same('shape', tuple(D.shape), (nf * n, n))
    Ds = D.dot(s)
    for k in range(nf):
        S.eq('analysis', Ds[k * n:(k + 1) * n], y[:, k] if nf > 1 else y)


@harness('C11', cfgs=[dict(n=6, nf=k) for k in (1, 2, 5, 6, 7)])
def frame_larger(S, n, nf):
    """fixed graph on 6 vertices, banks of 1..7 polynomial kernels"""
    G = S.graphs.Graph(ring_like(S, n))
    c = [S.real(f'c{k}', -2, 2) for k in range(nf)]
    F = S.filters.Filter(G, [poly([c[k], k / 2, 0.25]) for k in range(nf)])
    kw = S.choice('kw', [dict(method='exact'), dict(method='chebyshev', order=4), dict()])
    D = F.compute_frame(**kw)
    S.same('shape', tuple(D.shape), (nf * n, n))
    L = ref.laplacian(ring_like(S, n))
    for k in range(nf):
        for j in range(n):
            S.eq('column', D[k * n:(k + 1) * n, j],
                 apply_p(L, [c[k], k / 2, 0.25], [1.0 if i == j else 0.0 for i in range(n)]))


@harness('C11', cfgs=[dict(nf=k) for k in (1, 2, 3)])
def frame_bounds(S, nf):
    """banks of 1..3 arbitrary kernels at 1..4 arbitrary points of the spectrum"""
    G = S.graphs.Graph(shape(S, 'p3'))
    ks = bank(S, nf)
    F = S.filters.Filter(G, ks)
    m = S.choice('m', [1, 2, 3, 4])
    x = S.vec('x', m, 0, 16)
    A, B = F.estimate_frame_bounds(x)
    sq = [ref.tot(k(S.array([x[i]]))[0] ** 2 for k in ks) for i in range(m)]
    for v in sq:
        S.le('A is a lower bound', A, v)
        S.le('B is an upper bound', v, B)
    from symx import core
    S.check('A attained', any_eq(S, A, sq))
    S.check('B attained', any_eq(S, B, sq))
    A2, B2 = F.estimate_frame_bounds(x=ref.grid(x))
    S.eq('list', S.array([A2, B2]), [A, B], obs=False)


def any_eq(S, a, bs):
    if S.sym:
        from symx import core
        return core.s_or(*[core.s_cmp(a, b, '==') for b in bs])
    return any(abs(a - b) <= 1e-7 * max(1, abs(b)) for b in bs)


@harness('C11')
def frame_bounds_default(S):
    """default grid of 1000 points of [0, lmax], linear and quadratic kernels with arbitrary
    coefficients: the bounds hold at both ends, the middle and are attained on the grid"""
    G = S.graphs.Graph(shape(S, 'k2'))
    a, b = S.real('a', 0, 4), S.real('b', 0, 4)
    F = S.filters.Filter(G, [lambda x: a + b * x])
    A, B = F.estimate_frame_bounds()
    lo, hi = a * a, (a + b * G.lmax) ** 2
    S.eq('A', A, lo)
    S.eq('B', B, hi)


@harness('C11', cfgs=[dict(name=s, nf=k) for s in ('k2', 'p3', 'd3m') for k in (1, 2, 3)],
         paths=60, budget=30)
def complement(S, name, nf):
    """banks of 1..3 arbitrary kernels plus complement: summed squares equal the bound at every
    evaluated point; infeasible bounds rejected"""
    G = S.graphs.Graph(shape(S, name))
    ks = bank(S, nf)
    F = S.filters.Filter(G, ks)
    m = 3
    x = S.vec('x', m, 0, 16)
    v = F.evaluate(x)
    sq = [ref.tot(v[k, i] ** 2 for k in range(nf)) for i in range(m)]
    top = S.np.max(S.array(sq))
    if S.flag('given'):
        B = S.real('B', 0, 64)
        C = F.complement(frame_bound=B)
        if bool(B < top):
            S.assume(B < top - 1e-6)
            S.raises('bound too small', ValueError, lambda: C.evaluate(x))
            return
    else:
        B = top
        C = F.complement()
    S.check('one more filter', C.Nf == 1 and F.Nf == nf and C.G is G)
    T = F + C if S.flag('sum') else None
    y = C.evaluate(x)
    for i in range(m):
        S.le('non-negative', 0, y[0, i])
        S.eq('tight', y[0, i] ** 2 + sq[i], B)
    if T is not None:
        S.same('size', T.Nf, nf + 1)
        A1, B1 = T.estimate_frame_bounds(x)
        S.eq('tight bounds', S.array([A1, B1]), [B, B])


@harness('C11', cfgs=[dict(nf=k) for k in (1, 2, 3)], paths=60, budget=30)
def inverse(S, nf):
    """banks of 1..3 arbitrary kernels: the inverse bank satisfies sum_k h_k g_k = 1 wherever the
    responses do not all vanish, is the least-norm one, and vanishes elsewhere; and reconstructs
    any signal analysed on a 2-vertex graph"""
    W = shape(S, 'k2')
    G = S.graphs.Graph(W)
    cs = [[S.real(f'a{k}_{d}') for d in range(2)] for k in range(nf)]
    F = S.filters.Filter(G, [poly(c) for c in cs])
    x = S.vec('x', 2, 0, 16)
    v = F.evaluate(x)
    # the bounds only decide which warning is logged: any valid answer will do
    lo, hi = S.choice('bounds', [(0.0, 1.0), (1e-12, 1.0), (0.5, 1.0)])
    F.estimate_frame_bounds = lambda *a, **k: (lo, hi)
    R = F.inverse()
    S.same('size', (R.Nf, F.Nf), (nf, nf))
    h = R.evaluate(x)
    for i in range(2):
        q = ref.tot(v[k, i] ** 2 for k in range(nf))
        if bool(q == 0):
            for k in range(nf):
                S.eq('vanishes', h[k, i], 0)
        else:
            S.assume(q > 1e-3)
            S.eq('left inverse', ref.tot(v[k, i] * h[k, i] for k in range(nf)), 1)
            for k in range(nf):
                S.eq('least norm', h[k, i] * q, v[k, i])


@harness('C11', cfgs=[dict(name=s, nf=k) for s in ('k2', 'p3', 'k3') for k in (1, 2, 3)],
         paths=30, budget=30)
def inverse_reconstructs(S, name, nf):
    """2..3 vertices, banks of 1..3 kernels bounded below: synthesis with the inverse bank
    reconstructs every signal; composing analysis with the pseudo-inverse frame is the identity"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    a = S.real('a', Fraction(1, 2), 3)
    fs = [lambda x: a + x, lambda x: x * x / 8, lambda x: 1 - x]
    F = S.filters.Filter(G, fs[:nf])
    s = S.vec('s', n)
    y = F.filter(s, method='exact')
    F.estimate_frame_bounds = lambda *a, **k: (0.25, 400.0)    # only decides what is logged
    z = F.inverse().filter(y, method='exact')
    S.eq('reconstruction', z, s)


# ------------------------------------------------------------------ C13

@harness('C13', cfgs=[dict(name=s, nf=k) for s in SH3 for k in (1, 2)], paths=60, budget=30)
def localize(S, name, nf):
    """2..3 vertices, banks of 1..2 arbitrary kernels (polynomials for Chebyshev), every vertex,
    both Laplacians: sqrt(N) times the response to an impulse"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    L = ref.laplacian(W, lap)
    i = S.choice('i', list(range(n)))
    if S.flag('chebyshev'):
        G.estimate_lmax('bounds')
        cs = [[S.real(f'a{k}_{d}') for d in range(3)] for k in range(nf)]
        F = S.filters.Filter(G, [poly(c) for c in cs])
        y = F.localize(i, order=2)
        d = [1.0 if j == i else 0.0 for j in range(n)]
        want = [apply_p(L, c, d) for c in cs]
    else:
        ks = bank(S, nf)
        F = S.filters.Filter(G, ks)
        y = F.localize(i, method='exact')
        want = [[h[j][i] for j in range(n)] for h in operators(S, L, ks)]
    S.same('layout', tuple(y.shape), (n,) if nf == 1 else (n, nf))
    for k in range(nf):
        S.eq('localized', y if nf == 1 else y[:, k], [ref.sqrt(n) * w for w in want[k]], tol=1e-6)
    S.eq('negative index', F.localize(i - n, method='exact'), F.localize(i, method='exact'))
    for bad in (n, n + 3, -n - 1):
        S.raises('vertex', IndexError, lambda: F.localize(bad))


@harness('C13', cfgs=[dict(name=s, lap=l) for s in SH3 for l in ('combinatorial', 'normalized')],
         paths=40, budget=30)
def gabor(S, name, lap):
    """2..3 vertices, arbitrary kernel: analysis with kernels centred at each eigenvalue, one and
    several signals; ill-suited kernels rejected"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W, lap_type=lap)
    a, b, c = S.real('a'), S.real('b'), S.real('c')
    g = poly([a, b, c])
    F = S.filters.Gabor(G, S.filters.Filter(G, g))
    S.same('size', (F.Nf, F.n_features_out), (n, n))
    e, U = S.eigh(ref.laplacian(W, lap))
    x = S.vec('x', 2, 0, 16)
    v = F.evaluate(x)
    S.same('shape', tuple(v.shape), (n, 2))
    for k in range(n):
        S.eq('centred', v[k], [g(x[i] - e[k]) for i in range(2)])
    m = S.choice('m', [None, 1, 2, n + 1])
    s = signal(S, (n,) if m is None else (n, m, 1))
    y = F.filter(s)
    out = (n, m or 1, n)
    S.same('layout', tuple(y.shape), squeezed(out))
    for j in range(m or 1):
        sh = ref.mm(ref.tr(U), [s[i] if m is None else s[i, j, 0] for i in range(n)])
        for k in range(n):
            S.eq('analysis', S.array([get(y, out, (i, j, k)) for i in range(n)]),
                 [ref.tot(U[i, l] * g(e[l] - e[k]) * sh[l] for l in range(n)) for i in range(n)],
                 tol=1e-6)
    H = S.graphs.Graph(shape(S, 'k2', name='v'))
    S.raises('other graph', ValueError,
             lambda: S.filters.Gabor(G, S.filters.Filter(H, g)))
    S.raises('two kernels', ValueError,
             lambda: S.filters.Gabor(G, S.filters.Filter(G, [g, g])))


@harness('C13', cfgs=[dict(name=s, first=f) for s in ('k2', 'd2', 'k2+1', 'e2', 'e3')
                     for f in (False, True)], paths=40, budget=30)
def modulation(S, name, first):
    """2..3 vertices, arbitrary kernel values and signal: windowed Fourier transform (localize
    first) or modulated kernels (modulate first); evaluation at and off the eigenvalues"""
    W = shape(S, name)
    n = W.shape[0]
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    c = [S.real(f'a{d}', -2, 2) for d in range(3)]
    g = poly(c)
    F = S.filters.Modulation(G, S.filters.Filter(G, g), modulation_first=first)
    S.same('size', F.Nf, n)
    U, e = G.U, G.e
    L = ref.laplacian(W, lap)
    # modulated kernels: row k holds the Fourier transform of sqrt(N) u_k . igft(g(e))
    ge = [g(e[k]) for k in range(n)]
    h = [ref.tot(U[i, k] * ge[k] for k in range(n)) for i in range(n)]
    M = [[ref.tot(U[i, k] * ref.sqrt(n) * U[i, m] * h[i] for i in range(n)) for m in range(n)]
         for k in range(n)]
    s = S.vec('s', n)
    if first:
        simple = all(bool(e[k + 1] - e[k] > 1e-3) for k in range(n - 1))
        S.assume(simple)
        v = F.evaluate(e)
        S.same('shape', tuple(v.shape), (n, n))
        S.eq('evaluate', v, M, obs=False)
        off = F.evaluate(S.array([e[n - 1] + 1.0]))
        S.check('NaN elsewhere', all(x != x for x in ref.grid(off[:, 0])))
        y = F.filter(s)
        sh = ref.mm(ref.tr(U), s)
        want = [[ref.tot(U[i, m] * M[k][m] * sh[m] for m in range(n)) for k in range(n)]
                for i in range(n)]
    else:
        y = F.filter(s)
        want = []
        for i in range(n):
            w = apply_p(L, c, [1.0 if j == i else 0.0 for j in range(n)])
            x = [s[j] * w[j] * ref.sqrt(n) for j in range(n)]
            want.append([ref.sqrt(n) * ref.tot(U[j, k] * x[j] for j in range(n))
                         for k in range(n)])
    S.same('layout', tuple(y.shape), (n, n))
    S.eq('coefficients', y, want, tol=1e-6, obs=False)
    H = S.graphs.Graph(shape(S, 'k2', name='v'))
    S.raises('other graph', ValueError,
             lambda: S.filters.Modulation(G, S.filters.Filter(H, g)))
    S.raises('two kernels', ValueError,
             lambda: S.filters.Modulation(G, S.filters.Filter(G, [g, g])))


@harness('C13', cfgs=[dict(n=n) for n in (5, 9)])
def atoms_larger(S, n):
    """fixed graphs on 5 and 9 vertices: localisation at every vertex, Gabor and both modulations,
    arbitrary signal"""
    W = ring_like(S, n)
    G = S.graphs.Graph(W)
    L = ref.laplacian(W)
    a = S.real('a')
    g = poly([a, 0.5, 0.25])
    F = S.filters.Filter(G, g)
    x = S.np.zeros(n)
    for i in (0, 1, n - 1):
        x[i] = S.real(f'x{i}')
    xs = ref.grid(x)
    what = S.choice('what', ['localize', 'gabor', 'window'])
    if what == 'localize':
        for i in range(n):
            d = [1.0 if j == i else 0.0 for j in range(n)]
            S.eq('localized', F.localize(i, method='exact'),
                 [ref.sqrt(n) * t for t in apply_p(L, [a, 0.5, 0.25], d)])
            S.eq('localized', F.localize(i, order=4),
                 [ref.sqrt(n) * t for t in apply_p(L, [a, 0.5, 0.25], d)])
    elif what == 'gabor':
        y = S.filters.Gabor(G, F).filter(x)
        e = G.e
        for k in range(n):
            S.eq('gabor', y[:, k], apply_p(L, [a - e[k] / 2 + e[k] ** 2 / 4, 0.5 - e[k] / 2, 0.25],
                                          xs))
    else:
        y = S.filters.Modulation(G, F).filter(x)
        for i in range(n):
            d = [1.0 if j == i else 0.0 for j in range(n)]
            w = apply_p(L, [a, 0.5, 0.25], d)
            S.eq('window', y[i], [n * ref.tot(G.U[j, k] * xs[j] * w[j] for j in range(n))
                                  for k in range(n)])
