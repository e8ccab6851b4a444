"""C16 Tikhonov regression and classification."""
from fractions import Fraction
from itertools import product

from symx.session import harness
from . import ref
from .common import SIGNALS, TYPES, typed, typed_signal, SHAPES, DSHAPES, any_graph, shape
from .h_c14 import reach

NAN = float('nan')


def masks(n, L):
    """Masks with a measurement in every component."""
    r = []
    for m in product([True, False], repeat=n):
        if all(any(m[j] for j in reach(L, i)) for i in range(n)):
            r.append(list(m))
    return r


def edges_of(name):
    n, e = SHAPES.get(name) or DSHAPES[name]
    comp = {i: {i} for i in range(n)}
    for i, j in e:
        c = comp[i] | comp[j]
        for k in c:
            comp[k] = c
    return n, [sorted(comp[i]) for i in range(n)]


def all_masks(name):
    n, comp = edges_of(name)
    return [list(m) for m in product([True, False], repeat=n)
            if all(any(m[j] for j in comp[i]) for i in range(n))]


def column(x, j):
    return [r if j is None else r[j] for r in ref.grid(x)]


def optimal(S, label, L, x, y, M, tau, tol):
    """x minimises |Mx - y|^2 + tau x'Lx (tau > 0) or x'Lx with Mx = y (tau = 0)."""
    n = len(L)
    if tau is None:
        S.eq(label + ': measurements kept', [x[i] for i in range(n) if M[i]],
             [y[i] for i in range(n) if M[i]], tol=1e-9)
        S.eq(label + ': harmonic', [ref.tot(L[i][k] * x[k] for k in range(n))
                                    for i in range(n) if not M[i]],
             [0.0] * (n - sum(M)), tol=tol)
    else:
        S.eq(label + ': stationary',
             [(x[i] if M[i] else 0.0) + tau * ref.tot(L[i][k] * x[k] for k in range(n))
              for i in range(n)], [y[i] if M[i] else 0.0 for i in range(n)], tol=tol, obs=False)


@harness('C16', cfgs=[dict(name=s, lap=l) for s in ('k2', 'p3', 'k3', 'k2+1', 'd2', 'd3c', 'd3m')
                      for l in ('combinatorial', 'normalized') if (s, l) not in (
                          ('k3', 'normalized'), ('d3c', 'normalized'), ('d3m', 'normalized'))],
         paths=120, budget=40)
def regression(S, name, lap):
    """2..3 vertices, arbitrary weights, mask (with a measurement per component), measurements
    (none needed off the mask), tau in [1/8, 8] or 0, one or several columns: the result satisfies
    the optimality conditions"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    G = S.graphs.Graph(W, lap_type=lap)
    L = ref.laplacian(W, lap)
    M = S.choice('M', all_masks(name))
    tau = S.real('tau', Fraction(1, 8), 8) if S.flag('tau') else None
    m = S.choice('m', [None, 2, 1])
    y = ref.grid(S.vec('y', n) if m is None else S.mat('y', n, m))
    off = S.choice('off', ['nan', 'value'])
    if off == 'nan':
        y = [y[i] if M[i] else (NAN if m is None else [NAN] * m) for i in range(n)]
    Y = S.array(y)
    Ma = S.np.array(M)
    snap = S.snapshot(Y)
    if tau is None and S.flag('default'):
        x = S.mod('learning').regression_tikhonov(G, Y, Ma)
    else:
        x = S.mod('learning').regression_tikhonov(G, Y, Ma, 0 if tau is None else tau)
    S.unchanged('measurements untouched', Y, snap)
    S.same('mask untouched', [bool(b) for b in Ma], M)
    S.same('shape', tuple(x.shape), tuple(Y.shape))
    for j in range(m or 1):
        optimal(S, 'column', L, column(x, None if m is None else j),
                [r if m is None else r[j] for r in y], M, tau, 1e-3 if tau is not None else 1e-6)


@harness('C16', cfgs=[dict(dtype=d, tau=t) for d in SIGNALS for t in (0, 0.5)], paths=100)
def regression_types(S, dtype, tau):
    """boolean and integer measurements (every value of the type) on a path of fixed weights"""
    W = [[0, 1.5, 0], [1.5, 0, 0.25], [0, 0.25, 0]]
    G = S.graphs.Graph(S.np.array(W))
    M = S.choice('M', [[True, False, True], [True, True, False], [False, True, False],
                       [True, True, True]])
    cols = S.choice('columns', [None, 2])
    y, v = typed_signal(S, (3,) if cols is None else (3, 2), dtype)
    x = S.mod('learning').regression_tikhonov(G, y, S.np.array(M), tau)
    for j in range(cols or 1):
        c = None if cols is None else j
        optimal(S, 'column', ref.laplacian(W), column(x, c), column(v, c), M, tau or None, 0.05)


@harness('C16', cfgs=[dict(dtype=d) for d in TYPES], paths=100)
def regression_weights(S, dtype):
    """boolean, 8, 16 and 64-bit integer weights (every value of the type), single precision"""
    W, A = typed(S, 'p3', dtype)
    G = S.graphs.Graph(W)
    M = S.choice('M', [[True, False, True], [True, False, False]])
    y = [1.0, 0.0, -2.5]
    x = S.mod('learning').regression_tikhonov(G, S.array(y), S.np.array(M), 0)
    a, b = A[0][1], A[1][2]
    want = [1.0, (a - 2.5 * b) / (a + b), -2.5] if M[2] else [1.0] * 3
    S.eq('harmonic', x, want, tol=1e-5)


@harness('C16', cfgs=[dict(n=n, kind=k) for n, k in ((4, 'c4'), (6, 'grid'), (30, 'path'))])
def regression_larger(S, n, kind):
    """fixed graphs of 4..30 vertices, three arbitrary measurements among fixed ones, tau in
    {0, 0.01, 1, 1000}, integers or reals"""
    import numpy as np
    W = np.zeros((n, n))
    for i in range(n - 1):
        W[i, i + 1] = W[i + 1, i] = 1 + i / 4 if n < 10 else 1.0
    if n < 10:
        W[0, n - 1] = W[n - 1, 0] = 0.5
    G = S.graphs.Graph(W)
    L = ref.laplacian(W)
    M = [i % 3 != 1 for i in range(n)]
    tau = S.choice('tau', [0, 0.01, 1.0, 1000])
    if S.flag('integers'):
        y = [(3 * i * i + 1) % 7 - 2 for i in range(n)]
        Y = S.np.array(y)
    else:
        y = ref.grid(S.vec('y', 3)) + [0.5 * ((3 * i) % 5) - 1 for i in range(3, n)]
        Y = S.array(y)
    x = S.mod('learning').regression_tikhonov(G, Y, S.np.array(M), tau)
    optimal(S, 'larger', L, ref.grid(x), y, M, tau or None, 1e-2 if tau else 1e-6)


@harness('C16', cfgs=[dict(name=s) for s in ('k2', 'p3', 'k3', 'k2+1', 'd3m')], paths=400,
         budget=40)
def classification(S, name):
    """2..3 vertices, arbitrary weights, every mask and labelling with 1..3 classes: the logits are
    the regression of the one-hot labels"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    L = ref.laplacian(W)
    M = S.choice('M', all_masks(name))
    tau = S.real('tau', Fraction(1, 8), 8) if S.flag('tau') else None
    labels = [S.choice(f'y{i}', [0, 1, 2] if n == 2 else [0, 2]) if M[i] else -1
              for i in range(n)]
    # What is not measured may be anything, not a number included.
    unknown = S.choice('unmeasured', [7.0, NAN]) if not all(M) else -1
    Y = S.np.array([v if m else unknown for v, m in zip(labels, M)])
    x = S.mod('learning').classification_tikhonov(G, Y, S.np.array(M), tau or 0)
    S.check('labels untouched', all(a == (v if m else unknown) or (a != a and unknown != unknown and not m)
                                    for a, v, m in zip(Y.tolist(), labels, M)))
    k = max(v for v in labels if v >= 0) + 1
    S.check('a column per class', len(x.shape) == 2 and x.shape[0] == n and x.shape[1] == k)
    for c in range(k):
        optimal(S, 'logits', L, column(x, c), [1.0 if v == c else 0.0 for v in labels], M, tau,
                1e-3 if tau is not None else 1e-6)


@harness('C16', cfgs=[dict(name=s, d=d) for s, d in (('k2', 2), ('k2', 3), ('p3', 2), ('k3', 2),
                                                     ('d2', 3), ('k2+1', 2))], paths=150, budget=40)
def simplex(S, name, d):
    """2..3 vertices, 2..3 classes, arbitrary weights and tau, every mask and labelling: the solver
    is given the documented objective, its gradient, a step below 2/Lipschitz, the projection on
    the simplex and the one-hot labels, and its solution is returned"""
    W = shape(S, name, lo=Fraction(1, 2), hi=2)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    L = ref.laplacian(W)
    M = [True] + [S.flag(f'M{i}') for i in range(1, n)]
    labels = [d - 1] + [S.choice(f'y{i}', [0, d - 1]) if M[i] else -1 for i in range(1, n)]
    tau = S.real('tau', Fraction(1, 8), 8)
    Y = S.np.array(labels)
    with S.solver() as calls:
        out = S.mod('learning').classification_tikhonov_simplex(G, Y, S.np.array(M), tau,
                                                                verbosity='NONE', maxit=7)
    S.same('labels untouched', [int(v) for v in Y], labels)
    S.same('one problem', len(calls), 1)
    functions, x0, step, kw = calls[0]
    S.same('options', kw, dict(verbosity='NONE', maxit=7))
    S.eq('initial point', x0, [[1.0 if M[i] and labels[i] == c else 0.0 for c in range(d)]
                               for i in range(n)])
    S.eq('solution returned', out, x0)
    X = S.mat('X', n, d)
    x = ref.grid(X)
    y = [[1.0 if labels[i] == c else 0.0 for c in range(d)] for i in range(n)]
    Lx = ref.mm(L, x)
    smooth = [f for f in functions if getattr(f, '_grad', None) is not None and '_grad' in f.__dict__]
    S.check('smooth part', len(smooth) >= 1)
    cost = ref.tot(f._eval(X.copy()) for f in smooth)
    S.eq('objective', cost, ref.tot((x[i][c] - y[i][c]) * (x[i][c] - y[i][c]) for i in range(n)
                                    if M[i] for c in range(d))
         + tau * ref.tot(x[i][c] * Lx[i][c] for i in range(n) for c in range(d)), tol=1e-6)
    g = smooth[0]._grad(X.copy())
    for f in smooth[1:]:
        g = g + f._grad(X.copy())
    S.eq('gradient', g, [[2 * ((x[i][c] - y[i][c] if M[i] else 0.0) + tau * Lx[i][c])
                          for c in range(d)] for i in range(n)], tol=1e-6)
    if n == 2:      # the only non-zero eigenvalue is twice the weight
        S.le('step below 2/Lipschitz', step * (1 + tau * 2 * L[0][0]), 1.0)
    else:
        S.check('positive step', step > 0)


@harness('C16', cfgs=[dict(n=n, s=s) for n in (2, 3, 4) for s in (1e-9, 1, 1e6)])
def simplex_step(S, n, s):
    """complete graphs of 2..4 vertices of equal arbitrary weights of any magnitude, arbitrary tau,
    exact and estimated largest eigenvalue: the step is below 2/Lipschitz"""
    w = S.real('w', Fraction(1, 64), 64) * s
    G = S.graphs.Graph(S.array([[0.0 if i == j else w for j in range(n)] for i in range(n)]))
    if S.flag('bound'):
        G.estimate_lmax('bounds')
    tau = S.real('tau', Fraction(1, 64), 64)
    with S.solver() as calls:
        S.mod('learning').classification_tikhonov_simplex(
            G, S.np.array([0, 1] + [0] * (n - 2)), S.np.array([True] * n), tau, verbosity='NONE')
    step = calls[0][2]
    S.check('positive step', step > 0)
    S.le('step below 2/Lipschitz', step * (1 + tau * n * w), 1.0)


@harness('C16', cfgs=[dict(d=d) for d in (1, 2, 3, 4)], paths=300)
def simplex_projection(S, d):
    """1..4 classes, arbitrary points: the proximal step is the Euclidean projection on the
    probability simplex, whatever its step"""
    W = S.np.array([[0.0, 1.0], [1.0, 0.0]])
    G = S.graphs.Graph(W)
    with S.solver() as calls:
        S.mod('learning').classification_tikhonov_simplex(
            G, S.np.array([d - 1, 0]), S.np.array([True, False]), 0.5)
    functions = calls[0][0]
    prox = [f for f in functions if '_prox' in f.__dict__]
    S.same('one constraint', len(prox), 1)
    X = S.array([ref.grid(S.vec('x', d)), [0.25 * i for i in range(d)]])
    p = prox[0]._prox(X.copy(), S.choice('step', [0.25, 2.0]))
    for k in range(2):
        x, q = ref.grid(X)[k], ref.grid(p)[k]
        S.eq('sums to one', ref.tot(q), 1.0)
        S.le('non-negative', [0.0] * d, q)
        # optimality: <x - q, e_c - q> <= 0 for every vertex e_c of the simplex
        in_ = ref.tot((x[c] - q[c]) * q[c] for c in range(d))
        S.le('closest', [x[c] - q[c] - in_ for c in range(d)], [0.0] * d)


@harness('C16', cfgs=[dict(name=s) for s in ('k2', 'p3')])
def rejects(S, name):
    """masks of another size, non-positive tau on the simplex"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W)
    le = S.mod('learning')
    y = S.vec('y', n)
    for k in (n - 1, n + 1):
        S.raises('mask', ValueError, lambda: le.regression_tikhonov(G, y, S.np.ones(k, dtype=bool)))
    for t in (0, -1.0):
        S.raises('tau', ValueError, lambda: le.classification_tikhonov_simplex(
            G, S.np.zeros(n, dtype=int), S.np.ones(n, dtype=bool), t))
