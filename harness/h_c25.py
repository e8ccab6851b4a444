"""C25 layouts."""
import itertools
import math
from fractions import Fraction

from symx.session import harness

from . import ref
from .common import shape
from .h_c09 import ring_like

TAU = 2 * math.pi


def some_graph(S, n):
    """Path (possibly directed) with arbitrary weights."""
    W = S.np.zeros((n, n))
    directed = S.flag('directed')
    for i in range(n - 1):
        W[i, i + 1] = S.real(f'w{i}', Fraction(1, 8), 8)
        if not directed:
            W[i + 1, i] = W[i, i + 1]
    return S.graphs.Graph(W), W


@harness('C25', cfgs=[dict(hi=8)], thorough=[dict(hi=16)], paths=400)
def positions(S, hi):
    """lines, circles of 1..8 vertices (16 when thorough)"""
    n = S.int('n', 1, hi)
    G, W = some_graph(S, n)
    snap = S.snapshot(G.W)
    kind = S.choice('kind', ['line1D', 'line2D', 'ring2D'])
    G.set_coordinates(kind, seed=S.choice('seed', [None, 3]))
    want = {'line1D': [i for i in range(n)], 'line2D': [[i, 0] for i in range(n)],
            'ring2D': [[math.cos(TAU * i / n), math.sin(TAU * i / n)] for i in range(n)]}[kind]
    S.same('shape', tuple(G.coords.shape), (n,) if kind == 'line1D' else (n, 2))
    S.eq('coordinates', G.coords, want, tol=1e-9)
    S.unchanged('connectivity kept', G.W, snap)
    S.eq('weights', S.dense(G.W), W)
    S.same_random('global generator untouched')


@harness('C25', cfgs=[dict(hi=4)], thorough=[dict(hi=6)], paths=400)
def given(S, hi):
    """given coordinates of 1..4 vertices (6 when thorough), arrays, lists and tuples, any values;
    malformed ones are rejected and leave the graph as it was"""
    n = S.int('n', 1, hi)
    G, W = some_graph(S, n)
    snap = S.snapshot(G.W)
    G.set_coordinates('line1D')
    shapes = [(n,), (n, 1), (n, 2), (n, 3), (n, 2, 1)]
    bad = [(n, 4), (n + 1,), (n + 1, 2), (n, 2, 2), (1, n + 1, 2)] + ([(2, n), (3, n)] if n > 3 else []) + \
          ([(n - 1, 3)] if n > 1 else [()])
    sh = S.choice('shape', shapes + bad)
    k = math.prod(sh)
    X = S.np.reshape(S.array([S.real(f'x{i}') for i in range(k)]), sh)
    form = S.choice('form', ['array', 'list', 'tuple'])
    Y = X if form == 'array' or sh == () else \
        [list(r) if len(sh) == 2 else r for r in X]
    if form == 'tuple' and sh != ():
        Y = tuple(Y)
    s = S.snapshot(X)
    if sh in bad:
        S.raises('malformed', ValueError, lambda: G.set_coordinates(Y))
        S.eq('previous coordinates kept', G.coords, list(range(n)))
    else:
        G.set_coordinates(Y)
        d = [m for m in sh[1:] if m != 1]
        S.same('shape', tuple(G.coords.shape), (n, *d))
        S.eq('coordinates', S.np.reshape(G.coords, (n, -1)), S.np.reshape(X, (n, -1)))
    S.unchanged('array kept', X, s)
    S.unchanged('connectivity kept', G.W, snap)


@harness('C25')
def unknown(S):
    """names which are no layout, graphs without communities, too few vertices for eigenmaps"""
    n = S.int('n', 1, 3)
    G, W = some_graph(S, n)
    snap = S.snapshot(G.W)
    G.set_coordinates('line1D')
    kind = S.choice('kind', ['', 'ring', 'line3D', 'Spring', 'random', 'spring2D', 'ring2d'])
    S.raises('unknown', ValueError, lambda: G.set_coordinates(kind))
    S.raises('no communities', Exception, lambda: G.set_coordinates('community2D'))
    G.info = dict(other=1)
    S.raises('no labels', Exception, lambda: G.set_coordinates('community2D'))
    for d in (2, 3):
        if n <= d:
            S.raises('too few vertices', Exception,
                     lambda: G.set_coordinates(f'laplacian_eigenmap{d}D'))
    S.eq('previous coordinates kept', G.coords, list(range(n)))
    S.unchanged('connectivity kept', G.W, snap)


@harness('C25', cfgs=[dict(hi=4)], thorough=[dict(hi=7)])
def random_layout(S, hi):
    """every outcome of the generator for 1..4 vertices (7 when thorough)"""
    n = S.int('n', 1, hi)
    G, W = some_graph(S, n)
    snap = S.snapshot(G.W)
    d = S.choice('dim', [2, 3])
    G.set_coordinates(f'random{d}D', seed=7)
    X = G.coords
    S.same('shape', tuple(X.shape), (n, d))
    for i in range(n):
        for t in range(d):
            S.le('above', 0, X[i, t])
            S.le('below', X[i, t], 1)
    G.set_coordinates('line1D')
    G.set_coordinates(f'random{d}D', seed=7)
    S.eq('reproducible', G.coords, X)
    S.unchanged('connectivity kept', G.W, snap)
    S.same_random('global generator untouched')


@harness('C25', cfgs=[dict(n=n, given=g) for n in (1, 2, 4) for g in (False, True)], paths=200)
def community_layout(S, n, given):
    """1..4 vertices, any assignment to up to 3 communities (empty ones included), any radius of
    the world, every outcome of the generator"""
    G, W = some_graph(S, n)
    snap = S.snapshot(G.W)
    k = 3
    lab = [S.choice(f'z{i}', list(range(k))) for i in range(n)]
    size = [lab.count(c) for c in range(max(lab) + 1)]
    G.info = dict(node_com=S.np.array(lab))
    if given:
        G.info['comm_sizes'] = S.np.array(size)
        rad = G.info['world_rad'] = S.real('world', Fraction(1, 2), 8)
    else:
        rad = math.sqrt(n)
    G.set_coordinates('community2D', seed=5)
    X = G.coords
    S.same('shape', tuple(X.shape), (n, 2))
    S.same('sizes', [int(c) for c in G.info['comm_sizes']], size)
    S.same('labels kept', [int(c) for c in G.info['node_com']], lab)
    m = len(size)
    for i in range(n):
        a = TAU * (lab[i] + 1) / m
        c = G.info['com_coords'][lab[i]]
        S.eq('center', c, [rad * math.cos(a), rad * math.sin(a)])
        dx, dy = X[i, 0] - c[0], X[i, 1] - c[1]
        S.le('inside the community', dx * dx + dy * dy, size[lab[i]] + 1e-6)
    G.set_coordinates('line1D')
    G.set_coordinates('community2D', seed=5)
    S.eq('reproducible', G.coords, X)
    S.unchanged('connectivity kept', G.W, snap)
    S.same_random('global generator untouched')


@harness('C25', cfgs=[dict(name=s, d=d) for s in ('p3', 'k3', 'k2+1', 'd3m') for d in (2,)] +
         [dict(name=s, d=d) for s in ('c5', 'c9') for d in (2, 3)] + [dict(name='c4', d=3)],
         paths=60)
def eigenmap(S, name, d):
    """3 vertices with weights in [1/8,8], fixed graphs on 4..9: coordinates are the eigenvectors
    of the smallest eigenvalues but the first, whatever has been computed before"""
    if name[0] == 'c':
        n = int(name[1])
        W = S.np.array([[1.0 if abs(i - j) in (1, n - 1) and (i, j) not in ((0, 1), (1, 0)) else 0.0
                         for j in range(n)] for i in range(n)]) if n == 4 else ring_like(S, n)
    else:
        W = shape(S, name)
        n = 3
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    G = S.graphs.Graph(W, lap_type=lap)
    snap = S.snapshot(G.W)
    if S.flag('before'):
        G.compute_fourier_basis()
    G.set_coordinates(f'laplacian_eigenmap{d}D')
    X = G.coords
    L = ref.laplacian(W, lap)
    S.same('shape', tuple(X.shape), (n, d))
    S.eigencolumns('coordinates', X, L, 1)
    S.unchanged('connectivity kept', G.W, snap)
    S.same_random('global generator untouched')


# ------------------------------------------------------------------ spring

DIRS = {2: [(0.6, 0.8), (1.0, 0.0)], 3: [(2 / 3, -1 / 3, 2 / 3)]}


@harness('C25', cfgs=[dict(n=n, d=d) for n in (2, 3) for d in (2, 3)], thorough=[
    dict(n=n, d=d) for n in (2, 3, 4) for d in (2, 3)], paths=200)
def spring_line(S, n, d):
    """2..3 vertices (4 when thorough) anywhere on a line in the plane or in space, at least 1/10
    apart, some fixed: the others move by a tenth along their forces"""
    edges = [(i, j) for i in range(n) for j in range(i) if S.flag(f'e{i}{j}')]
    W = S.np.zeros((n, n))
    for i, j in edges:
        W[i, j] = W[j, i] = S.real(f'w{i}{j}', Fraction(1, 8), 8)
    G = S.graphs.Graph(W)
    snap = S.snapshot(G.W)
    u = S.choice('direction', DIRS[d])
    p = [S.real('p0', 0, 1)]
    for i in range(1, n):
        p.append(p[-1] + S.real(f'p{i}', Fraction(1, 10), 1))
    X = [[a * c for c in u] for a in p]
    P = S.array(X)
    s = S.snapshot(P)
    free = S.choice('free', [f for f in itertools.chain(*(itertools.combinations(range(n), m)
                                                          for m in range(1, n)))])
    k = S.choice('k', [Fraction(1, 2), Fraction(5, 4)])
    G.set_coordinates('spring', seed=1, pos=P, fixed=[i for i in range(n) if i not in free],
                      iterations=1, dim=d, k=float(k))
    S.unchanged('positions kept', P, s)
    S.unchanged('connectivity kept', G.W, snap)
    S.same('shape', tuple(G.coords.shape), (n, d))
    for v in range(n):
        if v not in free:
            S.eq('fixed', G.coords[v], X[v])
            continue
        F = 0
        for i in range(n):
            if i == v:
                continue
            r = p[v] - p[i] if v > i else p[i] - p[v]
            f = k * k / r - (r * r / k if (max(i, v), min(i, v)) in edges else 0)
            F = F + (f if v > i else -f)
        m = ref.tot((G.coords[v, c] - X[v][c]) * u[c] for c in range(d))
        for c in range(d):
            S.eq('on the line', G.coords[v, c], X[v][c] + m * u[c], obs=False)
        if F > 0.02:
            S.eq('along the force', m, 0.1)
        elif F < -0.02:
            S.eq('against the axis', m, -0.1)
        else:
            S.le('at most a tenth', m * m, 0.01 + 1e-9)
    S.same_random('global generator untouched')


@harness('C25', cfgs=[dict(n=n) for n in (2, 3)], paths=100)
def spring_close(S, n):
    """2..3 vertices on a line, some at the same place or closer than 1/100: finite steps of at most a
    tenth along the line, equal places repel no one"""
    edges = [(i, j) for i in range(n) for j in range(i) if S.flag(f'e{i}{j}')]
    W = S.np.zeros((n, n))
    for i, j in edges:
        W[i, j] = W[j, i] = 1.
    G = S.graphs.Graph(W)
    p = [S.real('p0', Fraction(1, 4), 1)]
    for i in range(1, n):
        gap = S.choice(f'gap{i}', ['none', 'small', 'one'])
        p.append(p[-1] + {'none': 0, 'one': 1}.get(gap, S.real(f'p{i}', Fraction(1, 1000), Fraction(9, 1000))))
    k = Fraction(1, 2)
    G.set_coordinates('spring', seed=1, pos=S.array([[a, 0.] for a in p]), fixed=[0], iterations=1, dim=2,
                      k=float(k))
    S.same('shape', tuple(G.coords.shape), (n, 2))
    S.eq('fixed', G.coords[0], [p[0], 0])
    for v in range(1, n):
        F = 0
        for i in range(n):
            x = p[v] - p[i]
            if i != v:
                r = x if v > i else -x
                r = Fraction(1, 100) if r < Fraction(1, 100) else r
                F = F + x * (k * k / (r * r) - (r / k if (max(i, v), min(i, v)) in edges else 0))
        m = G.coords[v, 0] - p[v]
        S.eq('on the line', G.coords[v, 1], 0)
        if F > 0.02:
            S.eq('along the force', m, 0.1)
        elif F < -0.02:
            S.eq('against the axis', m, -0.1)
        else:
            S.le('at most a tenth', m * m, 0.01 + 1e-9)


@harness('C25', paths=100)
def spring_triangle(S):
    """right-angled triangles and tetrahedra of any size, all vertices fixed but one, any optimal
    distance, with any edges"""
    d = S.choice('dim', [2, 3])
    Q = [(0, 0, 0), (3, 0, 0), (0, 4, 0)] if d == 2 else [(0, 0, 0), (2, 1, 2), (2, -2, -1)]
    n = len(Q)
    a = S.real('size', Fraction(1, 10), 1)
    k = S.choice('k', [0.25, 0.5, None])
    X = [[a * (x + 1) for x in q[:d]] for q in Q]
    edges = [(i, j) for i in range(n) for j in range(i) if S.flag(f'e{i}{j}')]
    W = S.np.zeros((n, n))
    for i, j in edges:
        W[i, j] = W[j, i] = 2.0
    G = S.graphs.Graph(W)
    v = S.choice('free', list(range(n)))
    G.set_coordinates('spring', seed=1, pos=X, fixed=[i for i in range(n) if i != v], iterations=1,
                      dim=d, **({} if k is None else dict(k=k)))
    kk = a * (5 if d == 2 else 3) / math.sqrt(n) if k is None else k
    F = [0] * d
    for i in range(n):
        if i == v:
            continue
        S.eq('fixed', G.coords[i], X[i])
        D = [X[v][c] - X[i][c] for c in range(d)]
        r = a * math.dist(Q[v], Q[i])
        f = kk * kk / (r * r) - (r / kk if (max(i, v), min(i, v)) in edges else 0)
        F = [x + y * f for x, y in zip(F, D)]
    q = ref.tot(f * f for f in F)
    S.assume(q > 0.001)
    m = [G.coords[v, c] - X[v][c] for c in range(d)]
    S.eq('step', ref.tot(x * x for x in m), 0.01)
    for c in range(d):
        for e in range(c):
            S.eq('along the force', m[c] * F[e], m[e] * F[c])
    S.le('towards the force', 0, ref.dot(m, F))


@harness('C25', cfgs=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)],
         paths=100)
def spring_box(S, n):
    """1..3 vertices (4 when thorough), every outcome of the generator (draws at least 1/100
    apart), no iteration: the layout is centred in the box of the given scale and center"""
    G, W = some_graph(S, n)
    snap = S.snapshot(G.W)
    scale = S.choice('scale', [1.0, 0.5, 3.0])
    c = [S.real('cx', -2, 2), S.real('cy', -2, 2)]
    kw = dict(seed=1, iterations=0, scale=scale, center=S.array([c]))
    if n > 1:
        S.draws(apart=Fraction(1, 100))
    box(S, G, n, scale, c, kw)
    X = G.coords
    G.set_coordinates('line1D')
    G.set_coordinates('spring', **kw)
    S.eq('reproducible', G.coords, X)
    S.unchanged('connectivity kept', G.W, snap)
    S.same_random('global generator untouched')


def box(S, G, n, scale, c, kw):
    G.set_coordinates('spring', **kw)
    X = G.coords
    S.same('shape', tuple(X.shape), (n, 2))
    for t in range(2):
        x = [X[i, t] - c[t] for i in range(n)]
        S.eq('centred', ref.tot(x), 0.0, tol=1e-6)
        for v in x:
            S.le('above', -scale - 1e-6, v)
            S.le('below', v, scale + 1e-6)


@harness('C25')
def spring_larger(S):
    """fixed graphs of 1..9 vertices, default options, in 2 and 3 dimensions, fixed vertices at
    any position"""
    S.rounded()
    n = S.choice('n', [1, 2, 5, 9])
    G = S.graphs.Graph(ring_like(S, n) if n > 2 else S.np.ones((n, n)) - S.np.eye(n))
    d = S.choice('dim', [2, 3])
    how = S.choice('how', ['default', 'fixed', 'most', 'all', 'pos'])
    rng = S.np.random.default_rng(11)
    P = None
    if how == 'default':
        S.draws(fixed=lambda kind, i: ((i * 37) % 101) / 101)
        G.set_coordinates('spring', seed=2, dim=d)
    else:
        P = S.np.array([[((i * 5 + c * 3) % 11) / 4 - 2.5 for c in range(d)] for i in range(n)])
        s = S.snapshot(P)
        held = [0] if how == 'fixed' else list(range(n)) if how == 'all' else \
            [i for i in range(n) if i != n // 2]
        if how == 'most' and S.flag('array'):
            held = S.np.array(held, dtype=int)
        kw = {} if how == 'pos' else dict(fixed=held)
        S.draws(fixed=lambda kind, i: ((i * 37) % 101) / 101)
        G.set_coordinates('spring', seed=2, dim=d, pos=P, **kw)
        S.unchanged('positions kept', P, s)
    X = G.coords
    S.same('shape', tuple(X.shape), (n, d))
    S.check('finite', bool(S.np.all(S.np.isfinite(X))))
    if how in ('fixed', 'most', 'all') and len(held):
        for i in held:
            S.eq('fixed', X[i], [P[i, c] for c in range(d)])
    else:
        m = S.np.abs(X).max()
        S.eq('scale', m, 1.0 if n > 1 else 0.0, tol=1e-9)
        S.eq('centred', X.sum(axis=0), [0.0] * d, tol=1e-9)
