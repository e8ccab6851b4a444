"""C22 random graph families: whatever the random generator draws."""
import math
from fractions import Fraction
from itertools import combinations

from symx.session import harness
from . import ref
from .h_c20 import dist2

TAU = 2 * math.pi


def simple(S, G, n, directed=False, loops=False):
    """0/1 weights, symmetric unless directed, no loops unless asked for."""
    S.same('vertices', G.n_vertices, n)
    W = [[float(v) for v in r] for r in S.np.asarray(G.W.toarray()).tolist()]
    S.check('unit weights', all(v in (0.0, 1.0) for r in W for v in r))
    if not directed:
        S.check('undirected', all(W[i][j] == W[j][i] for i in range(n) for j in range(i)))
    if not loops:
        S.check('no loops', all(W[i][i] == 0 for i in range(n)))
    return W


def connected(W, directed=False):
    """(Strong) connectivity by transitive closure."""
    n = len(W)
    R = [[i == j or W[i][j] != 0 for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                R[i][j] = R[i][j] or (R[i][k] and R[k][j])
    return all(R[i][j] for i in range(n) for j in range(n))


def again(S, G, make):
    """The same seed gives the same graph, and the global generator is not used."""
    H = make()
    S.eq('reproducible weights', S.dense(H.W), S.dense(G.W))
    if getattr(G, 'coords', None) is not None:
        S.eq('reproducible coordinates', H.coords, G.coords)
    S.same_random('global generator untouched')


PQ = ['scalars', 'vector and matrix', 'M', 'default q']


@harness('C22', cfgs=[dict(n=3, k=2, how=h, directed=d) for h in PQ for d in (False, True)] +
         [dict(n=4, k=2, how='scalars', directed=False), dict(n=4, k=3, how='M', directed=False),
          dict(n=3, k=2, how='drawn', directed=False)],
         thorough=[dict(n=4, k=2, how='drawn', directed=False), dict(n=4, k=2, how='M', directed=True)],
         paths=600, budget=25)
def block_model(S, n, k, how, directed):
    """stochastic block models of 3..4 vertices in 2..3 blocks, directed or not, with or without
    self-loops; every probability is zero, one or arbitrary; the blocks given or drawn; every
    outcome of the draws"""
    loops = S.flag('loops')
    z = None if how == 'drawn' else S.choice('z', [[0] * (n - 1) + [1], [1, 0] + [k - 1] * (n - 2)])
    half = S.real('half', Fraction(1, 100), Fraction(99, 100))
    kw = {}
    opt = {a: True for a, v in (('directed', directed), ('self_loops', loops)) if v}
    if how in ('scalars', 'drawn'):
        p, q = S.choice('pq', [(0.0, half), (1.0, 0.0), (half, 1.0), (0.0, 1)])
        kw = dict(p=p, q=q)
        M = [[p if a == b else q for b in range(k)] for a in range(k)]
    elif how == 'default q':
        kw = dict(p=0.0)
        M = [[0.0 if a == b else 0.3 / k for b in range(k)] for a in range(k)]
    else:
        if directed:
            M = S.choice('M', [[[0.0, half], [0.0, 1.0]], [[1.0, 0.0], [half, 0.0]]])
        elif k == 2:
            M = S.choice('M', [[[0.0, half], [half, 1.0]], [[1.0, 0.0], [0.0, half]]])
        else:
            M = [[0.0, half, 1.0], [half, 1.0, 0.0], [1.0, 0.0, half]]
        if how == 'M':
            kw = dict(M=S.array(M))
        else:
            p, q = [M[a][a] for a in range(k)], [[7.0 if a == b else M[a][b] for b in range(k)] for a in range(k)]
            kw = dict(p=S.array(p), q=S.array(q))
    snap = {a: S.snapshot(v) for a, v in kw.items()}
    zin = None if z is None else S.np.array(z)

    def make():
        return S.graphs.StochasticBlockModel(n, k=k, z=zin, seed=5, **opt, **kw)
    G = make()
    for a, v in kw.items():
        S.unchanged(f'{a} untouched', v, snap[a])
    W = simple(S, G, n, directed, loops)
    if z is None:
        z = [int(v) for v in G.z]
        S.check('drawn blocks', z == sorted(z) and all(0 <= v < k for v in z))
    S.same('blocks', [int(v) for v in G.info['node_com']], z)
    S.same('block sizes', [int(v) for v in G.info['comm_sizes']], [z.count(v) for v in range(max(z) + 1)])
    S.check('representation', repr(G).startswith('StochasticBlockModel('))
    for i in range(n):
        for j in range(n):
            if i == j and not loops:
                continue
            m = M[z[i]][z[j]]
            if isinstance(m, (int, float)) and m == 0:
                S.check('no impossible edge', W[i][j] == 0)
            if isinstance(m, (int, float)) and m == 1:
                S.check('certain edges', W[i][j] == 1)
    again(S, G, make)


@harness('C22', cfgs=[dict(n=2, tries=2, directed=False), dict(n=3, tries=1, directed=False),
                      dict(n=3, tries=2, directed=False), dict(n=2, tries=2, directed=True),
                      dict(n=2, tries=None, directed=False), dict(n=3, tries='any', directed=False),
                      dict(n=2, tries='any', directed=True)],
         thorough=[dict(n=4, tries=1, directed=False), dict(n=3, tries=1, directed=True)],
         paths=600, budget=25)
def erdos_renyi(S, n, tries, directed):
    """Erdos-Renyi graphs of 2..3 (4 when thorough) vertices which must be connected, any
    probability, one, two or unlimited trials (then at most 6 draws); every outcome"""
    p = S.real('p', 0, 1)
    if tries == 'any':
        # Not asked to be connected.
        G = S.graphs.ErdosRenyi(n, p=p, seed=3, **(dict(directed=True) if directed else {}))
        W = simple(S, G, n, directed)
        m = sum(map(sum, W))
        S.check('no impossible edge', m == 0 or p > 0)
        S.check('certain edges', m == n * (n - 1) or p < 1)
        return
    if tries is None:
        S.draws(6)
    ok = True
    try:
        G = S.graphs.ErdosRenyi(n, p=p, directed=directed, connected=True, n_try=tries, seed=3)
    except ValueError:
        ok = False
        S.check('a certain graph is connected', p < 1)
        S.check('unlimited trials', tries is not None)
        return
    W = simple(S, G, n, directed)
    S.check('connected', connected(W))
    S.check('no impossible edge', p > 0)


@harness('C22')
def probabilities(S):
    """block models reject probabilities outside [0, 1] and parameters of the wrong shape"""
    p = S.real('p', -1, 2)
    q = S.real('q', -1, 2)
    bad = (p < 0) | (p > 1) | (q < 0) | (q > 1)
    SBM = S.graphs.StochasticBlockModel
    if S.flag('shapes'):
        S.raises('p', ValueError, lambda: SBM(2, k=2, p=[p, p, p]))
        S.raises('q', ValueError, lambda: SBM(2, k=2, q=[p, p]))
        return
    if bool(bad):
        S.raises('rejected', ValueError, lambda: SBM(2, k=2, z=[0, 1], p=p, q=q, seed=1))
    else:
        simple(S, SBM(2, k=2, z=[0, 1], p=p, q=q, seed=1), 2)


@harness('C22', cfgs=[dict(n=4), dict(n=5)], thorough=[dict(n=6)], paths=900, budget=30)
def attachment(S, n):
    """Barabasi-Albert graphs of 4..5 (6 when thorough) vertices, every m0 and m, every outcome"""
    m0 = S.int('m0', 1, n)
    m = S.int('m', 1, 3)
    if m > m0:
        S.raises('m above m0', ValueError, lambda: S.graphs.BarabasiAlbert(n, m0, m))
        return

    def make():
        return S.graphs.BarabasiAlbert(n, m0=m0, m=m, seed=2)
    G = make()
    W = simple(S, G, n)
    for i in range(m0, n):
        S.same('new edges', sum(W[i][:i]), float(m))
    S.check('initial vertices', all(W[i][j] == 0 for i in range(m0) for j in range(m0)))
    S.same('edges', G.n_edges, m * (n - m0))
    S.check('representation', repr(G).startswith('BarabasiAlbert('))
    again(S, G, make)


@harness('C22', cfgs=[dict(n=4, k=1, draws=6), dict(n=3, k=2, draws=6), dict(n=2, k=1, draws=8),
                      dict(n=2, k=2, draws=6)],
         thorough=[dict(n=4, k=2, draws=8), dict(n=3, k=2, draws=8),
                   dict(n=2, k=2, draws=12)], paths=500, budget=25)
def regular(S, n, k, draws):
    """random regular graphs of 2..4 vertices of degree 1..2; every outcome of
    the first 6..8 draws (restarts included), at most 2 or 3 iterations"""
    S.draws(draws)
    tries = S.choice('tries', [2, 3])
    logs = []
    with S.logged('pygsp', logs):
        G = S.graphs.RandomRegular(n, k, max_iter=tries, seed=4)
    W = simple(S, G, n)
    d = [sum(r) for r in W]
    S.check('degrees are not larger', all(v <= k for v in d))
    S.check('regular, or said not to be', all(v == k for v in d) or len(logs) > 0)
    S.check('no false warning', not (all(v == k for v in d) and len(logs) > 0))
    S.same_random('global generator untouched')


@harness('C22')
def regular_parity(S):
    """an odd number of half-edges is rejected"""
    n, k = S.int('n', 1, 9), S.int('k', 1, 9)
    if n * k % 2:
        S.raises('odd', ValueError, lambda: S.graphs.RandomRegular(n, k))


@harness('C22', cfgs=[dict(n=3), dict(n=4)], thorough=[dict(n=5)], paths=200)
def random_ring(S, n):
    """random rings of 3..4 (5 when thorough) vertices, angles drawn or given in any order"""
    S.draws(apart=Fraction(1, 1000))
    given = S.choice('angles', ['drawn', 'given', 'list'])
    if given == 'drawn':
        def make():
            return S.graphs.RandomRing(n, seed=8)
    else:
        t = [S.real(f'a{i}', 0, Fraction(628, 100)) for i in range(n)]
        for a, b in combinations(t, 2):
            S.assume(abs(a - b) > Fraction(1, 100))
        arg = t if given == 'list' else S.array(t)
        snap = S.snapshot(arg)

        def make():
            return S.graphs.RandomRing(angles=arg)
    G = make()
    a = [G.angles[i] for i in range(n)]
    S.check('sorted', all(bool(a[i] <= a[i + 1]) for i in range(n - 1)))
    if given != 'drawn':
        S.unchanged('angles untouched', arg, snap)
        S.eq('angles', ref.tot(a), ref.tot(t))
        S.eq('angles', ref.tot(x * x for x in a), ref.tot(x * x for x in t))
    else:
        S.check('range', all(bool(x >= 0) for x in a))
        S.le('range', a, [TAU] * n)
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        j = (i + 1) % n
        gap = a[j] - a[i] if j else 2 * S.np.pi + a[0] - a[i]
        W[i][j] = W[j][i] = 2 * S.np.pi / n / gap
    S.eq('weights', S.dense(G.W), W, tol=1e-7)
    S.eq('coordinates', G.coords, [[S.np.cos(x), S.np.sin(x)] for x in a], tol=1e-9)
    again(S, G, make)


@harness('C22')
def ring_errors(S):
    """angles outside [0, 2 pi) and less than three of them are rejected"""
    t = [S.real(f'a{i}', -1, 8) for i in range(3)]
    n = S.int('n', 0, 2)
    S.raises('size', ValueError, lambda: S.graphs.RandomRing(n, seed=1))
    S.raises('few angles', ValueError, lambda: S.graphs.RandomRing(angles=[1.0, 2.0]))
    S.assume((t[0] < 0) | (t[0] > 6.29) | (t[1] < 0) | (t[1] > 6.29) | (t[2] < 0) | (t[2] > 6.29))
    S.raises('range', ValueError, lambda: S.graphs.RandomRing(angles=S.array(t)))


@harness('C22', cfgs=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], paths=100)
def david(S, n):
    """David's sensor network of 2..3 (4 when thorough) sensors anywhere in the unit square"""
    def make():
        return S.graphs.DavidSensorNet(n, seed=6)
    G = make()
    c = 0.2183 - 0.125 * n / 436.075
    x = [[G.coords[i, t] for t in range(2)] for i in range(n)]
    S.le('in the square', [0.0] * (2 * n), [v for r in x for v in r])
    S.le('in the square', [v for r in x for v in r], [1.0] * (2 * n))
    W = S.dense(G.W)
    for i, j in combinations(range(n), 2):
        q = dist2(S, x, i, j, 'euclidean')
        w = S.np.exp(q * (math.log(0.6) / c ** 2))
        if bool(q < c * c - 1e-6):
            S.eq('linked', [W[i][j], W[j][i]], [w, w], tol=1e-6)
        elif bool(q > c * c + 1e-6):
            S.eq('too far', [W[i][j], W[j][i]], [0.0, 0.0])
    S.eq('no loops', [W[i][i] for i in range(n)], [0.0] * n)
    S.same('vertices', G.n_vertices, n)
    again(S, G, make)


def prod(xs):
    r = 1.0
    for x in xs:
        r = r * x
    return r


def capture(S, name):
    """The points and options a nearest-neighbour family gives to NNGraph (C20 covers the rest)."""
    cls = getattr(S.graphs, name)
    got = []

    def build(self, Xin, **kw):
        got.append((Xin, kw))
        self.N = self.n_vertices = len(Xin)
        self.coords = Xin
    base = cls.__mro__[1]
    old = base.__init__

    class Swap:
        def __enter__(self):
            base.__init__ = build
            return got

        def __exit__(self, *a):
            base.__init__ = old
    return Swap()


@harness('C22', cfgs=[dict(n=4), dict(n=9)], thorough=[dict(n=16)])
def sensors(S, n):
    """sensor networks of 4, 9 (16 when thorough) vertices in the unit square, one per cell of a
    grid if distributed"""
    distributed = S.flag('distributed')
    N = n + S.choice('extra', [0, 1])
    m = math.isqrt(n)
    if distributed and N != n:
        S.raises('not a square', ValueError, lambda: S.graphs.Sensor(N, 2, distributed=True))
        return
    with capture(S, 'Sensor') as got:
        S.graphs.Sensor(N, k=2, distributed=distributed, seed=3)
        S.graphs.Sensor(N, k=2, distributed=distributed, seed=3)
    (X, kw), (Y, _) = got
    S.eq('reproducible', Y, X)
    S.same_random('global generator untouched')
    S.same('shape', tuple(X.shape), (N, 2))
    S.same('options', (kw['k'], bool(kw['rescale']), bool(kw['center'])), (2, False, False))
    for i in range(N):
        lo = (0, 0) if not distributed else (i // m, i % m)
        h = 1 if not distributed else m
        for t in range(2):
            S.le('above', lo[t] / h, X[i, t])
            S.le('below', X[i, t], (lo[t] + 1) / h)


@harness('C22')
def large_grid(S):
    """sensors distributed on a grid of 49 x 49 cells, whose step is rounded"""
    m = 49
    with capture(S, 'Sensor') as got:
        S.graphs.Sensor(m * m, k=2, distributed=True, seed=3)
    X = got[0][0]
    S.same('shape', tuple(X.shape), (m * m, 2))
    for i in (0, 1, m, m * m - 1):
        for t in range(2):
            c = (i // m, i % m)[t]
            S.le('above', c / m, X[i, t])
            S.le('below', X[i, t], (c + 1) / m)


@harness('C22', cfgs=[dict(n=2), dict(n=7)], thorough=[dict(n=13)])
def solids(S, n):
    """spheres (in 2 or 3 dimensions) and cubes of 2, 7 (13 when thorough) points, any radius"""
    r = S.real('radius', Fraction(1, 4), 4)
    kind = S.choice('kind', ['sphere', 'cube'])
    d = S.int('dim', 2, 3)
    if kind == 'sphere':
        S.draws(apart=Fraction(1, 1000))
    name = kind.capitalize()
    S.raises('sampling', ValueError, lambda: getattr(S.graphs, name)(r, n, d, sampling='grid'))
    with capture(S, name) as got:
        for _ in range(2):
            getattr(S.graphs, name)(radius=r, nb_pts=n, seed=3, **(dict(nb_dim=d) if d == 2 else {}))
    X, Y = got[0][0], got[1][0]
    S.eq('reproducible', Y, X)
    S.same_random('global generator untouched')
    S.same('shape', tuple(X.shape), (n, d))
    for i in range(n):
        if kind == 'sphere':
            S.eq('radius', ref.tot(X[i, t] * X[i, t] for t in range(d)), r * r, tol=1e-7)
            continue
        for t in range(d):
            S.le('inside', 0.0, X[i, t])
            S.le('inside', X[i, t], r)
        if d == 3:
            S.eq('on the surface', prod(X[i, t] * (X[i, t] - r) for t in range(3)), 0.0)
    if kind == 'cube' and d == 3 and n >= 6:
        for t in range(3):
            S.eq('lower faces', prod(X[i, t] for i in range(n)), 0.0)
            S.eq('upper faces', prod(X[i, t] - r for i in range(n)), 0.0)


@harness('C22', cfgs=[dict(n=2, d=3), dict(n=3, d=2)], thorough=[dict(n=3, d=3), dict(n=4, d=2)],
         paths=150, budget=30)
def swiss_roll(S, n, d):
    """Swiss rolls of 2..3 points (4 when thorough) in 2 or 3 dimensions, uniform or classic, with
    or without noise, default or arbitrary kernel width and thresholds; the rescaled points (C19)
    are arbitrary"""
    noise = S.flag('noise')
    kind = S.choice('type', ['uniform', 'classic'])
    s = S.real('s', Fraction(1, 2), 2) if S.flag('width') else None
    th = S.choice('thresh', [1e-6, 0.5])
    c = [[S.real(f'c{t}{i}', -1, 1) if 2 * t + i < 4 else 0.25 * i - 0.5 * t for i in range(n)]
         for t in range(d)]
    utils = S.mod('utils')
    real = utils.rescale_center
    seen = []

    def stub(x):
        seen.append(x)
        return S.array(c)

    def make():
        return S.graphs.SwissRoll(n, dim=d, s=s, noise=noise, srtype=kind, thresh=th, seed=1)
    utils.rescale_center = stub
    try:
        G = make()
        H = make()
    finally:
        utils.rescale_center = real
    S.same('vertices', G.n_vertices, n)
    S.same('shape', tuple(G.coords.shape), (n, d))
    x = [[G.coords[i, t] for t in range(d)] for i in range(n)]
    W = S.dense(G.W)
    w2 = s * s if s is not None else math.sqrt(2.0 / n) ** 2
    for i, j in combinations(range(n), 2):
        w = S.np.exp(-dist2(S, x, i, j, 'euclidean') / (2 * w2))
        S.eq('symmetric', W[i][j], W[j][i])
        if bool(w >= th):
            S.eq('weights', W[i][j], w, tol=1e-6)
        else:
            S.eq('below the threshold', W[i][j], 0.0)
    S.eq('no loops', [W[i][i] for i in range(n)], [0.0] * n)
    S.eq('reproducible', S.dense(H.W), W)
    S.same_random('global generator untouched')
    if seen:
        p, q = seen
        S.eq('reproducible points', q, p)
        S.same('points', tuple(p.shape), (d, n))
        S.eq('kept points', G.x, p)
        if not noise:
            for i in range(n):
                r = p[0, i] * p[0, i] + p[d - 1, i] * p[d - 1, i]
                S.le('inner radius', 9.8695, r)
                S.le('outer radius', r, 157.92)
                if d == 3:
                    S.le('width', 0.0, p[1, i])
                    S.le('width', p[1, i], 21.0)

def at_least(k, cs):
    """At least k of the conditions hold."""
    if k <= 0:
        return True
    r = False
    for sub in combinations(cs, k):
        a = True
        for c in sub:
            a = a & c
        r = r | a
    return r


def angle(kind, i):
    """Directions of points drawn in discs: radii are arbitrary."""
    return (0.0, 0.25, 0.5, 0.75, 0.125)[i // 2 % 5] if kind == 'u' and i % 2 else None


@harness('C22', cfgs=[dict(n=4, how='density'), dict(n=4, how='k'), dict(n=4, how='epsilon'), dict(n=5, how='density'),
                      dict(n=5, how='sizes')],
         thorough=[dict(n=6, how='density'), dict(n=5, how='k'), dict(n=5, how='epsilon')], paths=300, budget=30)
def community(S, n, how):
    """communities of 4..5 vertices (6 when thorough) in 1..2 groups, drawn or given, connected by
    density, nearest neighbours or distance, with any world density; every outcome (at most
    two rejected edges between communities; radii only, at fixed angles, for neighbours)"""
    nc = S.int('Nc', 1, 2)
    kw = dict(Nc=nc, seed=7)
    dens = 0
    if how == 'density':
        kw['comm_density'] = dens = S.choice('density', [0.0, 0.5, 1.0])
        world = S.choice('world', [0.0, 0.3, 0.5, 1.0])
        if S.flag('large minimum'):
            kw['min_comm'] = n // nc
    else:
        world = S.choice('world', [0.0, 0.5])
        kw['comm_sizes'] = [n] if nc == 1 else [n - 2, 2]
        kw['size_ratio'] = S.choice('ratio', [1, 3])
    kw['world_density'] = world
    if how == 'k':
        kw['k_neigh'] = k = S.int('k', 0, 3)
    if how == 'epsilon':
        kw['epsilon'] = eps = S.real('eps', Fraction(1, 4), 4)
    if how == 'sizes':
        kw['epsilon'] = eps = 100.0
    S.draws(3 * n + (2 if world == 0.3 else 20), fixed=angle if how in ('k', 'epsilon') else None,
            apart=Fraction(1, 1000) if how == 'k' else None)
    G = S.graphs.Community(n, **kw)
    W = simple(S, G, n)
    z = [int(v) for v in G.info['node_com']]
    S.check('labels', z == sorted(z) and all(0 <= v < nc for v in z))
    sizes = [z.count(a) for a in range(nc)]
    S.same('sizes', [int(v) for v in G.info['comm_sizes']], sizes)
    low = kw.get('min_comm', int(round(n / (3 * nc))))
    if 'comm_sizes' in kw:
        S.same('requested sizes', sizes, kw['comm_sizes'])
    else:
        S.check('minimum size', min(sizes) >= low)
    S.same('shape', tuple(G.coords.shape), (n, 2))
    x = [[G.coords[i, t] for t in range(2)] for i in range(n)]
    R = kw.get('size_ratio', 1) * math.sqrt(n)
    for i in range(n):
        a = z[i] + 1
        t = 2 * S.np.pi * a / nc
        d = [x[i][0] - R * S.np.cos(t), x[i][1] - R * S.np.sin(t)]
        S.le('inside the community', d[0] * d[0] + d[1] * d[1], sizes[z[i]] + 1e-6)
    inside = {(i, j): W[i][j] for i in range(n) for j in range(i) if z[i] == z[j]}
    across = {(i, j): W[i][j] for i in range(n) for j in range(i) if z[i] != z[j]}
    S.same('edges between communities', sum(across.values()), float(int(world * len(across))))
    if how == 'density':
        for a in range(nc):
            e = [v for (i, j), v in inside.items() if z[i] == a]
            S.same('edges inside', sum(e), float(int(dens * len(e))))
    elif how == 'k':
        q = {(i, j): dist2(S, x, i, j, 'euclidean') for i in range(n) for j in range(n) if i != j}
        for i in range(n):
            o = [j for j in range(n) if j != i and z[j] == z[i]]
            far = [j for j in o if W[i][j] == 0]
            near = [j for j in o if W[i][j] == 1]
            S.check('enough neighbours', len(near) >= min(k, len(o)))
            # j is linked iff it is among the k nearest of i, or the converse
            for j in far:
                S.check('not a neighbour', at_least(k, [q[i, t] <= q[i, j] for t in o if t != j]))
            for j in near:
                m = len(o) - k
                S.check('a neighbour', at_least(m, [q[i, t] >= q[i, j] for t in o if t != j]) |
                        at_least(m, [q[i, j] <= q[j, t] for t in o + [i] if t not in (i, j)]))
    else:
        for (i, j), v in inside.items():
            q = dist2(S, x, i, j, 'euclidean')
            S.check('close' if v else 'far', q <= eps * eps + 1e-6 if v else q >= eps * eps - 1e-6)
    again = S.graphs.Community(n, **kw)
    S.eq('reproducible', S.dense(again.W), W, obs=False)
    S.eq('reproducible', again.coords, G.coords)
    S.same_random('global generator untouched')


@harness('C22')
def community_errors(S):
    """impossible communities are rejected"""
    C = S.graphs.Community
    w = S.real('world', -1, 2)
    S.assume((w < 0) | (w > 1))
    S.raises('world density', ValueError, lambda: C(4, Nc=2, world_density=w))
    S.raises('density', ValueError, lambda: C(4, Nc=2, comm_density=w))
    S.raises('neighbours', ValueError, lambda: C(4, Nc=2, k_neigh=-1))
    S.raises('minimum size', ValueError, lambda: C(4, Nc=2, min_comm=3))
    S.raises('number of sizes', ValueError, lambda: C(4, Nc=2, comm_sizes=[4]))
    S.raises('sum of sizes', ValueError, lambda: C(4, Nc=2, comm_sizes=[1, 2]))
