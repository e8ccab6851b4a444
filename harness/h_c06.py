"""C06 cache coherence over histories, C07 largest-eigenvalue bounds, C08 Fourier transform."""
from symx.session import harness

from . import ref
from .common import SCALES, TYPES, scaled, typed, DSHAPES, SHAPES, any_graph, pattern, shape

LAPS = ('combinatorial', 'normalized')
OPS = ['c', 'n', 'bad lap', 'basis', 'basis 1', 'basis 2', 'lanczos', 'bounds', 'bad lmax',
       'no convergence', 'D', 'use']


def bound_ref(W, lap):
    """The documented analytic bounds (2; or the least of N max w, 2 max d, max d_i + d_j,
    max d_i + m_i)."""
    if lap == 'normalized':
        return None
    return None


def apply(S, G, st, op):
    """One call; st is the expected state (current type, eigenpairs asked for)."""
    if op in 'cn':
        lap = LAPS[op == 'n']
        G.compute_laplacian(lap)
        if lap != st['lap']:
            st['k'] = 0
        st['lap'] = lap
    elif op == 'bad lap':
        S.raises('bad lap', ValueError, lambda: G.compute_laplacian('unknown'))
    elif op.startswith('basis'):
        k = int(op[6:] or G.N)
        G.compute_fourier_basis(*([] if op == 'basis' else [k]))
        st['k'] = max(st['k'], k)
    elif op in ('lanczos', 'bounds'):
        G.estimate_lmax(op)
    elif op == 'bad lmax':
        S.raises('bad lmax', ValueError, lambda: G.estimate_lmax('unknown'))
    elif op == 'no convergence':
        if st['method'] != 'lanczos':
            with S.noconv():
                S.raises('no convergence', ValueError, lambda: G.estimate_lmax('lanczos'))
    elif op == 'D':
        G.compute_differential_operator()
    elif op == 'use':
        G.grad(S.np.ones(G.N))
        G.lmax
        if st['method'] is None:
            st['method'] = 'lanczos'
    if op in ('lanczos', 'bounds'):
        st['method'] = op
    if op == 'basis' or op.startswith('basis') and int(op[6:] or G.N) == G.N:
        st['method'] = 'basis'
    if st['k'] == 0 and op in 'cn' and st.get('prev', st['lap']) != st['lap']:
        st['method'] = None
    st['prev'] = st['lap']


def coherent(S, G, st, W, first):
    n = W.shape[0]
    L = ref.laplacian(W, st['lap'])
    S.same('lap_type', G.lap_type, st['lap'])
    S.eq('L', G.L, L)
    er, _ = S.eigh(L)

    def lmax():
        S.check('lmax available', G.lmax is not None)
        if G.lmax is not None:
            S.le('lmax bounds the spectrum', er[n - 1], G.lmax)
            S.le('lmax not excessive', G.lmax, 1.01 * n * 8)
            if st['lap'] == 'normalized':
                S.le('lmax <= 2.02', G.lmax, 2.02)

    def basis():
        k = len(G.e)
        S.check('enough eigenpairs', k == (st['k'] or n))
        S.same('shapes', (tuple(G.e.shape), tuple(G.U.shape)), ((k,), (n, k)))
        S.spectral('basis', G.e, G.U, L)
        if k == n:
            S.eq('coherence', G.coherence, S.np.max(abs(G.U)))

    def diff():
        S.same('D shape', tuple(G.D.shape), (n, G.Ne))
        S.eq('D', ref.mm(G.D, G.D.T), L)
    def coherence():
        # Reading it takes the full basis.
        c = G.coherence
        st['k'] = n
        S.same('full basis', tuple(G.U.shape), (n, n))
        S.eq('coherence', c, S.np.max(abs(G.U)))
    for f in {'lmax': (lmax, basis, diff), 'basis': (basis, diff, lmax),
              'D': (diff, lmax, basis), 'coherence': (coherence, basis)}[first]:
        f()
    S.eq('W', G.W, W)


@harness('C06', cfgs=[dict(a=a) for a in OPS], paths=600, budget=40, replays=20)
def histories(S, a):
    """weighted edge on 2 vertices: all histories of 3 calls out of 12 kinds (144 pairs x 6 third
    calls), starting from either Laplacian, then every observable read in 3 orders"""
    W = shape(S, 'k2')
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    st = dict(lap=lap, k=0, method=None)
    for op in (a, S.choice('second', OPS),
               S.choice('third', [None, 'c', 'n', 'bad lap', 'bad lmax', 'basis', 'bounds'])):
        if op is not None and op != 'basis 2':
            apply(S, G, st, op)
        elif op:
            apply(S, G, st, 'basis')
    coherent(S, G, st, W, S.choice('first', ['lmax', 'basis', 'D']))


@harness('C06', cfgs=[dict(a=a) for a in OPS], paths=300, budget=40, replays=8,
         thorough=[dict(a=a, name=s) for a in OPS for s in ('k3', 'd3m', 'k2+1', 'd3c')])
def histories3(S, a, name='p3'):
    """path of 3 vertices (thorough: triangle, directed and disconnected shapes): all histories
    of 2 calls out of 12 kinds, starting from either Laplacian"""
    W = shape(S, name)
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    st = dict(lap=lap, k=0, method=None)
    for op in (a, S.choice('second', [None] + OPS)):
        if op is not None:
            apply(S, G, st, op)
    coherent(S, G, st, W, S.choice('first', ['lmax', 'basis', 'D']))


@harness('C06', cfgs=[dict(a=a) for a in OPS], budget=40, replays=4,
         paths=300, branches=20000)
def histories_concrete(S, a):
    """fixed weighted graph on 12 vertices with one symbolic weight away from the queries' spectra:
    all pairs of calls from either Laplacian"""
    n = 12
    W = S.np.zeros((n, n))
    for i in range(n):
        W[i, (i + 1) % n] = W[(i + 1) % n, i] = 1 + (i % 3) / 2
    W[2, 7] = W[7, 2] = 1.25
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    st = dict(lap=lap, k=0, method=None)
    for op in (a, S.choice('second', OPS), S.choice('third', [None, 'c', 'n'])):
        if op is not None:
            apply(S, G, st, op)
    coherent(S, G, st, W, S.choice('first', ['lmax', 'basis', 'coherence']))


# ------------------------------------------------------------------ C07

def upper_bound(S, W, directed):
    """least of N max w, 2 max d, max over edges of d_i + d_j, max of d_i + mean neighbour degree"""
    g = ref.grid(W)
    n = len(g)
    d = ref.degrees(W, directed)
    s = ref.sym(W)
    top = S.np.max
    bs = [n * top(S.array([x for r in g for x in r])), 2 * top(S.array(d))]
    e = [d[i] + d[j] for i in range(n) for j in range(n)
         if ref.nz(g[i][j]) and (directed or i <= j)]
    if e:
        bs.append(top(S.array(e)))
    if all(ref.nz(x) for x in d):
        bs.append(top(S.array([d[i] + ref.dot(s[i], d) / d[i] for i in range(n)])))
    return S.np.min(S.array(bs))


SMALL = ['e1', 'e2', 'e3', 'k2', 'p3', 'k3', 'k2+1', 'd2', 'd2b', 'd3c', 'd3m', 'd3f', 'd3s']


@harness('C07', cfgs=[dict(name=s, lap=l) for s in SMALL for l in LAPS], paths=300, budget=40,
         timeout_ms=4000, lemmas=False)
def lmax_bounds(S, name, lap):
    """all shapes on 2..3 vertices (directed, isolated vertices), weights in [1/8,8], optional
    self-loop: each method bounds the exact spectrum"""
    n, e = SHAPES.get(name) or DSHAPES[name]
    directed = name in DSHAPES
    loops = pattern(S, [(0, 0)], 'l') if n <= 2 else []
    W = S.adjacency(n, e + loops, directed=directed)
    if name in ('d2b', 'd3f'):
        S.assume(W[0, 1] != W[1, 0])
    G = S.graphs.Graph(W, lap_type=lap)
    er, _ = S.eigh(ref.laplacian(W, lap))
    top = er[n - 1]
    method = S.choice('method', ['lanczos', 'bounds', 'fourier', None])
    if method == 'fourier':
        G.compute_fourier_basis()
    elif method:
        G.estimate_lmax(method)
    S.le('lmax bounds the spectrum', top, G.lmax)
    if method == 'fourier':
        S.eq('exact', G.lmax, top)
    elif method == 'bounds':
        S.le('bound', G.lmax, 2.0 if lap == 'normalized' else upper_bound(S, W, directed))
    else:
        S.le('at most 1% more', G.lmax, 1.01 * top)
    if method:
        v = G.lmax
        S.eq('stable', G.lmax, v)


@harness('C07', cfgs=[dict(name=s) for s in ('p4', 's4', 'c4', 'paw', '2k2', 'p3+1', 'd4')],
         paths=250, budget=40)
def upper_bound4(S, name):
    """4-vertex shapes, weights in [1/8,8]: the analytic bound is the least of the four documented
    ones (each a theorem)"""
    W = shape(S, name)
    G = S.graphs.Graph(W)
    G.estimate_lmax('bounds')
    S.eq('bound', G.lmax, upper_bound(S, W, False))


@harness('C07', cfgs=[dict(name=s, dtype=d) for s in ('k2', 'p3', 'd2', 'd2b') for d in TYPES],
         paths=100)
def lmax_types(S, name, dtype):
    """booleans, 8, 16 and 64-bit integers (every weight of the type), single precision; arrays and
    sparse matrices: the bound is the documented one and exceeds the spectrum"""
    W, M = typed(S, name, dtype)
    n = len(M)
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    directed = name == 'd2' or (name == 'd2b' and bool(M[0][1] != M[1][0]))
    er, _ = S.eigh(ref.laplacian(M, lap))
    top = er[n - 1]
    method = S.choice('method', ['bounds', 'lanczos', 'fourier'])
    if method == 'fourier':
        G.compute_fourier_basis()
    else:
        G.estimate_lmax(method)
    # relative, as the weights are up to 100000
    S.le('lmax bounds the spectrum', 1, G.lmax / top)
    if method == 'bounds':
        S.eq('bound', G.lmax, 2.0 if lap == 'normalized' else upper_bound(S, M, directed))
    else:
        S.le('at most 1% more', G.lmax / top, 1.01)


@harness('C07', cfgs=[dict(name=s, scale=k, lap=l) for s in ('k2', 'p3', 'd3s')
                      for k in SCALES for l in LAPS], paths=60, lemmas=False)
def lmax_scales(S, name, scale, lap):
    """weights around 1e-9 and 1e6: the estimates scale with the weights"""
    W, M = scaled(S, name, scale)
    n = len(M)
    G = S.graphs.Graph(W, lap_type=lap)
    s = scale if lap == 'combinatorial' else 1
    er, _ = S.eigh(ref.laplacian(M, lap))
    method = S.choice('method', ['bounds', 'lanczos', 'fourier'])
    if method == 'fourier':
        G.compute_fourier_basis()
    else:
        G.estimate_lmax(method)
    S.le('lmax bounds the spectrum', er[n - 1], G.lmax / s)
    if method == 'bounds':
        S.eq('bound', G.lmax / s, 2.0 if lap == 'normalized' else
             upper_bound(S, M, name in DSHAPES))
    else:
        S.le('at most 1% more', G.lmax / s, 1.01 * er[n - 1])


@harness('C07', cfgs=[dict(name=s, lap=l, n=n) for s in ('ring', 'star', 'full', 'dcycle', 'tail')
                      for l in LAPS for n in (7, 40)])
def lmax_families(S, name, lap, n):
    """rings, stars, complete graphs, directed cycles and a clique with a tail on 7 and 40 vertices:
    all three methods bound the exact spectrum (fixed weights, symbolic solver error)"""
    W = S.np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if name == 'ring' and (i - j) % n in (1, n - 1) or name == 'star' and (i == 0) != (j == 0) \
                    or name == 'full' and i != j or name == 'dcycle' and (j - i) % n == 1 or \
                    name == 'tail' and (i != j and max(i, j) < n // 2 or abs(i - j) == 1):
                W[i, j] = 1 + ((i * j) % 3) / 4
    G = S.graphs.Graph(W, lap_type=lap)
    er, _ = S.eigh(ref.laplacian(W, lap))
    method = S.choice('method', ['lanczos', 'bounds', 'fourier'])
    if method == 'fourier':
        G.compute_fourier_basis()
    else:
        G.estimate_lmax(method)
    S.le('lmax bounds the spectrum', er[n - 1], G.lmax)
    if method == 'bounds':
        S.eq('bound', G.lmax, 2.0 if lap == 'normalized' else
             upper_bound(S, W, name == 'dcycle'))


# ------------------------------------------------------------------ C08

@harness('C08', cfgs=[dict(name=s, lap=l) for s in SMALL for l in LAPS], paths=60, budget=30)
def fourier(S, name, lap):
    """all shapes on 2..3 vertices, weights in [1/8,8], both Laplacians, arbitrary eigenvectors:
    basis, round trips, Parseval"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W, lap_type=lap)
    L = ref.laplacian(W, lap)
    if S.flag('explicit'):
        G.compute_fourier_basis()
    S.same('shapes', (tuple(G.U.shape), tuple(G.e.shape)), ((n, n), (n,)))
    S.eq('e[0]', G.e[0], 0)
    for k in range(n - 1):
        S.le('ascending', G.e[k], G.e[k + 1])
    S.spectral('basis', G.e, G.U, L)
    x, y = S.vec('x', n), S.vec('y', n)
    xh = G.gft(x)
    S.eq('round trip', G.igft(xh), x)
    S.eq('round trip back', G.gft(G.igft(y)), y)
    S.eq('Parseval', ref.dot(ref.grid(xh), ref.grid(G.gft(y))), ref.dot(ref.grid(x), ref.grid(y)))
    S.eq('definition', xh, ref.mm(ref.tr(G.U), x), obs=False)
    S.eq('coherence', G.coherence, S.np.max(abs(G.U)))


@harness('C08', cfgs=[dict(name=s, lap=l) for s in ('k2', 'p3', 'k3', 'd3m') for l in LAPS])
def fourier_shapes(S, name, lap):
    """signals with 0..3 trailing dimensions, lists and integers; wrong lengths rejected"""
    W = shape(S, name)
    n = W.shape[0]
    G = S.graphs.Graph(W, lap_type=lap)
    tail = S.choice('tail', [(1,), (2,), (2, 2), (3, 1, 2), (n,), (n, n)])
    X = S.np.zeros((n,) + tail)
    for k, i in enumerate([tuple(i) for i in S.np.ndindex(*X.shape)] if not S.sym else
                          list(__import__('numpy').ndindex(*X.shape))):
        X[i] = S.real(f'x{k}') if k < 6 else (k % 5 - 2) / 2
    Y, Z = G.gft(X), G.igft(X)
    S.same('shapes', (tuple(Y.shape), tuple(Z.shape)), ((n,) + tail,) * 2)
    import numpy
    for i in numpy.ndindex(*tail):
        c = (slice(None),) + i
        S.eq('gft column', Y[c], G.gft(X[c]), obs=False)
        S.eq('igft column', Z[c], G.igft(X[c]), obs=False)
    S.eq('round trip', G.igft(Y), X)
    S.eq('list', G.gft([1, 2, 4][:n]), G.gft(S.array([1., 2., 4.][:n])), obs=False)
    for bad in (n - 1, n + 1):
        S.raises('gft length', ValueError, lambda: G.gft(S.np.ones(bad)))
        S.raises('igft length', ValueError, lambda: G.igft(S.np.ones(bad)))
        S.raises('gft shape', ValueError, lambda: G.gft(S.np.ones((bad, n))))


@harness('C08', cfgs=[dict(name=s, scale=k, lap=l) for s in ('k2', 'p3', 'd3m')
                      for k in SCALES for l in LAPS])
def fourier_scales(S, name, scale, lap):
    """weights around 1e-9 and 1e6: the spectrum scales with the weights"""
    W, M = scaled(S, name, scale)
    G = S.graphs.Graph(W, lap_type=lap)
    s = scale if lap == 'combinatorial' else 1
    L = ref.laplacian(M, lap)
    er, _ = S.eigh(L)
    S.eq('spectrum', G.e / s, er)
    S.spectral('basis', G.e, G.U, ref.laplacian(W, lap))
    S.eq('e[0]', G.e[0], 0)
    x = S.vec('x', len(M))
    S.eq('round trip', G.igft(G.gft(x)), x)
    if S.flag('partial'):
        H = S.graphs.Graph(W, lap_type=lap)
        H.compute_fourier_basis(2)
        S.eq('partial spectrum', H.e / s, er[:2])


@harness('C08', cfgs=[dict(name=s, k=k) for s in ('p3', 'k3', 'd3c') for k in (1, 2, 3)])
def fourier_partial(S, name, k):
    """partial bases on 3 vertices: lowest eigenpairs, extended on demand, never shrunk"""
    W = shape(S, name)
    n = 3
    lap = S.choice('lap', LAPS)
    G = S.graphs.Graph(W, lap_type=lap)
    L = ref.laplacian(W, lap)
    top = 0
    for j in (k, S.choice('second', [1, 2, 3, None])):
        G.compute_fourier_basis(n_eigenvectors=j)
        top = max(top, n if j is None else j)
        S.same('size', (len(G.e), tuple(G.U.shape)), (top, (n, top)))
        S.spectral('basis', G.e, G.U, L)
    x = S.vec('x', n)
    S.eq('gft', G.gft(x), ref.mm(ref.tr(G.U), x), obs=False)
    er, _ = S.eigh(L)
    S.le('lmax bounds the spectrum', er[2], G.lmax)


@harness('C08', cfgs=[dict(n=n, lap=l) for n in (16, 50) for l in LAPS])
def fourier_larger(S, n, lap):
    """fixed directed weighted graph on 16 and 50 vertices: full and partial bases, arbitrary
    signal on 4 vertices"""
    W = S.np.zeros((n, n))
    for i in range(n):
        W[i, (i + 1) % n] = 1 + (i % 3) / 2
        W[i, (i * i + 2) % n] = 0.5
    W[0, 0] = 0
    G = S.graphs.Graph(W, lap_type=lap)
    L = ref.laplacian(W, lap)
    k = S.choice('k', [None, 2, 5, n - 1, n])
    G.compute_fourier_basis(k)
    S.same('size', len(G.e), k or n)
    S.spectral('basis', G.e, G.U, L)
    S.eq('e[0]', G.e[0], 0)
    if k in (None, n):
        x = S.np.zeros(n)
        for i in (0, 1, n // 2, n - 1):
            x[i] = S.real(f'x{i}')
        S.eq('round trip', G.igft(G.gft(x)), x)
        S.eq('lmax', G.lmax, G.e[n - 1])
