"""C28: graph-tool export and import, files."""
from fractions import Fraction

from symx.session import harness
from . import ref
from .common import TYPES, any_graph, pattern, shape, typed
from .h_c17 import NAMES, imported


def flat(signals):
    r = {}
    for name, s in signals.items():
        if s.ndim == 2:
            r.update({f'{name}_{k}': s[:, k] for k in range(s.shape[1])})
        else:
            r[name] = s
    return r


def exported(S, G, g, W, directed, signals):
    """g is a faithful graph-tool picture of the graph."""
    n = G.n_vertices
    Wg = ref.grid(W)
    S.same('vertices', g.num_vertices(), n)
    S.same('direction', g.is_directed(), directed)
    S.same('edge properties', list(g.edge_properties), ['weight'])
    w = ref.grid(g.edge_properties['weight'].get_array()) if g.num_edges() else []
    seen = set()
    for k, (u, v) in enumerate((int(e.source()), int(e.target())) for e in g.edges()):
        S.eq('edge weight', w[k] * 1., Wg[u][v] * 1.)
        seen.add((u, v))
        if not directed:
            seen.add((v, u))
    S.same('edges', seen, {(i, j) for i in range(n) for j in range(n) if ref.nz(Wg[i][j])})
    S.same('edge count', g.num_edges(), G.n_edges)
    f = flat(signals)
    S.same('vertex properties', set(g.vertex_properties.keys()), set(f))
    for name, s in f.items():
        S.eq('vertex signal', [x * 1. for x in ref.grid(g.vertex_properties[name].get_array())],
             [x * 1. for x in ref.grid(s)])


@harness('C28', cfgs=[dict(n=n, directed=d) for n in (1, 2, 3) for d in (False, True)],
         paths=1300, budget=60)
def gt_roundtrip(S, n, directed):
    """1..3 vertices, every edge pattern with self-loops (isolated vertices included) and arbitrary nonzero
    weights, directed or not, a vector signal and a two-column signal with arbitrary values"""
    W, edges = any_graph(S, n, directed=directed, loops=n < 3, lo=Fraction(-4))
    for w in [ref.grid(W)[i][j] for i, j in edges]:
        S.assume(w != 0)
    G = S.graphs.Graph(W)
    asym = G.is_directed()
    sig = {'v': S.vec('v', n), 'm': S.mat('m', n, 2)} if n == 3 or S.flag('signals') else {}
    for k, s in sig.items():
        G.set_signal(s, k)
    kept = dict(G.signals)
    before = S.snapshot([G.W, *kept.values()])
    g = G.to_graphtool()
    S.same('signals kept', list(G.signals), list(sig))
    S.check('signal objects kept', all(G.signals[k] is kept[k] for k in sig))
    exported(S, G, g, W, asym, sig)
    H = S.graphs.Graph.from_graphtool(g)
    imported(S, H, W, asym, sig)
    for p in g.vertex_properties.values():
        p.get_array()[:] = -7
    imported(S, H, W, asym, sig)
    S.unchanged('graph kept', [G.W, *kept.values()], before)
    exported(S, H, H.to_graphtool(), W, asym, sig)


@harness('C28', cfgs=[dict(k=k) for k in (2, 3, 10, 12, 101)])
def gt_columns(S, k):
    """signals of 2..101 columns on 2 vertices, next to a vector signal: every column comes back in
    its place"""
    W = shape(S, 'k2')
    G = S.graphs.Graph(W)
    sig = {'m': S.mat('m', 2, k), 'v': S.vec('v', 2)}
    if S.flag('first'):
        sig = dict(reversed(sig.items()))
    for name, s in sig.items():
        G.set_signal(s, name)
    g = G.to_graphtool()
    exported(S, G, g, W, False, sig)
    imported(S, S.graphs.Graph.from_graphtool(g), W, False, sig)


ALL = list(TYPES) + ['uint16', 'uint32']
RANGE = {'bool': (0, 1), 'uint8': (0, 255), 'int8': (-127, 127), 'uint16': (0, 65535), 'int16': (-32767, 32767),
         'uint32': (0, 2 ** 32 - 1)}


@harness('C28', cfgs=[dict(sig=t) for t in dict.fromkeys(ALL)])
def gt_signal_types(S, sig):
    """every number type of signals, with every value of the type (64-bit ones up to 2^40): values survive"""
    lo, hi = RANGE.get(sig, (-2 ** 40, 2 ** 40))
    if sig in ('int32', 'float32'):
        lo, hi = (-2 ** 31, 2 ** 31 - 1) if sig == 'int32' else (-2 ** 20, 2 ** 20)
    X = [[S.symint(f's{i}{j}', lo, hi) * 1. for j in range(2)] for i in range(2)]
    if sig == 'bool':
        X = [[1., 0.], [0., 1.]]
    x = S.array(X)
    x = x > 0 if sig == 'bool' else x if S.sym and sig == 'float32' else x.astype(sig)
    G = S.graphs.Graph(shape(S, 'k2'))
    signals = {'v': x[:, 1], 'm': x}
    for name, s in signals.items():
        G.set_signal(s, name)
    g = G.to_graphtool()
    exported(S, G, g, S.dense(G.W), False, {'v': S.array([r[1] for r in X]), 'm': S.array(X)})
    imported(S, S.graphs.Graph.from_graphtool(g), S.dense(G.W), False,
             {'v': S.array([r[1] for r in X]), 'm': S.array(X)})


@harness('C28', cfgs=[dict(dtype=t) for t in TYPES])
def gt_weight_types(S, dtype):
    """every number type of weights, with every value of the type: weights survive"""
    W, M = typed(S, 'p3', dtype)
    G = S.graphs.Graph(W)
    g = G.to_graphtool()
    H = S.graphs.Graph.from_graphtool(g)
    S.eq('weights', [[x * 1. for x in r] for r in ref.grid(S.dense(H.W))], [[x * 1. for x in r] for r in M])


@harness('C28', cfgs=[dict(i=i) for i in range(len(NAMES))])
def gt_names(S, i):
    """several vector signals with related names on 2 vertices: none is lost, merged or renamed"""
    W = shape(S, 'k2')
    G = S.graphs.Graph(W)
    names = list(NAMES[i])
    if S.flag('reversed'):
        names.reverse()
    sig = {name: S.vec(f's{k}', 2) for k, name in enumerate(names)}
    for name, s in sig.items():
        G.set_signal(s, name)
    g = G.to_graphtool()
    exported(S, G, g, W, False, sig)
    imported(S, S.graphs.Graph.from_graphtool(g), W, False, sig)


@harness('C28', cfgs=[dict(directed=d) for d in (False, True)], paths=600)
def gt_import(S, directed):
    """foreign graph-tool graphs on 3 vertices: edge property by name, weights of 1 if there is none, parallel
    edges and loops, signals of any name"""
    n = 3
    g = S.gt.Graph(directed=directed)
    g.add_vertex(n)
    edges = pattern(S, [(0, 1), (2, 1), (2, 0)])
    if S.flag('loop'):
        edges.append((1, 1))
    if S.flag('parallel'):
        edges += [(0, 1)] * 2
    name = S.choice('name', ['weight', 'cost', None, 'absent'])
    for i, j in edges:
        g.add_edge(i, j)
    w = [S.real(f'w{k}', Fraction(1, 8), 8) for k in range(len(edges))]
    if name != 'absent' and edges:
        p = g.new_edge_property('double')
        p.get_array()[:] = S.array(w)
        g.edge_properties[name or 'weight'] = p
    M = [[0.0] * n for _ in range(n)]
    for k, (i, j) in enumerate(edges):
        x = w[k] if name in ('weight', 'cost') else 1
        M[i][j] = M[i][j] + x
        if not directed and i != j:
            M[j][i] = M[j][i] + x
    x = S.vec('x', n)
    q = g.new_vertex_property('double')
    q.get_array()[:] = x
    g.vertex_properties['some signal'] = q
    H = S.graphs.Graph.from_graphtool(g, **({} if name == 'weight' else dict(weight=name)))
    S.eq('weights', S.dense(H.W), S.array(M))
    S.same('signals', list(H.signals), ['some signal'])
    S.eq('signal', H.signals['some signal'], x)


LIBS = [('networkx', 'graphml'), ('networkx', 'gml'), ('networkx', 'gexf'), ('graph-tool', 'graphml'),
        ('graph-tool', 'gml')]


@harness('C28', cfgs=[dict(lib=l, fmt=f) for l, f in LIBS], paths=320, budget=40)
def files(S, lib, fmt):
    """2..3 vertices (isolated ones, loops, directed), arbitrary weights and signals of one and two columns, saved
    and loaded in every format with both libraries, formats given or guessed from the name"""
    n = S.choice('n', [2, 3])
    E = S.choice('edges', [[], [(0, 1)], [(0, 0), (1, 0)]] + ([[(0, 1), (1, 2)], [(2, 0), (1, 2)]] if n == 3 else []))
    directed = S.flag('directed')
    W = S.adjacency(n, E, directed=directed)
    G = S.graphs.Graph(W)
    sig = {'v': S.vec('v', n), 'm_x': S.mat('m', n, 2)} if S.flag('signals') else {}
    for k, s in sig.items():
        G.set_signal(s, k)
    before = S.snapshot([G.W, *sig.values()])
    name = S.choice('name', ['guessed', 'dotted', 'given', 'contradicting'])
    default = lib == 'networkx' and S.flag('default library')
    kw = {} if default else dict(backend=lib)
    if name in ('given', 'contradicting'):
        kw['fmt'] = fmt
    with S.files() as d:
        path = f'{d}/graph' + {'guessed': '.' + fmt, 'dotted': '.v1.gexf.' + fmt, 'given': '', 'contradicting': '.abc.txt'}[name]
        S.same('nothing returned', G.save(path, **kw), None)
        S.unchanged('graph kept', [G.W, *sig.values()], before)
        H = S.graphs.Graph.load(path, **kw)
        tol = 1e-5 if (lib, fmt) == ('graph-tool', 'gml') else None
        S.same('direction', bool(H.is_directed()), bool(G.is_directed()))
        S.eq('weights', S.dense(H.W), W, tol=tol)
        S.same('signals', set(H.signals), set(sig))
        for k, s in sig.items():
            S.eq('signal', H.signals[k], s, tol=tol)


@harness('C28')
def files_reject(S):
    """unknown formats and libraries, missing libraries: refused; the other library is used when one is missing"""
    G = S.graphs.Graph(shape(S, 'k2'))
    x = S.vec('x', 2)
    G.set_signal(x, 'x')
    load = S.graphs.Graph.load
    with S.files() as d:
        sub = S.choice('sub', ['format', 'guessed format', 'library', 'missing', 'fallback', 'none'])
        p = f'{d}/a.graphml'
        if sub == 'format':
            S.raises('save', ValueError, lambda: G.save(p, fmt='abc'))
            S.raises('load', ValueError, lambda: load(p, fmt='abc'))
        elif sub == 'guessed format':
            S.raises('save', ValueError, lambda: G.save(f'{d}/a.abc'))
            S.raises('load', ValueError, lambda: load(f'{d}/a.abc'))
        elif sub == 'library':
            G.save(p)
            S.raises('save', ValueError, lambda: G.save(p, backend='abc'))
            S.raises('load', ValueError, lambda: load(p, backend='abc'))
        elif sub == 'missing':
            lib = S.choice('lib', ['networkx', 'graph-tool'])
            G.save(p, backend=lib)
            with S.without(lib.replace('-', '_')):
                S.raises('save', ImportError, lambda: G.save(p, backend=lib))
                S.raises('load', ImportError, lambda: load(p, backend=lib))
                f, t = ('to_networkx', 'from_networkx') if lib == 'networkx' else ('to_graphtool', 'from_graphtool')
                S.raises(f, ImportError, getattr(G, f))
                S.raises(t, ImportError, lambda: getattr(S.graphs.Graph, t)(None))
        elif sub == 'fallback':
            lib, other = S.choice('lib', [('networkx', 'graph-tool'), ('graph-tool', 'networkx')])
            p = f"{d}/a.{S.choice('format', ['graphml', 'gml'])}"
            if not S.sym:
                S.gt
            with S.without(lib.replace('-', '_')):
                G.save(p)
                H = load(p)
                load(p, backend=other)
            S.eq('weights', S.dense(H.W), S.dense(G.W), tol=1e-5)
            S.eq('signal', H.signals['x'], x, tol=1e-5)
        else:
            with S.without('networkx', 'graph_tool'):
                S.raises('save', ImportError, lambda: G.save(p))
                S.raises('load', ImportError, lambda: load(p))


@harness('C28', cfgs=[dict(n=300)], paths=20, replays=3)
def gt_long(S, n):
    """300 vertices (the last one isolated) with loops, two arbitrary weights and signal values far apart"""
    W = S.np.zeros((n, n))
    for i in range(n - 2):
        W[i, i + 1] = W[i + 1, i] = 1 + i % 7 / 4
    W[5, 5] = 3
    a, b = S.real('a', Fraction(1, 8), 8), S.real('b', Fraction(1, 8), 8)
    W[0, 1] = W[1, 0] = a
    W[n - 2, 7] = W[7, n - 2] = b
    x = [i / 4 for i in range(n)]
    x[2], x[n - 1] = S.real('x'), S.real('y')
    x = S.array(x)
    G = S.graphs.Graph(S.sparse.csr_matrix(W))
    G.set_signal(x, 'x')
    g = G.to_graphtool()
    S.same('size', (g.num_vertices(), g.num_edges()), (n, G.n_edges))
    H = S.graphs.Graph.from_graphtool(g)
    S.eq('weights', S.dense(H.W), W)
    S.eq('signal', H.signals['x'], x)
