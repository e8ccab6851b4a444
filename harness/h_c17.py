"""C17 NetworkX export/import, C18 subgraphs and components."""
import itertools
from fractions import Fraction

from symx.session import harness
from . import ref
from .common import TYPES, any_graph, dir_edges, pattern, shape, typed, und_edges

# ------------------------------------------------------------------ C17


def exported(S, G, g, W, directed, signals):
    """g is a faithful NetworkX picture of the graph."""
    n = G.n_vertices
    Wg = ref.grid(W)
    S.same('nodes', list(g.nodes()), list(range(n)))
    S.same('direction', g.is_directed(), directed)
    seen = set()
    for u, v, d in g.edges(data=True):
        S.same('edge attributes', list(d), ['weight'])
        S.eq('edge weight', d['weight'], Wg[u][v])
        seen.add((u, v))
        if not directed:
            seen.add((v, u))
    want = {(i, j) for i in range(n) for j in range(n) if ref.nz(Wg[i][j])}
    S.same('edges', seen, want)
    S.same('edge count', g.number_of_edges(), G.n_edges)
    flat = {}
    for name, s in signals.items():
        if s.ndim == 2:
            for k in range(s.shape[1]):
                flat[f'{name}_{k}'] = s[:, k]
        else:
            flat[name] = s
    for i in range(n):
        S.same('node attributes', set(g.nodes[i]), set(flat))
        for name, s in flat.items():
            S.eq('node signal', g.nodes[i][name], s[i])


def imported(S, H, W, directed, signals):
    S.eq('weights after import', S.dense(H.W), W)
    S.same('direction after import', H.is_directed(), directed)
    S.same('signal names', set(H.signals), set(signals))
    for name, s in signals.items():
        S.same('signal shape', tuple(H.signals[name].shape), tuple(s.shape))
        S.eq('signal values', H.signals[name], s)


NAMES = [('x',), ('x', 'y'), ('x', 'x_mean'), ('x_a', 'x_b'), ('f_1', 'f_2'), ('a_b', 'a_c', 'a'),
         ('h_1', 'h_01'), ('_0', 'z')]


@harness('C17', cfgs=[dict(n=n, directed=d) for n in (1, 2, 3) for d in (False, True)],
         paths=600, budget=40)
def nx_roundtrip(S, n, directed):
    """1..3 vertices, every edge pattern with self-loops and arbitrary weights, directed or not, a
    vector signal and a two-column signal with arbitrary values"""
    W, edges = any_graph(S, n, directed=directed, loops=n < 3, lo=Fraction(-4))
    for w in [ref.grid(W)[i][j] for i, j in edges]:
        S.assume(w != 0)
    G = S.graphs.Graph(W)
    asym = G.is_directed()
    sig = {'v': S.vec('v', n), 'm': S.mat('m', n, 2)}
    for k, s in sig.items():
        G.set_signal(s, k)
    before = (dict(G.signals), list(G.signals), S.snapshot(G.signals['v']),
              S.snapshot(G.signals['m']), S.snapshot(G.W))
    g = G.to_networkx()
    S.same('name', g.name, 'Graph')
    S.same('signals kept', list(G.signals), before[1])
    for k in sig:
        S.check('signal objects kept', G.signals[k] is before[0][k])
    S.unchanged('v kept', G.signals['v'], before[2])
    S.unchanged('m kept', G.signals['m'], before[3])
    exported(S, G, g, W, asym, sig)
    H = S.graphs.Graph.from_networkx(g)
    imported(S, H, W, asym, sig)
    g2 = H.to_networkx()
    exported(S, H, g2, W, asym, sig)


@harness('C17', cfgs=[dict(k=k) for k in (2, 3, 9, 10, 11, 12, 21)])
def nx_columns(S, k):
    """signals of 2..21 columns on 2 vertices, next to a vector signal: every column comes back in
    its place"""
    W = shape(S, 'k2')
    G = S.graphs.Graph(W)
    sig = {'m': S.mat('m', 2, k), 'v': S.vec('v', 2)}
    if S.flag('first'):
        sig = dict(reversed(sig.items()))
    for name, s in sig.items():
        G.set_signal(s, name)
    g = G.to_networkx()
    exported(S, G, g, W, False, sig)
    imported(S, S.graphs.Graph.from_networkx(g), W, False, sig)


@harness('C17', cfgs=[dict(dtype=t, sig=t) for t in TYPES] + [dict(dtype='int8', sig='float64'),
                                                              dict(dtype='float32', sig='uint8')])
def nx_types(S, dtype, sig):
    """every number type of weights and signals, with every value of the type, on 2 vertices:
    values survive, as native Python numbers"""
    W, M = typed(S, 'k2', dtype)
    G = S.graphs.Graph(W)
    X = [[S.symint(f's{i}{j}', *((0, 255) if sig == 'uint8' else (-127, 127))) * 1.
          for j in range(2)] for i in range(2)]
    if sig == 'bool':
        X = [[1., 0.], [0., 1.]]
    if sig[:5] == 'float':
        X = [[x / 4 for x in r] for r in X]
    x = S.array(X)
    x = x > 0 if sig == 'bool' else x if S.sym and sig == 'float32' else x.astype(sig)
    signals = {'v': x[:, 1], 'm': x}
    for name, s in signals.items():
        G.set_signal(s, name)
    g = G.to_networkx()
    flat = {'v': [r[1] for r in X], 'm_0': [r[0] for r in X], 'm_1': [r[1] for r in X]}
    for i in range(2):
        S.same('node attributes', set(g.nodes[i]), set(flat))
        for name in flat:
            S.eq('node signal', g.nodes[i][name] * 1., flat[name][i])
            S.check('native', type(g.nodes[i][name]).__module__ != 'numpy')
    S.eq('edge weight', g.edges[0, 1]['weight'] * 1., M[0][1])
    S.check('native', type(g.edges[0, 1]['weight']).__module__ != 'numpy')
    imported(S, S.graphs.Graph.from_networkx(g), S.array(M), False,
             {'v': S.array(flat['v']), 'm': S.array(X)})


@harness('C17', cfgs=[dict(i=i) for i in range(len(NAMES))])
def nx_names(S, i):
    """several vector signals with related names on 2 vertices: none is lost, merged or renamed"""
    W = shape(S, 'k2')
    G = S.graphs.Graph(W)
    names = list(NAMES[i])
    if S.flag('reversed'):
        names.reverse()
    sig = {name: S.vec(f's{k}', 2) for k, name in enumerate(names)}
    for name, s in sig.items():
        G.set_signal(s, name)
    g = G.to_networkx()
    exported(S, G, g, W, False, sig)
    imported(S, S.graphs.Graph.from_networkx(g), W, False, sig)


@harness('C17', paths=1200)
def nx_integer(S):
    """integer weights 0..2 and signals -1..1 on 3 vertices"""
    w = [S.symint(f'w{k}', 0, 2) for k in range(3)]
    W = S.intarray([[0, w[0], w[1]], [w[0], 0, w[2]], [w[1], w[2], 0]])
    G = S.graphs.Graph(W)
    s = S.intarray([S.symint(f's{k}', -1, 1) for k in range(3)])
    G.set_signal(s, 's')
    g = G.to_networkx()
    for u, v, d in g.edges(data=True):
        S.check('integers stay integers', isinstance(d['weight'], int))
    exported(S, G, g, W, False, {'s': s})
    imported(S, S.graphs.Graph.from_networkx(g), W, False, {'s': s})


@harness('C17', cfgs=[dict(kind=k) for k in ('Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph')],
         paths=2000)
def nx_import(S, kind):
    """foreign NetworkX graphs on 3 labelled nodes in arbitrary order: edge attribute by name,
    missing weights are 1, missing node attributes NaN, parallel edges summed"""
    import networkx as nx
    labels = S.choice('labels', [['b', 'a', 'c'], [7, 3, 5]])
    g = getattr(nx, kind)()
    g.add_nodes_from(labels)
    n = 3
    edges = pattern(S, [(0, 1), (2, 1), (2, 0)])
    if S.flag('loop'):
        edges.append((1, 1))
    if 'Multi' in kind and S.flag('parallel'):
        edges += [(0, 1)]
    weight = S.choice('weight', ['weight', 'cost', None])
    directed = 'Di' in kind
    M = [[0.0] * n for _ in range(n)]
    for k, (i, j) in enumerate(edges):
        w = S.real(f'w{k}', Fraction(1, 8), 8)
        if k == 0 and S.flag('unset'):
            g.add_edge(labels[i], labels[j])
            w = 1
        else:
            g.add_edge(labels[i], labels[j], **{'weight' if weight is None else weight: w})
        if weight is None:
            w = 1
        M[i][j] = M[i][j] + w
        if not directed and i != j:
            M[j][i] = M[j][i] + w
    has = [S.flag(f'has{i}') for i in range(n)]
    x = [S.real(f'x{i}') for i in range(n)]
    for i in range(n):
        if has[i]:
            g.nodes[labels[i]]['x'] = x[i]
    H = S.graphs.Graph.from_networkx(g, weight=weight)
    S.eq('weights', S.dense(H.W), S.array(M))
    S.same('signals', list(H.signals), ['x'] if any(has) else [])
    if any(has):
        s = H.signals['x']
        for i in range(n):
            if has[i]:
                S.eq('signal', s[i], x[i])
            else:
                S.check('missing is NaN', bool(s[i] != s[i]))


# ------------------------------------------------------------------ C18

def selections(n):
    r = []
    for k in range(1, n + 1):
        r += [list(p) for p in itertools.permutations(range(n), k)]
    return r


def same_plotting(S, a, b):
    S.same('plotting', a, b)


@harness('C18', cfgs=[dict(n=n, directed=d) for n in (1, 2, 3) for d in (False, True)],
         paths=1500, budget=50)
def subgraph(S, n, directed):
    """1..3 vertices, every pattern with arbitrary (also negative) weights and self-loops, every
    ordered selection or indicator, vector and matrix signals, coordinates, both Laplacians"""
    if n == 3 and directed:
        W, edges = any_graph(S, n, directed=True)
    else:
        W, edges = any_graph(S, n, directed=directed, loops=True, lo=Fraction(1, 8))
    coords = S.choice('coords', [None, 1, 2])
    c = None if coords is None else S.mat('c', n, coords) if coords == 2 else S.vec('c', n)
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    plot = {'vertex_size': 7, 'edges': False}
    G = S.graphs.Graph(W, lap_type=lap, coords=c, plotting=plot)
    sig = {'v': S.vec('v', n), 'm': S.mat('m', n, 2)}
    for k, s in sig.items():
        G.set_signal(s, k)
    snaps = [(x, S.snapshot(x)) for x in (G.W, G.signals['v'], G.signals['m'])]
    if S.flag('indicator'):
        keep = [S.flag(f'k{i}') for i in range(n)]
        S.assume(any(keep))
        v = [i for i in range(n) if keep[i]]
        H = G.subgraph(S.np.array(keep))
    else:
        v = S.choice('vertices', selections(n))
        H = G.subgraph(S.np.array(v) if S.flag('array') else list(v))
    Wg = ref.grid(W)
    S.same('size', (H.n_vertices, H.N), (len(v), len(v)))
    S.eq('weights', S.dense(H.W), [[Wg[i][j] for j in v] for i in v])
    S.same('lap_type', H.lap_type, lap)
    S.same('plotting', H.plotting, G.plotting)
    if c is None:
        S.check('no coordinates', not hasattr(H, 'coords'))
    else:
        S.eq('coordinates', H.coords, [ref.grid(c)[i] for i in v])
    S.same('signals', list(H.signals), list(sig))
    for k, s in sig.items():
        S.eq('signal', H.signals[k], [ref.grid(s)[i] for i in v])
    S.eq('Laplacian', S.dense(H.L), ref.laplacian([[Wg[i][j] for j in v] for i in v], lap))
    # independence: writing to the subgraph does not reach the graph
    H.signals['v'][0] = 77.0
    H.signals['m'][0] = 77.0
    H.plotting['vertex_size'] = 1
    S.same('own plotting', G.plotting['vertex_size'], 7)
    for k, (x, s) in enumerate(snaps):
        S.unchanged(f'graph kept {k}', x, s)
    S.same('lap_type kept', G.lap_type, lap)


@harness('C18', cfgs=[dict(n=n) for n in (1, 2, 3, 4)], paths=200, budget=40)
def components(S, n):
    """1..4 vertices (two-signal, coordinates), every pattern and arbitrary weights: components
    partition the vertices, are connected, hold every edge"""
    W, edges = any_graph(S, n, loops=n < 3)
    lap = S.choice('lap', ['combinatorial', 'normalized'])
    c = S.mat('c', n, 2)
    G = S.graphs.Graph(W, lap_type=lap, coords=c)
    s = S.vec('s', n)
    G.set_signal(s, 's')
    Wg = ref.grid(W)
    comps = G.extract_components()
    R = [[i == j or (i, j) in edges or (j, i) in edges for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                R[i][j] = R[i][j] or R[i][k] and R[k][j]
    classes = []
    for i in range(n):
        cl = [j for j in range(n) if R[i][j]]
        if cl not in classes:
            classes.append(cl)
    S.same('partition', sorted([int(x) for x in H.info['orig_idx']] for H in comps),
           sorted(classes))
    for H in comps:
        v = [int(x) for x in H.info['orig_idx']]
        S.eq('weights', S.dense(H.W), [[Wg[i][j] for j in v] for i in v])
        S.check('connected', bool(H.is_connected()))
        S.eq('coordinates', H.coords, [ref.grid(c)[i] for i in v])
        S.eq('signal', H.signals['s'], [ref.grid(s)[i] for i in v])
        S.same('lap_type', H.lap_type, lap)
    S.same('edges', sum(H.n_edges for H in comps), G.n_edges)
    S.same('one', len(comps) == 1, bool(G.is_connected()))


@harness('C18', cfgs=[dict(m=m) for m in ('chain6', 'two', 'star7')])
def components_larger(S, m):
    """6..8 vertices with fixed patterns that need several traversal steps, arbitrary weights"""
    n, edges = {'chain6': (7, [(5, 3), (3, 0), (0, 4), (4, 1), (2, 6)]),
                'two': (8, [(0, 7), (7, 2), (1, 6), (6, 3), (3, 4)]),
                'star7': (7, [(3, k) for k in (0, 1, 2, 4, 5)])}[m]
    W = S.adjacency(n, edges)
    G = S.graphs.Graph(W)
    comps = G.extract_components()
    par = list(range(n))
    for _ in range(n):
        for i, j in edges:
            par[i] = par[j] = min(par[i], par[j])
    want = sorted([i for i in range(n) if par[i] == r] for r in set(par))
    S.same('partition', sorted([int(x) for x in H.info['orig_idx']] for H in comps), want)
    Wg = ref.grid(W)
    for H in comps:
        v = [int(x) for x in H.info['orig_idx']]
        S.eq('weights', S.dense(H.W), [[Wg[i][j] for j in v] for i in v])
    S.same('one', len(comps) == 1, bool(G.is_connected()))


@harness('C18', budget=40)
def components_long(S):
    """a path of 300 shuffled vertices next to smaller components, one arbitrary weight: nothing is
    lost on the way"""
    n = 330
    order = [(7 * k) % n for k in range(n)]
    w = S.real('w', Fraction(1, 8), 8)
    W = S.sparse.lil_matrix((n, n))
    cut = {299, 300, 310, 328}
    for k in range(n - 1):
        if k not in cut:
            i, j = order[k], order[k + 1]
            W[i, j] = W[j, i] = w if k == 150 else 1.0 + k / 8
    G = S.graphs.Graph(W.tocsr())
    G.set_signal(S.np.arange(n) / 2.0, 's')
    comps = G.extract_components()
    want, part = [], []
    for k in range(n):
        part.append(order[k])
        if k in cut or k == n - 1:
            want.append(sorted(part))
            part = []
    S.same('partition', sorted([int(x) for x in H.info['orig_idx']] for H in comps), sorted(want))
    S.same('edges', sum(H.n_edges for H in comps), n - 1 - len(cut))
    big = max(comps, key=lambda H: H.n_vertices)
    v = [int(x) for x in big.info['orig_idx']]
    S.eq('signal', big.signals['s'], [x / 2.0 for x in v], obs=False)
    i, j = v.index(order[150]), v.index(order[151])
    S.eq('weight', [big.W[i, j], big.W[j, i]], [w, w])


@harness('C18', cfgs=[dict(n=2), dict(n=3)], paths=300)
def components_directed(S, n):
    """2..3 vertices, every directed pattern and weights: directed graphs are refused, not split"""
    W, edges = any_graph(S, n, directed=True)
    G = S.graphs.Graph(W)
    if G.is_directed():
        S.raises('refused', NotImplementedError, lambda: G.extract_components())
    else:
        comps = G.extract_components()
        S.same('vertices', sum(H.n_vertices for H in comps), n)


@harness('C18')
def signals(S):
    """attached signals: values and shape kept; wrong lengths rejected and nothing attached"""
    n = 3
    G = S.graphs.Graph(shape(S, 'p3'))
    k = S.choice('cols', [0, 1, 3])
    s = S.mat('s', n, k) if k else S.vec('s', n)
    G.set_signal(s, 'a')
    S.eq('stored', G.signals['a'], s)
    for m in (1, 2, 4):
        S.raises('length', ValueError, lambda: G.set_signal(S.vec(f't{m}', m), 'b'))
    S.same('names', list(G.signals), ['a'])
