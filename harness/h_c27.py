"""C27: plots show the graphs, signals, filters and spectrograms they are given."""
from symx.session import harness
from harness import ref
from harness.common import shape


def find(rec, kind, ax=None):
    return [e for e in rec if e.kind == kind and (ax is None or e.ax is ax)]


def graph(S, edges, n, dim, directed=False):
    W = S.adjacency(n, edges, directed=directed)
    C = S.vec('c', n) if dim == 1 else S.mat('c', n, dim)
    return S.graphs.Graph(W, coords=C), C


def vertices(S, rec):
    """The call which draws the vertices, and the one which highlights some of them."""
    pts = find(rec, 'points')
    hl = [e for e in pts if isinstance(e.c, str) and e.c.lower() == 'none']
    vs = [e for e in pts if not any(e is h for h in hl)]
    S.same('one drawing of the vertices', len(vs), 1)
    return vs[0], hl


def at(S, label, pos, C):
    """Points at the rows of C."""
    C = ref.grid(C)
    S.same(label + ': dimension', len(pos), len(C[0]))
    for d, p in enumerate(pos):
        S.eq(f'{label}: coordinate {d}', p, [r[d] for r in C])


def scaled_to(S, label, got, x, lo, hi):
    """got is an affine function of x from lo (at its minimum) to hi, or half of hi if constant."""
    x = ref.grid(x)
    a, b = x[0], x[0]
    for v in x[1:]:
        a = v if v < a else a
        b = v if v > b else b
    if a == b:
        S.eq(label + ' (constant)', got, [hi / 2] * len(x))
    else:
        S.eq(label, got, [lo + (hi - lo) * (v - a) / (b - a) for v in x])


def edges_drawn(S, rec, G, C, dim, shown=True):
    seg = find(rec, 'segments')
    S.same('edges drawn', len(seg), int(shown))
    if shown:
        src, dst, _ = G.get_edge_list()
        src, dst = [int(i) for i in src], [int(i) for i in dst]
        C = ref.grid(C)
        S.same('in the space of the coordinates', seg[0].d3, dim == 3)
        S.same('number of segments', len(seg[0].segments), len(src))
        if src:
            S.eq('segments', seg[0].segments, [[C[i], C[j]] for i, j in zip(src, dst)])
        return seg[0].kw
    return {}


def lowhigh(S, lim, s):
    """Every value of s lies within the limits, which exceed them by 5% at most."""
    lo, hi = lim
    s = ref.grid(s)
    s = [v for r in s for v in r] if isinstance(s[0], list) else s
    a, b = s[0], s[0]
    for v in s[1:]:
        a = v if v < a else a
        b = v if v > b else b
    S.le('lower limit', lo, a)
    S.le('upper limit', b, hi)
    m = abs(a) if abs(a) > abs(b) else abs(b)
    S.le('margin below', a - m / 16 - 1e-9, lo)
    S.le('margin above', hi, b + m / 16 + 1e-9)


EDGES = {'one': (1, []), 'pair': (2, [(0, 1)]), 'path': (4, [(0, 1), (1, 2), (2, 3)]),
         'none': (2, []), 'loop': (2, [(0, 0), (0, 1)])}


@harness('C27', cfgs=[dict(name=k, dim=d) for k in EDGES for d in (2, 3)], budget=25)
def graph_signals(S, name, dim):
    """graphs of 1, 2 and 4 vertices (no edge, one edge, loops) at any 2-D and 3-D coordinates, arbitrary
    signals as vertex colors and sizes, edge colors and widths, with and without limits"""
    n, E = EDGES[name]
    G, C = graph(S, E, n, dim)
    m = len(E)
    kw = {}
    what = S.choice('what', ['color', 'size', 'edge_color', 'edge_width'])
    if m == 0 and what.startswith('edge'):
        return
    k = n if what in ('color', 'size') else m
    x = S.vec('s', k)
    if k in (3, 4) and what.endswith('color'):
        S.assume(x[0] > 1)  # Else also the components of a color.
    key = {'color': 'vertex_color', 'size': 'vertex_size'}.get(what, what)
    given = x.tolist() if S.flag('list') else x
    kw[key] = given
    lim = None
    if what == 'color' and S.flag('limits'):
        lim = kw['limits'] = [S.real('lo', -4, 0), S.real('hi', 0.5, 4)]
    s = S.snapshot([G.W, G.coords, G.plotting, x])
    with S.drawing() as rec:
        if what == 'color' and not S.flag('colorbar'):
            kw['colorbar'] = False
        fig, ax = G.plot(**kw)
        v, hl = vertices(S, rec)
        at(S, 'vertices', v.pos, C)
        ekw = edges_drawn(S, rec, G, C, dim)
        S.check('axes', v.ax is ax and ax.figure is fig)
        bars = find(rec, 'colorbar')
    S.unchanged('untouched', [G.W, G.coords, G.plotting, x], s)
    p = G.plotting
    if what == 'color':
        S.eq('color', v.c, x)
        S.same('colorbar', len(bars), int(kw.get('colorbar', True)) if dim > 1 else 0)
        if lim:
            S.eq('limits', [v.kw['vmin'], v.kw['vmax']], lim)
        else:
            lowhigh(S, (v.kw['vmin'], v.kw['vmax']), x)
    else:
        S.eq('default color', v.c, [list(p['vertex_color'])])
        S.same('no colorbar', len(bars), 0)
    if what == 'size':
        # An area: diameters range from half of to twice the default one.
        scaled_to(S, 'diameters', S.np.sqrt(v.s), x, p['vertex_size'] ** .5 / 2, p['vertex_size'] ** .5 * 2)
    else:
        S.same('default size', v.s, p['vertex_size'])
    if what == 'edge_color':
        g = ref.grid(ekw['color'])
        S.eq('rgb', [r[:3] for r in g], [list(p['edge_color'][:3])] * m)
        scaled_to(S, 'alpha', [r[3] for r in g], x, .225, .9)
    elif m:
        S.eq('default edge color', ekw['color'], [list(p['edge_color'])])
    if what == 'edge_width':
        scaled_to(S, 'width', ekw['linewidth'], x, p['edge_width'] / 2, p['edge_width'] * 2)
    elif m:
        S.same('default width', ekw['linewidth'], p['edge_width'])
    S.same('style', ekw.get('linestyle', p['edge_style']), p['edge_style'])


@harness('C27', cfgs=[dict(dim=d, directed=x) for d in (2, 3) for x in (False, True)], budget=25)
def graph_options(S, dim, directed):
    """4 vertices at any 2-D or 3-D coordinates: options, highlighted vertices, indices, titles, colors"""
    G, C = graph(S, [(0, 1), (1, 2), (3, 2)] + [(2, 1)] * directed, 4, dim, directed)
    p = G.plotting
    kw = {}
    sub = S.choice('sub', ['highlight', 'edges', 'indices', 'title', 'scalars', 'colors', 'plotting', 'rgb'])
    hl = []
    if sub == 'highlight':
        hl = kw['highlight'] = S.choice('hl', [[], 0, 3, [2], [3, 1], [1, 1], (0, 2), range(2)])
        hl = [hl] if isinstance(hl, int) else list(hl)
        if isinstance(kw['highlight'], tuple):
            kw['highlight'] = list(kw['highlight'])
        size = S.vec('z', 4) if S.flag('sizes') else None
        if size is not None:
            S.assume(size[1] > size[0] + 1)
            kw['vertex_size'] = size
    if sub == 'edges':
        kw['edges'] = S.choice('edges', [None, True, False])
    if sub == 'indices':
        kw['indices'] = True
    if sub == 'title':
        kw['title'] = S.choice('title', ['abc', ''])
    if sub == 'scalars':
        kw.update(vertex_size=S.choice('vs', [7, 30.5]), edge_width=S.choice('ew', [1, 3.5]))
    if sub == 'colors':
        kw.update(vertex_color=S.choice('vc', ['r', (0.1, 0.2, 0.3), (0.1, 0.2, 0.3, 0.4), ['r', 'g', 'b', 'k']]),
                  edge_color=S.choice('ec', ['r', (0.1, 0.2, 0.3), (0.1, 0.2, 0.3, 0.4)]))
    if sub == 'rgb':
        k = S.choice('k', [3, 4])
        kw['vertex_color'] = S.array([[S.real(f'v{i}_{j}', 0, 1) for j in range(k)] for i in range(4)])
        kw['edge_color'] = S.array([[S.real(f'e{i}_{j}', 0, 1) for j in range(k)] for i in range(G.Ne)])
    if sub == 'plotting':
        p['vertex_size'] = 12
        p['edge_width'] = 3
        p['vertex_color'] = (0.5, 0.25, 0.75, 1)
        p['edge_color'] = (0.25, 0.5, 0.75, 1)
        p['edge_style'] = '--'
        p['highlight_color'] = 'C2'
    with S.drawing() as rec:
        fig, ax = (G.plot_signal if sub == 'title' else G.plot)(**kw)
        v, h = vertices(S, rec)
        at(S, 'vertices', v.pos, C)
        ekw = edges_drawn(S, rec, G, C, dim, kw.get('edges') is not False)
        texts = find(rec, 'text')
        titles = [e.text for e in find(rec, 'title')]
        S.same('no colorbar', len(find(rec, 'colorbar')), 0)
    S.same('title', titles[-1:], [kw.get('title', G.__repr__(limit=4))])
    rows = ref.grid(C)
    if hl:
        S.same('highlighting', len(h), 1)
        at(S, 'highlighted', h[0].pos, [rows[i] for i in hl])
        S.same('highlight color', h[0].kw['edgecolors'], p['highlight_color'])
        if 'vertex_size' in kw:
            z = ref.grid(v.s)
            S.eq('highlighted sizes', h[0].s, [2 * z[i] for i in hl])
        else:
            S.eq('highlighted size', h[0].s, 2 * p['vertex_size'])
    else:
        for e in h:
            S.same('nothing highlighted', len(e.pos[0]), 0)
    if sub == 'indices':
        S.same('indices', [int(e.s) for e in texts], list(range(4)))
        for i, e in enumerate(texts):
            S.eq(f'position of index {i}', e.pos, rows[i])
    else:
        S.same('no text', len(texts), 0)
    if sub != 'highlight':
        S.same('size', v.s, kw.get('vertex_size', p['vertex_size']))
    if 'linewidth' in ekw:
        S.same('width', ekw['linewidth'], kw.get('edge_width', p['edge_width']))
        S.same('style', ekw['linestyle'], p['edge_style'])
        if sub == 'rgb':
            S.eq('edge color', ekw['color'], kw['edge_color'])
        else:
            S.same('edge color', ekw['color'], kw.get('edge_color', (p['edge_color'],)))
    if sub == 'rgb':
        S.eq('vertex color', v.c, kw['vertex_color'])
    else:
        S.same('vertex color', v.c, kw.get('vertex_color', (p['vertex_color'],)))


@harness('C27', cfgs=[dict(k=1), dict(k=2)], budget=20)
def graph_1d(S, k):
    """3 vertices on a line at any coordinates, one or two arbitrary signals: curves, limits, highlights"""
    G, C = graph(S, [(0, 1), (1, 2)], 3, 1)
    x = S.vec('s', 3) if k == 1 else S.mat('s', 3, 2)
    if k == 1:
        S.assume(x[0] > 1)
    kw = {}
    if S.flag('limits'):
        kw['limits'] = (S.real('lo', -4, 0), S.real('hi', 1, 4))
    hl = S.choice('hl', [[], 2, [2, 0]])
    with S.drawing() as rec:
        G.plot(x, highlight=hl, **kw)
        c = find(rec, 'curve')
        S.same('curves', len(c), 1)
        S.eq('abscissa', c[0].x, C)
        S.eq('signal', c[0].y, x)
        lim = find(rec, 'ylim')[-1]
        lines = find(rec, 'vline')
        S.same('no edge', len(find(rec, 'segments')), 0)
    if kw:
        S.eq('limits', [lim.lo, lim.hi], list(kw['limits']))
    else:
        lowhigh(S, (lim.lo, lim.hi), x)
    S.eq('highlighted', [e.x for e in lines], [ref.grid(C)[i] for i in ([hl] if isinstance(hl, int) else hl)])


@harness('C27', cfgs=[dict(n=1), dict(n=2), dict(n=5)])
def graph_rejects(S, n):
    """signals of every other length or of several columns, coordinates missing, of another length or in
    4 dimensions, unknown backends: refused, nothing drawn"""
    E = [(i, i + 1) for i in range(n - 1)]
    G, C = graph(S, E, n, 2)
    sub = S.choice('sub', ['length', 'columns', 'coords', 'backend'])
    with S.drawing() as rec:
        if sub == 'length':
            key = S.choice('key', ['vertex_color', 'vertex_size', 'edge_color', 'edge_width'])
            right = n if key.startswith('vertex') else n - 1
            m = S.choice('m', [m for m in (1, 2, 3, 6, 7) if m != right])
            x = S.vec('s', m, 2, 4)
            S.raises(key, ValueError, lambda: G.plot(**{key: x}))
        elif sub == 'columns':
            key = S.choice('key', ['vertex_color', 'vertex_size', 'edge_color', 'edge_width'])
            right = n if key.startswith('vertex') else n - 1
            if not right:
                return
            x = S.mat('s', right, 2, 2, 4)
            S.raises(key, ValueError, lambda: G.plot(**{key: x}))
        elif sub == 'coords':
            bad = S.choice('bad', ['missing', 'none', 'few', 'many', '4d', '3-d array'])
            if bad == 'missing':
                G = S.graphs.Graph(G.W)
            else:
                G.coords = {'none': None, 'few': S.np.ones((n - 1, 2)), 'many': S.np.ones((n + 1, 2)),
                            '4d': S.np.ones((n, 4)), '3-d array': S.np.ones((n, 2, 1))}[bad]
            S.raises(bad, AttributeError, lambda: G.plot())
        else:
            S.raises('backend', ValueError, lambda: G.plot(backend='abc'))
        S.same('nothing drawn', len(find(rec, 'points')) + len(find(rec, 'segments')), 0)


@harness('C27', cfgs=[dict(dt=d) for d in ('bool', 'int8', 'uint8', 'int64', 'int')])
def graph_types(S, dt):
    """signals of booleans and integers (every value of the type) as colors, sizes, widths and alphas: as
    with real numbers"""
    n = 3
    G, C = graph(S, [(0, 1), (1, 2)], n, 2)
    key = S.choice('key', ['vertex_color', 'vertex_size', 'edge_color', 'edge_width'])
    m = n if key.startswith('vertex') else n - 1
    lo, hi = {'bool': (0, 1), 'int8': (-128, 127), 'uint8': (0, 255)}.get(dt, (-1000, 1000))
    v = [S.symint(f's{i}', lo, hi) for i in range(m)]
    if key == 'vertex_color' and dt != 'bool':
        S.assume(v[0] > 1)
    x = v if dt == 'int' else S.np.array(v).astype(dt)
    if dt == 'bool':
        v = [1 * (a > 0) for a in v]
    with S.drawing() as rec:
        G.plot(**{key: x})
        p, _ = vertices(S, rec)
        e = find(rec, 'segments')[0].kw
    o = G.plotting
    if key == 'vertex_color':
        S.eq('color', p.c, v)
        lowhigh(S, (p.kw['vmin'], p.kw['vmax']), v)
    elif key == 'vertex_size':
        scaled_to(S, 'diameters', S.np.sqrt(p.s), v, o['vertex_size'] ** .5 / 2, o['vertex_size'] ** .5 * 2)
    elif key == 'edge_color':
        scaled_to(S, 'alpha', [r[3] for r in ref.grid(e['color'])], v, .225, .9)
    else:
        scaled_to(S, 'width', e['linewidth'], v, o['edge_width'] / 2, o['edge_width'] * 2)


@harness('C27')
def figures(S):
    """figures are created when no axes are given, are of the dimension of the graph, and all closed by
    close_all; given axes are drawn on and returned"""
    G2, _ = graph(S, [(0, 1)], 2, 2)
    G3 = S.graphs.Graph(G2.W, coords=S.mat('d', 2, 3))
    F = S.filters.Filter(S.graphs.Graph(S.np.ones((2, 2)) - S.np.eye(2)), lambda x: x)
    F.G.estimate_lmax()
    kinds = [S.choice(f'k{i}', ['2d', '3d', 'filter']) for i in range(2)]
    plotting = S.mod('plotting')
    with S.drawing() as rec:
        out = []
        for k in kinds:
            out.append({'2d': G2, '3d': G3, 'filter': F}[k].plot())
        made = find(rec, 'figure')
        S.same('figures', len(made), 2)
        for (fig, ax), m, k in zip(out, made, kinds):
            S.check('its own figure', fig is m.fig and ax.figure is fig)
        if 'filter' in kinds:
            i = kinds.index('filter')
            fig, ax = out[i]
            r = F.plot(ax=ax)
            S.check('given axes', r[0] is fig and r[1] is ax)
        if '2d' in kinds:
            fig, ax = out[kinds.index('2d')]
            r = G2.plot(ax=ax)
            S.check('given axes', r[0] is fig and r[1] is ax)
        S.same('no other figure', len(find(rec, 'figure')), 2)
        d3 = [e.d3 for e in find(rec, 'segments')][:2]
        S.same('dimensions', d3[:sum(k != 'filter' for k in kinds)], [k == '3d' for k in kinds if k != 'filter'])
        S.same('open', len(find(rec, 'close')), 0)
        plotting.close_all()
        closed = [e.fig for e in find(rec, 'close')]
        S.check('closed', len(closed) == 2 and all(any(c is f for c in closed) for f, _ in out))
        plotting.close_all()
        S.same('closed once', len(find(rec, 'close')), 2)


@harness('C27', cfgs=[dict(k=k) for k in (1, 2, 3)], budget=25)
def filter_curves(S, k):
    """banks of 1..3 polynomials with arbitrary coefficients on 3 vertices, 1..5 points, every combination of
    options: responses, their sum of squares, eigenvalues, labels"""
    W = S.array([[0., 1., 0.], [1., 0., 2.], [0., 2., 0.]])
    G = S.graphs.Graph(W)
    fourier = S.flag('fourier')
    if fourier:
        G.compute_fourier_basis()
    else:
        G.estimate_lmax('bounds')
    a = S.vec('a', k)
    g = [lambda x, i=i: a[i] + x * (i + 1) for i in range(k)]
    F = S.filters.Filter(G, g)
    n = S.choice('n', [1, 2, 5])
    kw = dict(n=n)
    ev = S.choice('eigenvalues', [None, True, False] if fourier else [None, False])
    total = S.choice('sum', [None, True, False])
    labels = S.choice('labels', [None, True, False])
    kw.update({a: b for a, b in (('eigenvalues', ev), ('sum', total), ('labels', labels)) if b is not None})
    if S.flag('title'):
        kw['title'] = 'abc'
    ev = fourier if ev is None else ev
    total = k > 1 if total is None else total
    labels = k > 1 if labels is None else labels
    lmax = float(G.lmax)
    e = [float(x) for x in G.e] if ev else []
    xs = sorted([lmax * i / (n - 1) if n > 1 else 0. for i in range(n)] + e)
    with S.drawing() as rec:
        F.plot(**kw)
        c = find(rec, 'curve')
        S.same('title', find(rec, 'title')[-1].text, kw.get('title', repr(F)))
        leg = find(rec, 'legend')
        seg = find(rec, 'segments')
        names = [[str(x.get_label()) for x in b.lines] for b in c]
    curves, dots = [], []
    for b, l in zip(c, names):
        y = ref.grid(b.y)
        cols = [list(q) for q in zip(*y)] if y and isinstance(y[0], list) else [y]
        for j, q in enumerate(cols):
            (dots if b.fmt == '.' else curves).append((b.x, q, l[j], b.fmt))

    def want(x):
        r = [[a[i] + v * (i + 1) for v in x] for i in range(k)]
        return r + ([[ref.tot(q[j] * q[j] for q in r) for j in range(len(x))]] if total else [])
    S.same('number of curves', len(curves), k + total)
    for (x, y, _, _), w in zip(curves, want(xs)):
        S.eq('frequencies', x, xs)
        S.eq('response', y, w)
    S.same('number of dots', len(dots), (k + total) * ev)
    if ev:
        for (x, y, _, _), w in zip(dots, want(e)):
            S.eq('eigenvalues', x, e)
            S.eq('response at the eigenvalues', y, w)
        S.same('marks', len(seg), 1)
        S.eq('marks', seg[0].segments, [[[v, 0], [v, 1]] for v in e])
    else:
        S.same('no mark', len(seg), 0)
    S.same('legend', len(leg), int(labels))
    if labels:
        ls = [l for _, _, l, _ in curves]
        S.check('labels', all(f'g_{{{i}}}' in ls[i] for i in range(k)))
        S.same('distinct labels', len(set(ls)), len(ls))


def widget_items(rec):
    return {e.item: e.kw for e in rec if e.kind == 'item'}


@harness('C27', cfgs=[dict(dim=d) for d in (2, 3)], budget=20)
def pyqtgraph_graph(S, dim):
    """3 vertices at any 2-D or 3-D coordinates, arbitrary signals and limits, with pyqtgraph: vertices, edges,
    and colors between the limits"""
    G, C = graph(S, [(0, 1), (2, 1)], 3, dim)
    kw = {}
    sig = S.flag('signal')
    if sig:
        x = kw['vertex_color'] = S.vec('s', 3)
        if S.flag('limits'):
            kw['limits'] = [S.real('lo', -4, 0), S.real('hi', 1, 4)]
    if S.flag('size'):
        kw['vertex_size'] = 30
    shown = not S.flag('no edges')
    if not shown:
        kw['edges'] = False
    if S.flag('title'):
        kw['title'] = 'abc'
    with S.drawing() as rec:
        plotting = S.mod('plotting')
        if S.flag('default backend'):
            plotting.BACKEND = 'pyqtgraph'
            try:
                G.plot(**kw)
            finally:
                plotting.BACKEND = 'matplotlib'
        else:
            G.plot(backend='pyqtgraph', **kw)
        items = widget_items(rec)
        S.same('title', [e.text for e in find(rec, 'title')], [kw.get('title', G.__repr__(limit=4))])
        S.same('shown', len(find(rec, 'shown')), 1)
        S.mod('plotting').close_all()
        S.same('closed', len(find(rec, 'close')), 1)
    src, dst, _ = G.get_edge_list()
    pairs = [[int(i), int(j)] for i, j in zip(src, dst)]
    rows = ref.grid(C)
    size = kw.get('vertex_size', G.plotting['vertex_size'])
    if dim == 2:
        if 'GraphItem' in items:
            S.eq('coordinates', items['GraphItem']['pos'], C)
            S.same('edges', [[int(i) for i in r] for r in items['GraphItem']['adj']], pairs)
            S.same('edges shown', items['GraphItem']['pen'] is not None, shown)
        else:
            S.check('no edge', not shown and sig)
        p = items.get('ScatterPlotItem')
        if sig:
            S.eq('x', p['x'], [r[0] for r in rows])
            S.eq('y', p['y'], [r[1] for r in rows])
        else:
            p = items['GraphItem']
        S.eq('size', p['size'], size / 10)
        c = p.get('brush')
    else:
        p = items['GLScatterPlotItem']
        S.eq('coordinates', p['pos'], C)
        S.eq('size', p['size'], size / 3)
        S.same('edges shown', 'GLLinePlotItem' in items, shown)
        if shown:
            S.same('mode', items['GLLinePlotItem']['mode'], 'lines')
            S.eq('segments', items['GLLinePlotItem']['pos'], [rows[i] for q in pairs for i in q])
        c = p['color']
        if not sig:
            S.same('default color', c, G.plotting['vertex_color'])
    if sig:
        if 'limits' in kw:
            lo, hi = kw['limits']
            S.eq('colors between the limits', c.at, [(v - lo) / (hi - lo) for v in ref.grid(x)])
        else:
            v = ref.grid(x)
            g = ref.grid(c.at)
            for i in range(3):
                S.le('above the first color', -1e-9, g[i])
                S.le('below the last color', g[i], 1 + 1e-9)
                for j in range(3):
                    if v[i] < v[j]:
                        S.le('increasing', g[i], g[j])


@harness('C27')
def pyqtgraph_spectrogram(S):
    """any spectrogram of 3 vertices and 2 frequencies, in any order of the vertices: every cell at its
    place with its normalised value"""
    G, _ = graph(S, [(0, 1), (1, 2)], 3, 2)
    G.estimate_lmax('bounds')
    X = S.mat('x', 3, 2)
    first, last = S.choice('extremes', [((0, 0), (2, 1)), ((1, 1), (1, 0)), ((2, 0), (0, 1))])
    S.assume(X[first] < X[last])
    for i in range(3):
        for j in range(2):
            if (i, j) not in (first, last):
                S.assume(X[first] <= X[i, j])
                S.assume(X[i, j] <= X[last])
    G.spectr = X
    order = S.choice('order', [None, [0, 1, 2], [2, 0, 1], [1, 2, 0]])
    with S.drawing() as rec:
        G.plot_spectrogram(None if order is None else S.np.array(order))
        p = widget_items(rec)['ScatterPlotItem']
    x, y, g = [int(v) for v in p['x']], [int(v) for v in p['y']], ref.grid(p['brush'].at)
    S.same('cells', sorted(zip(x, y)), [(i, j) for i in range(3) for j in range(2)])
    r = ref.grid(X)
    lo, hi = X[first], X[last]
    order = order or [0, 1, 2]
    for i, j, v in zip(x, y, g):
        S.eq(f'cell {i} {j}', v, (r[order[i]][j] - lo) / (hi - lo))


@harness('C27', cfgs=[dict(n=n, directed=d) for n in (40, 141, 142) for d in (False, True)], paths=12, replays=2)
def graph_larger(S, n, directed):
    """40 to 142 vertices with 39 or about 10000 edges: all drawn up to 9999 edges, two arbitrary coordinates and
    signal values"""
    if n == 40:
        E = [(i, i + 1) for i in range(39)]
    else:
        E = [(i, j) for i in range(n) for j in range(i)]
        if directed:
            E = E[:9999 + (n == 142)]
    W = S.np.zeros((n, n))
    for i, j in E:
        W[i, j] = 1 + (i + j) % 3
        if not directed:
            W[j, i] = W[i, j]
    xy = [[(i * 7 % 5) / 3, (i * 3 % 11) / 7] for i in range(n)]
    xy[1][0], xy[n - 1][1] = S.real('x', -4, 4), S.real('y', -4, 4)
    x = [2 + i / 64 for i in range(n)]
    x[3], x[n - 2] = S.real('s', -4, 1), S.real('t', 16, 32)
    G = S.graphs.Graph(W, coords=S.array(xy))
    S.same('edges', G.Ne, len(E))
    with S.drawing() as rec:
        G.plot(S.array(x), vertex_size=S.array(x))
        v, _ = vertices(S, rec)
        at(S, 'vertices', v.pos, xy)
        S.eq('color', v.c, x)
        edges_drawn(S, rec, G, xy, 2, len(E) < 10000)
    size = G.plotting['vertex_size'] ** .5
    scaled_to(S, 'diameters', S.np.sqrt(v.s), x, size / 2, size * 2)


@harness('C27', cfgs=[dict(name=f) for f in ('Heat', 'MexicanHat', 'Itersine', 'HalfCosine', 'Rectangular')],
         replays=3)
def filter_families(S, name):
    """predefined banks on 5 vertices, by default 500 points: the curves are the responses of the kernels"""
    W = S.np.zeros((5, 5))
    for i in range(4):
        W[i, i + 1] = W[i + 1, i] = 1 + i / 2
    G = S.graphs.Graph(W)
    G.estimate_lmax('bounds')
    kw = {'Heat': dict(scale=[1, S.choice('scale', [5, 10])]), 'Rectangular': dict(band_max=0.25)}.get(name, {})
    F = getattr(S.filters, name)(G, **kw)
    lmax = float(G.lmax)
    with S.drawing() as rec:
        F.plot()
        c = find(rec, 'curve')
    S.same('a curve per bank and their sum', len(c), 1 + (F.Nf > 1))
    x = ref.grid(c[0].x)
    S.same('points', len(x), 500)
    S.eq('ends', [x[0], x[-1]], [0, lmax])
    y = F.evaluate(S.np.linspace(0, lmax, 500))
    S.eq('responses', c[0].y, y.T)
    if F.Nf > 1:
        S.eq('sum', c[1].y, (y ** 2).sum(axis=0))
