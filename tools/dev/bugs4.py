exec(open('/verif/tools/dev/bugs2.py').read().split('BUGS=dict')[0])
IO='pygsp/graphs/_io.py'; PL='pygsp/plotting.py'
BUGS=dict(
 C27_highlight=B('C27', PL, 'size_hl = vertex_size[highlight]', 'size_hl = np.sort(vertex_size)[highlight]',
  'highlighted vertices with sizes given by a signal', 'the rings have the sizes of other vertices', '''
import matplotlib.pyplot as plt
G = graphs.Ring(4); G.set_coordinates()
fig, ax = G.plot(vertex_size=np.array([4., 1, 3, 2]), highlight=[0, 2])
a, b = ax.collections[-2], ax.collections[-1]
assert np.allclose(b.get_sizes(), 2 * a.get_sizes()[[0, 2]])
'''),
 C27_many=B('C27', PL, 'edges = G.Ne < 10e3', 'edges = G.N < 10e2 or G.Ne < 1',
  'a graph of more than 999 vertices and fewer than 10000 edges', 'the edges are not drawn', '''
G = graphs.Path(1200)
G.set_coordinates(np.stack([np.arange(1200.), np.arange(1200.)], axis=1))
fig, ax = G.plot()
assert len(ax.collections[0].get_segments()) == 1199
'''),
 C27_eigenvalues=B('C27', PL, 'segs[:, 0, 0] = segs[:, 1, 0] = filters.G.e', 'segs[:, 0, 0] = segs[:, 1, 0] = np.abs(filters.G.e).round(2)',
  'eigenvalues with more than two decimals', 'the eigenvalues are drawn elsewhere', '''
W = np.array([[0, .333], [.333, 0]])
G = graphs.Graph(W); G.compute_fourier_basis()
fig, ax = filters.Heat(G).plot(eigenvalues=True)
assert np.allclose(ax.collections[0].get_segments()[1][0, 0], .666)
'''),
 C27_close=B('C27', PL, '        plt.close(fig)\n    _plt_figures = []', '        plt.close(fig)\n    _plt_figures = _plt_figures[-1:]',
  'close_all called, the number of a closed figure reused', 'figures are kept forever', '''
from pygsp import plotting
import gc, weakref
G = graphs.Ring(4); G.set_coordinates()
fig, ax = G.plot()
plotting.close_all()
assert len(plotting._plt_figures) == 0
'''),
 C28_dots=B('C28', IO, '''        if fmt is None:
            fmt = os.path.splitext(path)[1][1:]
        if fmt not in ["graphml", "gml", "gexf"]:
            raise ValueError(f"Unsupported format {fmt}.")

        def save_networkx''', '''        if fmt is None:
            fmt = os.path.basename(path).partition(".")[2]
        if fmt not in ["graphml", "gml", "gexf"]:
            raise ValueError(f"Unsupported format {fmt}.")

        def save_networkx''',
  'file names with several dots', 'the format is not recognised', '''
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    graphs.Ring(4).save(os.path.join(d, 'ring.v1.gml'))
'''),
 C28_fallback=B('C28', IO, '''            try:
                save_networkx(self, path, fmt)
            except ImportError:
                try:
                    save_graphtool(self, path, fmt)''', '''            try:
                save_networkx(self, path, fmt)
            except ImportError:
                try:
                    save_graphtool(self, path, "graphml")''',
  'NetworkX is not installed, formats other than GraphML', 'the file has another format', '''
import sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'ring.gml')
    sys.modules['networkx'] = None
    graphs.Ring(4).save(p)
    assert '<' not in open(p).read(5)
'''),
 C28_columns=B('C28', IO, 'signals[name + "_" + str(i)] = signal_1d', 'signals[name + "_" + str(i % 100)] = signal_1d',
  'signals with more than a hundred columns', 'columns overwrite others', '''
G = graphs.Ring(4)
x = np.arange(4 * 101.).reshape(4, 101)
G.set_signal(x, 'x')
H = graphs.Graph.from_graphtool(G.to_graphtool())
assert np.array_equal(H.signals['x'], x)
'''),
)
