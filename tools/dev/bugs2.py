G='pygsp/graphs/graph.py'; FO='pygsp/graphs/fourier.py'; DI='pygsp/graphs/difference.py'; FI='pygsp/filters/filter.py'
AP='pygsp/filters/approximations.py'; R='pygsp/reduction.py'; U='pygsp/utils.py'; LE='pygsp/learning.py'; IO='pygsp/graphs/_io.py'
LA='pygsp/graphs/_layout.py'; NN='pygsp/graphs/nngraphs/nngraph.py'
H='import numpy as np\nfrom scipy import sparse\nfrom pygsp import graphs, filters, reduction, learning, utils, features\n'
def B(prop, file, old, new, needs, breaks, demo):
    return dict(prop=prop, file=file, edits=[(old, new)], needs=needs, breaks=breaks, demo=H+demo)
BUGS=dict(
 C03_tolerance=B('C03', G, 'self._directed = (self.W != self.W.T).nnz != 0', 'self._directed = (abs(self.W - self.W.T) > 1e-8).nnz != 0',
  'a directed graph whose weights differ from their transposes by less than 1e-8', 'tiny directed weights are ignored, so the graph is called undirected', '''
W = np.zeros((3, 3)); W[0, 1] = W[1, 2] = 1e-9
assert graphs.Graph(W).is_directed()
assert not graphs.Graph(W + W.T).is_directed()
'''),
 C04_floor=B('C04', G, 'self._d = (degree_in + degree_out) / 2', 'self._d = (degree_in + degree_out) // 2',
  'a directed graph with a vertex whose number of in and out edges is odd', 'the half degrees are rounded down', '''
G = graphs.Path(4, directed=True)
assert np.allclose(G.d, [.5, 1, 1, .5]), G.d
'''),
 C05_intvals=B('C05', DI, 'values = np.empty(2 * n)', 'values = np.empty(2 * n, dtype=weights.dtype)',
  'an adjacency of an integer type whose weights are not perfect squares (or a normalized Laplacian)', 'the square roots of the weights are truncated to integers', '''
W = np.array([[0, 2, 0], [2, 0, 3], [0, 3, 0]])
G = graphs.Graph(W)
assert np.allclose((G.D @ G.D.T).toarray(), G.L.toarray())
'''),
 C07_tolerance=B('C07', G, 'tol=5e-3,', 'tol=5e-2,',
  'a graph large enough for the iterative solver to stop early, and unlucky start vectors', 'the solver may be 5 % off while the estimate is only increased by 1 %', '''
bad = 0
for n in (400, 900, 1600):
    for i in range(5):
        G = graphs.Path(n)
        G.estimate_lmax()
        bad += G.lmax < 2 - 2 * np.cos(np.pi * (n - 1) / n)
assert not bad, bad
'''),
 C08_small=B('C08', FO, 'self._e[0] = 0', 'self._e[np.abs(self._e) < 1e-5] = 0',
  'a graph with tiny weights, or almost disconnected', 'small eigenvalues are replaced by zeros', '''
W = np.zeros((3, 3)); W[0, 1] = W[1, 0] = 1; W[1, 2] = W[2, 1] = 4e-6
G = graphs.Graph(W)
assert abs(G.e[1] / np.linalg.eigvalsh(G.L.toarray())[1] - 1) < 1e-6, G.e
'''),
 C10_intsignal=B('C10', AP, 'r = np.zeros(G.N * Nscales)', 'r = np.zeros(G.N * Nscales, dtype=np.asarray(signal).dtype)',
  'one signal of an integer type given to the Chebyshev operator', 'the result is truncated to integers', '''
G = graphs.Ring(8); G.estimate_lmax('bounds')
c = np.array([.3, .7, -.25])
s = np.arange(8)
from pygsp.filters import approximations
assert np.allclose(approximations.cheby_op(G, c, s), approximations.cheby_op(G, c, s * 1.))
'''),
 C11_square=B('C11', FI, 's = np.identity(self.G.N)[:, :, np.newaxis]', 's = np.identity(self.G.N)',
  'a bank with as many filters as the graph has vertices', 'the impulses are taken for the features to synthesize', '''
G = graphs.Ring(4); G.compute_fourier_basis()
f = filters.Heat(G, [1, 2, 3, 4])
F = f.compute_frame(method='exact')
s = np.array([1., -2, 3, .5])
assert F.shape == (16, 4) and np.allclose(F @ s, f.filter(s, method='exact').T.ravel())
'''),
 C12_closure=B('C12', 'pygsp/filters/heat.py', 'kernels.append(lambda x, s=s, norm=norm: kernel(x, s) / norm)', 'kernels.append(lambda x, s=s: kernel(x, s) / norm)',
  'several scales, normalized', 'all the kernels are divided by the norm of the last one', '''
G = graphs.Ring(6); G.compute_fourier_basis()
f = filters.Heat(G, [1, 5], normalize=True)
assert np.allclose(np.linalg.norm(f.evaluate(G.e), axis=1), 1)
'''),
 C13_query=B('C13', 'pygsp/filters/modulation.py', 'y[:, i] = query[0]', 'y[:, i] = query[-1]',
  'modulation of a kernel on a graph with repeated eigenvalues', 'the response is that of the last eigenvector of the eigenspace', '''
W = np.zeros((4, 4)); W[0, 1] = W[1, 0] = W[2, 3] = W[3, 2] = 1
G = graphs.Graph(W); G.compute_fourier_basis()
f = filters.Modulation(G, filters.Heat(G, 3), modulation_first=True)
y = f.evaluate(G.e)
c = G.igft(filters.Heat(G, 3).evaluate(G.e).squeeze())
C = G.gft(np.sqrt(4) * G.U * c[:, None])
first = [np.nonzero(G.e == e)[0][0] for e in G.e]
assert np.allclose(y, C[first].T)
'''),
 C15_floor=B('C15', R, 'weights = np.maximum(0, weights)', 'weights = np.maximum(1e-3, weights)',
  'sparsifying a graph with weights below 0.001', 'small weights are increased', '''
W = np.full((8, 8), 1e-4); np.fill_diagonal(W, 0)
H = reduction.graph_sparsify(graphs.Graph(W), .9, seed=1)
assert H.W.sum() < 3 * W.sum(), H.W.sum()
'''),
 C15_origidx=B('C15', R, '''"orig_idx": Gs[i].mr["orig_idx"][ind],''', '''"orig_idx": Gs[0].mr["orig_idx"][ind],''',
  'a multiresolution of two levels or more', 'the original vertices of the deeper levels are those of the first one', '''
G = graphs.Path(16, coords=np.stack([np.arange(16), np.zeros(16)], 1)) if False else graphs.Path(16)
Gs = reduction.graph_multiresolution(G, 2, sparsify=False)
assert np.array_equal(G.coords[Gs[2].mr['orig_idx']], Gs[2].coords)
'''),
 C16_step=B('C16', LE, 'step = 0.5 / (1 + tau * G.lmax)', 'step = 0.5 / (1 + tau) / G.lmax',
  'a small largest eigenvalue', 'the step of the gradient exceeds the inverse of the Lipschitz constant, so that the iterations may diverge or not minimise', '''
import logging
G = graphs.Graph(np.array([[0, .01], [.01, 0]])); G.estimate_lmax('bounds')
from pyunlocbox import solvers
seen = []
old = solvers.forward_backward.__init__
def init(self, *a, **k):
    seen.append(k['step']); old(self, *a, **k)
solvers.forward_backward.__init__ = init
learning.classification_tikhonov_simplex(G, np.array([0, 1]), np.array([True, True]), .1, verbosity='NONE')
assert seen[0] <= 1 / (2 * (1 + .1 * G.lmax)) + 1e-12, seen
'''),
 C17_bool=B('C17', IO, 'if issubclass(number.dtype.type, (np.integer, np.bool_)):', 'if issubclass(number.dtype.type, np.integer) or number.dtype.itemsize == 4:',
  'weights or signals in single precision', 'single-precision weights and signals are truncated to integers', '''
G = graphs.Graph(np.array([[0, .5], [.5, 0]], dtype=np.float32))
assert graphs.Graph.from_networkx(G.to_networkx()).W[0, 1] == .5
'''),
 C18_components=B('C18', G, 'comp = sorted(comp)', 'comp = sorted(comp)[:max(len(comp), 1)] if len(comp) < 257 else sorted(comp)[:256]',
  'a component of more than 256 vertices', 'the vertices beyond the 256th are lost', '''
assert sum(H.N for H in graphs.Path(300).extract_components()) == 300
'''),
 C19_scales=B('C19', U, 'return np.exp(np.linspace(np.log(scale_max), np.log(scale_min), Nscales))', 'return np.geomspace(scale_max, scale_min, Nscales) if Nscales > 2 else np.linspace(scale_max, scale_max / 2, Nscales)',
  'one or two scales', 'the second of two scales is half the first', '''
assert np.allclose(utils.compute_log_scales(1, 10, 2), [2, .1])
'''),
 C19_fill=B('C19', U, 'mask = (A + A.T) - A', 'mask = sparse.tril(A + A.T).tocsr() - sparse.tril(A).tocsr()',
  'filling a sparse matrix whose missing entries are above the diagonal', 'only the missing entries below the diagonal are filled', '''
W = sparse.csr_matrix(np.array([[0, 0.], [2, 0]]))
assert np.allclose(utils.symmetrize(W, 'fill').toarray(), [[0, 2], [2, 0]])
W = sparse.csr_matrix(np.array([[0, 2.], [0, 0]]))
assert np.allclose(utils.symmetrize(W, 'fill').toarray(), [[0, 2], [2, 0]])
'''),
 C20_rescale=B('C20', NN, 'scale = np.power(N, 1.0 / float(min(d, 3))) / 10.0', 'scale = np.power(N, 1.0 / float(d)) / 10.0',
  'points in four dimensions or more, rescaled', 'the scale ignores that the dimension is capped at 3', '''
X = np.random.RandomState(1).rand(20, 5)
G = graphs.NNGraph(X, k=3, center=False)
r = .5 * np.linalg.norm(G.coords.max(0) - G.coords.min(0))
assert abs(r - 20 ** (1 / 3) / 10) < 1e-9, r
'''),
 C21_ring=B('C21', 'pygsp/graphs/ring.py', 'for i in range(min(k, (N - 1) // 2)):', 'for i in range(min(k, max(N // 2 - 1, 1))):',
  'an odd ring with as many neighbors as possible', 'the longest links of odd rings are missing', '''
G = graphs.Ring(7, k=3)
assert G.n_edges == 21 and np.all(G.d == 6), G.d
assert graphs.Ring(5, k=2).n_edges == 10
assert graphs.Ring(6, k=3).n_edges == 15
'''),
 C22_blocks=B('C22', 'pygsp/graphs/stochasticblockmodel.py', 'if rng.uniform() < M[z[nb_row], z[nb_col]]:', 'if rng.uniform() < M[max(z[nb_row], z[nb_col]), min(z[nb_row], z[nb_col])]:',
  'a directed block model with asymmetric probabilities', 'the probabilities of one direction are used for both', '''
M = np.array([[0, 1.], [0, 0]])
W = graphs.StochasticBlockModel(4, 2, z=np.array([0, 0, 1, 1]), M=M, directed=True, seed=1).W.toarray()
assert W[:2, 2:].sum() == 4 and W.sum() == 4, W
'''),
 C22_attach=B('C22', 'pygsp/graphs/barabasialbert.py', 'size=m, replace=False,', 'size=m, replace=bool(m > i // 2),',
  'attaching many edges while there are few vertices', 'the same vertex may be drawn twice, so that fewer edges are added', '''
for s in range(30):
    G = graphs.BarabasiAlbert(5, m0=3, m=3, seed=s)
    assert G.n_edges == 6, (s, G.n_edges)
'''),
 C23_labels=B('C23', LE, '''    y = y.copy()
    y[M == False] = 0
    Y = _to_logits(y.astype(int))
    return regression_tikhonov(G, Y, M, tau)''', '''    y = np.asarray(y)
    y[M == False] = 0
    Y = _to_logits(y.astype(int))
    return regression_tikhonov(G, Y, M, tau)''',
  'labels of vertices outside the mask', 'the labels passed by the caller are overwritten with zeros', '''
G = graphs.Ring(4)
y = np.array([0, 1, 1, 0]); z = y.copy()
learning.classification_tikhonov(G, y, np.array([True, False, True, True]), .1)
assert np.array_equal(y, z)
'''),
 C24_spectrogram=B('C24', 'pygsp/features.py', 'scale = np.linspace(0, G.lmax, M)', 'scale = np.linspace(0, G.e[-1] if G._e is not None else G.lmax, M)',
  'a partial Fourier basis known when the spectrogram is computed', 'the windows only cover the computed eigenvalues', '''
G = graphs.Ring(12); G.estimate_lmax('bounds')
a = features.compute_spectrogram(G, M=5)
G = graphs.Ring(12); G.estimate_lmax('bounds'); G.compute_fourier_basis(3)
b = features.compute_spectrogram(G, M=5)
assert np.allclose(a, b)
'''),
 C25_fixed=B('C25', LA, 'if i in fixed:', 'if i in fixed[:4]:',
  'more than four fixed vertices', 'the vertices fixed beyond the fourth one move', '''
G = graphs.Ring(8)
p = np.array(G.coords); f = [0, 1, 2, 3, 5]
G.set_coordinates('spring', pos=p.copy(), fixed=f, seed=1)
assert np.allclose(G.coords[f], p[f])
'''),
)
