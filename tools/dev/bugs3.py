exec(open('/verif/tools/dev/bugs2.py').read().split('BUGS=dict')[0])
FE='pygsp/features.py'; SBM='pygsp/graphs/stochasticblockmodel.py'
BUGS=dict(
 C01_neginf=B('C01', G, 'if np.isinf(self._adjacency.sum()):', 'if np.isinf(self._adjacency.max()):',
  'an adjacency with a weight of minus infinity', 'negative infinite weights are accepted', '''
W = np.array([[0, -np.inf], [-np.inf, 0]])
try:
    graphs.Graph(W)
except ValueError:
    pass
else:
    raise AssertionError
'''),
 C01_squeeze=B('C01', G, 'self.coords = np.asanyarray(coords)', 'self.coords = np.squeeze(np.asanyarray(coords))',
  'coordinates with one row or one column', 'coordinates lose a dimension', '''
G = graphs.Graph(np.zeros((1, 1)), coords=[[1., 2.]])
assert G.coords.shape == (1, 2)
'''),
 C02_tiny=B('C02', G, 'disconnected = self.dw == 0', 'disconnected = self.dw < 1e-8',
  'a normalized Laplacian with a vertex of tiny degree', 'the vertex is taken for an isolated one', '''
W = np.zeros((3, 3)); W[0, 1] = W[1, 0] = 1e-9; W[1, 2] = W[2, 1] = 1
G = graphs.Graph(W, lap_type='normalized')
assert G.L[0, 0] == 1 and np.allclose(G.L.toarray(), G.L.toarray().T)
'''),
 C03_negloop=B('C03', G, 'return np.any(self.W.diagonal() != 0)', 'return np.any(self.W.diagonal() > 0)',
  'a self-loop of negative weight', 'negative loops are not seen', '''
W = np.array([[-1., 1], [1, 0]])
assert graphs.Graph(W).has_loops()
'''),
 C03_small=B('C03', G, 'return not np.all(self.W.data == 1)', 'return bool(np.any(self.W.data > 1) or np.any(self.W.data % 1))',
  'weights which are negative integers only', 'a graph of weights -1 is said to be unweighted', '''
W = np.array([[0, -1.], [-1, 0]])
assert graphs.Graph(W).is_weighted()
'''),
 C04_pattern=B('C04', G, 'self._A = self.W > 0', 'self._A = self.W > 1e-6',
  'weights smaller than 1e-6', 'light edges miss in the pattern', '''
W = np.array([[0, 1e-7], [1e-7, 0]])
assert graphs.Graph(W).A.nnz == 2
'''),
 C05_loops=B('C05', DI, 'self._D.eliminate_zeros()  # Self-loops introduce stored zeros.', 'self._D.eliminate_zeros()\n        self._D = self._D[:, self._D.getnnz(axis=0) > 0]  # Self-loops.',
  'a graph with self-loops', 'the differential operator lacks the columns of the loops', '''
W = np.array([[1., 1], [1, 0]])
G = graphs.Graph(W)
assert G.D.shape == (2, G.n_edges)
assert G.div(np.ones(G.n_edges)).shape == (2,)
'''),
 C06_coherence=B('C06', G, '            self._coherence = None\n            self._D = None\n', '            self._D = None\n',
  'a full basis, a change of Laplacian, the coherence asked before a new full basis', 'the coherence is that of the previous Laplacian', '''
W = np.array([[0, 3., 0, 0], [3, 0, 1, 0], [0, 1, 0, .5], [0, 0, .5, 0]])
G = graphs.Graph(W); G.compute_fourier_basis()
G.compute_laplacian('normalized')
c = G.coherence
H = graphs.Graph(W, lap_type='normalized'); H.compute_fourier_basis()
assert abs(c - H.coherence) < 1e-9
'''),
 C07_mean=B('C07', G, 'm = W.dot(self.dw) / self.dw  # Mean degree of adjacent vertices.', 'm = (W > 0).dot(self.dw) / self.d  # Mean degree of adjacent vertices.',
  'a heavy edge between two vertices which have light edges too', 'the analytic bound is less than the largest eigenvalue', '''
W = np.zeros((12, 12)); W[0, 1] = 1
W[0, 2:7] = W[1, 7:12] = 1e-3
G = graphs.Graph(W + W.T)
G.estimate_lmax('bounds')
assert G.lmax >= np.linalg.eigvalsh(G.L.toarray())[-1] - 1e-9, G.lmax
'''),
 C08_3d=B('C08', FO, 'return np.tensordot(self.U, s_hat, ([1], [0]))', 'return np.matmul(self.U, s_hat)',
  'spectral signals with two trailing dimensions', 'the second to last axis is transformed instead of the first', '''
G = graphs.Ring(4)
x = np.arange(32.).reshape(4, 4, 2)
assert np.allclose(G.igft(G.gft(x)), x)
'''),
 C09_layout=B('C09', FI, 'if s.ndim == 1 or s.shape[-1] not in [1, self.Nf]:', 'if s.ndim == 1 or s.shape[1] not in [1, self.Nf]:',
  'three-dimensional signals whose number of signals is not 1 or the number of filters', 'valid signals are rejected or badly split', '''
G = graphs.Ring(6); G.compute_fourier_basis()
f = filters.Heat(G, [1, 2, 3])
s = np.random.default_rng(1).normal(size=(6, 5))
y = f.filter(s, method='exact')
z = f.filter(y, method='exact')
w = sum(filters.Filter(G, lambda x, t=t: np.exp(-t * x / G.lmax) ** 2).filter(s, method='exact') for t in (1, 2, 3))
assert np.allclose(z, w)
'''),
 C10_synth=B('C10', FI, 's_in = s.reshape((self.G.N * n_features_in, n_signals), order="F")', 's_in = s.reshape((self.G.N * n_features_in, n_signals))',
  'synthesis by Chebyshev with several filters or signals', 'the features of different vertices are mixed', '''
G = graphs.Ring(6); G.compute_fourier_basis()
f = filters.Heat(G, [1, 2, 3])
s = np.random.default_rng(1).normal(size=(6, 2, 3))
assert np.allclose(f.synthesize(s, method='exact'), f.synthesize(s), atol=1e-6)
'''),
 C11_scale=B('C11', FI, 'return np.sqrt(bound - y)', 'return np.sqrt(np.abs(bound - np.minimum(y, bound - 1e-6)))',
  'points where the bank already reaches the bound', 'the complement does not vanish there', '''
G = graphs.Ring(6); G.compute_fourier_basis()
f = filters.Heat(G, 1)
h = f.complement()
assert h.evaluate(np.array([0., 1.]))[0, 0] < 1e-6
'''),
 C14_seed=B('C14', R, 'ind_comp = np.setdiff1d(np.arange(N, dtype=int), ind)', 'ind_comp = np.arange(N, dtype=int)[~np.in1d(np.arange(N), np.unique(np.abs(ind)))]',
  'vertices given by negative indices', 'the wrong vertices are eliminated', '''
G = graphs.Ring(5)
a = reduction.kron_reduction(G, [0, 2, -1]).W.toarray()
b = reduction.kron_reduction(G, [0, 2, 4]).W.toarray()
assert np.allclose(a, b)
'''),
 C15_levels=B('C15', R, 's_pred = interpolate(\n            Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], reg_eps=reg_eps, **kwargs\n        )', 's_pred = interpolate(\n            Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], **kwargs\n        )',
  'a regularisation other than the default', 'analysis ignores the regularisation which synthesis uses', '''
G = graphs.Path(12)
Gs = reduction.graph_multiresolution(G, 2, sparsify=False)
s = np.sin(np.arange(12.))
ca, pe = reduction.pyramid_analysis(Gs, s, reg_eps=0.5)
r, _ = reduction.pyramid_synthesis(Gs, ca[2], pe, reg_eps=0.5)
assert np.allclose(r, s)
'''),
 C16_masked=B('C16', LE, 'def Op(x):\n                return (M * x.T).T + tau * (G.L.dot(x))', 'def Op(x):\n                return M * x + tau * (G.L.dot(x))',
  'no', 'no', '''
'''),
 C17_order=B('C17', IO, 'yield int(source), int(target), {"weight": convert(weight)}', 'yield min(int(source), int(target)), max(int(source), int(target)), {"weight": convert(weight)}',
  'directed graphs with edges towards lower vertices', 'those edges are turned around', '''
W = np.zeros((3, 3)); W[2, 0] = 1.5; W[0, 1] = 2
G = graphs.Graph(W)
assert np.allclose(graphs.Graph.from_networkx(G.to_networkx()).W.toarray(), W)
'''),
 C19_max=B('C19', U, 'return W - W.multiply(bigger) + W.T.multiply(bigger)', 'return W + W.T - W.minimum(W.T) - 0 * W if W.shape[0] < 64 else W + W.T.multiply(W == 0)',
  'a sparse matrix of at least 64 rows with two different entries for a pair', 'ambiguous entries are not resolved', '''
W = sparse.lil_matrix((70, 70)); W[3, 60] = 2; W[60, 3] = 5
S = utils.symmetrize(W.tocsr(), 'maximum').toarray()
assert np.allclose(S, S.T)
'''),
 C19_resist=B('C19', U, 'if G.lap_type != "combinatorial":\n            raise ValueError("Need a combinatorial Laplacian.")', 'if G.lap_type == "normalized" and G.n_edges > 1:\n            raise ValueError("Need a combinatorial Laplacian.")',
  'a graph of one edge with a normalized Laplacian', 'the wrong distances are returned instead of an error', '''
G = graphs.Graph([[0, 2.], [2, 0]], lap_type='normalized')
try:
    utils.resistance_distance(G)
except ValueError:
    pass
else:
    raise AssertionError
'''),
 C20_sigma=B('C20', NN, 'self.sigma = np.mean(all_distances)', 'self.sigma = np.mean(np.unique(all_distances))',
  'a radius graph where distances repeat', 'the kernel width is not the mean distance', '''
X = np.array([[0., 0], [1, 0], [2, 0], [2, 2]])
G = graphs.NNGraph(X, NNtype='radius', epsilon=2.1, center=False, rescale=False)
d = [1, 1, 2, 2]
assert np.isclose(G.sigma, np.mean(d)), G.sigma
'''),
 C22_selfloop=B('C22', SBM, 'if nb_row != nb_col or self_loops:', 'if nb_row != nb_col or (self_loops and directed):',
  'undirected block models with self-loops', 'no self-loop is ever drawn', '''
G = graphs.StochasticBlockModel(6, k=1, p=1, self_loops=True, seed=1)
assert np.all(G.W.diagonal() == 1)
'''),
 C22_try=B('C22', SBM, 'if connected and n_try == 0:', 'if connected and n_try == 0 and N > 4:',
  'small graphs which could not be connected', 'a disconnected graph is returned', '''
try:
    graphs.ErdosRenyi(4, p=0., connected=True, n_try=2, seed=1)
except ValueError:
    pass
else:
    raise AssertionError
'''),
 C24_norm=B('C24', FE, 'return (degree + G.A.dot(degree)) / (degree + 1.0)', 'return (degree + G.A.dot(degree)) / (np.sum(G.W, axis=1) + 1.0)',
  'weighted graphs', 'the mean is taken with weighted degrees', '''
W = np.array([[0, 3.], [3, 0]])
assert np.allclose(features.compute_avg_adj_deg(graphs.Graph(W)), 1)
'''),
 C26_neg=B('C26', AP, 'Eh[Eh < 0] = 0', 'Eh[Eh < 1e-3] = 0',
  'graphs with small eigenvalues', 'small Ritz values are set to zero', '''
from pygsp.filters import approximations
W = np.array([[0, 1e-4], [1e-4, 0]])
G = graphs.Graph(W); G.compute_fourier_basis()
f = filters.Filter(G, lambda x: 1e4 * x)
s = np.array([1., 0.5])
assert np.allclose(approximations.lanczos_op(f, s, order=2), 1e4 * G.L.dot(s))
'''),
 C26_jackson=B('C26', AP, 'filter_bounds = [(bound - a2) / a1 for bound in filter_bounds]', 'filter_bounds = [bound / a1 - 1 for bound in filter_bounds]',
  'a spectrum which does not start at zero', 'the band is shifted', '''
from pygsp.filters import approximations
a = approximations.compute_jackson_cheby_coeff([2, 3], [1, 4], 5)[0]
b = approximations.compute_jackson_cheby_coeff([1, 2], [0, 3], 5)[0]
assert np.allclose(a, b)
'''),
)
del BUGS['C16_masked']
