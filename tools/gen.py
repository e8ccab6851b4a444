"""Writes properties.jsonl and MANIFEST.json from the table below (python3-vt tools/gen.py).

A property with a harness in harness/ is claimed; one without goes to not_applicable."""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), state=(), observe=(),
         level='model_checking', note='', tech=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))
    NA.append((id, na))


G = 'pygsp/graphs/graph.py'
prop('C01', 'Graph construction is faithful and validates its adjacency',
     'A graph built from any square matrix of weights, in any dense or sparse container, exposes '
     'exactly those weights as a sparse matrix, with the right number of vertices and edges, its '
     'coordinates and its Laplacian type. Non-square, NaN or infinite adjacency matrices and '
     'unknown Laplacian types are rejected with ValueError, and the weights of a constructed '
     'graph cannot be replaced.',
     'every adjacency matrix (pattern, weights, dtype), container format, coordinates and '
     'plotting options', 'The tests build a handful of fixed matrices; container formats, '
     'explicit zeros, self-loops, negative weights and position of NaN/inf are unbounded.',
     [G], [('validation and storage', f'{G}:Graph.__init__'), ('read-only weights', f'{G}:Graph.W')],
     observe=['Graph.W', 'Graph.n_vertices', 'Graph.n_edges', 'exceptions'])
prop('C02', 'Laplacians equal their definitions, also after switching type',
     'For every weighted graph the Laplacian equals D - W (combinatorial) or I - D^-1/2 W D^-1/2 '
     '(normalized, zero rows on isolated vertices), directed weights being averaged with their '
     'transpose; it is symmetric and its quadratic form is the sum of weighted squared '
     'differences. After any sequence of type changes the Laplacian is that of the last type.',
     'all weights, edge patterns, isolated vertices, self-loops, both types, directed or not',
     'Tests compare a few fixed graphs; the identity is over all real weights and signals.',
     [G, 'pygsp/utils.py'], [('definition', f'{G}:Graph.compute_laplacian'),
                             ('averaging', 'pygsp/utils.py:symmetrize')],
     over=('inputs', 'histories'), observe=['Graph.L', 'Graph.dirichlet_energy'])
prop('C03', 'Structural predicates match graph theory',
     'Whether a graph is connected (strongly, if directed), directed, weighted or has self-loops '
     'is answered exactly as the graph-theoretic definition says. The answers do not depend on '
     'the order or number of the questions and asking them changes nothing.',
     'all edge patterns and weights, all orders of queries',
     'Tests check a handful of hand-made graphs out of all patterns, and one query order.',
     [G], [('traversal', f'{G}:Graph.is_connected'), ('asymmetry', f'{G}:Graph.is_directed'),
           ('loops and weights', f'{G}:Graph.has_loops, Graph.is_weighted')],
     over=('inputs', 'histories'),
     state=[('_connected/_directed', 'cached answers', G)])
prop('C04', 'Degrees, adjacency pattern and edge list describe the same graph',
     'Weighted and unweighted degrees are row sums (averages of in and out for directed graphs), '
     'the boolean adjacency marks the non-zero weights, and the edge list contains every edge '
     'exactly once with its weight and has as many entries as the number of edges. All of them '
     'are consistent with each other and with the weight matrix.',
     'all weights (real or integer), patterns, self-loops, directed or not',
     'Tests use a few fixed graphs; asymmetric weights with symmetric patterns and self-loops '
     'are not covered.', [G],
     [('degrees', f'{G}:Graph.d, Graph.dw'), ('edge list', f'{G}:Graph.get_edge_list')],
     observe=['Graph.d', 'Graph.dw', 'Graph.A', 'Graph.get_edge_list', 'Graph.n_edges'])
prop('C05', 'The differential operator factors the Laplacian; grad and div are adjoint',
     'The differential operator D satisfies D D^T = L for both Laplacian types, directed or not; '
     'the gradient is D^T x and the divergence D y, so they are adjoint, their composition is '
     'the Laplacian, and the squared norm of the gradient is the Dirichlet energy. Signals of '
     'the wrong length are rejected with ValueError.',
     'all weights, patterns, vertex and edge signals (one or several columns)',
     'Tests check the identity on a few fixed graphs and signals.',
     ['pygsp/graphs/difference.py', G],
     [('operator', 'pygsp/graphs/difference.py:compute_differential_operator'),
      ('grad/div', 'pygsp/graphs/difference.py:grad, div')],
     over=('inputs', 'histories'), observe=['Graph.D', 'Graph.grad', 'Graph.div'])
prop('C06', 'Cached quantities stay coherent over every history of calls',
     'After any sequence of Laplacian changes, spectral decompositions (full or partial), '
     'largest-eigenvalue estimations and differential-operator computations, the Laplacian, the '
     'Fourier basis, the largest eigenvalue and the differential operator all describe the same '
     'current Laplacian. A call that fails leaves every observable quantity as it was.',
     'every sequence (up to a stated length) of the graph methods, including failing calls, on '
     'all weights', 'Tests exercise single calls and two fixed sequences; stale caches need a '
     'specific multi-step history.', [G, 'pygsp/graphs/fourier.py', 'pygsp/graphs/difference.py'],
     [('cache invalidation', f'{G}:Graph.compute_laplacian'),
      ('memoised estimate', f'{G}:Graph.estimate_lmax'),
      ('memoised basis', 'pygsp/graphs/fourier.py:compute_fourier_basis')],
     over=('histories', 'inputs'),
     state=[('_lmax/_lmax_method', 'estimate and its method', G), ('_U/_e/_coherence/_D', 'caches', G)],
     observe=['Graph.L', 'Graph.e', 'Graph.U', 'Graph.D', 'Graph.lmax', 'Graph.lap_type'])
prop('C07', 'The estimated largest eigenvalue bounds the spectrum',
     'Whatever the method (iterative, analytic bounds or full decomposition) and Laplacian type, '
     'the largest-eigenvalue estimate is at least every eigenvalue of the Laplacian, provided '
     'the iterative solver meets its own tolerance. It never exceeds 1.01 times the analytic '
     'upper bound, which is 2 for normalized Laplacians.',
     'all non-negative weights, directed or not, every method and solver error within tolerance',
     'Tests compare fixed graphs; a bound is a universally quantified inequality.', [G],
     [('estimates', f'{G}:Graph.estimate_lmax'), ('bounds', f'{G}:Graph._get_upper_bound')],
     observe=['Graph.lmax'])
F = 'pygsp/graphs/fourier.py'
prop('C08', 'The graph Fourier transform is an invertible isometry',
     'The Fourier basis diagonalises the Laplacian with ascending eigenvalues from zero; '
     'transform and inverse transform are mutual inverses preserving inner products, for vectors '
     'and for arrays of any number of trailing dimensions, transforming the first axis. A '
     'partial basis holds the lowest eigenpairs, and signals of the wrong length are rejected.',
     'all weights, signals and array shapes, full and partial bases',
     'Tests sample a few random signals on fixed graphs.', [F],
     [('basis', f'{F}:compute_fourier_basis'), ('transforms', f'{F}:gft, igft')],
     observe=['Graph.gft', 'Graph.igft', 'Graph.U', 'Graph.e', 'Graph.coherence'])
FI = 'pygsp/filters/filter.py'
AP = 'pygsp/filters/approximations.py'
prop('C09', 'Exact filtering is spectral multiplication, with its adjoint for synthesis',
     'Exact filtering multiplies every graph Fourier coefficient by the kernel value at its '
     'eigenvalue: analysis applies every filter of the bank to every signal, synthesis applies '
     'each filter to its own component and sums, and the two are adjoint. Outputs are laid out '
     'as vertices, signals, features with singleton dimensions dropped, and malformed signals '
     'or methods are rejected.',
     'all graphs (weights), kernels, numbers of filters/signals and signal values',
     'Tests check fixed shapes and one random signal per kernel.', [FI],
     [('filtering', f'{FI}:Filter.filter'), ('wrappers', f'{FI}:Filter.analyze, synthesize'),
      ('bank composition', f'{FI}:Filter.__add__, __getitem__, __call__')],
     observe=['Filter.filter', 'Filter.analyze', 'Filter.synthesize', 'Filter.evaluate'])
prop('C10', 'Chebyshev filtering is exact on polynomial kernels',
     'Filtering by Chebyshev approximation of order m equals exact filtering whenever the '
     'kernels are polynomials of degree at most m, for analysis and synthesis, one or many '
     'signals and filters, whatever the largest-eigenvalue estimate. It is linear in the signal, '
     'and invalid orders are rejected.',
     'all weights, polynomial coefficients, signals, orders, estimates of the largest eigenvalue',
     'Tests compare one random signal at a loose tolerance on a fixed graph.', [AP, FI],
     [('coefficients', f'{AP}:compute_cheby_coeff'), ('recurrence', f'{AP}:cheby_op'),
      ('dispatch', f'{FI}:Filter.filter')], observe=['Filter.filter', 'approximations.cheby_op'])
prop('C11', 'Frame operator, bounds, inverse and complement obey frame theory',
     'The frame operator reproduces analysis filtering, the estimated frame bounds are the '
     'extrema of the summed squared responses, the pseudo-inverse bank reconstructs every '
     'analysed signal, and a bank plus its complement is tight with the requested bound. '
     'Impossible requests (inverse of a non-frame, bound too small) are reported.',
     'all kernel values, banks, weights and signals', 'Tests sample a few named banks.', [FI],
     [('frame', f'{FI}:Filter.compute_frame'), ('bounds', f'{FI}:Filter.estimate_frame_bounds'),
      ('inverse', f'{FI}:Filter.inverse'), ('complement', f'{FI}:Filter.complement')],
     observe=['Filter.compute_frame', 'Filter.inverse', 'Filter.complement',
              'Filter.estimate_frame_bounds'])
prop('C12', 'Predefined kernels equal their documented formulas; tight families are tight',
     'Each predefined filter evaluates to its documented formula at every point of the spectrum '
     'and for every admissible parameter. The families documented as tight frames have constant '
     'summed squared responses everywhere on the spectrum.',
     'every spectrum point in [0, lmax], every lmax and admissible parameter',
     'Tests evaluate at a few points with default parameters.',
     ['pygsp/filters/' + f for f in ('heat.py', 'wave.py', 'meyer.py', 'itersine.py', 'held.py',
      'papadakis.py', 'regular.py', 'simoncelli.py', 'simpletight.py', 'halfcosine.py',
      'abspline.py', 'mexicanhat.py', 'expwin.py', 'rectangular.py')],
     [('kernels', 'pygsp/filters/*.py:__init__')], observe=['Filter.evaluate'])
prop('C13', 'Localised, modulated and windowed atoms equal their definitions',
     'Localising a filter at a vertex gives sqrt(N) times the response to an impulse there; '
     'modulated kernels and Gabor atoms filter exactly as documented by frequency shifts or '
     'kernels centred at the eigenvalues. Results do not depend on how many signals are '
     'processed together.',
     'all weights, vertices, kernels and signals', 'Tests check one vertex and one kernel.',
     [FI, 'pygsp/filters/modulation.py', 'pygsp/filters/gabor.py'],
     [('localisation', f'{FI}:Filter.localize'), ('modulation', 'pygsp/filters/modulation.py'),
      ('gabor', 'pygsp/filters/gabor.py')], observe=['Filter.localize', 'Modulation.filter',
                                                     'Gabor.filter'])
R = 'pygsp/reduction.py'
prop('C14', 'Kron reduction is the Schur complement of the Laplacian',
     'Reducing a graph to a subset of vertices gives the graph whose Laplacian is the Schur '
     'complement of the original Laplacian on those vertices, in the order requested and with '
     'their coordinates. The result is a valid loop-free graph with non-negative weights.',
     'all weights, patterns, subsets and orderings of the kept vertices',
     'No test compares a reduction with its definition.', [R],
     [('reduction', f'{R}:kron_reduction')], observe=['kron_reduction'])
prop('C15', 'Multiresolution and pyramids nest and reconstruct',
     'A graph multiresolution nests each level in the previous one, remembering which original '
     'vertices remain; interpolation reproduces the sampled values up to its regularisation, and '
     'pyramid synthesis inverts pyramid analysis exactly when both use the same filters. '
     'Sparsified graphs keep the vertices and only existing edges.',
     'all signals, sampled values, weights, level counts',
     'Tests check one fixed graph and signal.', [R],
     [('levels', f'{R}:graph_multiresolution'), ('interpolation', f'{R}:interpolate'),
      ('pyramid', f'{R}:pyramid_analysis, pyramid_synthesis'),
      ('sparsification', f'{R}:graph_sparsify')],
     observe=['graph_multiresolution', 'pyramid_analysis', 'pyramid_synthesis', 'interpolate'])
LE = 'pygsp/learning.py'
prop('C16', 'Tikhonov learning solves its stated optimisation problem',
     'Regression returns the unique minimiser of measured squared error plus tau times the '
     'Dirichlet energy (or, for tau = 0, the harmonic interpolant that keeps the measurements '
     'exactly), for every column alike. Classification applies it to one-hot labels and the '
     'simplex variant stays on the probability simplex with the correct objective.',
     'all weights, masks, measurements, labels and tau', 'Tests use fixed random data and '
     'compare with a loose tolerance.', [LE],
     [('regression', f'{LE}:regression_tikhonov'), ('labels', f'{LE}:_to_logits'),
      ('simplex projection', f'{LE}:classification_tikhonov_simplex')],
     observe=['regression_tikhonov', 'classification_tikhonov', 'classification_tikhonov_simplex'])
prop('C17', 'NetworkX export and import round-trip graphs and signals',
     'Exporting a graph to NetworkX and importing it back gives the same weights, direction and '
     'signals, with any number of vertices, of signals and of signal columns (from two); '
     'exporting does not change the graph. Node and edge attributes hold the weights and signals of the graph.',
     'all weights, patterns, signals, names and column counts',
     'Tests round-trip one graph with small signals.', ['pygsp/graphs/_io.py'],
     [('export', 'pygsp/graphs/_io.py:to_networkx'), ('import', 'pygsp/graphs/_io.py:from_networkx'),
      ('signals', 'pygsp/graphs/_io.py:_break_signals, _join_signals')],
     observe=['Graph.to_networkx', 'Graph.from_networkx', 'Graph.signals'])
prop('C18', 'Subgraphs and connected components preserve weights, coordinates, signals',
     'A subgraph holds exactly the weights, coordinates, signals, Laplacian type and plotting '
     'options of the selected vertices, in the requested order. The components of an undirected '
     'graph partition its vertices, are connected, and lose no edge.',
     'all weights, patterns, selections and signals', 'Tests check two fixed graphs.', [G],
     [('selection', f'{G}:Graph.subgraph'), ('components', f'{G}:Graph.extract_components')],
     observe=['Graph.subgraph', 'Graph.extract_components', 'Graph.set_signal'])
U = 'pygsp/utils.py'
prop('C19', 'Matrix utilities equal their mathematical definitions',
     'Pairwise distances are Euclidean, symmetrisation methods give the documented symmetric '
     'matrices (of non-negative ones) in any container, resistance distances equal the pseudo-inverse formula (normalized Laplacians are rejected), points '
     'are centred and scaled to unit range, and scales are logarithmically spaced between the '
     'documented ends. Ill-shaped inputs and unknown methods are rejected.',
     'all matrices, point sets and ranges', 'Tests check a few fixed matrices.', [U],
     [('distances', f'{U}:distanz, resistance_distance'), ('symmetrisation', f'{U}:symmetrize'),
      ('scaling', f'{U}:rescale_center, compute_log_scales')], observe=['utils.*'])
N = 'pygsp/graphs/nngraphs/nngraph.py'
prop('C20', 'Nearest-neighbour graphs connect exactly the neighbours, with kernel weights',
     'A nearest-neighbour graph links each point with its k nearest neighbours, or with all '
     'points within the radius, weighted by the Gaussian kernel exp(-d^2/sigma), symmetrised as '
     'requested, without self-loops. Coordinates are the points after the requested centring '
     'and rescaling.',
     'all point sets, metrics, k, radii, sigma, centring and symmetrisation options',
     'Tests only construct such graphs; none compares the weights with the definition.', [N],
     [('construction', f'{N}:NNGraph.__init__')], observe=['NNGraph.W', 'NNGraph.coords'])
prop('C21', 'Deterministic graph families have their documented structure',
     'Paths, rings, grids, tori, stars, complete graphs, comets, line graphs and low-stretch '
     'trees have exactly the vertices, edges, weights and coordinates of their '
     'definition for every admissible size parameter. Inadmissible sizes are rejected.',
     'all sizes and parameters within bounds', 'Tests use one or two sizes per family.',
     ['pygsp/graphs/' + f for f in ('path.py', 'ring.py', 'grid2d.py', 'torus.py', 'star.py',
      'fullconnected.py', 'comet.py', 'linegraph.py', 'lowstretchtree.py')],
     [('constructors', 'pygsp/graphs/*.py:__init__')], over=('inputs', 'configurations'),
     observe=['W', 'coords'])
prop('C22', 'Random graph families satisfy their invariants for every random outcome',
     'Whatever values the random generator draws, random graph families return valid graphs of '
     'the requested size with their structural guarantees: block models place edges only as '
     'probabilities allow, regular graphs have equal degrees, attachment adds the stated number '
     'of edges, rings and sensor networks have the documented weights. The same seed gives the '
     'same graph and the global random state is untouched.',
     'every outcome of the random generator and every parameter within bounds',
     'Tests use one seed per family.',
     ['pygsp/graphs/' + f for f in ('erdosrenyi.py', 'stochasticblockmodel.py', 'barabasialbert.py',
      'community.py', 'randomregular.py', 'randomring.py', 'davidsensornet.py', 'nngraphs/sensor.py',
      'nngraphs/cube.py', 'nngraphs/sphere.py', 'swissroll.py', 'nngraphs/twomoons.py')],
     [('constructors', 'pygsp/graphs/*.py:__init__')], over=('inputs', 'schedules'),
     observe=['W', 'coords'])
prop('C23', 'Computations never modify the data they are given',
     'No public function changes the arrays, matrices, lists or dictionaries passed by the caller, '
     'nor the graphs and filters it only reads.',
     'all public entry points, dtypes and option combinations',
     'Tests do not look at inputs after a call.',
     [G, N, R, LE, U, FI, 'pygsp/graphs/_io.py'],
     [('copies before in-place operations', 'throughout')], over=('inputs', 'configurations'),
     observe=['caller-owned arrays'])
prop('C24', 'Vertex features equal their definitions',
     'The average adjacent degree, the filtered atoms at every vertex, their norms and the '
     'spectrogram equal their documented formulas for every graph and kernel.',
     'all weights, kernels and options', 'Tests do not check their values.',
     ['pygsp/features.py'], [('features', 'pygsp/features.py:*')],
     observe=['features.*'])
LA = 'pygsp/graphs/_layout.py'
prop('C25', 'Layouts assign one valid coordinate per vertex',
     'Every layout sets one finite coordinate of the documented dimension and position per '
     'vertex, keeps the connectivity untouched, honours fixed positions and seeds, and rejects '
     'unknown layouts or missing prerequisites.',
     'all graphs, layout kinds and random outcomes', 'Tests call each layout once.', [LA],
     [('layouts', f'{LA}:set_coordinates'), ('spring', f'{LA}:_sparse_fruchterman_reingold')],
     over=('inputs', 'schedules'), observe=['Graph.coords'])
prop('C26', 'Low-level approximations equal their definitions',
     'cheby_rect applies the truncated Chebyshev expansion of the ideal band-pass filter to every '
     'signal; compute_jackson_cheby_coeff returns the coefficients of that expansion on any '
     'spectrum and their Jackson damping, and rejects bands outside of the spectrum with '
     'ValueError; lanczos returns an orthonormal basis of the Krylov space of a nonzero signal and '
     'the tridiagonal projection of the matrix on it, also when that space has fewer dimensions '
     'than the order; lanczos_op filters polynomial kernels exactly once the order exceeds their '
     'degree, one block of rows per filter and one column per signal.',
     'all graphs, bands, signals, orders and kernels',
     'The tests only cover one band and one graph; breakdowns need particular signals.', [AP],
     [('rectangle', f'{AP}:cheby_rect'), ('coefficients', f'{AP}:compute_jackson_cheby_coeff'),
      ('Krylov', f'{AP}:lanczos'), ('filtering', f'{AP}:lanczos_op')],
     observe=['filters.cheby_rect', 'filters.compute_jackson_cheby_coeff', 'filters.lanczos',
              'filters.lanczos_op'])
prop('C27', 'Plots show the graphs, signals and filters they are given',
     'Graph.plot draws every vertex at its coordinates and (in 2-D and 3-D, by default for fewer than '
     '10,000 edges) every edge of the edge list as the segment between its two ends; a vertex signal is given '
     'as color between the limits (which by default enclose all its values, within 5%), sizes and edge '
     'widths range from half of to twice the default (diameters), edge transparency from 0.225 to 0.9, each an '
     'increasing affine function of the signal, constant signals in between; highlighted vertices and '
     'vertex indices are drawn at the right vertices; options default to graph.plotting. 1-D graphs '
     'draw the signals as curves over the coordinates. Both backends show the same data. Filter.plot '
     'draws the response of each kernel on n points of [0, lmax] (and the eigenvalues), and their '
     'sum of squares; plot_spectrogram every cell of the spectrogram. Signals of another length raise '
     'ValueError, missing or malformed coordinates AttributeError. The given axes are used and returned, else a '
     'new figure, which close_all closes; plotting modifies neither graph nor signals.',
     'all coordinates, signals, kernels and options',
     'The tests check that plotting does not raise, not what is drawn.', ['pygsp/plotting.py'],
     [('graphs', 'pygsp/plotting.py:_plot_graph'), ('drawing', 'pygsp/plotting.py:_plt_plot_graph'),
      ('filters', 'pygsp/plotting.py:_plt_plot_filter'), ('figures', 'pygsp/plotting.py:_plt_handle_figure'),
      ('pyqtgraph', 'pygsp/plotting.py:_qtg_plot_signal'),
      ('spectrograms', 'pygsp/plotting.py:_plot_spectrogram')],
     observe=['Graph.plot', 'Filter.plot', 'Graph.plot_spectrogram', 'plotting.close_all'])
IO = 'pygsp/graphs/_io.py'
prop('C28', 'graph-tool graphs and files preserve graphs and signals',
     'from_graphtool(G.to_graphtool()) has the vertices (isolated ones included), direction, weights (of every '
     'number type, self-loops once) and signals of G, each column of a signal of d dimensions as its own '
     'signal; the graph-tool graph has one edge per edge of G with its weight in the edge property '
     '"weight" and one vertex property per signal, and shares no memory with G. Importing adds the '
     'weights of parallel edges, takes weights of 1 if there is no such edge property, and copies the '
     'signals. Graph.load(path) returns the graph that G.save(path) stored, with its signals (GML, '
     'GraphML and GEXF with NetworkX, GML and GraphML with graph-tool; the library and the format, '
     'guessed from the extension, can be given; signals named "id" or "label" and, in GML, names that are not words are '
     'excluded, and graph-tool rounds GML numbers to 6 digits). Unknown formats or backends raise '
     'ValueError, missing libraries ImportError, while the other one is used if none is asked for.',
     'all weighted graphs, directed or not, and all numeric signals',
     'The tests round trip a few undirected graphs and signals of one type.', [IO],
     [('export', f'{IO}:to_graphtool'), ('import', f'{IO}:from_graphtool'), ('save', f'{IO}:save'),
      ('load', f'{IO}:load')],
     observe=['Graph.to_graphtool', 'Graph.from_graphtool', 'Graph.save', 'Graph.load'])

if __name__ == '__main__':
    have = set()
    bounds = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'harness', 'h_*.py'))):
        for node in ast.parse(open(f).read()).body:
            for d in getattr(node, 'decorator_list', []):
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness':
                    for a in d.args:
                        bounds.setdefault(a.value, []).append(
                            (node.name, ' '.join((ast.get_docstring(node) or '').split())))
    with open(os.path.join(ROOT, 'BOUNDS.md'), 'w') as f:
        f.write('# What each harness explores\n\nWritten by tools/gen.py from the harnesses: sizes '
                'and domains of the symbolic inputs.\nReal inputs range over the stated intervals '
                '(weights in [1/8, 8] unless said otherwise), every\nvalue of which is covered by '
                'the solver\'s verdict on each path.\n')
        for p in P:
            f.write(f"\n## {p['id']} {p['title']}\n\n")
            for name, doc in bounds.get(p['id'], []):
                f.write(f'- `{name}`: {doc}\n')
    for f in glob.glob(os.path.join(ROOT, 'harness', 'h_*.py')):
        for m in re.finditer(r"@harness\(((?:'C\d+',?\s*)+)", open(f).read()):
            have.update(re.findall(r'C\d+', m.group(1)))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    py = '/opt/venv/bin/python /verif/check.py'
    for p, (id, why) in zip(P, NA):
        if id in have:
            checks.append(dict(
                property=id, quick_cmd=f'{py} {id} --tier quick',
                thorough_cmd=f'{py} {id} --tier thorough', evidence_file=f'evidence/{id}.json',
                technique='solver-based checking: path-wise symbolic execution of the current '
                          'pygsp source with Z3 deciding every branch and assertion; '
                          'counterexamples replayed on the real code',
                level='model_checking',
                level_note='bounded: all values of the symbolic inputs on every path within the '
                           'sizes stated per harness in the evidence file; replayed witnesses '
                           'validate the encoding against the real code'))
        else:
            na.append(dict(property=id, reason=why or 'no check built yet'))
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python /verif/check.py --setup',
                   checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'),
              indent=1)
    print(len(checks), 'claimed', len(na), 'not')
