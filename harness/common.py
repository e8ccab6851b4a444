"""Shared input builders."""
import itertools
from fractions import Fraction

UND = {2: [(0, 1)], 3: [(0, 1), (0, 2), (1, 2)],
       4: [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]}


def und_edges(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def dir_edges(n):
    return [(i, j) for i in range(n) for j in range(n) if i != j]


def pattern(S, cand, name='e'):
    """Any subset of the candidate edges."""
    return [(i, j) for (i, j) in cand if S.flag(f'{name}{i}{j}')]


def any_graph(S, n, directed=False, loops=False, lo=Fraction(1, 8), hi=8):
    """Adjacency with an arbitrary edge pattern and arbitrary positive weights."""
    edges = pattern(S, dir_edges(n) if directed else und_edges(n))
    if loops:
        edges += pattern(S, [(i, i) for i in range(n)])
    return S.adjacency(n, edges, directed=directed, lo=lo, hi=hi), edges


# undirected shapes up to isomorphism (plus one isolated-vertex shape per size)
SHAPES = {
    'k2': (2, [(0, 1)]),
    'e1': (1, []),
    'e2': (2, []),
    'e3': (3, []),
    'p3': (3, [(0, 1), (1, 2)]),
    'k3': (3, [(0, 1), (0, 2), (1, 2)]),
    'k2+1': (3, [(0, 2)]),
    'p4': (4, [(0, 1), (1, 2), (2, 3)]),
    's4': (4, [(0, 1), (0, 2), (0, 3)]),
    'c4': (4, [(0, 1), (1, 2), (2, 3), (0, 3)]),
    'k4': (4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]),
    'd4': (4, [(0, 1), (0, 2), (0, 3), (1, 2), (2, 3)]),
    'paw': (4, [(0, 1), (0, 2), (1, 2), (2, 3)]),
    'k3+1': (4, [(0, 1), (0, 2), (1, 2)]),
    '2k2': (4, [(0, 1), (2, 3)]),
    'p3+1': (4, [(1, 2), (2, 3)]),
}
DSHAPES = {
    'd2': (2, [(0, 1)]),
    'd2b': (2, [(0, 1), (1, 0)]),
    'd3c': (3, [(0, 1), (1, 2), (2, 0)]),
    'd3m': (3, [(0, 1), (1, 0), (1, 2)]),
    'd3f': (3, [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)]),
    'd3s': (3, [(0, 1), (0, 2)]),
}


def shape(S, sh, **kw):
    n, e = SHAPES[sh] if sh in SHAPES else DSHAPES[sh]
    return S.adjacency(n, e, directed=sh not in SHAPES, **kw)


SCALES = (1e-9, 1e6)


def scaled(S, name, s):
    """(adjacency with weights in [s/8,8s], the same weights divided by s)"""
    M = ref_grid(shape(S, name))
    return S.array([[x * s for x in r] for r in M]), M


def ref_grid(W):
    from .ref import grid
    return grid(W)


SIGNALS = ('bool', 'uint8', 'int8', 'int64')


def typed_signal(S, sh, dtype, name='s'):
    """(signal of the given number type with any values of the type, the same in double
    precision)"""
    lo, hi = {'bool': (0, 1), 'uint8': (0, 255), 'int8': (-128, 127), 'int64': (-999, 999)}[dtype]
    X = S.np.zeros(sh)
    for k, i in enumerate(itertools.product(*[range(m) for m in sh])):
        X[i] = (k % 3 > 0) * 1. if dtype == 'bool' else S.symint(f'{name}{k}', lo, hi) * 1.
    return (X > 0 if dtype == 'bool' else X.astype(dtype)), X


TYPES = ('bool', 'uint8', 'int8', 'int16', 'int64', 'float32')


def typed(S, name, dtype):
    """(adjacency of the given number type, its entries as numbers): any weights the type can hold
    (1 for booleans, multiples of 1/4 up to 64 in single precision)."""
    n, e = SHAPES.get(name) or DSHAPES[name]
    und = name in SHAPES
    M = [[0] * n for _ in range(n)]
    for i, j in e:
        if dtype == 'bool':
            w = 1
        elif dtype == 'float32':
            w = S.symint(f'w{i}{j}', 1, 256) / 4
        else:
            w = S.symint(f'w{i}{j}', 1, {'uint8': 255, 'int8': 127, 'int16': 32767,
                                         'int64': 100000}[dtype])
        M[i][j] = w
        if und:
            M[j][i] = w
    if dtype == 'bool':
        W = S.np.array([[bool(x) for x in r] for r in M])
    elif dtype == 'float32':
        W = S.array(M) if S.sym else S.np.array(M, dtype='float32')
    else:
        W = S.intarray(M, dtype)
    kind = S.choice('kind', ['array', 'csr'])
    return (W if kind == 'array' else S.sparse.csr_matrix(W)), [[x * 1. for x in r] for r in M]
