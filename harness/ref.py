"""Reference models, written from the documentation, over plain nested lists of numbers
(symbolic or float)."""
from symx import core
from symx.core import Sym


def grid(M):
    from symx.session import grid_of
    sh, g = grid_of(M)
    if len(sh) == 2:
        n, m = sh
        return [g[i * m:(i + 1) * m] for i in range(n)]
    return g


def tot(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def mm(A, B):
    A, B = grid(A), grid(B)
    if B and not isinstance(B[0], list):
        return [tot(a * b for a, b in zip(r, B)) for r in A]
    cols = list(zip(*B))
    return [[tot(a * b for a, b in zip(r, c)) for c in cols] for r in A]


def tr(A):
    return [list(r) for r in zip(*grid(A))]


def sym(W):
    W = grid(W)
    n = len(W)
    return [[(W[i][j] + W[j][i]) / 2 for j in range(n)] for i in range(n)]


def dot(x, y):
    return tot(a * b for a, b in zip(x, y))


def sqrt(x):
    if isinstance(x, Sym):
        return core.s_sqrt(x)
    if core.CTX is not None and core.CTX.__dict__.get('symbolic', True) and False:
        return x
    return float(x) ** 0.5


def degrees(W, directed):
    """Weighted degree: average of in- and out-degree."""
    W = grid(W)
    n = len(W)
    i = [tot(W[k][j] for k in range(n)) for j in range(n)]
    o = [tot(W[j][k] for k in range(n)) for j in range(n)]
    if not directed:
        return o
    return [(a + b) / 2 for a, b in zip(i, o)]


def nz(x):
    return bool(x != 0)


def counts(W, directed):
    """Unweighted degree."""
    W = grid(W)
    n = len(W)
    i = [sum(nz(W[k][j]) for k in range(n)) for j in range(n)]
    o = [sum(nz(W[j][k]) for k in range(n)) for j in range(n)]
    if not directed:
        return o
    return [(a + b) / 2 for a, b in zip(i, o)]


def laplacian(W, lap='combinatorial', directed=None):
    """L = D - W or I - D^-1/2 W D^-1/2, with the symmetrised weights of directed graphs and
    zero rows for disconnected vertices."""
    W = grid(W)
    n = len(W)
    Ws = sym(W)
    d = [tot(r) for r in Ws]
    if lap == 'combinatorial':
        return [[(d[i] if i == j else 0) - Ws[i][j] for j in range(n)] for i in range(n)]
    inv = [0 if not nz(x) else 1 / sqrt(x) for x in d]
    return [[(1 if i == j and nz(d[i]) else 0) - inv[i] * Ws[i][j] * inv[j] for j in range(n)]
            for i in range(n)]


def connected(W, directed):
    """Strong connectivity by closure of the reachability relation."""
    W = grid(W)
    n = len(W)
    R = [[i == j or nz(W[i][j]) for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                R[i][j] = R[i][j] or (R[i][k] and R[k][j])
    return all(all(r) for r in R)


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
