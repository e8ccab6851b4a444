"""Harness sessions: one API, run symbolically over the private modules and concretely (replay)
over the real package."""
import importlib
import math
import random
import sys
import time
import traceback
import warnings
import zlib
from contextlib import contextmanager
from fractions import Fraction

import numpy as np
import scipy.sparse as S_real

from . import core, draw, lib, shims, sp
from .arr import F64, SArr, SMatrix, arr, cast, elem, f_zeros, has_sym, is_s, plain, sarray, wrap
from .core import PathAbort, SBool, Sym, Unsupported, z3

HARNESSES = []


class Harness:
    def __init__(self, prop, fn, **kw):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.budget = kw.pop('budget', 20)
        self.tier = kw.pop('tier', 'quick')
        self.paths = kw.pop('paths', 400)
        self.tol = kw.pop('tol', 1e-6)
        self.cfgs = kw.pop('cfgs', [{}])
        self.thorough = kw.pop('thorough', [])
        self.timeout_ms = kw.pop('timeout_ms', 2500)
        self.branches = kw.pop('branches', 3000)
        self.eig_signs = kw.pop('eig_signs', False)
        self.lemmas = kw.pop('lemmas', True)
        self.kernels = kw.pop('kernels', {})
        self.replays = kw.pop('replays', 25)
        self.doc = (fn.__doc__ or '').strip()
        assert not kw, kw


def harness(*props, **kw):
    def deco(fn):
        for p in props:
            HARNESSES.append(Harness(p, fn, **dict(kw)))
        return fn
    return deco


class Skip(Exception):
    """The replayed input does not satisfy the harness's assumptions."""


class Failed(Exception):
    """Stops a concrete replay after a failed assertion that later steps depend on."""


# ------------------------------------------------------------------ values

def grid_of(x):
    """Nested values -> (shape, flat list)."""
    if isinstance(x, sp.SM):
        x = x.toarray()
    elif S_real.issparse(x):
        x = x.toarray()
    if isinstance(x, SArr):
        return tuple(x.shape), list(plain(x).ravel().tolist()) if x.size else []
    if is_s(x):
        return (), [x]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            if x.ndim == 0:
                return (), [x.item()]
            return tuple(x.shape), list(x.ravel())
        return tuple(x.shape), x.ravel().tolist()
    if isinstance(x, np.generic):
        return (), [x.item()]
    if isinstance(x, (list, tuple)):
        if any(has_sym(y) or isinstance(y, (SArr, Sym)) for y in x):
            return grid_of(sarray(list(x)))
        return grid_of(np.asarray(x))
    return (), [x]


def rows_of(M):
    sh, g = grid_of(M)
    n, m = sh
    return [g[i * m:(i + 1) * m] for i in range(n)]


def _num(x):
    return isinstance(x, (bool, int, float, Fraction, Sym, SBool, np.generic))


def tofloat(x, env):
    if isinstance(x, Sym):
        return core.evalf(x.p, env)
    if isinstance(x, SBool):
        raise core.NoValue('bool')
    return float(x)


# ------------------------------------------------------------------ base

class Base:
    """What harnesses see."""

    def __init__(self, h, cfg):
        self.h = h
        self.cfg = cfg
        self.counts = {}
        self.tol = h.tol

    def _uniq(self, name):
        k = self.counts.get(name, 0)
        self.counts[name] = k + 1
        return name if k == 0 else f'{name}#{k}'

    @property
    def graphs(self):
        return self.pygsp.graphs

    @property
    def filters(self):
        return self.pygsp.filters

    def mod(self, name):
        raise NotImplementedError

    # ---- structured inputs
    def vec(self, name, n, lo=-4, hi=4):
        return self.array([self.real(f'{name}{i}', lo, hi) for i in range(n)])

    def mat(self, name, n, m, lo=-4, hi=4):
        return self.array([[self.real(f'{name}{i}_{j}', lo, hi) for j in range(m)]
                           for i in range(n)])

    @contextmanager
    def logged(self, name, out):
        """Collects the warnings of a logger."""
        import logging
        old, handle = logging.root.manager.disable, logging.Logger.handle

        def take(self, r):
            if r.levelno >= logging.WARNING and (r.name + '.').startswith(name + '.'):
                out.append(r.getMessage())
        logging.disable(logging.NOTSET)
        logging.Logger.handle = take
        try:
            yield out
        finally:
            logging.Logger.handle = handle
            logging.disable(old)

    def flag(self, name):
        return self.choice(name, [False, True])

    def adjacency(self, n, edges, directed=False, name='w', lo=Fraction(1, 8), hi=8):
        """Dense adjacency with a symbolic positive weight per listed edge."""
        W = [[0.0] * n for _ in range(n)]
        for (i, j) in edges:
            v = self.real(f'{name}{i}{j}', lo, hi)
            W[i][j] = v
            if not directed:
                W[j][i] = v
        return self.array(W)

    def container(self, kind, W):
        """The same adjacency in another container."""
        np_, sps = self.np, self.sparse
        if kind == 'array':
            return W
        if kind == 'list':
            return W.tolist() if not isinstance(W, SArr) else plain(W).tolist()
        if kind == 'matrix':
            return np_.asmatrix(W)
        return getattr(sps, kind + '_matrix')(W)

    def eq(self, label, a, b, tol=None, obs=True):
        raise NotImplementedError

    def same(self, label, a, b):
        """Concrete (non-symbolic) equality of plain python values."""
        self.check(label, a == b, detail=lambda: f'{a!r} != {b!r}')

    def le(self, label, a, b):
        """a <= b elementwise (with the rounding allowance of the concrete replay)."""
        raise NotImplementedError

    def dense(self, M):
        return M.toarray() if hasattr(M, 'toarray') else M


# ------------------------------------------------------------------ symbolic

class Sess(Base):
    sym = True

    def __init__(self, h, cfg, loader, ctx, emit):
        super().__init__(h, cfg)
        self.loader = loader
        self.ctx = ctx
        self.np = shims.NP
        self.sparse = shims.SPARSE
        self.pygsp = loader.mods['pygsp']
        self.emit = emit
        self.env = {}             # choices: name -> index
        self.checks = []          # (label, verdict)
        self.obs = {}
        self.candidates = []      # models (env dicts)
        self.covers = set()
        self.quiet = 0

    def mod(self, name):
        return self.loader.load('pygsp.' + name)

    def array(self, x):
        return cast(sarray(x), F64) if not isinstance(x, SArr) else x

    def intarray(self, x, dtype='int64'):
        return cast(sarray(x), np.dtype(dtype))

    # ---- inputs
    def real(self, name, lo=Fraction(-4), hi=Fraction(4)):
        return self.ctx.input(self._uniq(name), core.num(lo), core.num(hi))

    def symint(self, name, lo, hi):
        return self.ctx.input(self._uniq(name), lo, hi, isint=True)

    def int(self, name, lo, hi):
        return core.concretize_int(self.symint(name, lo, hi))

    def choice(self, name, options):
        name = self._uniq(name)
        options = list(options)
        k = self.ctx.choose(len(options)) if len(options) > 1 else 0
        self.env[name] = k
        return options[k]

    def assume(self, c):
        if isinstance(c, (Sym, SBool)) or c is True or c is False:
            self.ctx.assume(c)
        elif not bool(c):
            raise PathAbort('assumption false')

    def kernel(self, name, f, lo=None, hi=None):
        """An arbitrary (uninterpreted) kernel with values in [lo, hi]; f is its concrete
        stand-in for replays."""
        core.KERNELS[name] = f

        def g(x):
            if is_s(x) or isinstance(x, (int, float, np.generic)):
                return core.s_uf(name, x if is_s(x) else core.mk(core.P(x)), lo, hi)
            a = arr(x)
            r = np.empty(a.shape, dtype=object)
            for i, v in enumerate(a.view(np.ndarray).flat):
                r.flat[i] = core.s_uf(name, v, lo, hi)
            return wrap(r, F64)
        g.__name__ = name
        return g

    def eigh(self, M):
        """Reference eigendecomposition (ascending) of a symmetric matrix."""
        M = sarray([[float(x) if not is_s(x) else x for x in r] for r in rows_of(M)])
        return lib.eigh_stub(cast(M, F64))

    def spectral(self, label, e, U, M):
        """(e, U) are the lowest eigenpairs of M, orthonormal and ascending."""
        er, Ur = self.eigh(M)
        k = len(grid_of(e)[1])
        self.eq(label + ': eigenvalues', e, er[:k])
        self.eq(label + ': orthonormal', U.T.dot(U), np.eye(k))
        self.quiet += 1
        try:
            if any(is_s(x) for x in grid_of(M)[1] + grid_of(U)[1]):
                self.eq(label + ': eigenvectors', U, Ur[:, :k])
            else:
                M = np.array(rows_of(M), float)
                U, e = np.array(rows_of(U), float), np.array(grid_of(e)[1], float)
                self.eq(label + ': eigenvectors', M.dot(U), U * e)
        finally:
            self.quiet -= 1

    def eigencolumns(self, label, X, M, start):
        """The columns of X are orthonormal eigenvectors of M, from the start-th smallest
        eigenvalue on."""
        er, Ur = self.eigh(M)
        k = X.shape[1]
        self.eq(label + ': orthonormal', X.T.dot(X), np.eye(k))
        self.quiet += 1
        try:
            if any(is_s(x) for x in grid_of(M)[1] + grid_of(X)[1]):
                self.eq(label + ': eigenvectors', X, Ur[:, start:start + k])
            else:
                M, X = np.array(rows_of(M), float), np.array(rows_of(X), float)
                self.eq(label + ': eigenvectors', M.dot(X), X * np.linalg.eigvalsh(M)[start:start + k])
        finally:
            self.quiet -= 1

    @contextmanager
    def noconv(self):
        """The iterative eigenvalue solver does not converge."""
        self.ctx.eigsh_fail = True
        try:
            yield
        finally:
            self.ctx.eigsh_fail = False

    @contextmanager
    def without(self, *modules):
        """Optional dependencies which are not installed."""
        self.ctx.missing = modules
        try:
            yield
        finally:
            self.ctx.missing = ()

    @property
    def gt(self):
        return self.loader.stubs['graph_tool']

    @contextmanager
    def files(self):
        """A directory; files written there are read back unchanged (see gtool.py)."""
        self.ctx.files = {}
        try:
            yield '/nowhere'
        finally:
            self.ctx.files = None

    @contextmanager
    def drawing(self):
        """Records what is drawn (see draw.py)."""
        rec = []
        self.ctx.fakes = {**draw.matplotlib(rec), **draw.pyqtgraph(rec)}
        try:
            yield rec
        finally:
            self.mod('plotting').close_all()
            self.ctx.fakes = None

    def rounded(self):
        """Operations on constants (no input involved) are rounded from here on."""
        core.ROUND[0] = True

    def fork_abs(self):
        """Absolute values split paths from here on, instead of being terms."""
        self.ctx.fork_abs = True

    def draws(self, n=None, apart=None, fixed=None, ints=None):
        """Paths which draw more than n random numbers from here on are out of bounds; real
        draws differ from each other and from zero by more than `apart`; those for which
        fixed(kind, index) is a number are that number; integer draws for which ints(kind, index)
        is a number in [0, 1) are the value at that fraction of their range."""
        self.ctx.draws_fixed = fixed
        self.ctx.draws_ints = ints
        self.ctx.draws_left = n
        self.ctx.draws_apart = apart

    def same_random(self, label):
        """The global random generator has not been used."""
        self.check(label, not hasattr(self.ctx, '_global_rng'))

    @contextmanager
    def flann(self):
        yield

    @contextmanager
    def solver(self):
        """Records the problems given to pyunlocbox; the solution is the initial point."""
        calls = []

        def hook(functions, x0, solver, kw):
            calls.append((list(functions), x0, getattr(solver, 'step', None), kw))
            return {'sol': x0}
        self.ctx.solve_hook = hook
        try:
            yield calls
        finally:
            self.ctx.solve_hook = None

    # ---- assertions
    def observe(self, label, x):
        if self.quiet:
            return
        try:
            self.obs[self._uniq('o:' + label)] = grid_of(x)
        except Exception:
            pass

    def _query(self, label, neg, atoms):
        c = self.ctx
        c.ensure(atoms)
        r = c.check(neg, atoms=atoms)
        if r == z3.unsat:
            return 'holds'
        if r == z3.sat:
            m = self._model([neg], atoms)
            if m is not None:
                self.candidates.append((label, m))
            return 'candidate'
        return 'unknown'

    def _model(self, extra, atoms):
        c = self.ctx
        ids = None
        if c.last is not c.solver:          # a model of a slice: complete it if possible
            part = c.last.model()
            if c.check(*extra, timeout=1000) != z3.sat:
                ids = c.slice(atoms)[1]
                return self.env_of(part, ids)
        try:
            return self.env_of(c.last.model())
        except z3.Z3Exception:
            return None

    def env_of(self, m, ids=None):
        env = dict(self.env)
        for nm, s in self.ctx.inputs.items():
            a = self.ctx.keys[('in', nm)]
            if ids is not None and a.id not in ids:
                continue
            env[nm] = num_of(m.eval(a.z, model_completion=True), a.int)
        return env

    def check(self, label, cond, detail=None):
        label = self._uniq('c:' + label)
        if isinstance(cond, (Sym,)):
            cond = core.s_cmp(cond, 0, '!=')
        if isinstance(cond, SArr):
            cond = core.s_and(*[x if isinstance(x, SBool) else bool(x)
                                for x in plain(cond).ravel()])
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if isinstance(cond, SBool):
            v = self._query(label, z3.Not(cond.z), cond.atoms)
        else:
            ok = bool(cond)
            v = self._query(label, z3.BoolVal(not ok), ())
        self.checks.append((label, v))
        return v == 'holds'

    def eq(self, label, a, b, tol=None, obs=True):
        label = self._uniq('c:' + label)
        if obs:
            self.observe(label, a)
        sa, ga = grid_of(a)
        sb, gb = grid_of(b)
        if sa != sb:
            if sb == () and len(gb) == 1:
                gb = gb * len(ga)
            else:
                v = self._query(label, z3.BoolVal(True), ())
                self.checks.append((label, v))
                return
        fs, atoms, bad = [], set(), False
        t = Fraction(tol or 1e-7).limit_denominator(10 ** 12)
        for x, y in zip(ga, gb):
            if not (_num(x) and _num(y)):
                if x != y:
                    bad = True
                continue
            if isinstance(x, SBool) or isinstance(y, SBool):
                x = x if not isinstance(x, SBool) else bool(x)
                y = y if not isinstance(y, SBool) else bool(y)
            sx, sy = core._special(x), core._special(y)
            if sx or sy:
                if not (sx and sy and (x == y or (x != x and y != y))):
                    bad = True
                continue
            d = core.psub(core.P(x), core.P(y))
            if not d:
                continue
            d, mult = core.clear(d)
            if not d:
                continue
            if mult:
                lo, hi = core.bounds(d)
                m = 1.0
                for q, e in mult:
                    l, h = core.interval(q)
                    m *= max(l, -h, 0.0) ** e
                if m > 0 and max(-lo, hi) < float(t) * m:
                    continue
                d = core.P(core.s_sub(x, y))
            k = core.pconst(d)
            if k is not None:
                if abs(k) > t:
                    bad = True
                continue
            lo, hi = core.bounds(d)
            if -t < lo and hi < t:
                continue
            if core.only_const_atoms(d):
                if abs(core.evalf_const(d)) > t:
                    bad = True
                continue
            z = core.zpoly_raw(d)
            fs.append(z3.Or(z > core.zval(t), z < -core.zval(t)))
            atoms |= core.patoms(d)
        if bad:
            v = self._query(label, z3.BoolVal(True), ())
        elif not fs:
            v = self._query(label, z3.BoolVal(False), ())
        elif len(fs) <= 4:
            v = self._query(label, z3.Or(*fs), atoms)
        else:
            v = 'holds'
            for f in fs:
                w = self._query(label, f, atoms)
                if w != 'holds':
                    v = w
                    if w == 'candidate':
                        break
        self.checks.append((label, v))
        return v == 'holds'

    def le(self, label, a, b):
        sa, ga = grid_of(a)
        sb, gb = grid_of(b)
        n = max(len(ga), len(gb))
        ga = ga * n if len(ga) == 1 else ga
        gb = gb * n if len(gb) == 1 else gb
        cs = []
        for x, y in zip(ga, gb):
            c = core.s_cmp(x, core.s_add(y, Fraction(1, 10 ** 7)), '<=') \
                if not core._special(y) and not core._special(x) else core.s_cmp(x, y, '<=')
            if c is not True:
                cs.append(c)
        self.check(label, core.s_and(True, *cs) if cs else True)

    def raises(self, label, exc, fn):
        label = self._uniq('c:' + label)
        try:
            fn()
        except Exception as e:
            ok = isinstance(e, exc)
        else:
            ok = False
        v = self._query(label, z3.BoolVal(not ok), ())
        self.checks.append((label, v))

    def cover(self, label):
        self.covers.add(label)

    def snapshot(self, x):
        return snap(x)

    def unchanged(self, label, x, s):
        t = snap(x)
        self.check(label, snap_eq(s, t))

    # ---- witnesses
    def witness(self, rng, extra=()):
        """Concrete inputs driving this path; generic values preferred."""
        c = self.ctx
        ins = [(nm, c.keys[('in', nm)]) for nm in c.inputs]
        c.ensure([a.id for _, a in ins])
        if ins and len(ins) <= 60:
            fix = []
            for nm, a in ins:
                v = nice(rng, a)
                if v is not None:
                    fix.append(a.z == (v if a.int else core.zval(v)))
            r = c.check(*(list(extra) + fix), timeout=800)
            if r == z3.sat:
                return self.env_of(c.last.model()) if _has_model(c) else None
            # keep as many generic values as the path allows
            if len(ins) <= 14:
                keep = []
                for f in fix:
                    if c.check(*(list(extra) + keep + [f]), timeout=400) == z3.sat:
                        keep.append(f)
                if c.check(*(list(extra) + keep), timeout=1000) == z3.sat:
                    return self.env_of(c.last.model()) if _has_model(c) else None
        if c.check(*extra) == z3.sat and _has_model(c):
            return self.env_of(c.last.model())
        return None


def _has_model(c):
    try:
        c.last.model()
        return True
    except z3.Z3Exception:
        return False


def nice(rng, a):
    if a.lo is None and a.hi is None:
        return Fraction(rng.randrange(-200, 200), 64)
    lo = a.lo if a.lo is not None else a.hi - 4
    hi = a.hi if a.hi is not None else lo + 4
    lo, hi = core.num(lo), core.num(hi)
    if a.int:
        return rng.randint(int(lo), int(hi))
    return lo + (hi - lo) * Fraction(rng.randrange(1, 256), 257)


def num_of(v, isint):
    f = core._zfrac(v)
    return int(f) if isint else f


# ------------------------------------------------------------------ snapshots

def snap(x):
    if isinstance(x, sp.SM):
        return ('SM', x.P.format, x.shape, x.nnz, np.array(x.toarray().view(np.ndarray)))
    if S_real.issparse(x):
        return ('sp', x.format, x.shape, str(x.dtype), (x.nnz, np.size(x.data)), x.toarray())
    if isinstance(x, SArr):
        return ('SA', x.shape, str(x.ldt), np.array(x.view(np.ndarray)))
    if isinstance(x, np.ndarray):
        return ('A', x.shape, str(x.dtype), np.array(x))
    if isinstance(x, (list, tuple)):
        return ('L', type(x).__name__, [snap(y) for y in x])
    if isinstance(x, dict):
        return ('D', {k: snap(v) for k, v in x.items()})
    return ('V', x)


def snap_eq(a, b):
    if a[0] != b[0]:
        return False
    r = True
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, np.ndarray):
            if x.shape != y.shape:
                return False
            for p, q in zip(x.ravel(), y.ravel()):
                if p is q:
                    continue
                if is_s(p) or is_s(q):
                    r = core.s_and(r, core.s_cmp(p, q, '=='))
                elif not (p == q or (p != p and q != q)):
                    return False
        elif isinstance(x, list):
            if len(x) != len(y):
                return False
            for p, q in zip(x, y):
                r = core.s_and(r, snap_eq(p, q))
        elif isinstance(x, dict):
            if set(x) != set(y):
                return False
            for k in x:
                r = core.s_and(r, snap_eq(x[k], y[k]))
        elif is_s(x) or is_s(y):
            r = core.s_and(r, core.s_cmp(x, y, '=='))
        elif x is not y and x != y:
            return False
    return r


# ------------------------------------------------------------------ concrete

class Conc(Base):
    sym = False

    def __init__(self, h, cfg, env):
        super().__init__(h, cfg)
        import pygsp
        self.np = np
        self.sparse = S_real
        self.pygsp = pygsp
        self.env = env
        self.used = {}
        self.failed = []
        self.obs = {}

    def mod(self, name):
        return importlib.import_module('pygsp.' + name)

    def array(self, x):
        return np.array(x, dtype=float)

    def intarray(self, x, dtype='int64'):
        return np.array(x, dtype=dtype)

    def _default(self, name, lo, hi):
        r = zlib.crc32(name.encode()) % 997 / 997.0
        return float(lo) + (float(hi) - float(lo)) * (0.05 + 0.9 * r)

    def real(self, name, lo=-4, hi=4):
        name = self._uniq(name)
        v = self.env.get(name)
        v = self._default(name, lo, hi) if v is None else float(v)
        if not lo - 1e-9 <= v <= hi + 1e-9:
            raise Skip()
        self.used[name] = v
        return v

    def symint(self, name, lo, hi):
        name = self._uniq(name)
        v = self.env.get(name)
        v = lo + zlib.crc32(name.encode()) % (hi - lo + 1) if v is None else int(v)
        self.used[name] = v
        return v
    int = symint

    def choice(self, name, options):
        name = self._uniq(name)
        options = list(options)
        k = int(self.env.get(name, 0))
        self.used[name] = k
        return options[k if k < len(options) else 0]

    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def kernel(self, name, f, lo=None, hi=None):
        return f

    def eigh(self, M):
        return np.linalg.eigh(np.array(rows_of(M), float))

    def spectral(self, label, e, U, M):
        M = np.array(rows_of(M), float)
        e, U = np.asarray(e, float), np.asarray(U, float)
        k = len(e)
        er = np.linalg.eigvalsh(M)
        self.eq(label + ': eigenvalues', e, er[:k])
        self.eq(label + ': orthonormal', U.T.dot(U), np.eye(k))
        quiet = self.obs
        self.obs = {}
        self.eq(label + ': eigenvectors', M.dot(U), U * e)
        self.obs = quiet

    def eigencolumns(self, label, X, M, start):
        M, X = np.array(rows_of(M), float), np.array(rows_of(X), float)
        k = X.shape[1]
        self.eq(label + ': orthonormal', X.T.dot(X), np.eye(k))
        quiet = self.obs
        self.obs = {}
        self.eq(label + ': eigenvectors', M.dot(X), X * np.linalg.eigvalsh(M)[start:start + k])
        self.obs = quiet

    @contextmanager
    def noconv(self):
        import scipy.sparse.linalg as SL
        f = SL.eigsh

        def fail(*a, **k):
            raise SL.ArpackNoConvergence('no convergence', np.zeros(0), np.zeros((0, 0)))
        SL.eigsh = fail
        try:
            yield
        finally:
            SL.eigsh = f

    @contextmanager
    def without(self, *modules):
        import sys
        if not modules:
            yield
            return
        names = [m for m in sys.modules if m.split('.')[0] in modules] + list(modules)
        old = {m: sys.modules.get(m) for m in names}
        for m in names:
            sys.modules[m] = None
        try:
            yield
        finally:
            for m, v in old.items():
                if v is None:
                    sys.modules.pop(m, None)
                else:
                    sys.modules[m] = v

    @property
    def gt(self):
        import graph_tool
        import graph_tool.spectral
        return graph_tool

    @contextmanager
    def files(self):
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            yield d

    @contextmanager
    def drawing(self):
        rec = []
        with draw.installed(draw.pyqtgraph(rec)), draw.observed(rec):
            try:
                yield rec
            finally:
                self.mod('plotting').close_all()

    def fork_abs(self):
        pass

    def rounded(self):
        pass

    def draws(self, n=None, apart=None, fixed=None, ints=None):
        lib.ReplayRNG.ints = staticmethod(ints) if ints else None
        lib.ReplayRNG.fixed = staticmethod(fixed) if fixed else None

    def same_random(self, label):
        self.check(label, not lib.ReplayRNG.glob)

    @contextmanager
    def flann(self):
        """pyflann with exact answers (the real one is approximate, even on small sets)."""
        import sys
        import types
        from scipy.spatial import KDTree
        m = types.ModuleType('pyflann')
        state = {'p': 2}

        def set_distance_type(distance_type, order=0):
            state['p'] = {'euclidean': 2, 'manhattan': 1, 'minkowski': order}[distance_type]

        def nn(pts, qpts, num_neighbors=1, **kw):
            D, NN = KDTree(pts).query(qpts, k=num_neighbors, p=state['p'])
            return NN, np.power(D, state['p'])
        m.set_distance_type = set_distance_type
        m.FLANN = lambda: types.SimpleNamespace(nn=nn)
        old = sys.modules.get('pyflann')
        sys.modules['pyflann'] = m
        try:
            yield
        finally:
            if old is None:
                sys.modules.pop('pyflann', None)
            else:
                sys.modules['pyflann'] = old

    @contextmanager
    def solver(self):
        from pyunlocbox import solvers
        f = solvers.solve
        calls = []

        def solve(functions, x0, solver=None, **kw):
            calls.append((list(functions), x0, getattr(solver, 'step', None), kw))
            return {'sol': x0}
        solvers.solve = solve
        try:
            yield calls
        finally:
            solvers.solve = f

    def observe(self, label, x):
        try:
            self.obs[self._uniq('o:' + label)] = grid_of(x)
        except Exception:
            pass

    def fail(self, label, detail):
        self.failed.append((label, str(detail)[:600]))

    def check(self, label, cond, detail=None):
        label = self._uniq('c:' + label)
        if not bool(np.all(cond)):
            self.fail(label, detail() if detail else 'condition is false')
            return False
        return True

    def eq(self, label, a, b, tol=None, obs=True):
        label = self._uniq('c:' + label)
        if obs:
            self.observe(label, a)
        sa, ga = grid_of(a)
        sb, gb = grid_of(b)
        if sa != sb:
            if sb == () and len(gb) == 1:
                gb = gb * len(ga)
            else:
                self.fail(label, f'shape {sa} != {sb}')
                return False
        tol = tol or self.tol
        nums = [abs(x) for x in ga + gb if _num(x) and not core._special(x)]
        sc = max([1.0] + [float(x) for x in nums])
        for k, (x, y) in enumerate(zip(ga, gb)):
            if _num(x) and _num(y):
                if x == y or (x != x and y != y):
                    continue
                if core._special(x) or core._special(y) or abs(x - y) > tol * sc:
                    self.fail(label, f'element {k} of {sa}: {x!r} != {y!r}')
                    return False
            elif x != y:
                self.fail(label, f'element {k}: {x!r} != {y!r}')
                return False
        return True

    def le(self, label, a, b):
        label = self._uniq('c:' + label)
        a, b = np.asarray(self.dense(a), float), np.asarray(self.dense(b), float)
        sc = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]), initial=0)))
        if not np.all(a <= b + self.tol * sc):
            self.fail(label, f'{a!r} > {b!r}')
            return False
        return True

    def raises(self, label, exc, fn):
        label = self._uniq('c:' + label)
        try:
            r = fn()
        except Exception as e:
            if not isinstance(e, exc):
                self.fail(label, f'raised {type(e).__name__}: {e} instead of '
                                 f'{getattr(exc, "__name__", exc)}')
        else:
            self.fail(label, f'accepted (returned {type(r).__name__})')

    def cover(self, label):
        pass

    def snapshot(self, x):
        return snap(x)

    def unchanged(self, label, x, s):
        self.check(label, snap_eq(s, snap(x)))


RND = ['rand', 'randn', 'randint', 'random', 'random_sample', 'uniform', 'normal', 'choice',
       'permutation', 'shuffle', 'seed', 'standard_normal']


@contextmanager
def patched(env):
    """Random sources draw the witness's outcomes; iterative eigenvalues carry its error."""
    import scipy.sparse.linalg as SL
    import scipy.stats as st
    lib.ReplayRNG.env = {k: (float(v) if isinstance(v, Fraction) else v) for k, v in env.items()
                         if k.startswith('rng:')}
    lib.ReplayRNG.unseeded = 0
    lib.ReplayRNG.glob = glob = []
    lib.ReplayRNG.fixed = lib.ReplayRNG.ints = None
    saved = {k: getattr(np.random, k) for k in RND}
    dr, rs, rv = np.random.default_rng, np.random.RandomState, st.rv_discrete

    def gl(name):
        def f(*a, **k):
            if not glob:
                glob.append(lib.ReplayRNG(None, 'global'))
            return getattr(glob[0], name)(*a, **k)
        return f
    errs = [float(env[k]) for k in sorted(env) if k.startswith('lanczos_err')]
    eig = SL.eigsh
    it = iter(errs)

    def eigsh(A, k=6, *a, **kw):
        if kw.get('v0') is None:     # a fixed start vector instead of ARPACK's random one
            kw['v0'] = np.linspace(1.0, 2.0, A.shape[0])
        if not kw.get('tol') or not errs:
            return eig(A, k, *a, **kw)
        r = eig(A, k, *a, **{**kw, 'tol': 0})
        t = next(it, 0.0)
        return r * (1 - t) if isinstance(r, np.ndarray) else (r[0] * (1 - t), r[1])
    SL.eigsh = eigsh
    for k in RND:
        setattr(np.random, k, gl(k))
    np.random.default_rng = lambda seed=None: lib.ReplayRNG(seed, 'gen')
    np.random.RandomState = lambda seed=None: lib.ReplayRNG(seed, 'rs')
    st.rv_discrete = lib.ReplayRVD
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)
        np.random.default_rng, np.random.RandomState, st.rv_discrete = dr, rs, rv
        SL.eigsh = eig


def replay(h, cfg, env):
    """Run the harness on the real package. -> (status, failures, session)."""
    c = Conc(h, cfg, env)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        with patched(env):
            try:
                h.fn(c, **cfg)
            except Skip:
                return 'skip', [], c
            except Failed:
                pass
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = ''
                for f in tb:
                    if '/pygsp/' in f.filename:
                        where = f' at {f.filename.split("/pygsp/", 1)[1]}:{f.name}'
                if c.failed and not where:
                    return 'fail', c.failed, c  # The harness goes on after a failed check.
                if not where and not _repo_related(e):
                    return 'harness-error', [('harness', f'{type(e).__name__}: {e}')], c
                c.failed.append(('x:' + type(e).__name__, f'{e}{where}'[:600]))
    return ('fail' if c.failed else 'ok'), c.failed, c


def _repo_related(e):
    return isinstance(e, (AttributeError, ImportError, KeyError, IndexError, TypeError, ValueError))
