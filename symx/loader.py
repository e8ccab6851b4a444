"""Loads the repository's current source into private modules bound to the symbolic libraries."""
import ast
import builtins
import importlib
import os
import sys
import types

from . import core, gtool, lib, shims

REPO = os.environ.get('SYMX_REPO', '/repo')


class SFloat(float):
    """Placeholder kept for dtype tests."""


class Xform(ast.NodeTransformer):
    """float(x)/isinstance(x, T) become calls that also understand symbolic numbers."""
    MAP = {'float': '__sx_float__', 'int': '__sx_int__',
           'isinstance': '__sx_isinstance__'}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.MAP:
            node.func = ast.copy_location(ast.Name(self.MAP[node.func.id], ast.Load()), node.func)
        return node

    def visit_AugAssign(self, node):
        """x += v: concrete floats computed from integers may have to become symbolic."""
        self.generic_visit(node)
        if not isinstance(node.target, ast.Name):
            return node
        call = ast.Call(ast.Name('__sx_aug__', ast.Load()),
                        [ast.Constant(type(node.op).__name__),
                         ast.Name(node.target.id, ast.Load()), node.value], [])
        return ast.fix_missing_locations(
            ast.copy_location(ast.Assign([node.target], call), node))


class CaptureSolvers(types.ModuleType):
    """pyunlocbox.solvers whose solve() records the problem it is given."""

    def __init__(self):
        super().__init__('pyunlocbox.solvers')
        self.calls = []

    def solve(self, functions, x0, solver=None, **kw):
        self.calls.append((functions, x0, solver, kw))
        hook = getattr(core.CTX, 'solve_hook', None)
        if hook is None:
            raise core.Unsupported('convex solver')
        return hook(functions, x0, solver, kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: CaptureSolver(name, a, k)


class CaptureSolver:
    def __init__(self, name, a, kw):
        self.name = name
        self.step = kw.get('step', 1.0)
        self.kw = kw


class CaptureFunction:
    def __init__(self, name, kw):
        self.name = name
        self.kw = kw
        self.A = kw.get('A')
        self.y = kw.get('y')


class CaptureFunctions(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            fn = CaptureFunction(name, k)
            return fn
        return f


def view_as_windows(arr, window_shape, step=1):
    import numpy as np
    from .arr import SArr, wrap
    from numpy.lib.stride_tricks import sliding_window_view
    if np.isscalar(window_shape):
        window_shape = (int(window_shape),) * arr.ndim
    r = sliding_window_view(arr.view(np.ndarray), window_shape)
    return wrap(np.array(r), arr.ldt) if isinstance(arr, SArr) else r


class NetworkX(types.ModuleType):
    """The real networkx, whose graphs hold any Python number; only the conversion to a sparse
    matrix is replaced, to accept symbolic weights."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        import networkx
        kind, _, fmt = name.partition('_')
        if fmt in ('graphml', 'gml', 'gexf') and getattr(core.CTX, 'files', None) is not None:
            return (gtool.nx_write if kind == 'write' else gtool.nx_read)(fmt)
        return getattr(networkx, name)

    @staticmethod
    def to_scipy_sparse_array(G, nodelist=None, dtype=None, weight='weight', format='csr'):
        import networkx
        from .core import Sym
        if len(G) == 0:
            raise networkx.NetworkXError('Graph has no nodes or edges')
        nodes = list(G) if nodelist is None else list(nodelist)
        index = {v: i for i, v in enumerate(nodes)}
        ent = [(index[u], index[v], w) for u, v, w in G.edges(data=weight, default=1)
               if u in index and v in index]
        if not any(isinstance(w, Sym) for _, _, w in ent):
            return networkx.to_scipy_sparse_array(G, nodelist, dtype, weight, format)
        if not G.is_directed():
            ent += [(j, i, w) for i, j, w in ent if i != j]
        n = len(nodes)
        vals = shims.NP.array([w for _, _, w in ent])
        return shims.SPARSE.coo_matrix(
            (vals, ([i for i, _, _ in ent], [j for _, j, _ in ent])), shape=(n, n),
            dtype=dtype).asformat(format)


class Flann(types.ModuleType):
    """pyflann: exact neighbours (contract), distances without their final root."""

    def __init__(self):
        super().__init__('pyflann')
        self.p = 2
        self.FLANN = lambda: self

    def set_distance_type(self, distance_type, order=0):
        self.p = {'euclidean': 2, 'manhattan': 1, 'minkowski': order}[distance_type]

    def nn(self, pts, qpts, num_neighbors=1, **kw):
        p = self.p
        D, NN = lib.KDTree(pts).query(qpts, k=num_neighbors, p=p)
        return NN, (D if p == 1 else shims.NP.power(D, p))


class Loader:
    """One private instance of the package."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.functions = set()
        pyu = types.ModuleType('pyunlocbox')
        pyu.solvers = CaptureSolvers()
        pyu.functions = CaptureFunctions('pyunlocbox.functions')
        sk = types.ModuleType('sklearn')
        skn = types.ModuleType('sklearn.neighbors')
        skn.NearestNeighbors = lib.NearestNeighbors
        sk.neighbors = skn
        ski = types.ModuleType('skimage')
        skiu = types.ModuleType('skimage.util')
        skiu.view_as_windows = view_as_windows
        ski.util = skiu
        gt = gtool.Module()
        self.stubs = {
            'numpy': shims.NP, 'numpy.linalg': shims.NLINALG, 'numpy.random': shims.RANDOM,
            'scipy': shims.SCIPY, 'scipy.sparse': shims.SPARSE, 'scipy.linalg': shims.LINALG,
            'scipy.sparse.linalg': shims.SPLINALG, 'scipy.spatial': shims.SPATIAL,
            'scipy.spatial.distance': shims.DISTANCE, 'math': shims.MATH,
            'pyunlocbox': pyu, 'pyunlocbox.solvers': pyu.solvers,
            'pyunlocbox.functions': pyu.functions,
            'networkx': NetworkX('networkx'),
            'pyflann': Flann(), 'graph_tool': gt, 'graph_tool.spectral': gt.spectral,
            'sklearn': sk, 'sklearn.neighbors': skn, 'skimage': ski, 'skimage.util': skiu,
        }
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import
        self.builtins['__sx_float__'] = shims.sx_float
        self.builtins['__sx_int__'] = shims.sx_int
        self.builtins['__sx_aug__'] = shims.sx_aug
        self.builtins['__sx_isinstance__'] = shims.sx_isinstance

    # -- import machinery
    def _stub(self, name):
        fakes = getattr(core.CTX, 'fakes', None)
        if fakes and name in fakes:
            return fakes[name]
        if name in self.stubs:
            return self.stubs[name]
        if name.startswith('scipy.'):
            parts = name.split('.')
            m = self.stubs['scipy']
            for p in parts[1:]:
                m = getattr(m, p)
            self.stubs[name] = m
            return m
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = f'{pkg}.{name}' if name else pkg
        else:
            full = name
        if full == 'pygsp' or full.startswith('pygsp.'):
            m = self.load(full)
            if not fromlist:
                return self.mods['pygsp'] if level == 0 else m
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    sub = f'{full}.{f}'
                    if self._path(sub):
                        self.load(sub)
            return m
        if full.split('.')[0] in getattr(core.CTX, 'missing', ()):
            raise ImportError(f'No module named {full!r}')
        s = self._stub(full)
        if s is not None:
            if not fromlist:
                top = full.split('.')[0]
                return self._stub(top)
            for f in fromlist:
                self._stub(f'{full}.{f}')
            return s
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _path(self, full):
        p = os.path.join(self.repo, *full.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return p + '.py' if os.path.exists(p + '.py') else None

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        parent = full.rpartition('.')[0]
        if parent:
            self.load(parent)
            if full in self.mods:
                return self.mods[full]
        path = self._path(full)
        if path is None:
            raise ModuleNotFoundError(f'No module named {full!r}', name=full)
        m = types.ModuleType(full)
        m.__file__ = path
        is_pkg = path.endswith('__init__.py')
        m.__package__ = full if is_pkg else parent
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = Xform().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        exec(compile(tree, path, 'exec'), m.__dict__)
        if parent:
            setattr(self.mods[parent], full.rpartition('.')[2], m)
        return m

    # -- what was executed symbolically
    def monitor(self):
        mon = sys.monitoring
        tid = 4
        try:
            mon.use_tool_id(tid, 'symx')
        except ValueError:
            return
        root = os.path.join(self.repo, 'pygsp') + os.sep

        def start(code, off):
            if code.co_filename.startswith(root) and code.co_name != '<module>':
                self.functions.add((os.path.relpath(code.co_filename, self.repo),
                                    code.co_qualname))
            return mon.DISABLE
        mon.register_callback(tid, mon.events.PY_START, start)
        self._tid = tid

    def monitor_on(self, on=True):
        t = getattr(self, '_tid', None)
        if t is not None:
            sys.monitoring.set_events(t, sys.monitoring.events.PY_START if on else 0)
