"""Stand-ins (contracts) for graph-tool and for graph files, used by symbolic runs."""
import types

import numpy as np

from . import arr, core, shims


def gt_type(x):
    t = np.dtype(getattr(x, 'dtype', x) if not isinstance(x, type) else x)
    if t.kind in 'iu':
        return {1: 'int16_t', 2: 'int16_t', 4: 'int32_t', 8: 'int64_t'}[t.itemsize]
    return {'f': 'double', 'U': 'string'}.get(t.kind, 'object')


DTYPE = {'int16_t': 'int16', 'short': 'int16', 'int32_t': 'int32', 'int': 'int32', 'int64_t': 'int64', 'long': 'int64',
         'double': 'float64', 'float': 'float64', 'bool': 'uint8', 'uint8_t': 'uint8'}


def cells(n, d):
    """Zeros of a number type that can hold symbols."""
    r = arr.f_zeros(n, 0 if d != 'float64' else 0.0)
    r.ldt = np.dtype(d)
    return r


class Prop:
    def __init__(self, g, kind, vt, vals=None):
        self.g, self.kind, self.vt = g, kind, vt
        self.arr = None
        self.obj = {}
        if vt in DTYPE:
            self.arr = cells(self._size(), DTYPE[vt])
        if vals is not None:
            if self.arr is None:
                raise core.Unsupported('values of an object property')
            self.arr[:] = vals

    def _size(self):
        return len(self.g._edges) if self.kind == 'e' else self.g._n

    def _grow(self):
        if self.arr is not None and len(self.arr) < self._size():
            a = cells(self._size(), DTYPE[self.vt])
            a[:len(self.arr)] = self.arr
            self.arr = a

    def value_type(self):
        return self.vt

    def get_array(self):
        self._grow()
        return self.arr

    def _set(self, v):
        if self.arr is None:
            raise TypeError('cannot set property map values from array')
        self.get_array()[:] = v
    a = property(get_array, _set)
    fa = a

    def _index(self, k):
        return k.index if isinstance(k, Edge) else int(k)

    def __getitem__(self, k):
        return self.get_array()[self._index(k)]

    def __setitem__(self, k, v):
        self.get_array()[self._index(k)] = v

    def __iter__(self):
        return iter(self.get_array())

    def copy(self):
        p = Prop(self.g, self.kind, self.vt)
        if self.arr is not None:
            p.arr = self.get_array().copy()
        return p


class Edge:
    def __init__(self, g, index):
        self.g, self.index = g, index

    def source(self):
        return self.g._edges[self.index][0]

    def target(self):
        return self.g._edges[self.index][1]

    def __iter__(self):
        return iter(self.g._edges[self.index])


class Graph:
    def __init__(self, directed=True, **kw):
        self._directed = bool(directed)
        self._n, self._edges = 0, []
        self.edge_properties, self.vertex_properties, self.graph_properties = {}, {}, {}
        self.ep, self.vp = self.edge_properties, self.vertex_properties

    def is_directed(self):
        return self._directed

    def num_vertices(self, ignore_filter=False):
        return self._n

    def num_edges(self, ignore_filter=False):
        return len(self._edges)

    def add_vertex(self, n=1):
        self._n += int(n)
        r = range(self._n - int(n), self._n)
        return r[0] if n == 1 else iter(r)

    def vertex(self, i, **kw):
        return int(i)

    def add_edge(self, s, t, add_missing=True):
        s, t = int(s), int(t)
        self._n = max(self._n, s + 1, t + 1)
        self._edges.append((s, t))
        return Edge(self, len(self._edges) - 1)

    def add_edge_list(self, edges, hashed=False, eprops=None, **kw):
        if hashed:
            raise core.Unsupported('hashed edge list')
        props = []
        for p in eprops or ():
            if isinstance(p, tuple):
                q = self.new_edge_property(p[1])
                self.edge_properties[p[0]] = q
                p = q
            props.append(p)
        for row in edges:
            e = self.add_edge(row[0], row[1])
            for p, v in zip(props, list(row)[2:]):
                p[e] = v

    def new_edge_property(self, vt, vals=None, val=None):
        return Prop(self, 'e', vt, vals)

    def new_vertex_property(self, vt, vals=None, val=None):
        return Prop(self, 'v', vt, vals)
    new_ep, new_vp = new_edge_property, new_vertex_property

    def new_property(self, kind, vt, vals=None):
        return Prop(self, kind, vt, vals)

    def vertices(self):
        return iter(range(self._n))

    def edges(self):
        return iter([Edge(self, i) for i in range(len(self._edges))])

    def get_edges(self, eprops=()):
        return shims.NP.array([list(e) for e in self._edges] or shims.NP.zeros((0, 2)), dtype=int)

    def get_vertices(self, vprops=()):
        return shims.NP.arange(self._n)

    def _clone(self):
        g = Graph(self._directed)
        g._n, g._edges = self._n, list(self._edges)
        for n, p in self.vertex_properties.items():
            g.vertex_properties[n] = q = p.copy()
            q.g = g
        for n, p in self.edge_properties.items():
            g.edge_properties[n] = q = p.copy()
            q.g = g
        return g

    def save(self, path, fmt='auto'):
        fmt = path.rpartition('.')[2] if fmt == 'auto' else fmt
        if fmt not in ('gt', 'graphml', 'xml', 'dot', 'gml'):
            raise ValueError(f'invalid format: {fmt}')
        core.CTX.files[path] = ('graph-tool', fmt, self._clone())


def load_graph(path, fmt='auto', **kw):
    fmt = path.rpartition('.')[2] if fmt == 'auto' else fmt
    if fmt not in ('gt', 'graphml', 'xml', 'dot', 'gml'):
        raise ValueError(f'invalid format: {fmt}')
    return stored(path, 'graph-tool', fmt)._clone()


def stored(path, lib, fmt):
    if path not in core.CTX.files:
        raise FileNotFoundError(path)
    l, f, g = core.CTX.files[path]
    if l != lib or f != fmt:
        raise core.Unsupported(f'reading as {lib} {fmt} what was written as {l} {f}')
    return g


def adjacency(g, weight=None, vindex=None, operator=False, csr=True):
    ent = []
    for i, (s, t) in enumerate(g._edges):
        w = 1. if weight is None else weight[i]
        ent.append((t, s, w))
        if not g._directed:
            ent.append((s, t, w))
    m = shims.SPARSE.coo_matrix(
        (shims.NP.array([w for _, _, w in ent] or [], dtype=float), ([i for i, _, _ in ent], [j for _, j, _ in ent])),
        shape=(g._n, g._n))
    return m.tocsr() if csr else m


class Module(types.ModuleType):
    def __init__(self):
        super().__init__('graph_tool')
        self.Graph, self.load_graph, self._gt_type = Graph, load_graph, gt_type
        self.spectral = types.ModuleType('graph_tool.spectral')
        self.spectral.adjacency = adjacency


def nx_write(fmt):
    def write(graph, path, *a, **kw):
        import networkx as nx
        g = nx.relabel_nodes(graph, {v: str(v) for v in graph}, copy=True)
        for v, d in g.nodes(data=True):
            for n, x in d.items():
                if type(x).__module__ == 'numpy' and fmt == 'gexf':
                    raise TypeError(f'attribute {n} of type {type(x)}')
            if fmt == 'gexf':
                d.setdefault('label', v)
            if fmt == 'gml':
                d.pop('id', None), d.pop('label', None)
        core.CTX.files[path] = ('networkx', fmt, g)
    return write


def nx_read(fmt):
    def read(path, *a, **kw):
        return stored(path, 'networkx', fmt).copy()
    return read
