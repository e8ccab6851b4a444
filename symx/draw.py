"""What plots draw: recorders for matplotlib and pyqtgraph.

`events` holds one namespace per drawing call, with the arguments bound to names:
  points (pos, c, s, kw), curve (x, y, fmt, line, kw), segments (segments, kw, d3), vline (x),
  text (pos, s), ylim (lo, hi), title/xlabel/ylabel (text), legend, colorbar (mappable), figure (fig),
  close (fig), show, item (kind of pyqtgraph item, kw, widget), and anything else as `other`.
Symbolic runs use stand-ins for both libraries; concrete ones use the real matplotlib (with its
methods wrapped) and a stand-in for pyqtgraph."""
import sys
import types
from contextlib import contextmanager
from types import SimpleNamespace as NS

ALIAS = {'lw': 'linewidth', 'linewidths': 'linewidth', 'colors': 'color', 'linestyles': 'linestyle',
         'ls': 'linestyle', 'edgecolor': 'edgecolors', 'ec': 'edgecolors', 'facecolors': 'c',
         'facecolor': 'c', 'color': 'color', 'fontsize': 'size', 'sizes': 's'}


def norm(kw):
    return {ALIAS.get(k, k): v for k, v in kw.items()}


def _points2(x, y, s=None, c=None, **kw):
    return NS(kind='points', pos=[x, y], s=s, c=c, kw=norm(kw))


def _points3(xs, ys, zs=0, zdir='z', s=20, c=None, **kw):
    return NS(kind='points', pos=[xs, ys, zs], s=s, c=c, kw=norm(kw))


def _curve(*a, **kw):
    a = list(a)
    fmt = a.pop() if a and isinstance(a[-1], str) else None
    x = a[0] if len(a) > 1 else None
    return NS(kind='curve', x=x, y=a[-1], more=a[2:], fmt=fmt, kw=norm(kw))


def _text2(x, y, s, *a, **kw):
    return NS(kind='text', pos=[x, y], s=s, kw=norm(kw))


def _text3(x, y, z, s, *a, **kw):
    return NS(kind='text', pos=[x, y, z], s=s, kw=norm(kw))


def _vline(x=0, *a, **kw):
    return NS(kind='vline', x=x, kw=norm(kw))


def _ylim(bottom=None, top=None, **kw):
    if top is None and bottom is not None:
        bottom, top = bottom
    return NS(kind='ylim', lo=bottom, hi=top, kw=kw)


def _label(kind):
    def bind(*a, **kw):
        return NS(kind=kind, text=a[0] if a else next(iter(kw.values())), kw=kw)
    return bind


def _coll(c, *a, **kw):
    d = getattr(c, 'drawn', None)
    if d is None:
        return NS(kind='other', name='add_collection', args=(c,), kw=kw)
    return NS(kind='segments', segments=d[0], kw=norm(d[1]), d3=d[2])


BIND = dict(plot=_curve, axvline=_vline, set_ylim=_ylim, set_title=_label('title'), add_collection=_coll,
            add_collection3d=_coll, set_xlabel=_label('xlabel'), set_ylabel=_label('ylabel'),
            legend=lambda *a, **kw: NS(kind='legend', kw=kw))


def bind(ax, d3, name, a, kw):
    if name == 'scatter':
        e = (_points3 if d3 else _points2)(*a, **kw)
    elif name == 'text':
        e = (_text3 if d3 else _text2)(*a, **kw)
    elif name in BIND:
        e = BIND[name](*a, **kw)
    else:
        e = NS(kind='other', name=name, args=a, kw=kw)
    e.ax = ax
    return e


# ------------------------------------------------------------------ stand-ins for matplotlib

class Line:
    def __init__(self, label=None):
        self.label = label

    def set_label(self, label):
        self.label = label

    def get_label(self):
        return self.label

    def get_color(self):
        return ('color of', id(self))


class Ax:
    def __init__(self, rec, fig, d3=False):
        self._rec, self.figure, self.d3 = rec, fig, d3

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*a, **kw):
            e = bind(self, self.d3, name, a, kw)
            self._rec.append(e)
            if e.kind == 'curve':
                import numpy as np
                n = np.shape(e.y)
                n = n[1] if len(n) > 1 else 1
                e.lines = [Line(kw.get('label')) for _ in range(n)]
                return list(e.lines)
            e.result = NS(name=name)
            return e.result
        return call

    def set(self, **kw):
        for k, v in kw.items():
            getattr(self, 'set_' + k)(v)


class Fig:
    def __init__(self, rec):
        self._rec, self.axes = rec, []

    def add_subplot(self, *a, projection=None, **kw):
        ax = Ax(self._rec, self, projection == '3d')
        self.axes.append(ax)
        return ax

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    def show(self, *a, **kw):
        pass

    def suptitle(self, *a, **kw):
        pass


def is_color_like(c):
    import numpy as np
    from . import core
    from .arr import SArr, any_sym
    if isinstance(c, SArr):
        if not any_sym(c):
            c = np.array(c.tolist())
        elif c.ndim == 2 and c.shape[0] == 1:
            return is_color_like(c[0])
        else:
            return c.ndim == 1 and len(c) in (3, 4) and all(bool(x >= 0) and bool(x <= 1) for x in c)
    if isinstance(c, core.Sym):
        return False
    if isinstance(c, (list, tuple)) and any(isinstance(x, core.Sym) for x in c):
        return len(c) in (3, 4) and all(bool(x >= 0) and bool(x <= 1) for x in c)
    import matplotlib.colors
    return matplotlib.colors.is_color_like(c)


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def matplotlib(rec):
    class Lines:
        d3 = False

        def __init__(self, segments, **kw):
            self.drawn = (segments, kw, self.d3)

    class Lines3(Lines):
        d3 = True

    def figure(*a, **kw):
        fig = Fig(rec)
        rec.append(NS(kind='figure', fig=fig, ax=None))
        return fig

    def subplots(*a, subplot_kw=None, **kw):
        fig = figure()
        return fig, fig.add_subplot(**(subplot_kw or {}))
    plt = mod('matplotlib.pyplot', figure=figure, subplots=subplots,
              colorbar=lambda mappable, cax=None, ax=None, **kw: rec.append(
                  NS(kind='colorbar', mappable=mappable, ax=ax)),
              close=lambda fig=None: rec.append(NS(kind='close', fig=fig, ax=None)),
              show=lambda *a, **kw: rec.append(NS(kind='show', ax=None, kw=kw)))
    col = mod('matplotlib.collections', LineCollection=Lines)
    cols = mod('matplotlib.colors', is_color_like=is_color_like)
    art = mod('mpl_toolkits.mplot3d.art3d', Line3DCollection=Lines3)
    m3 = mod('mpl_toolkits.mplot3d', art3d=art)
    return {'matplotlib': mod('matplotlib', pyplot=plt, collections=col, colors=cols),
            'matplotlib.pyplot': plt, 'matplotlib.collections': col, 'matplotlib.colors': cols,
            'mpl_toolkits': mod('mpl_toolkits', mplot3d=m3), 'mpl_toolkits.mplot3d': m3,
            'mpl_toolkits.mplot3d.art3d': art}


def pyqtgraph(rec):
    class Item:
        names = ()

        def __init__(self, *a, **kw):
            self.drawn = dict(zip(self.names, a), **kw)

    def item(name, *names):
        return type(name, (Item,), dict(names=names))

    class Mapped:
        """Colours: the position of the data between the first and the last stop."""

        def __init__(self, m, data, mode):
            p = m.pos
            self.stops, self.colors, self.mode = p, m.color, mode
            self.at = (data - p[0]) / (p[len(p) - 1] - p[0])

    class ColorMap:
        def __init__(self, pos, color, **kw):
            self.pos, self.color = pos, color

        def map(self, data, mode='byte'):
            return Mapped(self, data, mode)

    class View:
        """Widgets and views; anything they are told is recorded."""

        def __init__(self, owner=None, **kw):
            self.owner = owner or self
            self.opts = {}
            self.labels = kw.get('labels')
            if owner is None:
                rec.append(NS(kind='widget', widget=self, ax=self))

        def addViewBox(self, *a, **kw):
            return View(self.owner)

        def addPlot(self, *a, **kw):
            rec.append(NS(kind='plot', ax=self.owner, kw=kw))
            return View(self.owner, **kw)

        def addItem(self, it):
            rec.append(NS(kind='item', item=type(it).__name__, kw=getattr(it, 'drawn', None), ax=self.owner))

        def setWindowTitle(self, t):
            rec.append(NS(kind='title', text=t, ax=self.owner, kw={}))

        def show(self):
            rec.append(NS(kind='shown', ax=self.owner))

        def close(self):
            rec.append(NS(kind='close', fig=self.owner, ax=self.owner))

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return lambda *a, **kw: None

    class App:
        @staticmethod
        def instance():
            return True
    gl = mod('pyqtgraph.opengl', GLViewWidget=View, GLLinePlotItem=item('GLLinePlotItem'),
             GLScatterPlotItem=item('GLScatterPlotItem'))
    gui, wid = mod('pyqtgraph.Qt.QtGui'), mod('pyqtgraph.Qt.QtWidgets', QApplication=App)
    qt = mod('pyqtgraph.Qt', QtGui=gui, QtWidgets=wid)
    qtg = mod('pyqtgraph', GraphicsLayoutWidget=View, GraphItem=item('GraphItem'), ColorMap=ColorMap,
              ScatterPlotItem=item('ScatterPlotItem', 'x', 'y'), opengl=gl, Qt=qt)
    return {'pyqtgraph': qtg, 'pyqtgraph.opengl': gl, 'pyqtgraph.Qt': qt, 'pyqtgraph.Qt.QtGui': gui,
            'pyqtgraph.Qt.QtWidgets': wid}


# ------------------------------------------------------------------ the real matplotlib, observed

@contextmanager
def observed(rec):
    import matplotlib as mpl
    mpl.use('Agg')
    from matplotlib import pyplot as plt
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d import Axes3D, art3d
    depth = [0]
    undo = []

    def patch(obj, name, new):
        undo.append((obj, name, obj.__dict__.get(name)))
        setattr(obj, name, new)

    def method(cls, name):
        f = getattr(cls, name)

        def call(self, *a, **kw):
            if depth[0]:
                return f(self, *a, **kw)
            depth[0] += 1
            try:
                e = bind(self, isinstance(self, Axes3D), name, a, kw)
                r = f(self, *a, **kw)
            finally:
                depth[0] -= 1
            e.result = r
            if e.kind == 'curve':
                e.lines = list(r)
            rec.append(e)
            return r
        patch(cls, name, call)

    def function(obj, name, event):
        f = getattr(obj, name)

        def call(*a, **kw):
            if depth[0]:
                return f(*a, **kw)
            depth[0] += 1
            try:
                r = f(*a, **kw)
            finally:
                depth[0] -= 1
            rec.append(event(r, *a, **kw))
            return r
        patch(obj, name, call)

    def lines(cls, third):
        class Lines(cls):
            def __init__(self, segments, *a, **kw):
                self.drawn = (segments, kw, third)
                super().__init__(segments, *a, **kw)
        return Lines
    patch(mpl.collections, 'LineCollection', lines(mpl.collections.LineCollection, False))
    patch(art3d, 'Line3DCollection', lines(art3d.Line3DCollection, True))
    for cls in (Axes3D, Axes):
        for n in ('scatter', 'plot', 'text', 'axvline', 'set_ylim', 'set_title', 'set_xlabel', 'set_ylabel',
                  'legend', 'add_collection', 'add_collection3d'):
            if n in cls.__dict__ or (cls is Axes and hasattr(Axes, n)):
                method(cls, n)
    function(plt, 'figure', lambda r, *a, **kw: NS(kind='figure', fig=r, ax=None))
    function(plt, 'colorbar', lambda r, mappable=None, cax=None, ax=None, **kw:
             NS(kind='colorbar', mappable=mappable, ax=ax))
    function(plt, 'close', lambda r, fig=None: NS(kind='close', fig=fig, ax=None))
    function(plt, 'show', lambda r, *a, **kw: NS(kind='show', ax=None, kw=kw))
    try:
        yield
    finally:
        for obj, name, old in reversed(undo):
            if old is None:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        plt.close('all')


@contextmanager
def installed(mods):
    old = {n: sys.modules.get(n) for n in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for n, m in old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
