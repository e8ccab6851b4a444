"""C12 predefined kernels: documented formulas, tightness."""
import math
from fractions import Fraction

from symx.session import harness

from . import ref
from .common import shape


def spectrum(S, npts=1, how=None):
    """A graph with an arbitrary lmax and arbitrary points of [0, lmax]."""
    W = shape(S, 'k2')
    G = S.graphs.Graph(W)
    how = how or S.choice('how', ['fourier', 'bounds'])
    if how == 'fourier':
        G.compute_fourier_basis()
    else:
        G.estimate_lmax(how)
    u = [S.real(f'u{i}', 0, 1) for i in range(npts)]
    return G, u, S.array([x * G.lmax for x in u])


def scal(S, f, x):
    """numpy function of one number"""
    return f(S.array([x]))[0]


def squares(v, i):
    return ref.tot(v[k, i] ** 2 for k in range(v.shape[0]))


@harness('C12', cfgs=[dict(kind=k) for k in ('scalar', 'list', 'array', 'default')])
def heat(S, kind):
    """exp(-tau x / lmax), arbitrary tau in [0, 20], lmax and spectrum point; unit norm if asked"""
    norm = S.flag('normalize')
    G, u, x = spectrum(S, how='fourier' if norm else None)
    t = [S.real('t', 0, 20), S.real('t1', 0, 20)]
    if kind == 'scalar':
        F, ts = S.filters.Heat(G, t[0], normalize=norm), t[:1]
    elif kind == 'list':
        F, ts = S.filters.Heat(G, scale=t, normalize=norm), t
    elif kind == 'array':
        F, ts = S.filters.Heat(G, scale=S.array(t), normalize=norm), t
    else:
        F, ts = S.filters.Heat(G, normalize=norm), [10]
    y = F.evaluate(x)
    S.same('size', tuple(y.shape), (len(ts), 1))
    for k, s in enumerate(ts):
        g = scal(S, S.np.exp, -s * u[0])
        if norm:
            z = F.evaluate(G.e)
            S.eq('unit norm', ref.tot(z[k, i] ** 2 for i in range(2)), 1)
            S.eq('shape', y[k, 0], g * z[k, 0])
        else:
            S.eq('formula', y[k, 0], g)
        S.le('positive', 0, y[k, 0])


@harness('C12', cfgs=[dict(kind=k) for k in ('scalar', 'both', 'times', 'speeds', 'default',
                                             'integer')])
def wave(S, kind):
    """cos(t arccos(1 - speed^2 x / (2 lmax))) for arbitrary speed in [0, 2), times (integers 0..5
    and arbitrary), bank sizes; Chebyshev polynomials for integer times"""
    G, u, x = spectrum(S)
    arccos = lambda v: scal(S, S.np.arccos, v)
    cos = lambda v: scal(S, S.np.cos, v)
    c, d = S.real('c', 0, Fraction(31, 16)), S.real('d', 0, Fraction(31, 16))
    t = S.real('t', 0, 8)
    W = S.filters.Wave
    if kind == 'scalar':
        F, p = W(G, time=t, speed=c), [(t, c)]
    elif kind == 'both':
        F, p = W(G, time=[t, 2], speed=[c, d]), [(t, c), (2, d)]
    elif kind == 'times':
        F, p = W(G, time=[t, 3.5], speed=c), [(t, c), (3.5, c)]
    elif kind == 'speeds':
        F, p = W(G, time=3, speed=[c, d]), [(3, c), (3, d)]
    elif kind == 'default':
        F, p = W(G), [(10, 1)]
    else:
        k = S.choice('k', [0, 1, 2, 3, 5])
        F, p = W(G, time=k, speed=c), []
        z = 1 - c * c * u[0] / 2
        T = [1, z]
        for _ in range(5):
            T.append(2 * z * T[-1] - T[-2])
        S.eq('polynomial', F.evaluate(x)[0], [T[k]])
    for i, (a, b) in enumerate(p):
        S.eq('formula', F.evaluate(x)[i, 0], cos(a * arccos(1 - b * b * u[0] / 2)))
    S.same('size', F.Nf, len(p) or 1)
    bad = S.real('bad', 2, 4)
    S.raises('speed', ValueError, lambda: W(G, speed=bad))
    S.raises('speeds', ValueError, lambda: W(G, time=[1, 2], speed=[c, bad]))
    S.raises('lengths', ValueError, lambda: W(G, time=[1, 2], speed=[1, 1, 1]))


@harness('C12', cfgs=[dict(name=s, sym=b) for s in ('Held', 'Papadakis', 'Simoncelli', 'Regular')
                      for b in (False, True)])
def two_filters(S, name, sym):
    """two-filter constructions on the spectrum scaled to [0, 2]: low-pass formula (default and
    arbitrary parameter), summed squares one"""
    G, u, x = spectrum(S)
    z = 2 * u[0]
    pi = S.np.pi
    sin = lambda v: scal(S, S.np.sin, v)
    cos = lambda v: scal(S, S.np.cos, v)
    C = getattr(S.filters, name)
    if name == 'Regular':
        d = S.choice('degree', [0, 1, 2, 3, 4]) if sym else 3
        F = C(G, degree=d) if sym else C(G)
        if d == 0:
            low = sin(pi / 4 * z)
        else:
            o = sin(pi / 2 * (z - 1))
            for _ in range(1, d):
                o = sin(pi / 2 * o)
            low = sin(pi / 4 * (1 + o))
    else:
        top = {'Held': 1, 'Simoncelli': 1, 'Papadakis': Fraction(6, 5)}[name]
        a = S.real('a', Fraction(1, 4), top) if sym else {'Held': 2. / 3, 'Simoncelli': 2. / 3,
                                                          'Papadakis': 0.75}[name]
        F = C(G, a=a) if sym else C(G)
        end = 2 * a if name != 'Papadakis' else a * 5 / 3
        if bool(z < a):
            low = 1
        elif bool(z >= end):
            low = 0
        elif name == 'Held':
            m = z / 8 / a
            low = sin(2 * pi * (-1 + 24 * m - 144 * m * m + 256 * m * m * m))
        elif name == 'Papadakis':
            low = ref.sqrt((1 - sin(3 * pi / (2 * a) * z)) / 2)
        else:
            low = cos(pi / 2 * scal(S, S.np.log, z / a) / S.np.log(2))
    S.same('size', F.Nf, 2)
    y = F.evaluate(x)
    S.eq('low-pass', y[0, 0], low, tol=1e-6)
    S.eq('Parseval', squares(y, 0), 1)
    S.le('high-pass non-negative', 0, y[1, 0])


@harness('C12', cfgs=[dict(nf=n) for n in (2, 3, 4, 6)])
def meyer(S, nf):
    """Meyer bank of 2..6 filters: tight on [0, lmax], default and given scales, wrong sizes
    rejected"""
    G, u, x = spectrum(S)
    F = S.filters.Meyer(G, Nf=nf) if nf != 6 or S.flag('given') else S.filters.Meyer(G)
    S.same('size', F.Nf, nf)
    y = F.evaluate(x)
    S.eq('Parseval', squares(y, 0), 1)
    sc = ref.grid(F.scales)
    S.eq('scales', S.array(sc), [Fraction(4, 3) * 2 ** (nf - 2 - i) / G.lmax
                                 for i in range(nf - 1)])
    v = lambda t: t ** 4 * (35 - 84 * t + 70 * t * t - 20 * t ** 3)
    pi = S.np.pi
    sin = lambda t: scal(S, S.np.sin, t)
    cos = lambda t: scal(S, S.np.cos, t)
    two3 = Fraction(2, 3)
    k = S.choice('k', list(range(nf)))
    z = Fraction(4, 3) * 2 ** (nf - 2 - max(k - 1, 0)) * u[0]
    if k == 0:
        want = 1 if bool(z < two3) else cos(pi / 2 * v(z / two3 - 1)) if bool(z < 2 * two3) else 0
    else:
        want = 0 if bool(z < two3) else sin(pi / 2 * v(z / two3 - 1)) if bool(z < 2 * two3) else \
            cos(pi / 2 * v(z / two3 / 2 - 1)) if bool(z < 4 * two3) else 0
    S.eq('formula', y[k, 0], want, tol=1e-6)
    S.raises('scales', ValueError, lambda: S.filters.Meyer(G, Nf=nf, scales=[1.0] * nf))
    S.raises('scales', ValueError, lambda: S.filters.Meyer(G, Nf=nf, scales=[1.0] * (nf - 2)))


@harness('C12', cfgs=[dict(nf=n) for n in (2, 3, 4, 6)])
def simple_tight(S, nf):
    """simple tight bank of 2..6 filters: tight on [0, lmax], sin^2 / cos^2 transitions"""
    G, u, x = spectrum(S)
    F = S.filters.SimpleTight(G, Nf=nf)
    S.same('size', F.Nf, nf)
    y = F.evaluate(x)
    S.eq('Parseval', squares(y, 0), 1)
    pi = S.np.pi
    h = lambda t: scal(S, S.np.sin, pi * t / 2) ** 2
    k = S.choice('k', list(range(nf)))
    z = Fraction(1, 2) * 2 ** (nf - 2 - max(k - 1, 0)) * u[0]
    q, one = Fraction(1, 4), 1
    if k == 0:
        want = 1 if bool(z < q) else ref.sqrt(1 - h(4 * z - 1) ** 2) if bool(z < 2 * q) else 0
    else:
        want = 0 if bool(z < q) else h(4 * z - 1) if bool(z < 2 * q) else \
            ref.sqrt(1 - h(2 * z - 1) ** 2) if bool(z < 4 * q) else 0
    S.eq('formula', y[k, 0], want, tol=1e-6)
    S.raises('scales', ValueError, lambda: S.filters.SimpleTight(G, Nf=nf, scales=[1.0] * nf))
    sc = ref.grid(F.scales)
    F2 = S.filters.SimpleTight(G, Nf=nf, scales=S.array(sc) if S.flag('array') else sc)
    S.eq('given scales', F2.evaluate(x), y)


@harness('C12', cfgs=[dict(nf=n) for n in (3, 4, 6, 8)], paths=600)
def half_cosine(S, nf):
    """half-cosine bank of 3..8 filters: translated half cosines, constant summed squares (9/8)"""
    G, u, x = spectrum(S)
    F = S.filters.HalfCosine(G, Nf=nf)
    S.same('size', F.Nf, nf)
    y = F.evaluate(x)
    S.eq('tight', squares(y, 0), Fraction(9, 8))
    k = S.choice('k', list(range(nf)))
    z = u[0] * (nf - 2) / 3 - Fraction(k - 2, 3)
    want = 0.5 - 0.5 * scal(S, S.np.cos, 2 * S.np.pi * z) if bool((z >= 0) & (z <= 1)) else 0
    S.eq('formula', y[k, 0], want)
    S.raises('too few', ValueError, lambda: S.filters.HalfCosine(G, Nf=S.choice('bad', [2, 1, 0])))


@harness('C12', cfgs=[dict(nf=n, ov=o) for n, o in ((2, 2), (3, 2), (4, 2), (6, 2), (6, 4),
                                                   (5, 1))])
def itersine(S, nf, ov):
    """itersine bank of 2..6 filters, overlap 1, 2, 4: iterated sine windows, tight for even
    overlaps"""
    G, u, x = spectrum(S)
    F = S.filters.Itersine(G, nf, ov) if (nf, ov) != (6, 2) else S.filters.Itersine(G)
    S.same('size', F.Nf, nf)
    y = F.evaluate(x)
    if ov % 2 == 0:
        S.eq('tight', squares(y, 0), 1)
    k = S.choice('k', list(range(nf)))
    pi = S.np.pi
    z = u[0] * (nf - ov + 1) / ov - Fraction(2 * (k + 1) - ov, 2 * ov)
    inside = bool((z >= Fraction(-1, 2)) & (z <= Fraction(1, 2)))
    c = scal(S, S.np.cos, pi * z)
    want = ref.sqrt(2 / ov) * scal(S, S.np.sin, pi / 2 * c * c) if inside else 0
    S.eq('formula', y[k, 0], want)


@harness('C12', cfgs=[dict(nf=n) for n in (2, 3, 6)])
def mexican_hat(S, nf):
    """x exp(-x) scaled to each scale and 1.2/e exp(-(x / 0.4 lmin)^4); default and arbitrary scales"""
    G, u, x = spectrum(S)
    norm = S.flag('normalize')
    lp = S.real('lp', 2, 40)
    given = S.flag('given')
    sc = [S.real(f's{i}', Fraction(1, 16), 16) for i in range(nf - 1)]
    F = S.filters.MexicanHat(G, Nf=nf, lpfactor=lp, normalize=norm,
                             **(dict(scales=sc) if given else {}))
    S.same('size', F.Nf, nf)
    if not given:
        sc = ref.grid(F.scales)
        S.eq('first scale', sc[0], 2 * lp / G.lmax if nf > 2 else sc[0])
        S.eq('last scale', sc[-1], (1 if nf > 2 else 2 * lp) / G.lmax)
    y = F.evaluate(x)
    exp = lambda v: scal(S, S.np.exp, v)
    S.eq('low-pass', y[0, 0], 1.2 * exp(-1.0) * exp(-(u[0] * lp / 0.4) ** 4))
    for k in range(1, nf):
        z = sc[k - 1] * x[0]
        S.eq('band-pass', y[k, 0], (ref.sqrt(sc[k - 1]) if norm else 1) * z * exp(-z))
    S.raises('scales', ValueError, lambda: S.filters.MexicanHat(G, Nf=nf, scales=[1.0] * nf))


@harness('C12', cfgs=[dict(nf=n) for n in (2, 3, 6)], paths=800)
def abspline(S, nf):
    """monic below 1, cubic between 1 and 2, inverse square above; exp(-x^4) low-pass of the same
    height"""
    G, u, x = spectrum(S)
    given = nf < 6 and S.flag('given')
    sc = [S.real(f's{i}', Fraction(1, 16), 16) for i in range(nf - 1)]
    lp = S.choice('lp', [20, 8])
    F = S.filters.Abspline(G, Nf=nf, lpfactor=lp, **(dict(scales=sc) if given else {}))
    S.same('size', F.Nf, nf)
    if not given:
        sc = ref.grid(F.scales)
    y = F.evaluate(x)
    top = 1 + 2 * math.sqrt(3) / 9
    S.eq('low-pass', y[0, 0], top * scal(S, S.np.exp, -(u[0] * lp / 0.6) ** 4), tol=1e-5)
    k = S.choice('k', list(range(1, nf)))
    z = sc[k - 1] * x[0]
    want = z * z if bool(z < 1) else -5 + 11 * z - 6 * z * z + z ** 3 if bool(z < 2) else \
        4 / (z * z)
    S.eq('band-pass', y[k, 0], want)


@harness('C12')
def expwin(S):
    """smooth window: 1/2 at the band limits, monotone logistic form in between, 0 and 1 outside"""
    G, u, x = spectrum(S)
    s = S.real('slope', Fraction(1, 4), 4)
    kind = S.choice('kind', ['low', 'high', 'band', 'none'])
    lo, hi = S.real('lo', 0, 1), S.real('hi', 0, 1)
    kw = dict(low=dict(band_max=hi), high=dict(band_min=lo, band_max=None),
              band=dict(band_min=lo, band_max=hi), none=dict(band_max=None))[kind]
    F = S.filters.Expwin(G, slope=s, **kw)
    exp = lambda v: scal(S, S.np.exp, v)

    def h(z):
        if bool(z <= 0):
            return 0
        if bool(z >= 1):
            return 1
        a, b = exp(-s / z), exp(-s / (1 - z))
        return a / (a + b)
    want = 1
    if kind in ('low', 'band'):
        want = want * h(Fraction(1, 2) - u[0] + hi)
    if kind in ('high', 'band'):
        want = want * h(Fraction(1, 2) + u[0] - lo)
    S.eq('formula', F.evaluate(x), [[want]])
    if kind == 'low':
        S.eq('half at the limit', F.evaluate(S.array([hi * G.lmax])), [[0.5]])
    if kind == 'high':
        S.eq('half at the limit', F.evaluate(S.array([lo * G.lmax])), [[0.5]])


@harness('C12')
def rectangular(S):
    """indicator of the band"""
    G, u, x = spectrum(S)
    kind = S.choice('kind', ['low', 'high', 'band', 'none', 'default'])
    lo, hi = S.real('lo', 0, 1), S.real('hi', 0, 1)
    S.assume(abs(u[0] - lo) > 1e-6)
    S.assume(abs(u[0] - hi) > 1e-6)
    S.assume(abs(u[0] - 0.2) > 1e-6)
    kw = dict(low=dict(band_max=hi), high=dict(band_min=lo, band_max=None),
              band=dict(band_min=lo, band_max=hi), none=dict(band_max=None), default={})[kind]
    F = S.filters.Rectangular(G, **kw)
    ok = True
    if kind in ('low', 'band', 'default'):
        ok = ok and bool(u[0] <= (hi if kind != 'default' else Fraction(1, 5)))
    if kind in ('high', 'band'):
        ok = ok and bool(u[0] >= lo)
    S.eq('indicator', F.evaluate(x), [[1.0 if ok else 0.0]])
