"""Symbolic scalars, path conditions and the solver interface.

A symbolic number (`Sym`) is a Laurent polynomial with rational coefficients over *atoms*.
Atoms are inputs (solver variables) and derived quantities with a defining constraint: square
and n-th roots (R**n -> p), inverses of polynomials (I*p = 1), absolute values, transcendental
applications (exp, log, sin, cos, arccos; congruence and basic facts as axioms), user kernels
(uninterpreted).  Arithmetic normalises; comparisons build z3 formulas; `bool()` of a symbolic
comparison forks the execution.  Nothing here samples values: a fork is decided by z3.
"""
import math
import time
from fractions import Fraction
from math import gcd, isqrt

from .z3imp import z3


class Unsupported(BaseException):
    """The encoding cannot represent this operation (never caught by the code under test)."""


class PathAbort(BaseException):
    """The current path is infeasible or out of budget."""


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c
    ROUND[0] = False


# ------------------------------------------------------------------ numbers

ROUND = [False]     # constants are rounded to floats after each operation
_snap_cache = {}


def num(x):
    """Concrete number -> int/Fraction. Floats denote the simple rational they print as."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, float):
        r = _snap_cache.get(x)
        if r is not None:
            return r
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('num(nan/inf)')
        if x == int(x):
            r = int(x)
        else:
            f = Fraction(x).limit_denominator(20000)
            r = f if abs(float(f) - x) <= 4.5e-16 * abs(x) else Fraction(x)
        if len(_snap_cache) > 200000:
            _snap_cache.clear()
        _snap_cache[x] = r
        return r
    if hasattr(x, 'item'):
        return num(x.item())
    raise Unsupported(f'num({type(x).__name__})')


def _c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


# ------------------------------------------------------------------ atoms

class Atom:
    __slots__ = ('id', 'name', 'kind', 'z', 'root', 'defn', 'lo', 'hi', 'bg', 'int', 'arg',
                 'deps', 'inp')

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind
        self.root = None    # (n, poly): atom**n -> poly
        self.defn = None    # inverse: poly
        self.lo = self.hi = None
        self.bg = None      # callable -> list of z3 constraints
        self.int = False
        self.arg = None
        self.deps = ()
        self.inp = False


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.interval = 0

    def as_dict(self):
        return dict(self.__dict__)


SLICES = {}


class Ctx:
    """State of one symbolic path."""

    def __init__(self, prefix=(), stats=None, timeout_ms=4000, max_branches=4000, seed=1):
        self.atoms = []
        self.keys = {}
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.pc = []            # z3 formulas
        self.pc_atoms = set()
        self.known = {}         # canonical comparison key -> bool
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.max_branches = max_branches
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', seed)
        self.in_solver = set()
        self.cons = []
        self.byatom = {}
        self.hard = False
        self.ax_done = set()
        self.many = False
        self.inputs = {}
        self.rng_counter = {}
        self.notes = []
        self.uf_apps = {}
        self.seed = seed

    # -- atoms
    def new_atom(self, key, kind, name=None, lo=None, hi=None, isint=False):
        a = self.keys.get(key)
        if a is not None:
            return a
        i = len(self.atoms)
        a = Atom(i, name or f'{kind}{i}', kind)
        a.lo, a.hi = lo, hi
        a.int = isint
        nm = f'{a.name}!{i}'
        a.z = z3.Int(nm) if isint else z3.Real(nm)
        self.atoms.append(a)
        self.keys[key] = a
        return a

    def input(self, name, lo=None, hi=None, isint=False, nonzero=False):
        a = self.new_atom(('in', name), 'in', name, lo, hi, isint)
        a.inp = True

        def bg(a=a):
            r = []
            if a.lo is not None:
                r.append(a.z >= zval(a.lo))
            if a.hi is not None:
                r.append(a.z <= zval(a.hi))
            return r
        a.bg = bg
        self.inputs[name] = a
        self.ensure([a.id])
        return Sym({((a.id, 1),): 1}, isint)

    # -- solver plumbing
    def closure(self, ids):
        out, todo = set(), list(ids)
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.add(i)
            todo.extend(self.atoms[i].deps)
        return out

    def axioms(self, ids, now=()):
        """Congruence and monotonicity between transcendental/uninterpreted applications."""
        groups = {}
        for i in ids:
            a = self.atoms[i]
            if a.kind in ('exp', 'log', 'uf', 'sin', 'cos', 'arccos', 'inv', 'root', 'abs'):
                if a.kind in ('inv', 'root', 'abs'):
                    continue
                groups.setdefault((a.kind, a.arg[0] if a.kind == 'uf' else None), []).append(a)
        res = []
        for (kind, _), g in groups.items():
            g = sorted(g, key=lambda a: a.id)
            if len(g) > 12:
                g = [a for a in g if a.id in now]
                if len(g) > 12:
                    continue
            for x in range(len(g)):
                for y in range(x + 1, len(g)):
                    a, b = g[x], g[y]
                    pa = a.arg[1] if kind == 'uf' else a.arg
                    pb = b.arg[1] if kind == 'uf' else b.arg
                    d, _m = clear(psub(pa, pb))
                    key = (a.id, b.id)
                    if key in self.ax_done:
                        continue
                    self.ax_done.add(key)
                    ab = {a.id, b.id} | set(patoms(d)) | set(patoms(pa)) | set(patoms(pb))
                    dz = zpoly(d)
                    raw = zpoly_raw(psub(pa, pb))
                    if kind in ('exp', 'sin', 'cos'):
                        # arguments which only differ by rounding
                        gap = max(abs(v) for v in interval(psub(pa, pb)))
                        if 0 < gap < 1e-6:
                            t = z3.RealVal(str(Fraction(gap * 1.01)))
                            ta, tb = (t * a.z, t * b.z) if kind == 'exp' else (t, t)
                            res.append((z3.And(a.z - b.z <= ta, b.z - a.z <= tb), ab))
                    if kind in ('exp', 'log'):
                        res.append(((raw < 0) == (a.z < b.z), ab))
                        res.append(((dz == 0) == (a.z == b.z), ab))
                    elif kind == 'arccos':
                        res.append(((raw < 0) == (a.z > b.z), ab))
                    else:
                        res.append((z3.Implies(dz == 0, a.z == b.z), ab))
        return res

    def add(self, f, ids):
        self.solver.add(f)
        k = len(self.cons)
        ids = frozenset(ids)
        self.cons.append((f, ids))
        for i in ids:
            self.byatom.setdefault(i, []).append(k)

    def ensure(self, ids):
        now = self.closure(ids)
        new = now - self.in_solver
        if not new:
            if self.many:
                for f, s in self.axioms(now, now):
                    self.add(f, s)
            return
        allids = self.in_solver | new
        for i in sorted(new):
            self.in_solver.add(i)
            b = self.atoms[i].bg
            if b is not None:
                s = {i, *self.atoms[i].deps}
                for f in b():
                    self.add(f, s)
        if any(self.atoms[i].kind in ('exp', 'log', 'uf', 'sin', 'cos', 'arccos') for i in new):
            self.many = sum(self.atoms[i].kind in ('exp', 'log', 'uf', 'sin', 'cos', 'arccos')
                            for i in allids) > 12
            for f, s in self.axioms(allids, now):
                self.add(f, s)

    def slice(self, ids):
        """Constraints connected to these atoms through shared atoms."""
        seen, cons, todo = set(), set(), list(ids)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            for k in self.byatom.get(i, ()):
                if k not in cons:
                    cons.add(k)
                    todo.extend(self.cons[k][1])
        return cons, seen

    def check(self, *fs, timeout=None, atoms=None):
        """Satisfiability of the path condition with fs. Given the atoms of fs, hard queries go to
        a solver holding only the constraints connected to them (the others are satisfiable on
        their own: they are on the path)."""
        t = time.time()
        self.stats.queries += 1
        try:
            r = z3.unknown
            lim = timeout or self.timeout_ms
            if not (self.hard and atoms is not None):
                fast = lim if atoms is None else min(lim, 300)
                self.solver.set('timeout', fast)
                self.last = self.solver
                r = self.solver.check(*fs)
                if r != z3.unknown:
                    return r
            if atoms is not None:
                self.hard = True
                r = self.check_slice(fs, atoms, lim)
                if r == z3.unknown and lim > 300:
                    self.solver.set('timeout', lim)
                    self.last = self.solver
                    r = self.solver.check(*fs)
            else:
                self.last = s = self.fresh_solver(fs)
                r = s.check()
            return r
        finally:
            self.stats.solver_s += time.time() - t
            if r == z3.unknown:
                self.stats.unknown += 1

    def check_slice(self, fs, atoms, lim):
        cons, ids = self.slice(atoms)
        use = [self.cons[k][0] for k in sorted(cons)] + list(fs)
        key = (tuple(sorted(f.get_id() for f in use)), lim)
        hit = SLICES.get(key)
        if hit is not None:
            self.last = hit[1]
            return hit[0]
        r = z3.unknown
        ints = any(self.atoms[i].int for i in ids)
        for mk_ in ([z3.Solver] if ints else [lambda: z3.SolverFor('QF_NRA'), z3.Solver]):
            s = mk_()
            s.set('timeout', lim)
            s.add(*use)
            r = s.check()
            if r != z3.unknown:
                break
        self.last = s
        SLICES[key] = (r, s, use)
        return r

    def fresh_solver(self, fs, timeout=None):
        s = z3.SolverFor('QF_NRA') if not any(a.int for a in self.atoms) else z3.Solver()
        s.set('timeout', timeout or self.timeout_ms)
        for f in self.solver.assertions():
            s.add(f)
        for f in fs:
            s.add(f)
        return s

    def assume(self, b):
        """Add a constraint to the path (aborts the path when unsatisfiable)."""
        if b is True or b is False:
            if not b:
                raise PathAbort('assumption false')
            return
        if not isinstance(b, SBool):
            if not bool(b):
                raise PathAbort('assumption false')
            return
        self.ensure(b.atoms)
        self.add_pc(b.z, b)
        if len(self.trace) >= len(self.prefix):
            if self.check(atoms=b.atoms) == z3.unsat:
                raise PathAbort('assumption unsat')

    def add_pc(self, f, b=None, val=True, ids=()):
        self.add(f, b.atoms if b is not None else ids)
        self.pc.append(f)
        if b is not None:
            self.pc_atoms |= b.atoms
            if b.key is not None:
                self.known[b.key] = val

    def branch(self, b):
        """Decide a symbolic boolean on this path; forks when both sides are feasible."""
        if b.key is not None and b.key in self.known:
            return self.known[b.key]
        self.stats.branches += 1
        if len(self.trace) >= self.max_branches:
            raise PathAbort('branch budget')
        self.ensure(b.atoms)
        n = len(self.trace)
        if n < len(self.prefix):
            v = self.prefix[n]
            if not isinstance(v, bool):
                raise Unsupported('non-deterministic re-execution')
        else:
            rt = self.check(b.z, atoms=b.atoms)
            if rt == z3.unsat:
                v = False
            else:
                rf = self.check(z3.Not(b.z), atoms=b.atoms)
                v = True
                if rf != z3.unsat:
                    self.stats.forks += 1
                    self.pending.append(self.trace + [False])
        self.trace.append(v)
        self.add_pc(b.z if v else z3.Not(b.z), b, v)
        return v

    def choose(self, n):
        """Non-deterministic choice among range(n)."""
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            v = v[1]
        else:
            v = 0
            for j in range(1, n):
                self.pending.append(self.trace + [('c', j)])
        self.trace.append(('c', v))
        return v


def zval(c):
    c = num(c)
    if isinstance(c, Fraction):
        return z3.Q(c.numerator, c.denominator)
    return z3.RealVal(c)


# ------------------------------------------------------------------ polynomials
# dict: monomial (tuple of (atom id, exponent), sorted) -> int/Fraction

ONE = ()


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = _c(v + c)
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def psub(p, q):
    return padd(p, pneg(q))


def pscale(p, k):
    if k == 0:
        return {}
    return {m: _c(c * k) for m, c in p.items()}


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items()))


MAX_TERMS = 60000


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > MAX_TERMS * 20:
        raise Unsupported('polynomial too large')
    atoms = CTX.atoms
    r = {}
    again = False
    for m, c in p.items():
        for n, d in q.items():
            mm = _mmul(m, n)
            v = r.get(mm)
            cd = c * d
            if v is None:
                r[mm] = _c(cd)
            else:
                v = _c(v + cd)
                if v == 0:
                    del r[mm]
                else:
                    r[mm] = v
    return preduce(r)


def preduce(r):
    atoms = CTX.atoms
    bad = None
    for m in r:
        for a, e in m:
            rt = atoms[a].root
            if rt is not None and not (0 <= e < rt[0]):
                bad = True
                break
        if bad:
            break
    if not bad:
        return r
    out = {}
    for m, c in r.items():
        hit = None
        for a, e in m:
            rt = atoms[a].root
            if rt is not None and not (0 <= e < rt[0]):
                hit = (a, e, rt)
                break
        if hit is None:
            out = padd(out, {m: c})
            continue
        a, e, (n, p) = hit
        q, rem = divmod(e, n)
        base = tuple(x for x in m if x[0] != a)
        if rem:
            base = tuple(sorted(base + ((a, rem),)))
        f = ppow(p, q) if q >= 0 else ppow(pinv(p), -q)
        out = padd(out, pmul({base: c}, f))
    return out


def ppow(p, k):
    if k == 0:
        return {ONE: 1}
    r = None
    b = p
    while k:
        if k & 1:
            r = b if r is None else pmul(r, b)
        k >>= 1
        if k:
            b = pmul(b, b)
    return r


def pkey(p):
    return frozenset(p.items())


def pconst(p):
    """Constant value or None."""
    if not p:
        return 0
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def patoms(p):
    return {a for m in p for a, _ in m}


def leading(p):
    m = max(p)
    return m, p[m]


def content(p):
    """Positive rational gcd of the coefficients."""
    ng, dl = 0, 1
    for c in p.values():
        if isinstance(c, Fraction):
            ng = gcd(ng, c.numerator)
            dl = dl * c.denominator // gcd(dl, c.denominator)
        else:
            ng = gcd(ng, c)
    return _c(Fraction(abs(ng), dl)) if ng else 1


def common_mono(p):
    """Monomial gcd (may have negative exponents: exact factor extraction)."""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(g):
            e = min(g[a], d.get(a, 0))
            if e == 0:
                del g[a]
            else:
                g[a] = e
        for a, e in d.items():
            if e < 0 and a not in g:
                g[a] = e
            elif e < 0:
                g[a] = min(g[a], e)
        if not g:
            break
    return tuple(sorted((a, e) for a, e in g.items() if e))


def minv(m):
    return tuple((a, -e) for a, e in m)


def pinv(p):
    if not p:
        raise ZeroDivisionError
    c = CTX
    if len(p) == 1:
        (m, k), = p.items()
        return preduce({minv(m): _c(Fraction(1, 1) / k)})
    cm = common_mono(p)
    k = content(p)
    lm, lc = leading(p)
    if lc < 0:
        k = -k
    q = {_mmul(m, minv(cm)): _c(Fraction(v) / k) for m, v in p.items()}
    a = c.new_atom(('inv', pkey(q)), 'inv')
    if a.defn is None:
        a.defn = q
        a.arg = q
        a.deps = tuple(patoms(q))
        lo, hi = interval(q)
        if lo > 0:
            a.lo, a.hi = (0 if hi == math.inf else 1 / hi * (1 - 1e-12)), 1 / lo * (1 + 1e-12)
        elif hi < 0:
            a.lo, a.hi = 1 / hi * (1 + 1e-12), (0 if lo == -math.inf else 1 / lo * (1 - 1e-12))

        def bg(a=a, q=q):
            d, mult = clear(q)
            f = zpoly_raw(q)
            return [a.z * f == 1]
        a.bg = bg
    return preduce({_mmul(((a.id, 1),), minv(cm)): _c(Fraction(1) / k)})


def clear(p):
    """Multiply out inverses. Returns (polynomial without inverses, [(factor poly, power)])."""
    mult = []
    for _ in range(50):
        negs = {}
        invs = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
                elif CTX.atoms[a].defn is not None:
                    invs[a] = max(invs.get(a, 0), e)
        if not negs and not invs:
            return p, mult
        if negs:
            mm = tuple(sorted(negs.items()))
            # exponents only grow up to what cancels the negative ones
            p = pmul(p, {mm: 1})
            for a, e in negs.items():
                mult.append(({((a, 1),): 1}, e))
            continue
        # clear the most recently created inverse first (its definition may use earlier ones)
        a = max(invs)
        k = invs[a]
        q = CTX.atoms[a].defn
        groups = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
        r = {}
        for e, g in groups.items():
            r = padd(r, pmul(g, ppow(q, k - e)))
        p = r
        mult.append((q, k))
    raise Unsupported('clear: too deep')


def interval(p):
    lo = hi = 0.0
    for m, c in p.items():
        l, h = 1.0, 1.0
        for a, e in m:
            at = CTX.atoms[a]
            al = -math.inf if at.lo is None else float(at.lo)
            ah = math.inf if at.hi is None else float(at.hi)
            if e < 0:
                if al > 0 or ah < 0:
                    al, ah = (0.0 if ah == math.inf else 1 / ah), 1 / al
                    if al > ah:
                        al, ah = ah, al
                elif al == 0:
                    al, ah = (0.0 if ah == math.inf else 1 / ah), math.inf
                else:
                    al, ah = -math.inf, math.inf
                e = -e
            if e > 1:
                if e % 2 == 0:
                    if al >= 0:
                        al, ah = al ** e, ah ** e
                    elif ah <= 0:
                        al, ah = ah ** e, al ** e
                    else:
                        al, ah = 0.0, max(al ** e, ah ** e)
                else:
                    al, ah = al ** e, ah ** e
            c4 = [_im(l, al), _im(l, ah), _im(h, al), _im(h, ah)]
            l, h = min(c4), max(c4)
        c = float(c)
        if c >= 0:
            l, h = _im(c, l), _im(c, h)
        else:
            l, h = _im(c, h), _im(c, l)
        lo += l
        hi += h
    return lo, hi


def _im(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def zpoly_raw(p):
    """z3 term; inverse atoms kept as variables, negative exponents as divisions."""
    terms = []
    for m, c in p.items():
        fs = []
        for a, e in m:
            z = CTX.atoms[a].z
            if z.sort() == z3.IntSort():
                z = z3.ToReal(z)
            if e > 0:
                fs.extend([z] * e)
            else:
                fs.extend([1 / z] * (-e))
        if c != 1 or not fs:
            fs.insert(0, zval(c))
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


zpoly = zpoly_raw


# ------------------------------------------------------------------ booleans

class SBool:
    __slots__ = ('z', 'atoms', 'key')
    __array_priority__ = 10000

    def __init__(self, z, atoms, key=None):
        self.z = z
        self.atoms = set(atoms)
        self.key = key

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.And(self.z, o.z), self.atoms | o.atoms)
        return self if o else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.Or(self.z, o.z), self.atoms | o.atoms)
        return True if o else self
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.Xor(self.z, o.z), self.atoms | o.atoms)
        return ~self if o else self
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.z), self.atoms)

    def __repr__(self):
        return f'SBool({self.z})'

    # number context: decide the branch
    def _n(self):
        return int(bool(self))

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return id(self)

    def __int__(self):
        return self._n()
    __index__ = __int__

    def __float__(self):
        return float(self._n())


def implies(a, b):
    if a is True:
        return b
    if a is False:
        return True
    if b is True:
        return True
    if b is False:
        return ~a
    return SBool(z3.Implies(a.z, b.z), a.atoms | b.atoms)


def s_and(*xs):
    r = True
    for x in xs:
        if isinstance(r, SBool) or isinstance(x, SBool):
            r = x & r if isinstance(x, SBool) else (r & bool(x))
        else:
            r = bool(r) and bool(x)
    return r


def s_or(*xs):
    r = False
    for x in xs:
        if isinstance(r, SBool) or isinstance(x, SBool):
            r = x | r if isinstance(x, SBool) else (r | bool(x))
        else:
            r = bool(r) or bool(x)
    return r


def s_not(x):
    return ~x if isinstance(x, SBool) else (not x)


_NEG = {'>': '<', '<': '>', '>=': '<=', '<=': '>=', '==': '==', '!=': '!='}


def _log_ratio(q):
    """For q = a prod exp(s) - b prod exp(t) with a, b > 0 the exponent which has its sign."""
    if len(q) != 2:
        return None
    (m1, c1), (m2, c2) = q.items()
    if (c1 > 0) == (c2 > 0) or any(CTX.atoms[a].kind != 'exp' for m in (m1, m2) for a, _ in m):
        return None
    if c1 < 0:
        (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
    r = P(_c(Fraction(math.log(Fraction(c1) / Fraction(-c2)))))
    for m, s in ((m1, 1), (m2, -1)):
        for a, k in m:
            r = padd(r, pscale(CTX.atoms[a].arg, s * k))
    return r


def cmp0(p, op):
    """p op 0 -> bool or SBool."""
    k = pconst(p)
    if k is not None:
        return {'>': k > 0, '<': k < 0, '>=': k >= 0, '<=': k <= 0, '==': k == 0,
                '!=': k != 0}[op]
    st = CTX.stats
    lo, hi = interval(p)
    if lo > 1e-300 or hi < -1e-300:
        tiny = 1e-12 * sum(abs(float(c)) for c in p.values())
        if lo > tiny or hi < -tiny:
            st.interval += 1
            s = 1 if lo > 0 else -1
            return {'>': s > 0, '<': s < 0, '>=': s > 0, '<=': s < 0, '==': False,
                    '!=': True}[op]
    if lo >= 0 and op == '<' and all(c > 0 for c in p.values()):
        return False
    if lo >= 0 and op == '>=' and all(c > 0 for c in p.values()):
        return True
    if hi <= 0 and op == '>' and all(c < 0 for c in p.values()):
        return False
    if hi <= 0 and op == '<=' and all(c < 0 for c in p.values()):
        return True
    if only_const_atoms(p):
        v = evalf_const(p)
        if abs(v) > 1e-10 * (1 + sum(abs(float(c)) for c in p.values())):
            return {'>': v > 0, '<': v < 0, '>=': v >= 0, '<=': v <= 0, '==': False,
                    '!=': True}[op]
        q, _ = clear(p)
        if not q or abs(v) < 1e-13 * (1 + sum(abs(float(c)) for c in p.values())):
            return {'>': False, '<': False, '>=': True, '<=': True, '==': True,
                    '!=': False}[op]
    q, mult = clear(p)
    if op in ('>', '<', '>=', '<='):
        more = mult
        for _ in range(5):
            for f, e in more:
                if e % 2:
                    s = sign(f)
                    if s == 0:
                        q = pmul(q, f)
                    elif s < 0:
                        q = pneg(q)
            q, more = clear(q)
            if not more:
                break
        else:
            raise Unsupported('ineq clear')
    if mult:
        k = pconst(q)
        if k is not None:
            return {'>': k > 0, '<': k < 0, '>=': k >= 0, '<=': k <= 0, '==': k == 0,
                    '!=': k != 0}[op]
    c = content(q)
    if c != 1:
        q = {m: _c(v / c if isinstance(v, Fraction) or isinstance(c, Fraction)
                   else Fraction(v, c)) for m, v in q.items()}
    # drop monomial factors with a known sign
    cm = common_mono(q)
    if cm:
        drop, s, ok = [], 1, True
        for a, e in cm:
            sg = sign({((a, 1),): 1})
            if sg != 0:
                drop.append((a, e))
                if sg < 0 and e % 2:
                    s = -s
        if drop:
            q = {_mmul(m, minv(tuple(drop))): v * s for m, v in q.items()}
            k = pconst(q)
            if k is not None:
                return {'>': k > 0, '<': k < 0, '>=': k >= 0, '<=': k <= 0, '==': k == 0,
                        '!=': k != 0}[op]
    e = _log_ratio(q)
    if e is not None:
        return cmp0(e, op)
    lm, lc = leading(q)
    if lc < 0:
        q = pneg(q)
        op = _NEG[op]
    neg = False
    if op == '!=':
        op, neg = '==', True
    elif op == '<':
        op, neg = '>=', True
    elif op == '<=':
        op, neg = '>', True
    key = (op, pkey(q))
    known = CTX.known.get(key)
    if known is None and op == '>' and CTX.known.get(('==', key[1])):
        known = False
    if known is None and op == '>=' and CTX.known.get(('==', key[1])):
        known = True
    if known is None and op == '>=' and CTX.known.get(('>', key[1])):
        known = True
    if known is None and op == '==' and CTX.known.get(('>', key[1])):
        known = False
    if known is not None:
        return (not known) if neg else known
    t = zpoly(q)
    z = t == 0 if op == '==' else (t > 0 if op == '>' else t >= 0)
    if neg:
        return SBool(z3.Not(z), patoms(q), None if False else ('not',) + key) \
            if False else _Neg(z, patoms(q), key)
    return SBool(z, patoms(q), key)


class _Neg(SBool):
    """Negated atomic comparison: shares the decision of its positive form."""
    __slots__ = ('pos',)

    def __init__(self, z, atoms, key):
        super().__init__(z3.Not(z), atoms, None)
        self.pos = SBool(z, atoms, key)

    def __bool__(self):
        return not CTX.branch(self.pos)

    def __invert__(self):
        return self.pos


_sign_cache_attr = '_signs'


def sign(p):
    """+1/-1 when the sign of p is known on this path (intervals, then z3), else 0."""
    lo, hi = interval(p)
    if lo > 1e-300:
        return 1
    if hi < -1e-300:
        return -1
    k = (len(CTX.pc), pkey(p))
    cache = CTX.__dict__.setdefault('_signs', {})
    if k in cache:
        return cache[k]
    q, mult = clear(p)
    if mult:
        r = 0
    else:
        CTX.ensure(patoms(q))
        t = zpoly(q)
        if CTX.check(t <= 0, atoms=patoms(q)) == z3.unsat:
            r = 1
        elif CTX.check(t >= 0, atoms=patoms(q)) == z3.unsat:
            r = -1
        else:
            r = 0
    cache[k] = r
    return r


# ------------------------------------------------------------------ numeric evaluation

CONST_KINDS = ('pi', 'root', 'exp', 'log', 'sin', 'cos', 'arccos', 'inv', 'abs')


def only_const_atoms(p):
    return all(is_const_atom(a) for a in patoms(p))


def is_const_atom(i):
    a = CTX.atoms[i]
    if a.kind == 'pi':
        return True
    if a.kind in ('in', 'uf', 'fresh'):
        return False
    return all(is_const_atom(j) for j in a.deps)


def evalf_const(p):
    return evalf(p, {})


def bounds(p):
    """Interval of p with constant atoms (roots of numbers, pi...) replaced by their values, so
    that they cancel against floats, plus the error of doing so."""
    r, big = {}, {}
    known = {}
    for m, c in p.items():
        v, rest = None, m
        if any(is_const_atom(a) for a, _ in m):
            v = 1.0
            for a, e in m:
                if is_const_atom(a):
                    if a not in known:
                        known[a] = atomf(a, {})
                    v *= known[a] ** e
            rest = tuple((a, e) for a, e in m if a not in known)
            c = Fraction(c) * Fraction(v)
            big[rest] = big.get(rest, 0) + abs(c)
        r[rest] = r.get(rest, 0) + c
    lo, hi = interval({m: c for m, c in r.items() if c})
    err = 0.0
    for m, c in big.items():
        l, h = interval({m: c})
        err += 1e-13 * max(abs(l), abs(h))
    return lo - err, hi + err


class NoValue(Exception):
    pass


def evalf(p, env):
    """Float value of p. env: atom id -> float for inputs (memoised for derived atoms)."""
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            t *= atomf(a, env) ** e
        s += t
    return s


def atomf(i, env):
    v = env.get(i)
    if v is not None:
        return v
    a = CTX.atoms[i]
    if a.kind == 'pi':
        v = math.pi
    elif a.kind == 'root':
        n, p = a.root
        v = max(evalf(p, env), 0.0) ** (1.0 / n)
    elif a.kind == 'inv':
        v = 1.0 / evalf(a.defn, env)
    elif a.kind == 'abs':
        v = abs(evalf(a.arg, env))
    elif a.kind == 'exp':
        v = math.exp(evalf(a.arg, env))
    elif a.kind == 'log':
        v = math.log(evalf(a.arg, env))
    elif a.kind == 'sin':
        v = math.sin(evalf(a.arg, env))
    elif a.kind == 'cos':
        v = math.cos(evalf(a.arg, env))
    elif a.kind == 'arccos':
        v = math.acos(min(1.0, max(-1.0, evalf(a.arg, env))))
    elif a.kind == 'ext':
        v = (max if a.arg[0] else min)(evalf(p, env) for p in a.arg[1])
    elif a.kind == 'floor':
        v = float(math.floor(evalf(a.arg, env) + 1e-12))
    elif a.kind == 'uf' and a.arg[0] in KERNELS:
        v = KERNELS[a.arg[0]](evalf(a.arg[1], env))
    else:
        raise NoValue(a.name)
    env[i] = v
    return v


KERNELS = {}


# ------------------------------------------------------------------ Sym

def P(x):
    """Anything numeric -> polynomial dict."""
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, SBool):
        return {ONE: 1} if bool(x) else {}
    k = num(x)
    return {ONE: k} if k != 0 else {}


def _special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def mk(p, isint=False):
    """Polynomial -> Sym, or a plain number when constant."""
    k = pconst(p)
    if k is not None:
        if isinstance(k, Fraction):
            return Sym(p, False) if KEEP and not ROUND[0] else float(k)
        return (k if isint else float(k)) if abs(k) < 2 ** 53 else Sym(p, isint)
    if ROUND[0] and only_const_atoms(p):
        return evalf_const(p)
    return Sym(p, isint)


KEEP = True  # keep exact rational constants as Sym


class Sym:
    __slots__ = ('p', 'isint')
    __array_priority__ = 10000

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    # ---- arithmetic
    def _bin(self, o, f, r=False):
        o = _scalar(o)
        if o is NotImplemented:
            return NotImplemented
        return f(o, self) if r else f(self, o)

    def __add__(self, o):
        return self._bin(o, s_add)

    def __radd__(self, o):
        return self._bin(o, s_add, True)

    def __sub__(self, o):
        return self._bin(o, s_sub)

    def __rsub__(self, o):
        return self._bin(o, s_sub, True)

    def __mul__(self, o):
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        return self._bin(o, s_mul, True)

    def __truediv__(self, o):
        return self._bin(o, s_div)

    def __rtruediv__(self, o):
        return self._bin(o, s_div, True)

    def __floordiv__(self, o):
        return self._bin(o, s_floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, s_floordiv, True)

    def __mod__(self, o):
        return self._bin(o, s_mod)

    def __rmod__(self, o):
        return self._bin(o, s_mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return self._bin(o, s_pow)

    def __rpow__(self, o):
        return self._bin(o, s_pow, True)

    def __neg__(self):
        return Sym(pneg(self.p), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    # ---- comparison
    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def _cmp(self, o, op):
        o = _scalar(o)
        if o is NotImplemented:
            return NotImplemented
        return s_cmp(self, o, op)

    def __hash__(self):
        k = pconst(self.p)
        if k is not None:
            return hash(k)
        return hash(pkey(self.p))

    def __bool__(self):
        return bool(s_cmp(self, 0, '!='))

    # ---- conversions
    def __float__(self):
        if only_const_atoms(self.p):
            k = pconst(self.p)
            return float(k) if k is not None else evalf_const(self.p)
        raise Unsupported('float(symbolic)')

    def __int__(self):
        return concretize_int(s_trunc(self))

    def __index__(self):
        if not self.isint:
            k = pconst(self.p)
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __round__(self, n=None):
        return s_round(self, n)

    def __trunc__(self):
        return s_trunc(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return -s_floor(-self)

    def __complex__(self):
        return complex(float(self))

    def is_integer(self):
        return bool(s_cmp(self, s_floor(self), '=='))

    # ---- numpy-scalar like interface
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self
    conj = conjugate

    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def cos(self):
        return s_cos(self)

    def sin(self):
        return s_sin(self)

    def arccos(self):
        return s_arccos(self)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('int64' if self.isint else 'float64')

    def astype(self, dt, *a, **k):
        import numpy as np
        dt = np.dtype(dt)
        if dt.kind in 'iu':
            return s_trunc(self)
        if dt.kind == 'b':
            return self != 0
        return Sym(self.p, False)

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def squeeze(self, *a, **k):
        return self

    def flatten(self, *a, **k):
        from .arr import sarray
        return sarray([self])
    ravel = flatten

    def reshape(self, *shape):
        from .arr import sarray
        return sarray([self]).reshape(*shape)

    def dot(self, o):
        return self * o

    def tolist(self):
        return self

    def toarray(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, tuple) and k == () or k is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')

    def __iter__(self):
        raise TypeError("'numpy.float64' object is not iterable")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import do_ufunc
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import do_function
        return do_function(func, types, args, kwargs)

    def __format__(self, spec):
        try:
            return format(float(self), spec)
        except Unsupported:
            return '<sym>'

    def __repr__(self):
        return show(self.p)

    __str__ = __repr__

    def __reduce__(self):
        raise Unsupported('pickle')


def show(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        s = '*'.join(f'{CTX.atoms[a].name}' + (f'^{e}' if e != 1 else '') for a, e in m)
        out.append(f'{c}' + ('*' + s if s else ''))
        if len(out) > 12:
            out.append('...')
            break
    return ' + '.join(out)


def _scalar(o):
    if isinstance(o, (Sym, int, float, Fraction)):
        return o
    if isinstance(o, SBool):
        return o._n()
    import numpy as np
    if isinstance(o, np.generic):
        if o.dtype.kind in 'biuf':
            return o.item()
        if o.dtype.kind == 'c':
            raise Unsupported('complex')
        return NotImplemented
    if isinstance(o, complex):
        if o.imag == 0:
            return o.real
        raise Unsupported('complex')
    if o is None or isinstance(o, (str, bytes, tuple, dict, set)):
        return NotImplemented
    if isinstance(o, np.ndarray):
        return NotImplemented
    return NotImplemented


def _isint(x):
    return x.isint if isinstance(x, Sym) else isinstance(x, int)


def s_add(a, b):
    if _special(a) or _special(b):
        return (a if _special(a) else 0.0) + (b if _special(b) else 0.0)
    return mk(padd(P(a), P(b)), _isint(a) and _isint(b))


def s_sub(a, b):
    if _special(a) or _special(b):
        return (a if _special(a) else 0.0) - (b if _special(b) else 0.0)
    return mk(psub(P(a), P(b)), _isint(a) and _isint(b))


def s_mul(a, b):
    if _special(a) or _special(b):
        if _special(a) and _special(b):
            return a * b
        sp, o = (a, b) if _special(a) else (b, a)
        if sp != sp:
            return sp
        if bool(s_cmp(o, 0, '>')):
            return sp
        if bool(s_cmp(o, 0, '<')):
            return -sp
        return math.nan
    return mk(pmul(P(a), P(b)), _isint(a) and _isint(b))


def s_div(a, b):
    """numpy float division semantics."""
    if _special(b):
        if b != b or _special(a):
            return math.nan
        return 0.0
    z = s_cmp(b, 0, '==')
    if bool(z):
        if _special(a):
            return a
        if bool(s_cmp(a, 0, '==')):
            return math.nan
        return math.inf if bool(s_cmp(a, 0, '>')) else -math.inf
    if _special(a):
        if a != a:
            return a
        return a if bool(s_cmp(b, 0, '>')) else -a
    pa, pb = P(a), P(b)
    if len(pb) > 1 and len(pa) > 1:
        # exact multiples cancel
        q = _ratio(pa, pb)
        if q is not None:
            return mk({ONE: q})
    if pa and len(pb) > 1:
        q = pdiv_exact(pa, pb)
        if q is not None:
            return mk(q)
    return mk(pmul(pa, pinv(pb)), False)


def _ratio(p, q):
    if len(p) != len(q):
        return None
    r = None
    for m, c in p.items():
        d = q.get(m)
        if d is None:
            return None
        t = Fraction(c) / d
        if r is None:
            r = t
        elif r != t:
            return None
    return _c(r)


def pdiv_exact(p, q):
    """Exact polynomial division p/q (no roots/negative powers), or None."""
    at = CTX.atoms
    if len(q) > 40 or len(p) > 400 or len(p) < len(q):
        return None
    for d in (p, q):
        for m in d:
            for a, e in m:
                if e < 0 or at[a].root is not None or at[a].defn is not None:
                    return None
    order = sorted(patoms(p) | patoms(q))

    def key(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in order)
    lq = max(q, key=key)
    lk = key(lq)
    r, out = dict(p), {}
    for _ in range(len(p) * 4 + 10):
        if not r:
            return out
        lr = max(r, key=key)
        e = [x - y for x, y in zip(key(lr), lk)]
        if min(e) < 0:
            return None
        m = tuple((a, k) for a, k in zip(order, e) if k)
        c = _c(Fraction(r[lr]) / q[lq])
        out[m] = c
        r = psub(r, pmul({m: c}, q))
    return None


def s_pow(a, b):
    if _special(a) or _special(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return float(a) ** float(b)
        raise Unsupported('pow with nan/inf')
    kb = pconst(P(b)) if isinstance(b, Sym) else num(b)
    if kb is None:
        # a ** symbolic
        return s_exp(s_mul(b, s_log(a)))
    if isinstance(kb, int):
        if kb >= 0:
            ka = pconst(P(a))
            if kb > 64 and ka is None:
                raise Unsupported('large power')
            return mk(ppow(P(a), kb), _isint(a) and _isint(b))
        if _isint(a) and _isint(b):
            raise ValueError('Integers to negative integer powers are not allowed.')
        return s_div(1, mk(ppow(P(a), -kb)))
    kb = Fraction(kb)
    n, d = kb.numerator, kb.denominator
    if d > 24:
        return s_exp(s_mul(kb, s_log(a)))
    r = s_root(a, d)
    if _special(r):
        return r
    return s_pow(r, n)


NONNEG = [False]     # the roots being taken are of sums of squares


def s_sqrt(a):
    return s_root(a, 2)


def _int_root_split(k, n):
    """k = s**n * t with t n-th-power free (small factors)."""
    s, t = 1, k
    for f in (2, 3, 5, 7, 11, 13, 17, 19, 23):
        q = f ** n
        while t % q == 0:
            t //= q
            s *= f
    if n == 2:
        r = isqrt(t)
        if r * r == t:
            s, t = s * r, 1
    return s, t


def s_root(a, n):
    if _special(a):
        return a if (a != a or a > 0) else math.nan
    p = P(a)
    if not p:
        return 0.0
    if not NONNEG[0] and bool(cmp0(p, '<')):
        return math.nan
    # perfect power?
    cm = common_mono(p) if p else ()
    k = content(p)
    q = {_mmul(m, minv(cm)): _c(Fraction(c) / k) for m, c in p.items()}
    res = {ONE: 1}
    keep = []
    # root(1/q) = 1/root(q)
    invs = [(at, e) for at, e in cm if CTX.atoms[at].defn is not None
            and CTX.atoms[at].lo is not None and CTX.atoms[at].lo >= 0]
    if invs:
        cm = tuple(x for x in cm if x not in invs)
        for at, e in invs:
            r_ = P(s_root(mk(CTX.atoms[at].defn), n))
            res = pmul(res, ppow(pinv(r_), e) if e > 0 else ppow(r_, -e))
    base_res = res
    res = {ONE: 1}
    # monomial factors
    if len(q) == 1 and q.get(ONE) == 1:
        rest = []
        for at, e in cm:
            lo = CTX.atoms[at].lo
            if lo is not None and lo >= 0:
                d, r = divmod(e, n)
                if d:
                    res = pmul(res, {((at, d),): 1})
                if r:
                    res = pmul(res, P(_root_atom({((at, 1),): 1}, n, r)))
            else:
                rest.append((at, e))
        if rest:
            if n == 2 and all(e % 2 == 0 for _, e in rest):
                for at, e in rest:
                    res = pmul(res, P(s_abs(mk({((at, e // 2),): 1}))))
            else:
                res = pmul(res, P(_root_atom({tuple(rest): 1}, n, 1)))
    else:
        out, inn = [], []
        for at, e in cm:
            lo = CTX.atoms[at].lo
            d, r = divmod(e, n)
            if lo is not None and lo >= 0:
                if d:
                    out.append((at, d))
                if r:
                    inn.append((at, r))
            else:
                inn.append((at, e))
        if out:
            res = {tuple(out): 1}
        if inn:
            q = pmul(q, {tuple(inn): 1})
        sq = None
        if n == 2 and not inn:
            sq = psqrt(q)
        if sq is not None:
            res = pmul(res, P(s_abs(mk(sq))))
        else:
            res = pmul(res, P(_root_atom(q, n, 1)))
    res = pmul(base_res, res)
    # constant
    k = Fraction(k)
    if k.numerator.bit_length() > 60 or k.denominator.bit_length() > 60:
        res = pscale(res, Fraction(float(k) ** (1.0 / n)))
    else:
        # root(num/den) = root(num*den^(n-1))/den
        s, t = _int_root_split(k.numerator * k.denominator ** (n - 1), n)
        res = pscale(res, _c(Fraction(s, k.denominator)))
        if t != 1:
            res = pmul(res, P(_root_atom({ONE: t}, n, 1)))
    return mk(res)


def psqrt(p):
    """q with q*q == p, else None."""
    if len(p) < 2 or len(p) > 60:
        return None
    for m in p:
        for a, e in m:
            if e < 0:
                return None
    order = sorted(patoms(p))

    def key(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in order)

    def half(m):
        if any(e % 2 for _, e in m):
            return None
        return tuple((a, e // 2) for a, e in m)
    lm = max(p, key=key)
    h = half(lm)
    c = Fraction(p[lm])
    if h is None or c <= 0:
        return None
    rn, rd = isqrt(c.numerator), isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    q = {h: _c(Fraction(rn, rd))}
    lead = q[h]
    for _ in range(len(p) + 2):
        r = psub(p, pmul(q, q))
        if not r:
            return q
        m = max(r, key=key)
        if key(m) >= key(lm):
            return None
        e = [x - y for x, y in zip(key(m), key(h))]
        if min(e) < 0:
            return None
        t = tuple((a, k) for a, k in zip(order, e) if k)
        if t in q:
            return None
        q = padd(q, {t: _c(Fraction(r[m]) / (2 * lead))})
    return None


def _root_atom(p, n, r):
    a = CTX.new_atom(('root', n, pkey(p)), 'root')
    if a.root is None:
        a.root = (n, p)
        a.arg = p
        a.deps = tuple(patoms(p))
        lo, hi = interval(p)
        a.lo = 0.0 if lo <= 0 else lo ** (1.0 / n) * (1 - 1e-12)
        a.hi = None if hi == math.inf else hi ** (1.0 / n) * (1 + 1e-12)

        def bg(a=a, p=p, n=n):
            t = a.z
            for _ in range(n - 1):
                t = t * a.z
            q, mult = clear(p)
            if mult:
                return [a.z >= 0, t == zpoly_raw(p)]
            return [a.z >= 0, t == zpoly(p)]
        a.bg = bg
    return Sym({((a.id, r),): 1})


def sos(p):
    """Is p visibly a sum of squares (a positive semidefinite quadratic form of monomials)?"""
    if not 1 < len(p) <= 60:
        return False
    base = []
    for m, c in p.items():
        if all(e % 2 == 0 for _, e in m):
            if c < 0:
                return False
            base.append(tuple((a, e // 2) for a, e in m))
    n = len(base)
    if n > 10:
        return False
    Q = [[Fraction(0)] * n for _ in range(n)]
    left = dict(p)
    for i in range(n):
        for j in range(i, n):
            c = left.pop(_mmul(base[i], base[j]), 0)
            Q[i][j] = Q[j][i] = Fraction(c) / (1 if i == j else 2)
    if left:
        return False
    for k in range(n):      # LDL^T
        d = Q[k][k]
        if d < 0:
            return False
        if d == 0:
            if any(Q[k][j] for j in range(k + 1, n)):
                return False
            continue
        for i in range(k + 1, n):
            f = Q[i][k] / d
            if f:
                for j in range(k + 1, n):
                    Q[i][j] -= f * Q[k][j]
    return True


def s_abs(a):
    if not isinstance(a, Sym):
        return abs(a)
    lo, hi = interval(a.p)
    if lo >= 0:
        return a
    if hi <= 0:
        return -a
    p = a.p
    if sos(p):
        return a
    if sos(pneg(p)):
        return -a
    if not any(CTX.atoms[i].kind == 'fresh' for i in CTX.closure(patoms(p))):
        s = sign(p)
        if s > 0:
            return a
        if s < 0:
            return -a
        if getattr(CTX, 'fork_abs', False):
            return a if bool(cmp0(p, '>=')) else -a
    if leading(p)[1] < 0:
        p = pneg(p)
    at = CTX.new_atom(('abs', pkey(p)), 'abs', isint=False)
    if at.arg is None:
        at.arg = p
        at.deps = tuple(patoms(p))
        at.root = (2, pmul(p, p))
        at.lo = 0
        h = max(abs(lo), abs(hi))
        at.hi = None if h == math.inf else h

        def bg(at=at, p=p):
            t = zpoly_raw(p)
            return [at.z >= 0, z3.Or(at.z == t, at.z == -t)]
        at.bg = bg
    return Sym({((at.id, 1),): 1}, a.isint)


def s_extreme(els, maxi):
    """Largest (smallest) of several values as one atom, without deciding which."""
    ps, seen = [], set()
    for e in els:
        p = P(e)
        k = pkey(p)
        if k not in seen:
            seen.add(k)
            ps.append((k, p))
    iv = [interval(p) for _, p in ps]
    if maxi:
        m = max(lo for lo, _ in iv)
        ps = [x for x, (lo, hi) in zip(ps, iv) if hi >= m]
        lo, hi = m, max(h for _, h in iv)
    else:
        m = min(hi for _, hi in iv)
        ps = [x for x, (lo, hi) in zip(ps, iv) if lo <= m]
        lo, hi = min(l for l, _ in iv), m
    if len(ps) == 1:
        return mk(ps[0][1])
    ps.sort(key=lambda x: repr(x[0]))
    at = CTX.new_atom(('ext', maxi, tuple(k for k, _ in ps)), 'ext')
    if at.arg is None:
        at.arg = (maxi, [p for _, p in ps])
        at.deps = tuple(set(i for _, p in ps for i in patoms(p)))
        at.lo = None if lo == -math.inf else lo
        at.hi = None if hi == math.inf else hi

        def bg(at=at, ps=ps):
            zs = [zpoly_raw(p) for _, p in ps]
            return [(at.z >= z if maxi else at.z <= z) for z in zs] + \
                [z3.Or(*[at.z == z for z in zs])]
        at.bg = bg
    return Sym({((at.id, 1),): 1})


def s_cmp(a, b, op):
    if _special(a) or _special(b):
        if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
            return op == '!='
        if _special(a) and _special(b):
            x, y = a, b
        elif _special(a):
            x, y = a, 0.0
        else:
            x, y = 0.0, b
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y,
                '!=': x != y}[op]
    return cmp0(psub(P(a), P(b)), op)


# ---- integers / rounding

def s_floor(a):
    if _special(a):
        return a
    if _isint(a):
        return a
    k = pconst(P(a))
    if k is not None:
        return math.floor(k)
    p = P(a)
    if only_const_atoms(p):
        return math.floor(evalf_const(p) + 1e-12)
    at = CTX.new_atom(('floor', pkey(p)), 'floor', isint=True)
    if at.arg is None:
        at.arg = p
        at.deps = tuple(patoms(p))
        lo, hi = interval(p)
        at.lo = None if lo == -math.inf else math.floor(lo)
        at.hi = None if hi == math.inf else math.floor(hi)

        def bg(at=at, p=p):
            t = zpoly_raw(p)
            z = z3.ToReal(at.z)
            return [z <= t, t < z + 1]
        at.bg = bg
    return Sym({((at.id, 1),): 1}, True)


def s_trunc(a):
    if not isinstance(a, Sym):
        return int(a)
    if a.isint:
        return a
    if bool(s_cmp(a, 0, '>=')):
        return s_floor(a)
    return -s_floor(-a)


def s_round(a, n=None):
    if not isinstance(a, Sym):
        return round(a, n) if n is not None else round(a)
    if a.isint:
        return a
    if n:
        k = 10 ** n
        return s_div(s_round(s_mul(a, k)), k)
    f = s_floor(a)
    d = s_sub(a, f)
    h = Fraction(1, 2)
    if bool(s_cmp(d, h, '<')):
        return f
    if bool(s_cmp(d, h, '>')):
        return f + 1
    return f if bool(s_cmp(s_mod(f, 2), 0, '==')) else f + 1


def s_floordiv(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a // b
    return s_floor(s_div(a, b))


def s_mod(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a % b
    r = s_sub(a, s_mul(b, s_floordiv(a, b)))
    if isinstance(r, Sym):
        r.isint = _isint(a) and _isint(b)
    return r


def concretize_int(a, limit=64):
    """Fork over every feasible value of a symbolic integer."""
    if not isinstance(a, Sym):
        return int(a)
    k = pconst(a.p)
    if k is not None:
        return int(k)
    for _ in range(limit):
        n = len(CTX.trace)
        if n < len(CTX.prefix):
            v = CTX.prefix[n]
            # ('v', value, taken)
            val, taken = v[1], v[2]
            CTX.trace.append(v)
            z = zpoly_raw(a.p) == val
            CTX.ensure(patoms(a.p))
            CTX.add_pc(z if taken else z3.Not(z), None, ids=patoms(a.p))
            if taken:
                return val
            continue
        CTX.ensure(patoms(a.p))
        r = CTX.check(atoms=patoms(a.p))
        if r == z3.unsat:
            raise PathAbort('infeasible')
        if r != z3.sat:
            raise Unsupported('concretize: unknown')
        m = CTX.last.model()
        v = m.eval(zpoly_raw(a.p), model_completion=True)
        val = int(_zfrac(v))
        z = zpoly_raw(a.p) == val
        if CTX.check(z3.Not(z), atoms=patoms(a.p)) != z3.unsat:
            CTX.stats.forks += 1
            CTX.pending.append(CTX.trace + [('v', val, False)])
        CTX.trace.append(('v', val, True))
        CTX.add_pc(z, None, ids=patoms(a.p))
        return val
    raise Unsupported('concretize: too many values')


def _zfrac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        return _zfrac(v.approx(24))
    return Fraction(0)


# ---- transcendental

def _tr_atom(kind, p):
    at = CTX.new_atom((kind, pkey(p)), kind)
    if at.arg is None:
        at.arg = p
        at.deps = tuple(patoms(p))
    return at


def pi_atom():
    a = CTX.new_atom(('pi',), 'pi', 'pi', 3.141592653589793 - 1e-12, 3.141592653589793 + 1e-12)
    if a.bg is None:
        a.bg = lambda a=a: [a.z > z3.Q(31415926535, 10 ** 10), a.z < z3.Q(31415926536, 10 ** 10)]
    return a


def s_pi():
    return Sym({((pi_atom().id, 1),): 1})


def s_exp(a):
    if not isinstance(a, Sym):
        if isinstance(a, Fraction):
            a = float(a)
        if a == 0:
            return 1.0
        if _special(a):
            return a if a != a else (math.inf if a > 0 else 0.0)
        k = num(a)
        a = Sym({ONE: k})
    p = a.p
    if not p:
        return 1.0
    # exp(sum c*log(q) + rest)
    res = {ONE: 1}
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]].kind == 'log':
            q = CTX.atoms[m[0][0]].arg
            f = s_pow(mk(q), c if isinstance(c, int) else float(c)) \
                if Fraction(c).denominator <= 24 else None
            if f is None:
                rest[m] = c
            else:
                res = pmul(res, P(f))
        else:
            rest[m] = c
    if rest:
        k = pconst(rest)
        if k is not None and not isinstance(k, int):
            pass
        at = _tr_atom('exp', rest)
        if at.bg is None:
            lo, hi = interval(rest)
            at.lo = 0.0 if lo < -700 else math.exp(lo) * (1 - 1e-12)
            at.hi = None if hi > 700 else math.exp(hi) * (1 + 1e-12)
            if hi > 0 and sos(pneg(rest)):
                at.hi = 1

            def bg(at=at, r=rest):
                t = zpoly_raw(r)
                fs = [at.z > 0, at.z >= 1 + t,
                      (t > 0) == (at.z > 1), (t == 0) == (at.z == 1)]
                if pconst(r) is not None:
                    v = math.exp(float(pconst(r)))
                    fs += [at.z > zval(Fraction(v) * (1 - Fraction(1, 10 ** 12))),
                           at.z < zval(Fraction(v) * (1 + Fraction(1, 10 ** 12)))]
                return fs
            at.bg = bg
        res = pmul(res, {((at.id, 1),): 1})
    return mk(res)


def s_log(a):
    if _special(a):
        return a if (a != a or a > 0) else math.nan
    p = P(a)
    z = cmp0(p, '>')
    if not bool(z):
        return -math.inf if bool(cmp0(p, '==')) else math.nan
    k = pconst(p)
    if k == 1:
        return 0.0
    if len(p) == 1:
        (m, c), = p.items()
        res = {}
        if c != 1:
            res = P(_log_atom({ONE: c}))
        for at, e in m:
            A = CTX.atoms[at]
            if A.kind == 'exp':
                res = padd(res, pscale(A.arg, e))
            elif A.kind == 'root':
                res = padd(res, pscale(P(s_log(mk(A.root[1]))), Fraction(e, A.root[0])))
            elif A.lo is not None and A.lo >= 0:
                res = padd(res, pscale(P(_log_atom({((at, 1),): 1})), e))
            else:
                return _log_atom(p)
        return mk(res)
    return _log_atom(p)


def _log_atom(p):
    k = pconst(p)
    if k is not None:
        f = Fraction(k)
        if f.numerator == 1 and f.denominator != 1:
            return -_log_atom({ONE: f.denominator})
    at = _tr_atom('log', p)
    if at.bg is None:
        lo, hi = interval(p)
        at.lo = math.log(lo) - 1e-12 if lo > 0 else None
        at.hi = math.log(hi) + 1e-12 if 0 < hi < math.inf else None

        def bg(at=at, p=p):
            t = zpoly_raw(p)
            fs = [at.z <= t - 1, (t > 1) == (at.z > 0), (t == 1) == (at.z == 0)]
            k = pconst(p)
            if k is not None:
                v = math.log(float(k))
                fs += [at.z > zval(Fraction(v) - Fraction(1, 10 ** 12)),
                       at.z < zval(Fraction(v) + Fraction(1, 10 ** 12))]
            return fs
        at.bg = bg
    return Sym({((at.id, 1),): 1})


_R = Fraction


def _cos_exact(r):
    """cos(r*pi), r rational in [0,2): exact value or None."""
    r = r % 2
    if r > 1:
        r = 2 - r
    s = 1
    if r > _R(1, 2):
        r, s = 1 - r, -1
    t = {_R(0): (1, 1), _R(1, 2): (0, 1), _R(1, 3): (_R(1, 2), 1), _R(1, 4): (_R(1, 2), 2),
         _R(1, 6): (_R(1, 2), 3)}.get(r)
    if t is None:
        return None
    c, rad = t
    v = Sym({ONE: c}) if c else 0.0
    if not c:
        return 0.0
    x = mk({ONE: _c(_R(c) * s)})
    if rad != 1:
        x = x * s_sqrt(rad)
    return x


def _trig(a, is_sin):
    if _special(a):
        return math.nan
    p = P(a)
    pia = CTX.keys.get(('pi',))
    r = _R(0)
    rest = p
    if pia is not None:
        m = ((pia.id, 1),)
        if m in p:
            r = _R(p[m])
            rest = {k: v for k, v in p.items() if k != m}
    # is_sin: sin(x) = cos(x - pi/2)
    if is_sin:
        r = r - _R(1, 2)
    # now cos(rest + r*pi)
    if not rest:
        v = _cos_exact(r)
        if v is not None:
            return v
        return math.cos(math.pi * float(r % 2))
    kc = pconst(rest)
    if kc is not None and r % _R(1, 2) == 0 and not (pia is not None and False):
        return math.cos(float(kc) + math.pi * float(r))
    # arccos argument
    if len(rest) == 1:
        (m, c), = rest.items()
        if len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]].kind == 'arccos' \
                and isinstance(c, int) and r % _R(1, 2) == 0:
            x = mk(CTX.atoms[m[0][0]].arg)
            k = abs(c)
            if k <= 40:
                q = r % 2
                T0, T1 = 1, x
                for _ in range(k - 1):
                    T0, T1 = T1, 2 * x * T1 - T0
                cosv = T1 if k >= 1 else 1
                if q == 0:
                    return cosv
                if q == 1:
                    return -cosv
                U0, U1 = 1, 2 * x
                if k == 1:
                    Uk = 1
                else:
                    for _ in range(k - 2):
                        U0, U1 = U1, 2 * x * U1 - U0
                    Uk = U1
                sinv = s_sqrt(1 - x * x) * Uk
                if c < 0:
                    sinv = -sinv
                # cos(y + pi/2) = -sin y ; cos(y+3pi/2) = sin y
                return -sinv if q == _R(1, 2) else sinv
    if leading(rest)[1] < 0:
        rest = pneg(rest)
        r = -r
    r = r % 2
    q = 0
    while r >= _R(1, 2):
        r -= _R(1, 2)
        q += 1
    S, C = _sincos(rest)
    if r:                                # cos(rest + r pi), sin(rest + r pi)
        c, s = _cos_exact(r), _cos_exact(_R(1, 2) - r)
        if c is None or s is None:
            c, s = math.cos(math.pi * float(r)), math.sin(math.pi * float(r))
        S, C = s_add(s_mul(S, c), s_mul(C, s)), s_sub(s_mul(C, c), s_mul(S, s))
    q %= 4
    return [C, -S, -C, S][q]


def _sincos(p):
    s = _tr_atom('sin', p)
    c = _tr_atom('cos', p)
    if c.root is None:
        s.lo = c.lo = -1
        s.hi = c.hi = 1
        c.root = (2, {ONE: 1, ((s.id, 2),): -1})
        c.deps = tuple(set(c.deps) | {s.id})
        s.bg = lambda s=s, p=p: [s.z >= -1, s.z <= 1] + _quadrants(s.z, 0, p)
        c.bg = lambda s=s, c=c, p=p: [c.z >= -1, c.z <= 1, c.z * c.z == 1 - s.z * s.z] \
            + _quadrants(c.z, 1, p)
    return Sym({((s.id, 1),): 1}), Sym({((c.id, 1),): 1})


def _quadrants(y, which, p):
    """Sign on every quadrant and values in between, for y = sin or cos of pi * t."""
    pia = CTX.keys.get(('pi',))
    if pia is None:
        return []
    t = {}
    for m, k in p.items():
        d = dict(m)
        if d.pop(pia.id, 0) != 1:
            return []
        t[tuple(sorted(d.items()))] = k
    lo, hi = interval(t)
    z = zpoly_raw(t)
    out = []
    f = math.cos if which else math.sin
    if hi - lo <= 9:
        eps = Fraction(1, 10 ** 14)
        for k in range(math.ceil(12 * lo - 1e-9), math.floor(12 * hi + 1e-9) + 1):
            if k % 6 and (k % 2 == 0 or k % 3 == 0):
                v = Fraction(f(math.pi * k / 12))
                out.append(z3.Implies(z == z3.Q(k, 12),
                                      z3.And(y > zval(v - eps), y < zval(v + eps))))
    wide = hi - lo > 16
    ats = patoms(t)
    if wide and len(ats) == 1:             # values at the ends of the only variable's range
        a = CTX.atoms[next(iter(ats))]
        for v in (a.lo, a.hi):
            if v is not None:
                r = sum(Fraction(c) * Fraction(v) ** sum(e for _, e in m) for m, c in t.items())
                if (2 * r).denominator == 1:
                    out.append(z3.Implies(a.z == zval(num(v)), y == [
                        (0, 1), (1, 0), (0, -1), (-1, 0)][int(2 * r) % 4][which]))
    ks = range(-6, 7) if wide else range(math.floor(2 * lo + 1e-9), math.ceil(2 * hi - 1e-9) + 1)
    for k in ks:
        h = z3.Q(k, 2)
        out.append(z3.Implies(z == h, y == [(0, 1), (1, 0), (0, -1), (-1, 0)][k % 4][which]))
        if not wide:
            sg = [(1, 1), (1, -1), (-1, -1), (-1, 1)][k % 4][which]
            out.append(z3.Implies(z3.And(z > h, z < z3.Q(k + 1, 2)), y > 0 if sg > 0 else y < 0))
    return out


def s_cos(a):
    return _trig(a, False)


def s_sin(a):
    return _trig(a, True)


def s_arccos(a):
    if _special(a):
        return math.nan
    p = P(a)
    k = pconst(p)
    if k is not None:
        ex = {1: _R(0), -1: _R(1), 0: _R(1, 2), _R(1, 2): _R(1, 3), _R(-1, 2): _R(2, 3)}.get(k)
        if ex is not None:
            return mk(pscale(s_pi().p, ex)) if ex else 0.0
        return math.acos(k) if abs(k) <= 1 else math.nan
    if bool(cmp0(padd(p, {ONE: -1}), '>')) or bool(cmp0(padd(p, {ONE: 1}), '<')):
        return math.nan
    at = _tr_atom('arccos', p)
    if at.bg is None:
        at.lo, at.hi = 0.0, math.pi + 1e-12
        pi = pi_atom()
        at.deps = tuple(set(at.deps) | {pi.id})

        def bg(at=at, p=p, pi=pi):
            t = zpoly_raw(p)
            return [at.z >= 0, at.z <= pi.z, (t == 1) == (at.z == 0), (t == -1) == (at.z == pi.z),
                    (t > 0) == (at.z < pi.z / 2)]
        at.bg = bg
    return Sym({((at.id, 1),): 1})


def s_uf(name, a, lo=None, hi=None):
    """Application of an uninterpreted real function."""
    p = P(a)
    at = CTX.new_atom(('uf', name, pkey(p)), 'uf', name)
    if at.arg is None:
        at.arg = (name, p)
        at.deps = tuple(patoms(p))
        at.lo, at.hi = lo, hi

        def bg(at=at):
            r = []
            if at.lo is not None:
                r.append(at.z >= zval(at.lo))
            if at.hi is not None:
                r.append(at.z <= zval(at.hi))
            return r
        at.bg = bg
    return Sym({((at.id, 1),): 1})


def fresh(name, lo=None, hi=None, key=None, isint=False):
    """Fresh unconstrained atom (stub result); key makes it shared within a path."""
    if key is None:
        n = CTX.rng_counter.get('fresh', 0)
        CTX.rng_counter['fresh'] = n + 1
        key = ('fresh', n)
    at = CTX.new_atom(('fr', key), 'fresh', name, lo, hi, isint)
    if at.bg is None:
        def bg(at=at):
            r = []
            if at.lo is not None:
                r.append(at.z >= zval(at.lo))
            if at.hi is not None:
                r.append(at.z <= zval(at.hi))
            return r
        at.bg = bg
    return Sym({((at.id, 1),): 1}, isint)


def is_sym(x):
    return isinstance(x, (Sym, SBool))
